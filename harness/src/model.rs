//! Reference model of X.690 identifier, length, element and integer octets,
//! written from the standard and sharing nothing with the crates under test.

use bsn1::Error;

/// Set of error kinds.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Kinds(pub u16);

impl Kinds {
    pub const NONE: Kinds = Kinds(0);
    pub const UNTERM: Kinds = Kinds(1);
    pub const REDUND: Kinds = Kinds(2);
    pub const OVER: Kinds = Kinds(4);
    pub const INDEF: Kinds = Kinds(8);
    pub const BADEOC: Kinds = Kinds(16);
    pub const EXTRA: Kinds = Kinds(32);
    pub const UNMATCHED: Kinds = Kinds(64);
    pub const UTF8: Kinds = Kinds(128);
    pub const BOOL: Kinds = Kinds(256);
    pub const PAIR: Kinds = Kinds(512);
    pub const IO: Kinds = Kinds(1024);
    pub const ANYHOW: Kinds = Kinds(2048);
    /// No verdict: the input is one the library leaves open.
    pub const ANY: Kinds = Kinds(4096);
    pub fn has(self, o: Kinds) -> bool {
        self.0 & o.0 == o.0 && o.0 != 0
    }
    pub fn empty(self) -> bool {
        self.0 == 0
    }
}
impl std::ops::BitOr for Kinds {
    type Output = Kinds;
    fn bitor(self, o: Kinds) -> Kinds {
        Kinds(self.0 | o.0)
    }
}
impl std::ops::BitOrAssign for Kinds {
    fn bitor_assign(&mut self, o: Kinds) {
        self.0 |= o.0
    }
}
impl std::fmt::Debug for Kinds {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        const N: [&str; 13] = [
            "UnterminatedBytes",
            "RedundantBytes",
            "OverFlow",
            "IndefiniteLength",
            "BadEoc",
            "ExtraContentsOctet",
            "UnmatchedId",
            "InvalidUtf8",
            "InvalidDerBooleanContents",
            "InvalidKeyValuePair",
            "Io",
            "Anyhow",
            "unspecified",
        ];
        let v: Vec<&str> = (0..13).filter(|i| self.0 >> i & 1 == 1).map(|i| N[i]).collect();
        write!(f, "{}", v.join("|"))
    }
}

/// Kind of an error, looking behind contexts with anyhow's own chain only.
pub fn kind(e: &Error) -> Kinds {
    match e {
        Error::UnterminatedBytes => Kinds::UNTERM,
        Error::RedundantBytes => Kinds::REDUND,
        Error::OverFlow => Kinds::OVER,
        Error::IndefiniteLength => Kinds::INDEF,
        Error::BadEoc => Kinds::BADEOC,
        Error::ExtraContentsOctet => Kinds::EXTRA,
        Error::UnmatchedId => Kinds::UNMATCHED,
        Error::InvalidUtf8 => Kinds::UTF8,
        Error::InvalidDerBooleanContents => Kinds::BOOL,
        Error::InvalidKeyValuePair => Kinds::PAIR,
        Error::Io(_) => Kinds::IO,
        Error::Anyhow(a) => a
            .chain()
            .find_map(|c| c.downcast_ref::<Error>())
            .map(kind)
            .unwrap_or(Kinds::ANYHOW),
        _ => Kinds::NONE,
    }
}

pub type M<T> = Result<T, Kinds>;

pub fn enc_id(class: u8, constructed: bool, num: u128) -> Vec<u8> {
    let lead = class << 6 | (constructed as u8) << 5;
    if num < 31 {
        return vec![lead | num as u8];
    }
    let mut groups = vec![(num % 128) as u8];
    let mut n = num / 128;
    while n > 0 {
        groups.push((n % 128) as u8 + 128);
        n /= 128;
    }
    groups.push(lead | 31);
    groups.reverse();
    groups
}

/// Number of identifier octets at the start of `b`.
pub fn id_at(b: &[u8]) -> M<usize> {
    let mut bad = Kinds::NONE;
    if b.is_empty() {
        return Err(Kinds::UNTERM);
    }
    if b[0] & 0x1f != 0x1f {
        return Ok(1);
    }
    let end = b[1..].iter().position(|o| *o < 128);
    match b.get(1) {
        Some(0x80) => bad |= Kinds::REDUND,
        Some(o) if *o < 31 => bad |= Kinds::REDUND,
        _ => {}
    }
    match end {
        None => Err(bad | Kinds::UNTERM),
        Some(i) if bad.empty() => Ok(i + 2),
        Some(_) => Err(bad),
    }
}

/// Tag number of complete identifier octets.
pub fn id_number(id: &[u8]) -> M<u128> {
    if id.len() == 1 {
        return Ok((id[0] & 31) as u128);
    }
    // 128 bits: collect the bits, then refuse more than 128 significant ones.
    let mut bits: Vec<u8> = Vec::with_capacity(id.len() * 7);
    for o in &id[1..] {
        for k in (0..7).rev() {
            bits.push(o >> k & 1);
        }
    }
    let first = bits.iter().position(|b| *b == 1).unwrap_or(bits.len());
    if bits.len() - first > 128 {
        return Err(Kinds::OVER);
    }
    Ok(bits[first..].iter().fold(0u128, |a, b| a << 1 | *b as u128))
}

pub fn enc_len(n: usize) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let mut v = Vec::new();
    let mut k = n;
    while k > 0 {
        v.push((k % 256) as u8);
        k /= 256;
    }
    v.push(0x80 + v.len() as u8);
    v.reverse();
    v
}

/// (number of length octets, definite length) at the start of `b`.
pub fn len_at(b: &[u8]) -> M<(usize, Option<usize>)> {
    if b.is_empty() {
        return Err(Kinds::UNTERM);
    }
    if b[0] == 0x80 {
        return Ok((1, None));
    }
    if b[0] < 128 {
        return Ok((1, Some(b[0] as usize)));
    }
    let n = (b[0] - 128) as usize;
    let have = &b[1..];
    let have = &have[..have.len().min(n)];
    let word = std::mem::size_of::<usize>();
    let mut bad = Kinds::NONE;
    if have.len() < n {
        bad |= Kinds::UNTERM;
    }
    if have.first() == Some(&0) || (n == 1 && have.len() == 1 && have[0] < 128) {
        bad |= Kinds::REDUND;
    }
    let zeros = have.iter().take_while(|o| **o == 0).count();
    if n - zeros > word {
        bad |= Kinds::OVER;
    }
    if !bad.empty() {
        return Err(bad);
    }
    Ok((1 + n, Some(have.iter().fold(0usize, |a, o| a * 256 + *o as usize))))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tlv {
    pub id: usize,
    pub len: usize,
    pub definite: Option<usize>,
    pub total: usize,
}

/// What X.690 says about the start of `b`, plus whether some end-of-contents
/// like identifier with a body occurs (left open by the crate).
pub struct Parsed {
    pub res: M<Tlv>,
    pub odd_eoc: bool,
    pub depth: usize,
}

fn header(b: &[u8]) -> M<(usize, usize, Option<usize>)> {
    match id_at(b) {
        Ok(i) => {
            let (l, d) = len_at(&b[i..])?;
            Ok((i, l, d))
        }
        Err(mut k) => {
            if !k.has(Kinds::UNTERM) {
                // Complete but redundant identifier: also report what is wrong behind it.
                let i = b[1..].iter().position(|o| *o < 128).unwrap() + 2;
                match len_at(&b[i..]) {
                    Err(k2) => k |= k2,
                    Ok((l, Some(n))) if b.len() - i - l < n => k |= Kinds::UNTERM,
                    Ok((_, None)) => k |= Kinds::INDEF,
                    _ => {}
                }
            }
            Err(k)
        }
    }
}

pub fn tlv_der(b: &[u8]) -> Parsed {
    let res = (|| {
        let (i, l, d) = header(b)?;
        match d {
            None => Err(Kinds::INDEF),
            Some(n) if b.len() - i - l < n => Err(Kinds::UNTERM),
            Some(n) => Ok(Tlv {
                id: i,
                len: l,
                definite: d,
                total: i + l + n,
            }),
        }
    })();
    Parsed {
        res,
        odd_eoc: false,
        depth: 0,
    }
}

pub fn tlv_ber(b: &[u8]) -> Parsed {
    let mut odd = false;
    let mut maxd = 0usize;
    let res = (|| {
        let (id, len, definite) = header(b)?;
        if b[0] == 0 && definite != Some(0) {
            odd = true;
        }
        let mut pos = id + len;
        if let Some(n) = definite {
            if b.len() - pos < n {
                return Err(Kinds::UNTERM);
            }
            return Ok(Tlv {
                id,
                len,
                definite,
                total: pos + n,
            });
        }
        let mut open = 1usize;
        maxd = 1;
        while open > 0 {
            let rest = &b[pos..];
            let (i, l, d) = header(rest)?;
            if rest[0] == 0 {
                if d == Some(0) {
                    pos += 2;
                    open -= 1;
                    continue;
                }
                odd = true;
            }
            match d {
                None => {
                    pos += i + l;
                    open += 1;
                    maxd = maxd.max(open);
                }
                Some(n) => {
                    if rest.len() - i - l < n {
                        return Err(Kinds::UNTERM);
                    }
                    pos += i + l + n;
                }
            }
        }
        Ok(Tlv {
            id,
            len,
            definite,
            total: pos,
        })
    })();
    Parsed {
        res,
        odd_eoc: odd,
        depth: maxd,
    }
}

pub fn enc_tlv(id: &[u8], contents: &[u8]) -> Vec<u8> {
    let mut v = id.to_vec();
    v.extend(enc_len(contents.len()));
    v.extend_from_slice(contents);
    v
}

/// Shortest two's-complement octets of hi*2^128 + low, hi being 0 or -1.
pub fn enc_int(hi: i8, low: u128) -> Vec<u8> {
    let mut v = vec![hi as u8];
    v.extend_from_slice(&low.to_be_bytes());
    while v.len() > 1 && ((v[0] == 0 && v[1] < 128) || (v[0] == 255 && v[1] >= 128)) {
        v.remove(0);
    }
    v
}

/// Value of integer contents as hi*2^128 + low (hi being 0 or -1); Err(OVER) beyond that.
pub fn dec_int(c: &[u8]) -> M<(i8, u128)> {
    if c.is_empty() {
        return Err(Kinds::UNTERM);
    }
    let mut bad = Kinds::NONE;
    if c.len() > 1 && ((c[0] == 0 && c[1] < 128) || (c[0] == 255 && c[1] >= 128)) {
        bad |= Kinds::REDUND;
    }
    let fill = if c[0] >= 128 { 255 } else { 0 };
    let sig = c.iter().take_while(|o| **o == fill).count();
    let tail = &c[sig..];
    if tail.len() > 16 {
        bad |= Kinds::OVER;
    }
    if !bad.empty() {
        return Err(bad);
    }
    let mut w = [fill; 16];
    w[16 - tail.len()..].copy_from_slice(tail);
    Ok((if fill == 255 { -1 } else { 0 }, u128::from_be_bytes(w)))
}

pub trait Int: Copy + PartialEq + std::fmt::Debug + 'static {
    const NAME: &'static str;
    const BITS: u32;
    const SIGNED: bool;
    fn split(self) -> (i8, u128);
    fn join(hi: i8, low: u128) -> Option<Self>;
}

macro_rules! ints {
    ($($t:ident $s:expr),*) => {$(
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = $t::BITS;
            const SIGNED: bool = $s;
            #[allow(unused_comparisons)]
            fn split(self) -> (i8, u128) {
                if self < 0 { (-1, self as i128 as u128) } else { (0, self as u128) }
            }
            fn join(hi: i8, low: u128) -> Option<Self> {
                if hi == 0 {
                    if low <= $t::MAX as u128 { Some(low as $t) } else { None }
                } else if $s && (low as i128) < 0 && (low as i128) >= $t::MIN as i128 {
                    Some(low as i128 as $t)
                } else {
                    None
                }
            }
        }
    )*};
}
ints!(i8 true, i16 true, i32 true, i64 true, i128 true, isize true,
      u8 false, u16 false, u32 false, u64 false, u128 false, usize false);

/// Value of integer contents as type T, or the refusals that apply.
pub fn dec_int_as<T: Int>(c: &[u8]) -> M<T> {
    match dec_int(c) {
        Ok((hi, low)) => T::join(hi, low).ok_or(Kinds::OVER),
        Err(k) => {
            let mut k = k;
            if k.has(Kinds::REDUND) && !k.has(Kinds::OVER) {
                // Not shortest; it may also be out of range.
                let fill = if c[0] >= 128 { 255u8 } else { 0 };
                let mut i = 0;
                while i + 1 < c.len() && c[i] == fill && (c[i + 1] >= 128) == (fill == 255) {
                    i += 1;
                }
                if let Ok((hi, low)) = dec_int(&c[i..]) {
                    if T::join(hi, low).is_none() {
                        k |= Kinds::OVER;
                    }
                }
            }
            Err(k)
        }
    }
}

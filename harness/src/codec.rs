//! Reference codec: what every supported type looks like as octets, and what octets mean for it.
//! `RefCodec` is implemented beside the library's own traits; `Ty` and `Val` erase the type so
//! that monitors are written once.

use crate::gens;
use crate::model::{dec_int_as, enc_int, enc_len, tlv_ber, tlv_der, Int, Kinds};
use crate::rng::Rng;
use bsn1::{Ber, BerRef, Der, DerRef, Error};
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use bsn1_serde::OctetString;
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;
use std::io::{Read, Write};
use std::marker::PhantomData;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Der,
    Ber,
}

// ---------------------------------------------------------------- trees of elements

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Prim(Vec<u8>, Vec<u8>),
    Cons(Vec<u8>, Vec<Node>),
}

impl Node {
    pub fn id(&self) -> &[u8] {
        match self {
            Node::Prim(i, _) | Node::Cons(i, _) => i,
        }
    }
    pub fn id_mut(&mut self) -> &mut Vec<u8> {
        match self {
            Node::Prim(i, _) | Node::Cons(i, _) => i,
        }
    }
    pub fn contents(&self) -> Vec<u8> {
        match self {
            Node::Prim(_, c) => c.clone(),
            Node::Cons(_, k) => k.iter().flat_map(|n| n.der()).collect(),
        }
    }
    pub fn der(&self) -> Vec<u8> {
        let c = self.contents();
        let mut v = self.id().to_vec();
        v.extend(enc_len(c.len()));
        v.extend(c);
        v
    }
    /// May this level be written with indefinite length?
    pub fn may_indef(&self) -> bool {
        match self {
            Node::Prim(..) => false,
            Node::Cons(i, k) => i[0] & 0x20 != 0 && k.iter().all(|n| n.id() != [0]),
        }
    }
    /// Number of levels that may be indefinite.
    pub fn levels(&self) -> usize {
        match self {
            Node::Prim(..) => 0,
            Node::Cons(_, k) => self.may_indef() as usize + k.iter().map(|n| n.levels()).sum::<usize>(),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Node::Prim(..) => 1,
            Node::Cons(_, k) => 1 + k.iter().map(|n| n.count()).sum::<usize>(),
        }
    }
    /// Contents lengths of all levels, this one last.
    pub fn lengths(&self) -> Vec<usize> {
        fn walk(n: &Node, v: &mut Vec<usize>) -> usize {
            let l = match n {
                Node::Prim(_, c) => c.len(),
                Node::Cons(_, k) => k.iter().map(|n| walk(n, v)).sum(),
            };
            v.push(l);
            n.id().len() + enc_len(l).len() + l
        }
        let mut v = Vec::new();
        walk(self, &mut v);
        v
    }
    pub fn depth(&self) -> usize {
        match self {
            Node::Prim(..) => 1,
            Node::Cons(_, k) => 1 + k.iter().map(|n| n.depth()).max().unwrap_or(0),
        }
    }
    /// BER octets; `pick(level)` chooses the levels (numbered outside in) written with indefinite
    /// length. The positions of the end-of-contents markers are appended to `eocs`.
    pub fn ber(&self, pick: &mut dyn FnMut() -> bool, eocs: &mut Vec<usize>) -> Vec<u8> {
        match self {
            Node::Prim(..) => self.der(),
            Node::Cons(i, k) => {
                let indef = self.may_indef() && pick();
                let mut c = Vec::new();
                let mut inner = Vec::new();
                for n in k {
                    let mut e = Vec::new();
                    let b = n.ber(pick, &mut e);
                    inner.extend(e.into_iter().map(|p| p + c.len()));
                    c.extend(b);
                }
                let mut v = i.clone();
                if indef {
                    v.push(0x80);
                } else {
                    v.extend(enc_len(c.len()));
                }
                eocs.extend(inner.into_iter().map(|p| p + v.len()));
                v.extend(c);
                if indef {
                    eocs.push(v.len());
                    v.extend([0, 0]);
                }
                v
            }
        }
    }
    /// The n-th node, counted outside in.
    pub fn nth(&mut self, n: usize) -> Option<&mut Node> {
        fn go<'a>(x: &'a mut Node, n: &mut usize) -> Option<&'a mut Node> {
            if *n == 0 {
                return Some(x);
            }
            *n -= 1;
            if let Node::Cons(_, k) = x {
                for c in k {
                    if let Some(f) = go(c, n) {
                        return Some(f);
                    }
                }
            }
            None
        }
        let mut n = n;
        go(self, &mut n)
    }
}

/// An element as the deserializers see it.
#[derive(Clone, Copy, Debug)]
pub struct El<'a> {
    pub id: &'a [u8],
    pub indef: bool,
    /// Contents octets, with the end-of-contents marker if indefinite.
    pub c: &'a [u8],
}

/// First element of `b`, and what follows it.
pub fn el(b: &[u8], m: Mode) -> Result<(El<'_>, &[u8]), Kinds> {
    let p = match m {
        Mode::Der => tlv_der(b),
        Mode::Ber => tlv_ber(b),
    };
    if p.odd_eoc {
        return Err(Kinds::ANY);
    }
    let t = p.res?;
    Ok((
        El {
            id: &b[..t.id],
            indef: t.definite.is_none(),
            c: &b[t.id + t.len..t.total],
        },
        &b[t.total..],
    ))
}

/// Reads the children of an element one after another, collecting every defect.
pub struct Kids<'a> {
    rest: &'a [u8],
    m: Mode,
    pub bad: Kinds,
    stuck: bool,
}

impl<'a> El<'a> {
    pub fn want(&self, id: &[u8]) -> Result<(), Kinds> {
        if self.id != id {
            return Err(Kinds::UNMATCHED);
        }
        if self.indef && id[0] & 0x20 == 0 {
            // X.690 forbids it, the element parser lets it pass
            return Err(Kinds::ANY);
        }
        Ok(())
    }
    pub fn kids(&self, m: Mode) -> Kids<'a> {
        let rest = if self.indef { &self.c[..self.c.len() - 2] } else { self.c };
        Kids {
            rest,
            m,
            bad: Kinds::NONE,
            stuck: false,
        }
    }
    /// A primitive element with definite length.
    fn prim(&self, id: &[u8]) -> Result<(), Kinds> {
        let mut k = Kinds::NONE;
        if self.id != id {
            k |= Kinds::UNMATCHED;
        }
        if self.indef {
            k |= Kinds::INDEF;
        }
        if k.empty() {
            Ok(())
        } else {
            Err(k)
        }
    }
}

impl<'a> Kids<'a> {
    pub fn more(&self) -> bool {
        !self.stuck && !self.rest.is_empty()
    }
    pub fn next(&mut self) -> Option<El<'a>> {
        if self.stuck {
            return None;
        }
        match el(self.rest, self.m) {
            Ok((e, r)) => {
                self.rest = r;
                Some(e)
            }
            Err(k) => {
                self.bad |= k;
                self.stuck = true;
                None
            }
        }
    }
    pub fn field<T: RefCodec>(&mut self) -> Option<T> {
        let e = self.next()?;
        self.keep(T::dec(&e, self.m))
    }
    pub fn keep<T>(&mut self, r: Result<T, Kinds>) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(k) => {
                self.bad |= k;
                None
            }
        }
    }
    pub fn end(self) -> Result<(), Kinds> {
        let mut bad = self.bad;
        if !self.stuck && !self.rest.is_empty() {
            bad |= Kinds::EXTRA;
        }
        if bad.empty() {
            Ok(())
        } else {
            Err(bad)
        }
    }
}

// ---------------------------------------------------------------- the model of a type

pub trait RefCodec: Sized + Clone + Debug + PartialEq + Serialize + Deserialize + 'static {
    fn gen(r: &mut Rng, size: usize) -> Self;
    /// The element this value is serialized as.
    fn node(&self) -> Node;
    /// The value an element denotes, or every defect it has.
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds>;
    /// What a round trip returns; None where writing and reading are declared differently.
    fn after(&self) -> Option<Self> {
        Some(self.clone())
    }
    /// An element from which this type can be read.
    fn wire(&self) -> Node {
        self.node()
    }
}

pub fn gen_int<T: Int>(r: &mut Rng) -> T {
    loop {
        let (hi, low) = match r.below(5) {
            0 => (0, r.below(300) as u128),
            1 => {
                let s = r.below(T::BITS as usize + 1) as u32;
                let p = 1u128.checked_shl(s).unwrap_or(0);
                (0, p.wrapping_add(r.below(3) as u128).wrapping_sub(1))
            }
            2 => {
                let s = r.below(T::BITS as usize) as u32;
                let p = (-1i128).checked_shl(s).unwrap_or(0) as u128;
                (-1, p.wrapping_add(r.below(3) as u128).wrapping_sub(1))
            }
            3 => (0, r.u128() >> r.below(128)),
            _ => (-1, (r.u128() as i128 >> r.below(127)) as u128 | 1 << 127),
        };
        if hi == -1 && (low as i128) >= 0 {
            continue;
        }
        if let Some(v) = T::join(hi, low) {
            return v;
        }
    }
}

macro_rules! int_codec {
    ($($t:ident)*) => {$(
        impl RefCodec for $t {
            fn gen(r: &mut Rng, _: usize) -> Self {
                gen_int::<$t>(r)
            }
            fn node(&self) -> Node {
                let (hi, low) = Int::split(*self);
                Node::Prim(vec![0x02], enc_int(hi, low))
            }
            fn dec(e: &El, _: Mode) -> Result<Self, Kinds> {
                e.prim(&[0x02])?;
                dec_int_as::<$t>(e.c)
            }
        }
    )*};
}
int_codec!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);

impl RefCodec for bool {
    fn gen(r: &mut Rng, _: usize) -> Self {
        r.chance(1, 2)
    }
    fn node(&self) -> Node {
        Node::Prim(vec![0x01], vec![if *self { 0xff } else { 0 }])
    }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
        e.prim(&[0x01])?;
        match (e.c.len(), m) {
            (0, _) => Err(Kinds::UNTERM),
            (1, Mode::Ber) => Ok(e.c[0] != 0),
            (1, Mode::Der) => match e.c[0] {
                0 => Ok(false),
                0xff => Ok(true),
                _ => Err(Kinds::BOOL),
            },
            (_, Mode::Ber) => Err(Kinds::EXTRA),
            (_, Mode::Der) => Err(Kinds::EXTRA | Kinds::BOOL),
        }
    }
}

thread_local! {
    static EXACT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

/// A value whose first text or octet string, if it has any, holds just `n` octets.
/// `None` when it has none.
pub fn gen_exact(r: &mut Rng, t: &dyn Ty, size: usize, n: usize) -> Option<Box<dyn Val>> {
    EXACT.with(|e| e.set(n));
    let v = t.gen(r, size);
    (EXACT.with(|e| e.replace(usize::MAX)) == usize::MAX).then_some(v)
}

/// Octet counts at and around the boundaries of length forms, within the budget.
fn octets(r: &mut Rng, size: usize) -> usize {
    let n = EXACT.with(|e| e.replace(usize::MAX));
    if n != usize::MAX {
        return n;
    }
    match r.below(6) {
        0 => 0,
        1 | 2 => r.below(size.min(12) + 1),
        3 => r.below(size + 1),
        _ => {
            let e = *r.pick(gens::EDGES);
            if e <= size {
                e
            } else {
                r.below(size + 1)
            }
        }
    }
}

/// Characters that text handling likes to drop, merge or replace.
const ODD: &[char] = &[
    '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}',
    '\u{7ff}', '\u{800}', '\u{10000}', '\u{200b}', '\u{2028}', '\u{301}', '\u{130}', '\u{df}', ' ', '\t', '\r', '\n', '\\', '"', '\'',
];

pub fn gen_string(r: &mut Rng, size: usize) -> String {
    let n = octets(r, size);
    let mut s = String::new();
    while s.len() < n {
        let c = match r.below(8) {
            0 => char::from_u32(r.below(0x80) as u32),
            1 => char::from_u32(0x80 + r.below(0x780) as u32),
            2 => char::from_u32(0x800 + r.below(0xf000) as u32),
            3 => char::from_u32(0x10000 + r.below(0x100000) as u32),
            4 => Some('\u{0}'),
            5 => Some(*r.pick(ODD)),
            _ => Some((b'a' + r.below(26) as u8) as char),
        };
        let c = c.unwrap_or('x');
        s.push(if s.len() + c.len_utf8() > n { 'y' } else { c });
    }
    s
}

fn string_id(e: &El, m: Mode, id: u8) -> Result<(), Kinds> {
    if m == Mode::Ber && e.id == [id | 0x20] {
        // constructed strings are taken as they are: left open
        return Err(Kinds::ANY);
    }
    e.prim(&[id])
}

impl RefCodec for String {
    fn gen(r: &mut Rng, size: usize) -> Self {
        gen_string(r, size)
    }
    fn node(&self) -> Node {
        Node::Prim(vec![0x0c], self.as_bytes().to_vec())
    }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
        string_id(e, m, 0x0c)?;
        String::from_utf8(e.c.to_vec()).map_err(|_| Kinds::UTF8)
    }
}

/// Octets for octet strings that borrow.
static LENT: [u8; 300] = {
    let mut b = [0; 300];
    let mut i = 0;
    while i < 300 {
        b[i] = (i * i / 7) as u8;
        i += 1;
    }
    b
};

impl RefCodec for OctetString<'static> {
    fn gen(r: &mut Rng, size: usize) -> Self {
        let n = octets(r, size);
        if n <= LENT.len() && r.chance(1, 4) {
            let at = r.below(LENT.len() - n + 1);
            return OctetString::new(&LENT[at..at + n]);
        }
        gens::fill(r, n).into()
    }
    fn node(&self) -> Node {
        Node::Prim(vec![0x04], self.as_ref().to_vec())
    }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
        string_id(e, m, 0x04)?;
        Ok(e.c.to_vec().into())
    }
}

/// How many members, and the budget of each.
fn share(r: &mut Rng, size: usize) -> (usize, usize) {
    if size == 0 {
        return (0, 0);
    }
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 | 3 => r.below(size.min(5) + 1),
        4 | 5 => r.below(size.min(40) + 1),
        _ => {
            let e = *r.pick(&[42usize, 43, 63, 64, 85, 86, 126, 127, 128, 129, 255, 256]);
            if e <= size {
                e
            } else {
                r.below(size.min(12) + 1)
            }
        }
    };
    (n, (size - n.min(size)) / (n + 1))
}

fn all<T: RefCodec>(e: &El, m: Mode, id: u8) -> Result<Vec<T>, Kinds> {
    e.want(&[id])?;
    let mut k = e.kids(m);
    let mut v = Vec::new();
    while k.more() {
        if let Some(x) = k.field::<T>() {
            v.push(x);
        }
    }
    k.end()?;
    Ok(v)
}

/// The same elements in storage that grew by pushes at both ends, or has spare room.
fn deque<T>(v: VecDeque<T>, r: &mut Rng) -> VecDeque<T> {
    let n = v.len();
    let mut out = match r.below(4) {
        0 => return v,
        1 => VecDeque::with_capacity(n),
        2 => VecDeque::with_capacity(n + r.below(9)),
        _ => VecDeque::new(),
    };
    let cut = r.below(n + 1);
    let mut front = Vec::new();
    for (i, x) in v.into_iter().enumerate() {
        if i < cut {
            front.push(x);
        } else {
            out.push_back(x);
        }
    }
    for x in front.into_iter().rev() {
        out.push_front(x);
    }
    out
}

fn vector<T>(mut v: Vec<T>, r: &mut Rng) -> Vec<T> {
    if r.chance(1, 4) {
        v.reserve(r.below(40));
    }
    v
}

fn list<T>(mut v: LinkedList<T>, r: &mut Rng) -> LinkedList<T> {
    let at = r.below(v.len() + 1);
    let mut tail = v.split_off(at);
    v.append(&mut tail);
    v
}

macro_rules! list_codec {
    ($($c:ident $shape:ident)*) => {$(
        impl<T: RefCodec> RefCodec for $c<T> {
            fn gen(r: &mut Rng, size: usize) -> Self {
                let (n, s) = share(r, size);
                $shape((0..n).map(|_| T::gen(r, s)).collect(), r)
            }
            fn node(&self) -> Node {
                Node::Cons(vec![0x30], self.iter().map(|x| x.node()).collect())
            }
            fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
                Ok(all::<T>(e, m, 0x30)?.into_iter().collect())
            }
            fn after(&self) -> Option<Self> {
                self.iter().map(|x| x.after()).collect()
            }
            fn wire(&self) -> Node {
                Node::Cons(vec![0x30], self.iter().map(|x| x.wire()).collect())
            }
        }
    )*};
}
list_codec!(Vec vector VecDeque deque LinkedList list);

fn sorted(mut v: Vec<Node>) -> Vec<Node> {
    v.sort_by_cached_key(|n| n.der());
    v
}

impl<T: RefCodec + Ord> RefCodec for BTreeSet<T> {
    fn gen(r: &mut Rng, size: usize) -> Self {
        let (n, s) = share(r, size);
        let mut v: Self = (0..n).map(|_| T::gen(r, s)).collect();
        if r.chance(1, 4) {
            let x = T::gen(r, s.min(8));
            v.remove(&x);
        }
        v
    }
    fn node(&self) -> Node {
        Node::Cons(vec![0x30], self.iter().map(|x| x.node()).collect())
    }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
        Ok(all::<T>(e, m, 0x30)?.into_iter().collect())
    }
    fn after(&self) -> Option<Self> {
        self.iter().map(|x| x.after()).collect()
    }
    fn wire(&self) -> Node {
        Node::Cons(vec![0x30], self.iter().map(|x| x.wire()).collect())
    }
}

impl<T: RefCodec + Eq + Hash> RefCodec for HashSet<T> {
    fn gen(r: &mut Rng, size: usize) -> Self {
        let (n, s) = share(r, size);
        let mut v: Self = (0..n).map(|_| T::gen(r, s)).collect();
        if r.chance(1, 4) {
            // members come and go, room is left
            v.reserve(r.below(64));
            let x = T::gen(r, s.min(8));
            v.remove(&x);
        }
        v
    }
    fn node(&self) -> Node {
        Node::Cons(vec![0x31], sorted(self.iter().map(|x| x.node()).collect()))
    }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
        Ok(all::<T>(e, m, 0x31)?.into_iter().collect())
    }
    fn after(&self) -> Option<Self> {
        self.iter().map(|x| x.after()).collect()
    }
    fn wire(&self) -> Node {
        Node::Cons(vec![0x31], sorted(self.iter().map(|x| x.wire()).collect()))
    }
}

fn pair(k: Node, v: Node) -> Node {
    Node::Cons(vec![0x30], vec![k, v])
}

fn pairs<K: RefCodec + PartialEq, V: RefCodec>(e: &El, m: Mode, id: u8) -> Result<Vec<(K, V)>, Kinds> {
    e.want(&[id])?;
    let mut kids = e.kids(m);
    let mut out = Vec::new();
    while kids.more() {
        let Some(p) = kids.next() else { break };
        if p.id != [0x30] {
            kids.bad |= Kinds::PAIR;
            continue;
        }
        let mut two = p.kids(m);
        let (k, v) = (two.field::<K>(), two.field::<V>());
        if two.more() {
            // left-over octets in a pair have a kind of their own
            kids.bad |= Kinds::PAIR | two.bad;
            continue;
        }
        match two.end() {
            Ok(()) => out.push((k.unwrap(), v.unwrap())),
            Err(b) => kids.bad |= b,
        }
    }
    kids.end()?;
    Ok(out)
}

impl<K: RefCodec + Ord, V: RefCodec> RefCodec for BTreeMap<K, V> {
    fn gen(r: &mut Rng, size: usize) -> Self {
        let (n, s) = share(r, size);
        (0..n).map(|_| (K::gen(r, s / 2), V::gen(r, s / 2))).collect()
    }
    fn node(&self) -> Node {
        Node::Cons(vec![0x30], self.iter().map(|(k, v)| pair(k.node(), v.node())).collect())
    }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
        let v = pairs::<K, V>(e, m, 0x30)?;
        let n = v.len();
        let out: Self = v.into_iter().collect();
        if out.len() != n {
            return Err(Kinds::ANY);
        }
        Ok(out)
    }
    fn after(&self) -> Option<Self> {
        let out: Option<Self> = self.iter().map(|(k, v)| Some((k.after()?, v.after()?))).collect();
        // keys may become equal when skipped fields are reset
        out.filter(|o| o.len() == self.len())
    }
    fn wire(&self) -> Node {
        Node::Cons(vec![0x30], self.iter().map(|(k, v)| pair(k.wire(), v.wire())).collect())
    }
}

impl<K: RefCodec + Eq + Hash, V: RefCodec> RefCodec for HashMap<K, V> {
    fn gen(r: &mut Rng, size: usize) -> Self {
        let (n, s) = share(r, size);
        (0..n).map(|_| (K::gen(r, s / 2), V::gen(r, s / 2))).collect()
    }
    fn node(&self) -> Node {
        Node::Cons(vec![0x31], sorted(self.iter().map(|(k, v)| pair(k.node(), v.node())).collect()))
    }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
        let v = pairs::<K, V>(e, m, 0x31)?;
        let n = v.len();
        let out: Self = v.into_iter().collect();
        if out.len() != n {
            return Err(Kinds::ANY);
        }
        Ok(out)
    }
    fn after(&self) -> Option<Self> {
        let out: Option<Self> = self.iter().map(|(k, v)| Some((k.after()?, v.after()?))).collect();
        // keys may become equal when skipped fields are reset
        out.filter(|o| o.len() == self.len())
    }
    fn wire(&self) -> Node {
        Node::Cons(vec![0x31], sorted(self.iter().map(|(k, v)| pair(k.wire(), v.wire())).collect()))
    }
}

// ---------------------------------------------------------------- hand-written user types

/// A type that does not announce sizes: which of them is told by `W` (1: identifier, 2: contents).
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Quiet<T, const W: u8>(pub T);

impl<T: Serialize, const W: u8> Serialize for Quiet<T, W> {
    fn write_id<S: ?Sized + Write>(&self, b: &mut S) -> Result<(), Error> {
        self.0.write_id(b)
    }
    fn write_der_contents<S: ?Sized + Write>(&self, b: &mut S) -> Result<(), Error> {
        self.0.write_der_contents(b)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        if W & 1 != 0 {
            Ok(None)
        } else {
            self.0.id_len()
        }
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        if W & 2 != 0 {
            Ok(None)
        } else {
            self.0.der_contents_len()
        }
    }
}
impl<T: Deserialize, const W: u8> Deserialize for Quiet<T, W> {
    unsafe fn from_ber(i: &bsn1::IdRef, l: bsn1::Length, c: &bsn1::ContentsRef) -> Result<Self, Error> {
        T::from_ber(i, l, c).map(Quiet)
    }
    fn from_der(i: &bsn1::IdRef, c: &bsn1::ContentsRef) -> Result<Self, Error> {
        T::from_der(i, c).map(Quiet)
    }
}
impl<T: RefCodec, const W: u8> RefCodec for Quiet<T, W> {
    fn gen(r: &mut Rng, size: usize) -> Self {
        Quiet(T::gen(r, size))
    }
    fn node(&self) -> Node {
        self.0.node()
    }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
        T::dec(e, m).map(Quiet)
    }
    fn after(&self) -> Option<Self> {
        self.0.after().map(Quiet)
    }
    fn wire(&self) -> Node {
        self.0.wire()
    }
}

/// One that announces sizes for some values only.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Moody(pub u16);
impl Serialize for Moody {
    fn write_id<S: ?Sized + Write>(&self, b: &mut S) -> Result<(), Error> {
        self.0.write_id(b)
    }
    fn write_der_contents<S: ?Sized + Write>(&self, b: &mut S) -> Result<(), Error> {
        self.0.write_der_contents(b)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        if self.0 % 5 == 1 {
            Ok(None)
        } else {
            self.0.id_len()
        }
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        if self.0 % 3 == 1 {
            Ok(None)
        } else {
            self.0.der_contents_len()
        }
    }
}
impl Deserialize for Moody {
    unsafe fn from_ber(i: &bsn1::IdRef, l: bsn1::Length, c: &bsn1::ContentsRef) -> Result<Self, Error> {
        u16::from_ber(i, l, c).map(Moody)
    }
    fn from_der(i: &bsn1::IdRef, c: &bsn1::ContentsRef) -> Result<Self, Error> {
        u16::from_der(i, c).map(Moody)
    }
}
impl RefCodec for Moody {
    fn gen(r: &mut Rng, _: usize) -> Self {
        Moody(gen_int::<u16>(r))
    }
    fn node(&self) -> Node {
        self.0.node()
    }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
        u16::dec(e, m).map(Moody)
    }
}

// ---------------------------------------------------------------- conversions used by derived types

/// What a refused conversion says.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Refused(pub String);
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "refused: {}", self.0)
    }
}
impl std::error::Error for Refused {}

/// Stands for a type that is no ASN.1 type itself and converts from and to `C`.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Conv<C>(pub C);
impl<C> From<C> for Conv<C> {
    fn from(c: C) -> Self {
        Conv(c)
    }
}
macro_rules! conv_into {
    ($($t:ty),*) => {$( impl From<Conv<$t>> for $t { fn from(c: Conv<$t>) -> $t { c.0 } } )*};
}
conv_into!(u8, i64, u128, bool, String, Vec<u8>, Vec<String>, BTreeMap<String, Vec<u8>>, OctetString<'static>, HashSet<u16>);
pub fn conv_ref<C: Clone>(c: &Conv<C>) -> C {
    c.0.clone()
}
pub fn conv_borrow<C>(c: &Conv<C>) -> &C {
    &c.0
}

/// Refuses a part of the values.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Picky<C>(pub C);
pub fn refuses<C: RefCodec>(c: &C) -> bool {
    crate::rng::hash_bytes(11, &c.node().der()) % 4 == 0
}
macro_rules! picky {
    ($($t:ty),*) => {$(
        impl TryFrom<$t> for Picky<$t> {
            type Error = Refused;
            fn try_from(c: $t) -> Result<Self, Refused> {
                if refuses(&c) { Err(Refused(format!("{:?}", c))) } else { Ok(Picky(c)) }
            }
        }
        impl From<Picky<$t>> for $t { fn from(c: Picky<$t>) -> $t { c.0 } }
    )*};
}
picky!(u8, i64, u128, bool, String, Vec<u8>, Vec<String>, BTreeMap<String, Vec<u8>>, OctetString<'static>, HashSet<u16>);
pub fn picky_ref<C: Clone>(c: &Picky<C>) -> C {
    c.0.clone()
}
pub fn gen_picky<C: RefCodec>(r: &mut Rng, size: usize) -> Picky<C> {
    for _ in 0..60 {
        let c = C::gen(r, size);
        if !refuses(&c) {
            return Picky(c);
        }
    }
    // a value the converter would refuse
    Picky(C::gen(r, size))
}

/// Encoded as text where `text` is asked for, as an integer on its own.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Num(pub i32);
impl From<Num> for String {
    fn from(n: Num) -> String {
        n.0.to_string()
    }
}
impl TryFrom<String> for Num {
    type Error = std::num::ParseIntError;
    fn try_from(s: String) -> Result<Self, Self::Error> {
        s.parse().map(Num)
    }
}
pub fn num_text(n: &Num) -> String {
    n.0.to_string()
}
impl From<Num> for i64 {
    fn from(n: Num) -> i64 {
        n.0 as i64 * 3 + 1
    }
}
impl From<i64> for Num {
    fn from(n: i64) -> Num {
        Num(n.wrapping_sub(1).wrapping_div(3) as i32)
    }
}
impl Serialize for Num {
    fn write_id<S: ?Sized + Write>(&self, b: &mut S) -> Result<(), Error> {
        self.0.write_id(b)
    }
    fn write_der_contents<S: ?Sized + Write>(&self, b: &mut S) -> Result<(), Error> {
        self.0.write_der_contents(b)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        self.0.id_len()
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        self.0.der_contents_len()
    }
}
impl Deserialize for Num {
    unsafe fn from_ber(i: &bsn1::IdRef, l: bsn1::Length, c: &bsn1::ContentsRef) -> Result<Self, Error> {
        i32::from_ber(i, l, c).map(Num)
    }
    fn from_der(i: &bsn1::IdRef, c: &bsn1::ContentsRef) -> Result<Self, Error> {
        i32::from_der(i, c).map(Num)
    }
}
impl RefCodec for Num {
    fn gen(r: &mut Rng, _: usize) -> Self {
        Num(gen_int::<i32>(r))
    }
    fn node(&self) -> Node {
        self.0.node()
    }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
        i32::dec(e, m).map(Num)
    }
}

// ---------------------------------------------------------------- erased types

/// A value of some supported type.
pub trait Val: Debug {
    fn node(&self) -> Node;
    fn wire(&self) -> Node;
    fn after(&self) -> Option<Box<dyn Val>>;
    fn same(&self, o: &dyn Val) -> bool;
    fn copy(&self) -> Box<dyn Val>;
    fn to_der(&self) -> Result<Der, Error>;
    fn to_ber(&self) -> Result<Ber, Error>;
    fn write_der(&self, w: &mut dyn Write) -> Result<(), Error>;
    fn write_ber(&self, w: &mut dyn Write) -> Result<(), Error>;
    fn write_id(&self, w: &mut dyn Write) -> Result<(), Error>;
    fn write_der_contents(&self, w: &mut dyn Write) -> Result<(), Error>;
    fn id_len(&self) -> Result<Option<usize>, Error>;
    fn der_contents_len(&self) -> Result<Option<usize>, Error>;
    fn any(&self) -> &dyn Any;
}

struct Hold<T>(T);
impl<T: Debug> Debug for Hold<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

impl<T: RefCodec> Val for Hold<T> {
    fn node(&self) -> Node {
        self.0.node()
    }
    fn wire(&self) -> Node {
        self.0.wire()
    }
    fn after(&self) -> Option<Box<dyn Val>> {
        self.0.after().map(|v| Box::new(Hold(v)) as _)
    }
    fn same(&self, o: &dyn Val) -> bool {
        o.any().downcast_ref::<T>() == Some(&self.0)
    }
    fn copy(&self) -> Box<dyn Val> {
        Box::new(Hold(self.0.clone()))
    }
    fn to_der(&self) -> Result<Der, Error> {
        bsn1_serde::to_der(&self.0)
    }
    fn to_ber(&self) -> Result<Ber, Error> {
        bsn1_serde::to_ber(&self.0)
    }
    fn write_der(&self, w: &mut dyn Write) -> Result<(), Error> {
        bsn1_serde::write_der(&self.0, w)
    }
    fn write_ber(&self, w: &mut dyn Write) -> Result<(), Error> {
        bsn1_serde::write_ber(&self.0, w)
    }
    fn write_id(&self, w: &mut dyn Write) -> Result<(), Error> {
        self.0.write_id(w)
    }
    fn write_der_contents(&self, w: &mut dyn Write) -> Result<(), Error> {
        self.0.write_der_contents(w)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        self.0.id_len()
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        self.0.der_contents_len()
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
}

pub type Got = Result<Box<dyn Val>, Error>;

/// One of the library's types or of the derived ones.
pub fn nth_type(i: usize) -> &'static dyn Ty {
    let s = std_types();
    let d = derived_types();
    let i = i % (s.len() + d.len());
    if i < s.len() {
        &*s[i]
    } else {
        &*d[i - s.len()]
    }
}

/// Some supported type.
pub trait Ty: Sync + Send {
    fn name(&self) -> &'static str;
    fn gen(&self, r: &mut Rng, size: usize) -> Box<dyn Val>;
    fn dec(&self, e: &El, m: Mode) -> Result<Box<dyn Val>, Kinds>;
    fn from_der(&self, d: &DerRef) -> Got;
    fn from_ber(&self, d: &BerRef) -> Got;
    fn parse_der(&self, d: &mut &[u8]) -> Got;
    fn parse_ber(&self, d: &mut &[u8]) -> Got;
    fn read_der(&self, d: &mut dyn Read) -> Got;
    fn read_ber(&self, d: &mut dyn Read) -> Got;
}

pub struct Of<T>(pub &'static str, pub PhantomData<fn() -> T>);

fn boxed<T: RefCodec>(r: Result<T, Error>) -> Got {
    r.map(|v| Box::new(Hold(v)) as _)
}

impl<T: RefCodec> Ty for Of<T> {
    fn name(&self) -> &'static str {
        self.0
    }
    fn gen(&self, r: &mut Rng, size: usize) -> Box<dyn Val> {
        Box::new(Hold(T::gen(r, size)))
    }
    fn dec(&self, e: &El, m: Mode) -> Result<Box<dyn Val>, Kinds> {
        T::dec(e, m).map(|v| Box::new(Hold(v)) as _)
    }
    fn from_der(&self, d: &DerRef) -> Got {
        boxed(bsn1_serde::from_der::<T>(d))
    }
    fn from_ber(&self, d: &BerRef) -> Got {
        boxed(bsn1_serde::from_ber::<T>(d))
    }
    fn parse_der(&self, d: &mut &[u8]) -> Got {
        boxed(bsn1_serde::parse_der::<T>(d))
    }
    fn parse_ber(&self, d: &mut &[u8]) -> Got {
        boxed(bsn1_serde::parse_ber::<T>(d))
    }
    fn read_der(&self, d: &mut dyn Read) -> Got {
        boxed(bsn1_serde::read_der::<_, T>(d))
    }
    fn read_ber(&self, d: &mut dyn Read) -> Got {
        boxed(bsn1_serde::read_ber::<_, T>(d))
    }
}

pub type Types = Vec<Box<dyn Ty>>;

#[macro_export]
macro_rules! types {
    ($($t:ty),* $(,)?) => {
        vec![$(Box::new($crate::codec::Of::<$t>(stringify!($t), std::marker::PhantomData)) as Box<dyn $crate::codec::Ty>),*]
    };
}

type Oct = OctetString<'static>;

/// Types of the standard library and `OctetString`, alone and nested, and hand-written impls.
pub fn std_types() -> &'static Types {
    static T: OnceLock<Types> = OnceLock::new();
    T.get_or_init(|| {
        types![
            bool, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, String, Oct,
            Vec<bool>, Vec<u8>, Vec<i32>, Vec<u128>, Vec<String>, Vec<Oct>,
            VecDeque<i16>, VecDeque<String>, LinkedList<u64>, LinkedList<Oct>,
            BTreeSet<i8>, BTreeSet<u64>, BTreeSet<String>, BTreeSet<bool>,
            HashSet<u8>, HashSet<i128>, HashSet<String>, HashSet<Oct>, HashSet<bool>,
            BTreeMap<u8, bool>, BTreeMap<String, String>, BTreeMap<i64, Vec<u8>>,
            HashMap<u16, String>, HashMap<String, i32>, HashMap<bool, Oct>,
            Vec<Vec<u8>>, Vec<Vec<Vec<bool>>>, VecDeque<LinkedList<Vec<i8>>>,
            BTreeSet<BTreeSet<i16>>, BTreeSet<Vec<String>>, HashSet<Vec<u8>>, HashSet<BTreeSet<String>>,
            Vec<HashSet<u8>>, Vec<HashMap<u8, u8>>, LinkedList<BTreeMap<u8, HashSet<i8>>>,
            BTreeMap<Vec<u8>, BTreeSet<String>>, BTreeMap<String, BTreeMap<String, BTreeMap<u8, u8>>>,
            HashMap<String, HashMap<u8, Vec<i64>>>, HashMap<Vec<bool>, HashSet<u16>>,
            HashMap<Oct, VecDeque<String>>, HashMap<BTreeSet<u8>, LinkedList<u32>>,
            BTreeMap<Oct, Vec<Vec<Oct>>>, Vec<BTreeMap<usize, isize>>,
            Quiet<u32, 1>, Quiet<String, 2>, Quiet<i16, 3>, Moody,
            Vec<Quiet<u8, 1>>, Vec<Quiet<String, 2>>, VecDeque<Quiet<Oct, 3>>, LinkedList<Quiet<bool, 2>>,
            BTreeSet<Quiet<i8, 3>>, BTreeSet<Quiet<u16, 1>>, HashSet<Quiet<u64, 2>>, HashSet<Quiet<String, 1>>,
            BTreeMap<Quiet<u8, 1>, u8>, BTreeMap<Quiet<u8, 2>, u8>, BTreeMap<u8, Quiet<u8, 1>>, BTreeMap<u8, Quiet<String, 2>>,
            HashMap<Quiet<u8, 1>, u8>, HashMap<Quiet<u8, 2>, u8>, HashMap<u8, Quiet<u8, 1>>, HashMap<u8, Quiet<String, 2>>,
            HashMap<Quiet<u8, 3>, Quiet<u8, 3>>, BTreeMap<Quiet<i32, 3>, Quiet<Vec<u8>, 3>>,
            Quiet<Vec<u8>, 1>, Quiet<Vec<Quiet<u8, 2>>, 2>, Vec<Moody>, HashSet<Moody>, BTreeMap<Moody, Moody>,
            HashMap<Moody, Vec<Moody>>, VecDeque<Vec<Moody>>, LinkedList<HashMap<u8, Moody>>, BTreeSet<Moody>,
        ]
    })
}

/// Fixed derived types (see derived.rs).
pub fn derived_types() -> &'static Types {
    static T: OnceLock<Types> = OnceLock::new();
    T.get_or_init(crate::derived::types)
}

pub fn pick_type(r: &mut Rng) -> &'static dyn Ty {
    let (a, b) = (std_types(), derived_types());
    let i = if !b.is_empty() && r.chance(2, 5) {
        return &*b[r.below(b.len())];
    } else {
        r.below(a.len())
    };
    &*a[i]
}

// Generated by tools/gen_derive.py (seed 20). Do not edit.
#![allow(unused, non_snake_case, clippy::all)]
#![cfg_attr(rustfmt, rustfmt_skip)]
use crate::codec::*;
use crate::model::Kinds;
use crate::rng::Rng;
use bsn1_serde::OctetString;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList};

#[derive(Hash, Debug, Eq, bsn1_serde::Deserialize, Ord, PartialOrd, bsn1_serde::Serialize, Clone, PartialEq)]
#[bsn1_serde(into = "u128", try_from = "u128")]
pub enum K0 { #[bsn1_serde(id = Set)] One(u128), #[allow(unused)] Two }
impl From<K0> for u128 { fn from(v: K0) -> Self { match v { K0::One(c) => c, K0::Two => unreachable!() } } }
pub fn out_0(v: &K0) -> u128 { match v { K0::One(c) => c.clone(), K0::Two => unreachable!() } }
impl K0 { pub fn out(&self) -> u128 { out_0(self) } }
impl TryFrom<u128> for K0 { type Error = Refused; fn try_from(c: u128) -> Result<Self, Refused> { if refuses(&c) { Err(Refused(format!("{:?}", c))) } else { Ok(K0::One(c)) } } }
impl RefCodec for K0 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <u128 as RefCodec>::gen(r, s); K0::One(c) }
    fn node(&self) -> Node { RefCodec::node((&out_0(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <u128 as RefCodec>::dec(e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(K0::One(c)) }) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_0(self)))?; if refuses(&c) { return None } Some(K0::One(c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_0(self))) }
}
#[derive(bsn1_serde::Deserialize, Ord, bsn1_serde::Serialize, Eq, Clone, PartialEq, PartialOrd, Hash, Debug)]
pub enum E1 {
    #[bsn1_serde(tag_pc = PRIMITIVE)]
    V2(),
    #[bsn1_serde(tag_num = 0b11110, tag_class = APPLICATION)]
    V1 { #[bsn1_serde(into = "bool", from = "bool")] n5: Conv<bool>, camelCase: u64 },
    #[bsn1_serde(tag_num = 0b10000, tag_pc = CONSTRUCTED)]
    W5,
}
impl RefCodec for E1 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(3) { 0 => { let s = s / 1; E1::V2() }, 1 => { let s = s / 2; E1::V1 { n5: Conv(<bool as RefCodec>::gen(r, s)), camelCase: <u64 as RefCodec>::gen(r, s) } }, _ => { let s = s / 1; E1::W5 }, } }
    fn node(&self) -> Node { match self { E1::V2() => Node::Cons(vec![0x10], vec![]), E1::V1 { n5: x0, camelCase: x1 } => Node::Cons(vec![0x7e], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(x1)]), E1::W5 => Node::Cons(vec![0x30], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); k.end()?; Ok(E1::V2()) } } else if e.id == &[0x7e] { e.want(&[0x7e])?; { let mut k = e.kids(m); let v0: Option<Conv<bool>> = match k.next() { None => None, Some(e) => { let x = <bool as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v1: Option<u64> = k.field(); k.end()?; Ok(E1::V1 { n5: v0.unwrap(), camelCase: v1.unwrap() }) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); k.end()?; Ok(E1::W5) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E1::V2() => Some(E1::V2()), E1::V1 { n5: x0, camelCase: x1 } => Some(E1::V1 { n5: x0.clone(), camelCase: RefCodec::after(x1)? }), E1::W5 => Some(E1::W5), } }
    fn wire(&self) -> Node { match self { E1::V2() => Node::Cons(vec![0x10], vec![]), E1::V1 { n5: x0, camelCase: x1 } => Node::Cons(vec![0x7e], vec![RefCodec::wire(&x0.0), RefCodec::wire(x1)]), E1::W5 => Node::Cons(vec![0x30], vec![]), } }
}
#[derive(PartialEq, Clone, bsn1_serde::Deserialize, Debug, bsn1_serde::Serialize)]
pub enum E2 {
    #[bsn1_serde(id = Set, tag_pc = CONSTRUCTED)]
    Data {  },
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_class = UNIVERSAL, id = EOC)]
    Nothing(K0),
    #[bsn1_serde(id = Integer)]
    One(E1, K0),
    #[bsn1_serde(id = OctetString, tag_pc = PRIMITIVE, tag_class = UNIVERSAL)]
    W14(#[bsn1_serde(try_from = "i64", into = "i64")] Picky<i64>, #[bsn1_serde(to = "picky_ref", try_from = "OctetString<'static>")] Picky<OctetString<'static>>, #[bsn1_serde(try_from = "u128", to = "picky_ref")] Picky<u128>, isize, #[bsn1_serde(from = "HashSet<u16>", to = "conv_ref")] Conv<HashSet<u16>>, #[bsn1_serde(skip_serializing, skip)] u32),
    #[bsn1_serde(tag_num = 0x3fff, tag_class = PRIVATE, tag_pc = PRIMITIVE, id = UTF8String)]
    W6 { n6: K0, id: i64, #[bsn1_serde(skip_serializing)] n8: i64, ber: K0, r#fn: std::collections::VecDeque<i16>, #[bsn1_serde(to = "conv_ref", from = "String")] tag: Conv<String> },
}
impl RefCodec for E2 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(5) { 0 => { let s = s / 1; E2::Data {  } }, 1 => { let s = s / 1; E2::Nothing(<K0 as RefCodec>::gen(r, s)) }, 2 => { let s = s / 2; E2::One(<E1 as RefCodec>::gen(r, s), <K0 as RefCodec>::gen(r, s)) }, 3 => { let s = s / 6; E2::W14(gen_picky::<i64>(r, s), gen_picky::<OctetString<'static>>(r, s), gen_picky::<u128>(r, s), <isize as RefCodec>::gen(r, s), Conv(<HashSet<u16> as RefCodec>::gen(r, s)), <u32 as RefCodec>::gen(r, s)) }, _ => { let s = s / 6; E2::W6 { n6: <K0 as RefCodec>::gen(r, s), id: <i64 as RefCodec>::gen(r, s), n8: <i64 as RefCodec>::gen(r, s), ber: <K0 as RefCodec>::gen(r, s), r#fn: <std::collections::VecDeque<i16> as RefCodec>::gen(r, s), tag: Conv(<String as RefCodec>::gen(r, s)) } }, } }
    fn node(&self) -> Node { match self { E2::Data {  } => Node::Cons(vec![0x31], vec![]), E2::Nothing(x0) => Node::Cons(vec![0x00], vec![RefCodec::node(x0)]), E2::One(x0, x1) => Node::Cons(vec![0x02], vec![RefCodec::node(x0), RefCodec::node(x1)]), E2::W14(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x04], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(&(x1.0.clone())), RefCodec::node(&(x2.0.clone())), RefCodec::node(x3), RefCodec::node(&(x4.0.clone()))]), E2::W6 { n6: x0, id: x1, n8: x2, ber: x3, r#fn: x4, tag: x5 } => Node::Cons(vec![0xdf, 0xff, 0x7f], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(x3), RefCodec::node(x4), RefCodec::node(&(x5.0.clone()))]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x31] { e.want(&[0x31])?; { let mut k = e.kids(m); k.end()?; Ok(E2::Data {  }) } } else if e.id == &[0x00] { e.want(&[0x00])?; { let mut k = e.kids(m); let v0: Option<K0> = k.field(); k.end()?; Ok(E2::Nothing(v0.unwrap())) } } else if e.id == &[0x02] { e.want(&[0x02])?; { let mut k = e.kids(m); let v0: Option<E1> = k.field(); let v1: Option<K0> = k.field(); k.end()?; Ok(E2::One(v0.unwrap(), v1.unwrap())) } } else if e.id == &[0x04] { e.want(&[0x04])?; { let mut k = e.kids(m); let v0: Option<Picky<i64>> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v1: Option<Picky<OctetString<'static>>> = match k.next() { None => None, Some(e) => { let x = <OctetString<'static> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v2: Option<Picky<u128>> = match k.next() { None => None, Some(e) => { let x = <u128 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v3: Option<isize> = k.field(); let v4: Option<Conv<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E2::W14(v0.unwrap(), v1.unwrap(), v2.unwrap(), v3.unwrap(), v4.unwrap(), Default::default())) } } else if e.id == &[0xdf, 0xff, 0x7f] { e.want(&[0xdf, 0xff, 0x7f])?; { let mut k = e.kids(m); let v0: Option<K0> = k.field(); let v1: Option<i64> = k.field(); let v2: Option<i64> = k.field(); let v3: Option<K0> = k.field(); let v4: Option<std::collections::VecDeque<i16>> = k.field(); let v5: Option<Conv<String>> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E2::W6 { n6: v0.unwrap(), id: v1.unwrap(), n8: v2.unwrap(), ber: v3.unwrap(), r#fn: v4.unwrap(), tag: v5.unwrap() }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E2::Data {  } => Some(E2::Data {  }), E2::Nothing(x0) => Some(E2::Nothing(RefCodec::after(x0)?)), E2::One(x0, x1) => Some(E2::One(RefCodec::after(x0)?, RefCodec::after(x1)?)), E2::W14(x0, x1, x2, x3, x4, x5) => Some(E2::W14({ let v = x0; if refuses(&v.0) { return None } v.clone() }, { let v = x1; if refuses(&v.0) { return None } v.clone() }, { let v = x2; if refuses(&v.0) { return None } v.clone() }, RefCodec::after(x3)?, x4.clone(), Default::default())), E2::W6 { n6: x0, id: x1, n8: x2, ber: x3, r#fn: x4, tag: x5 } => None, } }
    fn wire(&self) -> Node { match self { E2::Data {  } => Node::Cons(vec![0x31], vec![]), E2::Nothing(x0) => Node::Cons(vec![0x00], vec![RefCodec::wire(x0)]), E2::One(x0, x1) => Node::Cons(vec![0x02], vec![RefCodec::wire(x0), RefCodec::wire(x1)]), E2::W14(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x04], vec![RefCodec::wire(&x0.0), RefCodec::wire(&x1.0), RefCodec::wire(&x2.0), RefCodec::wire(x3), RefCodec::wire(&x4.0)]), E2::W6 { n6: x0, id: x1, n8: x2, ber: x3, r#fn: x4, tag: x5 } => Node::Cons(vec![0xdf, 0xff, 0x7f], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(x2), RefCodec::wire(x3), RefCodec::wire(x4), RefCodec::wire(&x5.0)]), } }
}
#[derive(PartialOrd, Eq, Ord, bsn1_serde::Serialize, PartialEq, Debug, Hash, Clone, bsn1_serde::Deserialize)]
#[bsn1_serde(from = "K0", into = "K0")]
pub enum K3 { #[bsn1_serde(id = Set)] One(K0), #[allow(unused)] Two }
impl From<K3> for K0 { fn from(v: K3) -> Self { match v { K3::One(c) => c, K3::Two => unreachable!() } } }
pub fn out_3(v: &K3) -> K0 { match v { K3::One(c) => c.clone(), K3::Two => unreachable!() } }
impl K3 { pub fn out(&self) -> K0 { out_3(self) } }
impl From<K0> for K3 { fn from(c: K0) -> Self { K3::One(c) } }
impl RefCodec for K3 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <K0 as RefCodec>::gen(r, s); K3::One(c) }
    fn node(&self) -> Node { RefCodec::node((&out_3(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <K0 as RefCodec>::dec(e, m).and_then(|c| Ok(K3::One(c))) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_3(self)))?; Some(K3::One(c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_3(self))) }
}
#[derive(PartialEq, Debug, Clone, bsn1_serde::Deserialize, bsn1_serde::Serialize)]
pub enum E4<T0: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize + Sized> {
    Id { buffer: HashSet<i8>, data: T0 },
    #[bsn1_serde(tag_class = UNIVERSAL, tag_num = 0o10000000)]
    W2(),
}
impl<T0: RefCodec> RefCodec for E4<T0> {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(2) { 0 => { let s = s / 2; E4::Id { buffer: <HashSet<i8> as RefCodec>::gen(r, s), data: <T0 as RefCodec>::gen(r, s) } }, _ => { let s = s / 1; E4::W2() }, } }
    fn node(&self) -> Node { match self { E4::Id { buffer: x0, data: x1 } => Node::Cons(vec![0x30], vec![RefCodec::node(x0), RefCodec::node(x1)]), E4::W2() => Node::Cons(vec![0x3f, 0x81, 0x80, 0x80, 0x00], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); let v0: Option<HashSet<i8>> = k.field(); let v1: Option<T0> = k.field(); k.end()?; Ok(E4::Id { buffer: v0.unwrap(), data: v1.unwrap() }) } } else if e.id == &[0x3f, 0x81, 0x80, 0x80, 0x00] { e.want(&[0x3f, 0x81, 0x80, 0x80, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E4::W2()) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E4::Id { buffer: x0, data: x1 } => Some(E4::Id { buffer: RefCodec::after(x0)?, data: RefCodec::after(x1)? }), E4::W2() => Some(E4::W2()), } }
    fn wire(&self) -> Node { match self { E4::Id { buffer: x0, data: x1 } => Node::Cons(vec![0x30], vec![RefCodec::wire(x0), RefCodec::wire(x1)]), E4::W2() => Node::Cons(vec![0x3f, 0x81, 0x80, 0x80, 0x00], vec![]), } }
}
pub struct Host0;
impl Host0 { pub fn make() -> Option<u8> { Some(9) } }
#[derive(Clone, bsn1_serde::Deserialize, PartialEq, bsn1_serde::Serialize, Debug)]
#[bsn1_serde(tag_num = 0x10000000000000000, id = BitString)]
pub struct S5<T0: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize>(pub Quiet<u16, 1>, pub u16, #[bsn1_serde(skip, skip_deserializing)] pub std::collections::VecDeque<i16>, #[bsn1_serde(to = "conv_ref", from = "HashSet<u16>")] pub Conv<HashSet<u16>>, pub i16, #[bsn1_serde(from = "u128", to = "conv_ref")] pub Conv<u128>, pub BTreeSet<u8>, pub T0, pub Num, pub u64, #[bsn1_serde(skip)] pub std::collections::VecDeque<i16>, #[bsn1_serde(into = "Vec<u8>", try_from = "Vec<u8>")] pub Picky<Vec<u8>>, #[bsn1_serde(skip_deserializing, skip_serializing, default = "Host0::make")] pub Option<u8>, #[bsn1_serde(from = "Vec<String>", into = "Vec<String>")] pub Conv<Vec<String>>, pub K0);
impl<T0: RefCodec> RefCodec for S5<T0> {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 15; S5(<Quiet<u16, 1> as RefCodec>::gen(r, s), <u16 as RefCodec>::gen(r, s), <std::collections::VecDeque<i16> as RefCodec>::gen(r, s), Conv(<HashSet<u16> as RefCodec>::gen(r, s)), <i16 as RefCodec>::gen(r, s), Conv(<u128 as RefCodec>::gen(r, s)), <BTreeSet<u8> as RefCodec>::gen(r, s), <T0 as RefCodec>::gen(r, s), <Num as RefCodec>::gen(r, s), <u64 as RefCodec>::gen(r, s), <std::collections::VecDeque<i16> as RefCodec>::gen(r, s), gen_picky::<Vec<u8>>(r, s), if r.chance(1, 2) { Some(r.u8()) } else { None }, Conv(<Vec<String> as RefCodec>::gen(r, s)), <K0 as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0x1f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![RefCodec::node((&self.0)), RefCodec::node((&self.1)), RefCodec::node(&((&self.3).0.clone())), RefCodec::node((&self.4)), RefCodec::node(&((&self.5).0.clone())), RefCodec::node((&self.6)), RefCodec::node((&self.7)), RefCodec::node((&self.8)), RefCodec::node((&self.9)), RefCodec::node(&((&self.11).0.clone())), RefCodec::node(&((&self.13).0.clone())), RefCodec::node((&self.14))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x1f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00])?; let mut k = e.kids(m); let v0: Option<Quiet<u16, 1>> = k.field(); let v1: Option<u16> = k.field(); let v3: Option<Conv<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v4: Option<i16> = k.field(); let v5: Option<Conv<u128>> = match k.next() { None => None, Some(e) => { let x = <u128 as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v6: Option<BTreeSet<u8>> = k.field(); let v7: Option<T0> = k.field(); let v8: Option<Num> = k.field(); let v9: Option<u64> = k.field(); let v11: Option<Picky<Vec<u8>>> = match k.next() { None => None, Some(e) => { let x = <Vec<u8> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v13: Option<Conv<Vec<String>>> = match k.next() { None => None, Some(e) => { let x = <Vec<String> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v14: Option<K0> = k.field(); k.end()?; Ok(S5(v0.unwrap(), v1.unwrap(), Default::default(), v3.unwrap(), v4.unwrap(), v5.unwrap(), v6.unwrap(), v7.unwrap(), v8.unwrap(), v9.unwrap(), Default::default(), v11.unwrap(), Some(9), v13.unwrap(), v14.unwrap())) }
    fn after(&self) -> Option<Self> { Some(S5(RefCodec::after((&self.0))?, RefCodec::after((&self.1))?, Default::default(), (&self.3).clone(), RefCodec::after((&self.4))?, (&self.5).clone(), RefCodec::after((&self.6))?, RefCodec::after((&self.7))?, RefCodec::after((&self.8))?, RefCodec::after((&self.9))?, Default::default(), { let v = (&self.11); if refuses(&v.0) { return None } v.clone() }, Some(9), (&self.13).clone(), RefCodec::after((&self.14))?)) }
    fn wire(&self) -> Node { Node::Cons(vec![0x1f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![RefCodec::wire((&self.0)), RefCodec::wire((&self.1)), RefCodec::wire(&(&self.3).0), RefCodec::wire((&self.4)), RefCodec::wire(&(&self.5).0), RefCodec::wire((&self.6)), RefCodec::wire((&self.7)), RefCodec::wire((&self.8)), RefCodec::wire((&self.9)), RefCodec::wire(&(&self.11).0), RefCodec::wire(&(&self.13).0), RefCodec::wire((&self.14))]) }
}
#[derive(Debug, PartialEq, bsn1_serde::Deserialize, Eq, bsn1_serde::Serialize, PartialOrd, Clone, Hash, Ord)]
pub enum E6 {
    #[bsn1_serde(tag_num = 0x1d)]
    W19(),
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, id = Boolean, tag_num = 0x0)]
    Id(K3),
    #[bsn1_serde(tag_pc = CONSTRUCTED, tag_class = UNIVERSAL, tag_num = 0b0)]
    W5 {  },
    #[bsn1_serde(tag_num = 0b10000)]
    Data(),
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 0xf)]
    A,
}
impl RefCodec for E6 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(5) { 0 => { let s = s / 1; E6::W19() }, 1 => { let s = s / 1; E6::Id(<K3 as RefCodec>::gen(r, s)) }, 2 => { let s = s / 1; E6::W5 {  } }, 3 => { let s = s / 1; E6::Data() }, _ => { let s = s / 1; E6::A }, } }
    fn node(&self) -> Node { match self { E6::W19() => Node::Cons(vec![0x3d], vec![]), E6::Id(x0) => Node::Cons(vec![0x80], vec![RefCodec::node(x0)]), E6::W5 {  } => Node::Cons(vec![0x20], vec![]), E6::Data() => Node::Cons(vec![0x30], vec![]), E6::A => Node::Cons(vec![0x6f], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x3d] { e.want(&[0x3d])?; { let mut k = e.kids(m); k.end()?; Ok(E6::W19()) } } else if e.id == &[0x80] { e.want(&[0x80])?; { let mut k = e.kids(m); let v0: Option<K3> = k.field(); k.end()?; Ok(E6::Id(v0.unwrap())) } } else if e.id == &[0x20] { e.want(&[0x20])?; { let mut k = e.kids(m); k.end()?; Ok(E6::W5 {  }) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); k.end()?; Ok(E6::Data()) } } else if e.id == &[0x6f] { e.want(&[0x6f])?; { let mut k = e.kids(m); k.end()?; Ok(E6::A) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E6::W19() => Some(E6::W19()), E6::Id(x0) => Some(E6::Id(RefCodec::after(x0)?)), E6::W5 {  } => Some(E6::W5 {  }), E6::Data() => Some(E6::Data()), E6::A => Some(E6::A), } }
    fn wire(&self) -> Node { match self { E6::W19() => Node::Cons(vec![0x3d], vec![]), E6::Id(x0) => Node::Cons(vec![0x80], vec![RefCodec::wire(x0)]), E6::W5 {  } => Node::Cons(vec![0x20], vec![]), E6::Data() => Node::Cons(vec![0x30], vec![]), E6::A => Node::Cons(vec![0x6f], vec![]), } }
}
pub struct Host1;
impl Host1 { pub fn make() -> i64 { -1 } }
#[derive(PartialOrd, Ord, Clone, bsn1_serde::Serialize, Eq, Debug, PartialEq, Hash, bsn1_serde::Deserialize)]
pub enum E7 {
    #[bsn1_serde(id = Null)]
    W0,
    #[bsn1_serde(tag_num = 3695097275314192641431524276241013542)]
    V1 { val: std::collections::VecDeque<i16> },
    #[bsn1_serde(tag_num = 0x200000, tag_pc = CONSTRUCTED, tag_class = APPLICATION)]
    W3 {  },
    #[bsn1_serde(tag_num = 0b10000, tag_class = UNIVERSAL, tag_pc = PRIMITIVE)]
    C { #[bsn1_serde(default = "Host1::make", skip_deserializing)] n2: i64 },
}
impl RefCodec for E7 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(4) { 0 => { let s = s / 1; E7::W0 }, 1 => { let s = s / 1; E7::V1 { val: <std::collections::VecDeque<i16> as RefCodec>::gen(r, s) } }, 2 => { let s = s / 1; E7::W3 {  } }, _ => { let s = s / 1; E7::C { n2: <i64 as RefCodec>::gen(r, s) } }, } }
    fn node(&self) -> Node { match self { E7::W0 => Node::Cons(vec![0x05], vec![]), E7::V1 { val: x0 } => Node::Cons(vec![0x3f, 0x85, 0xc7, 0xd3, 0x97, 0x90, 0x8f, 0xab, 0xab, 0xb7, 0xc6, 0xd4, 0xca, 0xa8, 0xd0, 0xc5, 0xc6, 0xb6, 0x26], vec![RefCodec::node(x0)]), E7::W3 {  } => Node::Cons(vec![0x7f, 0x81, 0x80, 0x80, 0x00], vec![]), E7::C { n2: x0 } => Node::Cons(vec![0x10], vec![RefCodec::node(x0)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x05] { e.want(&[0x05])?; { let mut k = e.kids(m); k.end()?; Ok(E7::W0) } } else if e.id == &[0x3f, 0x85, 0xc7, 0xd3, 0x97, 0x90, 0x8f, 0xab, 0xab, 0xb7, 0xc6, 0xd4, 0xca, 0xa8, 0xd0, 0xc5, 0xc6, 0xb6, 0x26] { e.want(&[0x3f, 0x85, 0xc7, 0xd3, 0x97, 0x90, 0x8f, 0xab, 0xab, 0xb7, 0xc6, 0xd4, 0xca, 0xa8, 0xd0, 0xc5, 0xc6, 0xb6, 0x26])?; { let mut k = e.kids(m); let v0: Option<std::collections::VecDeque<i16>> = k.field(); k.end()?; Ok(E7::V1 { val: v0.unwrap() }) } } else if e.id == &[0x7f, 0x81, 0x80, 0x80, 0x00] { e.want(&[0x7f, 0x81, 0x80, 0x80, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E7::W3 {  }) } } else if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); k.end()?; Ok(E7::C { n2: -1 }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E7::W0 => Some(E7::W0), E7::V1 { val: x0 } => Some(E7::V1 { val: RefCodec::after(x0)? }), E7::W3 {  } => Some(E7::W3 {  }), E7::C { n2: x0 } => None, } }
    fn wire(&self) -> Node { match self { E7::W0 => Node::Cons(vec![0x05], vec![]), E7::V1 { val: x0 } => Node::Cons(vec![0x3f, 0x85, 0xc7, 0xd3, 0x97, 0x90, 0x8f, 0xab, 0xab, 0xb7, 0xc6, 0xd4, 0xca, 0xa8, 0xd0, 0xc5, 0xc6, 0xb6, 0x26], vec![RefCodec::wire(x0)]), E7::W3 {  } => Node::Cons(vec![0x7f, 0x81, 0x80, 0x80, 0x00], vec![]), E7::C { n2: x0 } => Node::Cons(vec![0x10], vec![]), } }
}
#[derive(bsn1_serde::Deserialize, Debug, Eq, PartialOrd, PartialEq, Hash, Clone, bsn1_serde::Serialize, Ord)]
pub enum E8 {
    #[bsn1_serde(tag_num = 32, id = Null, tag_class = UNIVERSAL)]
    A { #[bsn1_serde(try_from = "Vec<String>", into = "Vec<String>")] length: Picky<Vec<String>>, #[bsn1_serde(into = "Vec<u8>", try_from = "Vec<u8>")] n1: Picky<Vec<u8>>, b: K3, #[bsn1_serde(skip, skip_deserializing)] context: std::marker::PhantomData<String> },
    #[bsn1_serde(id = Sequence, tag_pc = PRIMITIVE)]
    W18(E7),
    #[bsn1_serde(tag_pc = CONSTRUCTED, tag_class = CONTEXT_SPECIFIC)]
    W0(#[bsn1_serde(skip_serializing)] LinkedList<bool>),
    #[bsn1_serde(tag_class = PRIVATE)]
    W13 { der: Quiet<String, 2> },
    W6 {  },
}
impl RefCodec for E8 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(5) { 0 => { let s = s / 4; E8::A { length: gen_picky::<Vec<String>>(r, s), n1: gen_picky::<Vec<u8>>(r, s), b: <K3 as RefCodec>::gen(r, s), context: std::marker::PhantomData } }, 1 => { let s = s / 1; E8::W18(<E7 as RefCodec>::gen(r, s)) }, 2 => { let s = s / 1; E8::W0(<LinkedList<bool> as RefCodec>::gen(r, s)) }, 3 => { let s = s / 1; E8::W13 { der: <Quiet<String, 2> as RefCodec>::gen(r, s) } }, _ => { let s = s / 1; E8::W6 {  } }, } }
    fn node(&self) -> Node { match self { E8::A { length: x0, n1: x1, b: x2, context: x3 } => Node::Cons(vec![0x1f, 0x20], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(&(x1.0.clone())), RefCodec::node(x2)]), E8::W18(x0) => Node::Cons(vec![0x10], vec![RefCodec::node(x0)]), E8::W0(x0) => Node::Cons(vec![0xb0], vec![]), E8::W13 { der: x0 } => Node::Cons(vec![0xf0], vec![RefCodec::node(x0)]), E8::W6 {  } => Node::Cons(vec![0x30], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x1f, 0x20] { e.want(&[0x1f, 0x20])?; { let mut k = e.kids(m); let v0: Option<Picky<Vec<String>>> = match k.next() { None => None, Some(e) => { let x = <Vec<String> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v1: Option<Picky<Vec<u8>>> = match k.next() { None => None, Some(e) => { let x = <Vec<u8> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v2: Option<K3> = k.field(); k.end()?; Ok(E8::A { length: v0.unwrap(), n1: v1.unwrap(), b: v2.unwrap(), context: Default::default() }) } } else if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); let v0: Option<E7> = k.field(); k.end()?; Ok(E8::W18(v0.unwrap())) } } else if e.id == &[0xb0] { e.want(&[0xb0])?; { let mut k = e.kids(m); let v0: Option<LinkedList<bool>> = k.field(); k.end()?; Ok(E8::W0(v0.unwrap())) } } else if e.id == &[0xf0] { e.want(&[0xf0])?; { let mut k = e.kids(m); let v0: Option<Quiet<String, 2>> = k.field(); k.end()?; Ok(E8::W13 { der: v0.unwrap() }) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); k.end()?; Ok(E8::W6 {  }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E8::A { length: x0, n1: x1, b: x2, context: x3 } => Some(E8::A { length: { let v = x0; if refuses(&v.0) { return None } v.clone() }, n1: { let v = x1; if refuses(&v.0) { return None } v.clone() }, b: RefCodec::after(x2)?, context: Default::default() }), E8::W18(x0) => Some(E8::W18(RefCodec::after(x0)?)), E8::W0(x0) => None, E8::W13 { der: x0 } => Some(E8::W13 { der: RefCodec::after(x0)? }), E8::W6 {  } => Some(E8::W6 {  }), } }
    fn wire(&self) -> Node { match self { E8::A { length: x0, n1: x1, b: x2, context: x3 } => Node::Cons(vec![0x1f, 0x20], vec![RefCodec::wire(&x0.0), RefCodec::wire(&x1.0), RefCodec::wire(x2)]), E8::W18(x0) => Node::Cons(vec![0x10], vec![RefCodec::wire(x0)]), E8::W0(x0) => Node::Cons(vec![0xb0], vec![RefCodec::wire(x0)]), E8::W13 { der: x0 } => Node::Cons(vec![0xf0], vec![RefCodec::wire(x0)]), E8::W6 {  } => Node::Cons(vec![0x30], vec![]), } }
}
#[derive(bsn1_serde::Deserialize, PartialOrd, Debug, Hash, Clone, PartialEq, bsn1_serde::Serialize, Ord, Eq)]
#[bsn1_serde(transparent)]
pub struct S9 { pub context: E6, #[bsn1_serde(skip)] pub contents: [u8; 3] }
impl RefCodec for S9 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 2; S9 { context: <E6 as RefCodec>::gen(r, s), contents: [r.u8(), r.u8(), r.u8()] } } }
    fn node(&self) -> Node { RefCodec::node((&self.context)) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; let v: E6 = RefCodec::dec(e, m)?; Ok(S9 { context: v, contents: Default::default() }) }
    fn after(&self) -> Option<Self> { Some(S9 { context: RefCodec::after((&self.context))?, contents: Default::default() }) }
    fn wire(&self) -> Node { RefCodec::wire((&self.context)) }
}
#[derive(Clone, PartialOrd, bsn1_serde::Serialize, PartialEq, Eq, Debug, bsn1_serde::Deserialize, Ord, Hash)]
#[bsn1_serde(from = "u8", to = "out_10")]
pub enum K10 { #[bsn1_serde(id = Set)] One(u8), #[allow(unused)] Two }
impl From<K10> for u8 { fn from(v: K10) -> Self { match v { K10::One(c) => c, K10::Two => unreachable!() } } }
pub fn out_10(v: &K10) -> u8 { match v { K10::One(c) => c.clone(), K10::Two => unreachable!() } }
impl K10 { pub fn out(&self) -> u8 { out_10(self) } }
impl From<u8> for K10 { fn from(c: u8) -> Self { K10::One(c) } }
impl RefCodec for K10 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <u8 as RefCodec>::gen(r, s); K10::One(c) }
    fn node(&self) -> Node { RefCodec::node((&out_10(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <u8 as RefCodec>::dec(e, m).and_then(|c| Ok(K10::One(c))) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_10(self)))?; Some(K10::One(c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_10(self))) }
}
#[derive(bsn1_serde::Deserialize, bsn1_serde::Serialize, Debug, Clone, PartialEq)]
pub enum E11 {
    #[bsn1_serde(id = Set, tag_class = PRIVATE)]
    W7,
    #[bsn1_serde(tag_class = UNIVERSAL)]
    C(#[bsn1_serde(from = "i64")] Num, #[bsn1_serde(skip_deserializing)] u8, #[bsn1_serde(to = "conv_ref", from = "HashSet<u16>")] Conv<HashSet<u16>>),
    #[bsn1_serde(id = Set)]
    Length(),
    #[bsn1_serde(id = Null, tag_num = 16)]
    W4(E7),
    #[bsn1_serde(id = Set, tag_class = CONTEXT_SPECIFIC)]
    W19 {  },
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 0xffffffffffffffff)]
    Unit { write: std::collections::VecDeque<i16> },
    #[bsn1_serde(tag_class = UNIVERSAL, tag_num = 1, id = Integer)]
    W12,
    #[bsn1_serde(tag_class = APPLICATION)]
    W15(),
    #[bsn1_serde(tag_class = UNIVERSAL, tag_pc = PRIMITIVE, tag_num = 0b10000000)]
    W16 { _under: K0 },
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 129)]
    Id(Vec<String>, #[bsn1_serde(skip)] std::marker::PhantomData<String>, #[bsn1_serde(try_from = "i64", into = "i64")] Picky<i64>, #[bsn1_serde(from = "BTreeMap<String, Vec<u8>>", to = "conv_ref")] Conv<BTreeMap<String, Vec<u8>>>),
    #[bsn1_serde(id = Null, tag_pc = PRIMITIVE)]
    W18 {  },
    #[bsn1_serde(tag_num = 0b11111111111111, id = Boolean, tag_pc = PRIMITIVE)]
    W5 {  },
    #[bsn1_serde(id = EOC, tag_class = PRIVATE)]
    W2(#[bsn1_serde(into = "String", from = "String")] Conv<String>, HashMap<String, u8>),
    #[bsn1_serde(id = Integer)]
    One { r#match: E4<K0> },
    #[bsn1_serde(tag_class = UNIVERSAL, tag_num = 0o17, id = Sequence)]
    V1(i16, #[bsn1_serde(skip)] Option<u8>),
    #[bsn1_serde(id = Null, tag_num = 0x4000, tag_class = UNIVERSAL)]
    W0(),
}
impl RefCodec for E11 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(16) { 0 => { let s = s / 1; E11::W7 }, 1 => { let s = s / 3; E11::C(<Num as RefCodec>::gen(r, s), <u8 as RefCodec>::gen(r, s), Conv(<HashSet<u16> as RefCodec>::gen(r, s))) }, 2 => { let s = s / 1; E11::Length() }, 3 => { let s = s / 1; E11::W4(<E7 as RefCodec>::gen(r, s)) }, 4 => { let s = s / 1; E11::W19 {  } }, 5 => { let s = s / 1; E11::Unit { write: <std::collections::VecDeque<i16> as RefCodec>::gen(r, s) } }, 6 => { let s = s / 1; E11::W12 }, 7 => { let s = s / 1; E11::W15() }, 8 => { let s = s / 1; E11::W16 { _under: <K0 as RefCodec>::gen(r, s) } }, 9 => { let s = s / 4; E11::Id(<Vec<String> as RefCodec>::gen(r, s), std::marker::PhantomData, gen_picky::<i64>(r, s), Conv(<BTreeMap<String, Vec<u8>> as RefCodec>::gen(r, s))) }, 10 => { let s = s / 1; E11::W18 {  } }, 11 => { let s = s / 1; E11::W5 {  } }, 12 => { let s = s / 2; E11::W2(Conv(<String as RefCodec>::gen(r, s)), <HashMap<String, u8> as RefCodec>::gen(r, s)) }, 13 => { let s = s / 1; E11::One { r#match: <E4<K0> as RefCodec>::gen(r, s) } }, 14 => { let s = s / 2; E11::V1(<i16 as RefCodec>::gen(r, s), if r.chance(1, 2) { Some(r.u8()) } else { None }) }, _ => { let s = s / 1; E11::W0() }, } }
    fn node(&self) -> Node { match self { E11::W7 => Node::Cons(vec![0xf1], vec![]), E11::C(x0, x1, x2) => Node::Cons(vec![0x30], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(&(x2.0.clone()))]), E11::Length() => Node::Cons(vec![0x31], vec![]), E11::W4(x0) => Node::Cons(vec![0x10], vec![RefCodec::node(x0)]), E11::W19 {  } => Node::Cons(vec![0xb1], vec![]), E11::Unit { write: x0 } => Node::Cons(vec![0xbf, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![RefCodec::node(x0)]), E11::W12 => Node::Cons(vec![0x01], vec![]), E11::W15() => Node::Cons(vec![0x70], vec![]), E11::W16 { _under: x0 } => Node::Cons(vec![0x1f, 0x81, 0x00], vec![RefCodec::node(x0)]), E11::Id(x0, x1, x2, x3) => Node::Cons(vec![0x1f, 0x81, 0x01], vec![RefCodec::node(x0), RefCodec::node(&(x2.0.clone())), RefCodec::node(&(x3.0.clone()))]), E11::W18 {  } => Node::Cons(vec![0x05], vec![]), E11::W5 {  } => Node::Cons(vec![0x1f, 0xff, 0x7f], vec![]), E11::W2(x0, x1) => Node::Cons(vec![0xc0], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(x1)]), E11::One { r#match: x0 } => Node::Cons(vec![0x02], vec![RefCodec::node(x0)]), E11::V1(x0, x1) => Node::Cons(vec![0x2f], vec![RefCodec::node(x0)]), E11::W0() => Node::Cons(vec![0x1f, 0x81, 0x80, 0x00], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0xf1] { e.want(&[0xf1])?; { let mut k = e.kids(m); k.end()?; Ok(E11::W7) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); let v0: Option<Num> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Num(c.wrapping_sub(1).wrapping_div(3) as i32))); k.keep(x) } }; let v2: Option<Conv<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E11::C(v0.unwrap(), Default::default(), v2.unwrap())) } } else if e.id == &[0x31] { e.want(&[0x31])?; { let mut k = e.kids(m); k.end()?; Ok(E11::Length()) } } else if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); let v0: Option<E7> = k.field(); k.end()?; Ok(E11::W4(v0.unwrap())) } } else if e.id == &[0xb1] { e.want(&[0xb1])?; { let mut k = e.kids(m); k.end()?; Ok(E11::W19 {  }) } } else if e.id == &[0xbf, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f] { e.want(&[0xbf, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f])?; { let mut k = e.kids(m); let v0: Option<std::collections::VecDeque<i16>> = k.field(); k.end()?; Ok(E11::Unit { write: v0.unwrap() }) } } else if e.id == &[0x01] { e.want(&[0x01])?; { let mut k = e.kids(m); k.end()?; Ok(E11::W12) } } else if e.id == &[0x70] { e.want(&[0x70])?; { let mut k = e.kids(m); k.end()?; Ok(E11::W15()) } } else if e.id == &[0x1f, 0x81, 0x00] { e.want(&[0x1f, 0x81, 0x00])?; { let mut k = e.kids(m); let v0: Option<K0> = k.field(); k.end()?; Ok(E11::W16 { _under: v0.unwrap() }) } } else if e.id == &[0x1f, 0x81, 0x01] { e.want(&[0x1f, 0x81, 0x01])?; { let mut k = e.kids(m); let v0: Option<Vec<String>> = k.field(); let v2: Option<Picky<i64>> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v3: Option<Conv<BTreeMap<String, Vec<u8>>>> = match k.next() { None => None, Some(e) => { let x = <BTreeMap<String, Vec<u8>> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E11::Id(v0.unwrap(), Default::default(), v2.unwrap(), v3.unwrap())) } } else if e.id == &[0x05] { e.want(&[0x05])?; { let mut k = e.kids(m); k.end()?; Ok(E11::W18 {  }) } } else if e.id == &[0x1f, 0xff, 0x7f] { e.want(&[0x1f, 0xff, 0x7f])?; { let mut k = e.kids(m); k.end()?; Ok(E11::W5 {  }) } } else if e.id == &[0xc0] { e.want(&[0xc0])?; { let mut k = e.kids(m); let v0: Option<Conv<String>> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v1: Option<HashMap<String, u8>> = k.field(); k.end()?; Ok(E11::W2(v0.unwrap(), v1.unwrap())) } } else if e.id == &[0x02] { e.want(&[0x02])?; { let mut k = e.kids(m); let v0: Option<E4<K0>> = k.field(); k.end()?; Ok(E11::One { r#match: v0.unwrap() }) } } else if e.id == &[0x2f] { e.want(&[0x2f])?; { let mut k = e.kids(m); let v0: Option<i16> = k.field(); k.end()?; Ok(E11::V1(v0.unwrap(), Default::default())) } } else if e.id == &[0x1f, 0x81, 0x80, 0x00] { e.want(&[0x1f, 0x81, 0x80, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E11::W0()) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E11::W7 => Some(E11::W7), E11::C(x0, x1, x2) => None, E11::Length() => Some(E11::Length()), E11::W4(x0) => Some(E11::W4(RefCodec::after(x0)?)), E11::W19 {  } => Some(E11::W19 {  }), E11::Unit { write: x0 } => Some(E11::Unit { write: RefCodec::after(x0)? }), E11::W12 => Some(E11::W12), E11::W15() => Some(E11::W15()), E11::W16 { _under: x0 } => Some(E11::W16 { _under: RefCodec::after(x0)? }), E11::Id(x0, x1, x2, x3) => Some(E11::Id(RefCodec::after(x0)?, Default::default(), { let v = x2; if refuses(&v.0) { return None } v.clone() }, x3.clone())), E11::W18 {  } => Some(E11::W18 {  }), E11::W5 {  } => Some(E11::W5 {  }), E11::W2(x0, x1) => Some(E11::W2(x0.clone(), RefCodec::after(x1)?)), E11::One { r#match: x0 } => Some(E11::One { r#match: RefCodec::after(x0)? }), E11::V1(x0, x1) => Some(E11::V1(RefCodec::after(x0)?, Default::default())), E11::W0() => Some(E11::W0()), } }
    fn wire(&self) -> Node { match self { E11::W7 => Node::Cons(vec![0xf1], vec![]), E11::C(x0, x1, x2) => Node::Cons(vec![0x30], vec![RefCodec::node(&(x0.0 as i64 * 3 + 1)), RefCodec::wire(&x2.0)]), E11::Length() => Node::Cons(vec![0x31], vec![]), E11::W4(x0) => Node::Cons(vec![0x10], vec![RefCodec::wire(x0)]), E11::W19 {  } => Node::Cons(vec![0xb1], vec![]), E11::Unit { write: x0 } => Node::Cons(vec![0xbf, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![RefCodec::wire(x0)]), E11::W12 => Node::Cons(vec![0x01], vec![]), E11::W15() => Node::Cons(vec![0x70], vec![]), E11::W16 { _under: x0 } => Node::Cons(vec![0x1f, 0x81, 0x00], vec![RefCodec::wire(x0)]), E11::Id(x0, x1, x2, x3) => Node::Cons(vec![0x1f, 0x81, 0x01], vec![RefCodec::wire(x0), RefCodec::wire(&x2.0), RefCodec::wire(&x3.0)]), E11::W18 {  } => Node::Cons(vec![0x05], vec![]), E11::W5 {  } => Node::Cons(vec![0x1f, 0xff, 0x7f], vec![]), E11::W2(x0, x1) => Node::Cons(vec![0xc0], vec![RefCodec::wire(&x0.0), RefCodec::wire(x1)]), E11::One { r#match: x0 } => Node::Cons(vec![0x02], vec![RefCodec::wire(x0)]), E11::V1(x0, x1) => Node::Cons(vec![0x2f], vec![RefCodec::wire(x0)]), E11::W0() => Node::Cons(vec![0x1f, 0x81, 0x80, 0x00], vec![]), } }
}
#[derive(Eq, bsn1_serde::Serialize, Clone, Ord, PartialEq, Hash, PartialOrd, bsn1_serde::Deserialize, Debug)]
pub enum E12 {
    #[bsn1_serde(tag_class = PRIVATE, id = OctetString)]
    W5 { #[bsn1_serde(into = "String")] val: Num, #[bsn1_serde(skip)] write: (u8, bool) },
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_class = APPLICATION, id = Boolean)]
    Unit(#[bsn1_serde(skip_serializing)] i32, K3),
    #[bsn1_serde(tag_num = 15, tag_class = CONTEXT_SPECIFIC)]
    W17,
    #[bsn1_serde(id = Real)]
    W8(Quiet<String, 2>),
}
impl RefCodec for E12 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(4) { 0 => { let s = s / 2; E12::W5 { val: <Num as RefCodec>::gen(r, s), write: (r.u8(), r.chance(1, 2)) } }, 1 => { let s = s / 2; E12::Unit(<i32 as RefCodec>::gen(r, s), <K3 as RefCodec>::gen(r, s)) }, 2 => { let s = s / 1; E12::W17 }, _ => { let s = s / 1; E12::W8(<Quiet<String, 2> as RefCodec>::gen(r, s)) }, } }
    fn node(&self) -> Node { match self { E12::W5 { val: x0, write: x1 } => Node::Cons(vec![0xc4], vec![RefCodec::node(&(x0.0.to_string()))]), E12::Unit(x0, x1) => Node::Cons(vec![0x41], vec![RefCodec::node(x1)]), E12::W17 => Node::Cons(vec![0xaf], vec![]), E12::W8(x0) => Node::Cons(vec![0x09], vec![RefCodec::node(x0)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0xc4] { e.want(&[0xc4])?; { let mut k = e.kids(m); let v0: Option<Num> = k.field(); k.end()?; Ok(E12::W5 { val: v0.unwrap(), write: Default::default() }) } } else if e.id == &[0x41] { e.want(&[0x41])?; { let mut k = e.kids(m); let v0: Option<i32> = k.field(); let v1: Option<K3> = k.field(); k.end()?; Ok(E12::Unit(v0.unwrap(), v1.unwrap())) } } else if e.id == &[0xaf] { e.want(&[0xaf])?; { let mut k = e.kids(m); k.end()?; Ok(E12::W17) } } else if e.id == &[0x09] { e.want(&[0x09])?; { let mut k = e.kids(m); let v0: Option<Quiet<String, 2>> = k.field(); k.end()?; Ok(E12::W8(v0.unwrap())) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E12::W5 { val: x0, write: x1 } => None, E12::Unit(x0, x1) => None, E12::W17 => Some(E12::W17), E12::W8(x0) => Some(E12::W8(RefCodec::after(x0)?)), } }
    fn wire(&self) -> Node { match self { E12::W5 { val: x0, write: x1 } => Node::Cons(vec![0xc4], vec![RefCodec::wire(x0)]), E12::Unit(x0, x1) => Node::Cons(vec![0x41], vec![RefCodec::wire(x0), RefCodec::wire(x1)]), E12::W17 => Node::Cons(vec![0xaf], vec![]), E12::W8(x0) => Node::Cons(vec![0x09], vec![RefCodec::wire(x0)]), } }
}
#[derive(Ord, Clone, PartialOrd, PartialEq, Hash, bsn1_serde::Serialize, Eq, bsn1_serde::Deserialize, Debug)]
pub enum E13 {
    #[bsn1_serde(tag_class = PRIVATE)]
    V2(),
    #[bsn1_serde(tag_pc = PRIMITIVE, id = Real, tag_num = 0b1111, tag_class = PRIVATE)]
    W17 {  },
}
impl RefCodec for E13 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(2) { 0 => { let s = s / 1; E13::V2() }, _ => { let s = s / 1; E13::W17 {  } }, } }
    fn node(&self) -> Node { match self { E13::V2() => Node::Cons(vec![0xf0], vec![]), E13::W17 {  } => Node::Cons(vec![0xcf], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0xf0] { e.want(&[0xf0])?; { let mut k = e.kids(m); k.end()?; Ok(E13::V2()) } } else if e.id == &[0xcf] { e.want(&[0xcf])?; { let mut k = e.kids(m); k.end()?; Ok(E13::W17 {  }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E13::V2() => Some(E13::V2()), E13::W17 {  } => Some(E13::W17 {  }), } }
    fn wire(&self) -> Node { match self { E13::V2() => Node::Cons(vec![0xf0], vec![]), E13::W17 {  } => Node::Cons(vec![0xcf], vec![]), } }
}
#[derive(Eq, Ord, bsn1_serde::Serialize, Clone, PartialEq, PartialOrd, Hash, bsn1_serde::Deserialize, Debug)]
#[bsn1_serde(tag_num = 0b10000, tag_pc = PRIMITIVE, id = Set)]
pub struct S14;
impl RefCodec for S14 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S14 } }
    fn node(&self) -> Node { Node::Cons(vec![0x10], vec![]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x10])?; let mut k = e.kids(m); k.end()?; Ok(S14) }
    fn after(&self) -> Option<Self> { Some(S14) }
    fn wire(&self) -> Node { Node::Cons(vec![0x10], vec![]) }
}
#[derive(bsn1_serde::Serialize, PartialEq, Clone, Ord, Eq, Debug, Hash, PartialOrd, bsn1_serde::Deserialize)]
pub enum E15 {
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_class = APPLICATION)]
    W11(),
    #[bsn1_serde(tag_num = 0b0)]
    W0,
}
impl RefCodec for E15 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(2) { 0 => { let s = s / 1; E15::W11() }, _ => { let s = s / 1; E15::W0 }, } }
    fn node(&self) -> Node { match self { E15::W11() => Node::Cons(vec![0x50], vec![]), E15::W0 => Node::Cons(vec![0x20], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x50] { e.want(&[0x50])?; { let mut k = e.kids(m); k.end()?; Ok(E15::W11()) } } else if e.id == &[0x20] { e.want(&[0x20])?; { let mut k = e.kids(m); k.end()?; Ok(E15::W0) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E15::W11() => Some(E15::W11()), E15::W0 => Some(E15::W0), } }
    fn wire(&self) -> Node { match self { E15::W11() => Node::Cons(vec![0x50], vec![]), E15::W0 => Node::Cons(vec![0x20], vec![]), } }
}
#[derive(Ord, Debug, Eq, bsn1_serde::Deserialize, PartialOrd, PartialEq, Hash, Clone, bsn1_serde::Serialize)]
#[bsn1_serde(tag_num = 16384, tag_pc = CONSTRUCTED, id = Real)]
pub struct S16(#[bsn1_serde(from = "String", into = "String")] pub Conv<String>);
impl RefCodec for S16 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S16(Conv(<String as RefCodec>::gen(r, s))) } }
    fn node(&self) -> Node { Node::Cons(vec![0x3f, 0x81, 0x80, 0x00], vec![RefCodec::node(&((&self.0).0.clone()))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x3f, 0x81, 0x80, 0x00])?; let mut k = e.kids(m); let v0: Option<Conv<String>> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(S16(v0.unwrap())) }
    fn after(&self) -> Option<Self> { Some(S16((&self.0).clone())) }
    fn wire(&self) -> Node { Node::Cons(vec![0x3f, 0x81, 0x80, 0x00], vec![RefCodec::wire(&(&self.0).0)]) }
}
#[derive(PartialOrd, Eq, Ord, Debug, bsn1_serde::Deserialize, Clone, PartialEq, Hash, bsn1_serde::Serialize)]
#[bsn1_serde(id = OctetString, tag_num = 0x3FFF)]
pub struct S17<T0: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize + Sized> { #[bsn1_serde(skip_serializing, skip)] pub length: usize, #[bsn1_serde(skip, skip_serializing)] pub n6: u32, pub x: T0 }
impl<T0: RefCodec> RefCodec for S17<T0> {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 3; S17 { length: <usize as RefCodec>::gen(r, s), n6: <u32 as RefCodec>::gen(r, s), x: <T0 as RefCodec>::gen(r, s) } } }
    fn node(&self) -> Node { Node::Cons(vec![0x1f, 0xff, 0x7f], vec![RefCodec::node((&self.x))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x1f, 0xff, 0x7f])?; let mut k = e.kids(m); let v2: Option<T0> = k.field(); k.end()?; Ok(S17 { length: Default::default(), n6: Default::default(), x: v2.unwrap() }) }
    fn after(&self) -> Option<Self> { Some(S17 { length: Default::default(), n6: Default::default(), x: RefCodec::after((&self.x))? }) }
    fn wire(&self) -> Node { Node::Cons(vec![0x1f, 0xff, 0x7f], vec![RefCodec::wire((&self.x))]) }
}
#[derive(Debug, bsn1_serde::Deserialize, PartialEq, bsn1_serde::Serialize, Clone)]
#[bsn1_serde(into = "E11", try_from = "E11")]
pub struct K18 { #[bsn1_serde(skip)] pub note: bool, pub inner: E11 }
impl From<K18> for E11 { fn from(v: K18) -> Self { v.inner } }
pub fn out_18(v: &K18) -> E11 { v.inner.clone() }
impl K18 { pub fn out(&self) -> E11 { out_18(self) } }
impl TryFrom<E11> for K18 { type Error = Refused; fn try_from(c: E11) -> Result<Self, Refused> { if refuses(&c) { Err(Refused(format!("{:?}", c))) } else { Ok(K18 { note: false, inner: c }) } } }
impl RefCodec for K18 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <E11 as RefCodec>::gen(r, s); K18 { note: r.chance(1, 2), inner: c } }
    fn node(&self) -> Node { RefCodec::node((&out_18(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <E11 as RefCodec>::dec(e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(K18 { note: false, inner: c }) }) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_18(self)))?; if refuses(&c) { return None } Some(K18 { note: false, inner: c }) }
    fn wire(&self) -> Node { RefCodec::wire((&out_18(self))) }
}
#[derive(bsn1_serde::Serialize, Eq, bsn1_serde::Deserialize, PartialOrd, Clone, PartialEq, Debug, Hash, Ord)]
#[bsn1_serde(tag_num = 0x3FFF, tag_class = APPLICATION, tag_pc = CONSTRUCTED, id = Boolean)]
pub struct S19();
impl RefCodec for S19 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S19() } }
    fn node(&self) -> Node { Node::Cons(vec![0x7f, 0xff, 0x7f], vec![]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x7f, 0xff, 0x7f])?; let mut k = e.kids(m); k.end()?; Ok(S19()) }
    fn after(&self) -> Option<Self> { Some(S19()) }
    fn wire(&self) -> Node { Node::Cons(vec![0x7f, 0xff, 0x7f], vec![]) }
}
#[derive(bsn1_serde::Serialize, PartialEq, Eq, PartialOrd, Hash, Clone, bsn1_serde::Deserialize, Debug, Ord)]
#[bsn1_serde(transparent)]
pub struct S20 { pub der: E1 }
impl RefCodec for S20 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S20 { der: <E1 as RefCodec>::gen(r, s) } } }
    fn node(&self) -> Node { RefCodec::node((&self.der)) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; let v: E1 = RefCodec::dec(e, m)?; Ok(S20 { der: v }) }
    fn after(&self) -> Option<Self> { Some(S20 { der: RefCodec::after((&self.der))? }) }
    fn wire(&self) -> Node { RefCodec::wire((&self.der)) }
}
#[derive(PartialEq, Debug, Clone, bsn1_serde::Deserialize, bsn1_serde::Serialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_pc = CONSTRUCTED)]
pub struct S21<T0: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize, T1>(pub T0, #[bsn1_serde(skip, skip_deserializing)] pub std::marker::PhantomData<String>, pub T1, #[bsn1_serde(skip_serializing, skip)] pub std::time::Duration, #[bsn1_serde(into = "HashSet<u16>", from = "HashSet<u16>")] pub Conv<HashSet<u16>>, pub K10, pub u8, #[bsn1_serde(skip_serializing, skip_deserializing)] pub Num, pub E6, #[bsn1_serde(to = "picky_ref", try_from = "Vec<u8>")] pub Picky<Vec<u8>>, #[bsn1_serde(skip)] pub std::time::Duration, #[bsn1_serde(into = "u128", from = "u128")] pub Conv<u128>, pub E4<K0>, pub K3, pub E13, pub u8, #[bsn1_serde(try_from = "HashSet<u16>", to = "picky_ref")] pub Picky<HashSet<u16>>) where T1: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize;
impl<T0: RefCodec, T1: RefCodec> RefCodec for S21<T0, T1> {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 17; S21(<T0 as RefCodec>::gen(r, s), std::marker::PhantomData, <T1 as RefCodec>::gen(r, s), std::time::Duration::from_millis(r.below(5000) as u64), Conv(<HashSet<u16> as RefCodec>::gen(r, s)), <K10 as RefCodec>::gen(r, s), <u8 as RefCodec>::gen(r, s), <Num as RefCodec>::gen(r, s), <E6 as RefCodec>::gen(r, s), gen_picky::<Vec<u8>>(r, s), std::time::Duration::from_millis(r.below(5000) as u64), Conv(<u128 as RefCodec>::gen(r, s)), <E4<K0> as RefCodec>::gen(r, s), <K3 as RefCodec>::gen(r, s), <E13 as RefCodec>::gen(r, s), <u8 as RefCodec>::gen(r, s), gen_picky::<HashSet<u16>>(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0xf0], vec![RefCodec::node((&self.0)), RefCodec::node((&self.2)), RefCodec::node(&((&self.4).0.clone())), RefCodec::node((&self.5)), RefCodec::node((&self.6)), RefCodec::node((&self.8)), RefCodec::node(&((&self.9).0.clone())), RefCodec::node(&((&self.11).0.clone())), RefCodec::node((&self.12)), RefCodec::node((&self.13)), RefCodec::node((&self.14)), RefCodec::node((&self.15)), RefCodec::node(&((&self.16).0.clone()))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0xf0])?; let mut k = e.kids(m); let v0: Option<T0> = k.field(); let v2: Option<T1> = k.field(); let v4: Option<Conv<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v5: Option<K10> = k.field(); let v6: Option<u8> = k.field(); let v8: Option<E6> = k.field(); let v9: Option<Picky<Vec<u8>>> = match k.next() { None => None, Some(e) => { let x = <Vec<u8> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v11: Option<Conv<u128>> = match k.next() { None => None, Some(e) => { let x = <u128 as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v12: Option<E4<K0>> = k.field(); let v13: Option<K3> = k.field(); let v14: Option<E13> = k.field(); let v15: Option<u8> = k.field(); let v16: Option<Picky<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(S21(v0.unwrap(), Default::default(), v2.unwrap(), Default::default(), v4.unwrap(), v5.unwrap(), v6.unwrap(), Default::default(), v8.unwrap(), v9.unwrap(), Default::default(), v11.unwrap(), v12.unwrap(), v13.unwrap(), v14.unwrap(), v15.unwrap(), v16.unwrap())) }
    fn after(&self) -> Option<Self> { Some(S21(RefCodec::after((&self.0))?, Default::default(), RefCodec::after((&self.2))?, Default::default(), (&self.4).clone(), RefCodec::after((&self.5))?, RefCodec::after((&self.6))?, Default::default(), RefCodec::after((&self.8))?, { let v = (&self.9); if refuses(&v.0) { return None } v.clone() }, Default::default(), (&self.11).clone(), RefCodec::after((&self.12))?, RefCodec::after((&self.13))?, RefCodec::after((&self.14))?, RefCodec::after((&self.15))?, { let v = (&self.16); if refuses(&v.0) { return None } v.clone() })) }
    fn wire(&self) -> Node { Node::Cons(vec![0xf0], vec![RefCodec::wire((&self.0)), RefCodec::wire((&self.2)), RefCodec::wire(&(&self.4).0), RefCodec::wire((&self.5)), RefCodec::wire((&self.6)), RefCodec::wire((&self.8)), RefCodec::wire(&(&self.9).0), RefCodec::wire(&(&self.11).0), RefCodec::wire((&self.12)), RefCodec::wire((&self.13)), RefCodec::wire((&self.14)), RefCodec::wire((&self.15)), RefCodec::wire(&(&self.16).0)]) }
}
#[derive(PartialOrd, bsn1_serde::Deserialize, Ord, Hash, Clone, Eq, PartialEq, Debug, bsn1_serde::Serialize)]
pub enum E22 {
    #[bsn1_serde(id = Real, tag_pc = CONSTRUCTED, tag_num = 0xffffffffffffffff)]
    A {  },
}
impl RefCodec for E22 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(1) { _ => { let s = s / 1; E22::A {  } }, } }
    fn node(&self) -> Node { match self { E22::A {  } => Node::Cons(vec![0x3f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x3f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f] { e.want(&[0x3f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f])?; { let mut k = e.kids(m); k.end()?; Ok(E22::A {  }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E22::A {  } => Some(E22::A {  }), } }
    fn wire(&self) -> Node { match self { E22::A {  } => Node::Cons(vec![0x3f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![]), } }
}
#[derive(Clone, bsn1_serde::Serialize, PartialEq, bsn1_serde::Deserialize, Debug)]
pub enum E23 {
    #[bsn1_serde(tag_num = 127, tag_class = APPLICATION)]
    A {  },
    #[bsn1_serde(tag_class = APPLICATION, tag_pc = CONSTRUCTED)]
    W12(S5<OctetString<'static>>),
}
impl RefCodec for E23 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(2) { 0 => { let s = s / 1; E23::A {  } }, _ => { let s = s / 1; E23::W12(<S5<OctetString<'static>> as RefCodec>::gen(r, s)) }, } }
    fn node(&self) -> Node { match self { E23::A {  } => Node::Cons(vec![0x7f, 0x7f], vec![]), E23::W12(x0) => Node::Cons(vec![0x70], vec![RefCodec::node(x0)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x7f, 0x7f] { e.want(&[0x7f, 0x7f])?; { let mut k = e.kids(m); k.end()?; Ok(E23::A {  }) } } else if e.id == &[0x70] { e.want(&[0x70])?; { let mut k = e.kids(m); let v0: Option<S5<OctetString<'static>>> = k.field(); k.end()?; Ok(E23::W12(v0.unwrap())) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E23::A {  } => Some(E23::A {  }), E23::W12(x0) => Some(E23::W12(RefCodec::after(x0)?)), } }
    fn wire(&self) -> Node { match self { E23::A {  } => Node::Cons(vec![0x7f, 0x7f], vec![]), E23::W12(x0) => Node::Cons(vec![0x70], vec![RefCodec::wire(x0)]), } }
}
#[derive(bsn1_serde::Serialize, PartialEq, bsn1_serde::Deserialize, Clone, Debug)]
pub enum E24 {
    #[bsn1_serde(tag_num = 0b100110001010010010010011101011101101101011000111110000010111110011010111101010101101110010101000111010011100011010011110110101)]
    Data(E15, #[bsn1_serde(skip)] Vec<Vec<i32>>, S21<u128, std::collections::VecDeque<i16>>, BTreeMap<u8, String>, #[bsn1_serde(try_from = "u128", to = "picky_ref")] Picky<u128>, E7),
}
impl RefCodec for E24 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(1) { _ => { let s = s / 6; E24::Data(<E15 as RefCodec>::gen(r, s), <Vec<Vec<i32>> as RefCodec>::gen(r, s), <S21<u128, std::collections::VecDeque<i16>> as RefCodec>::gen(r, s), <BTreeMap<u8, String> as RefCodec>::gen(r, s), gen_picky::<u128>(r, s), <E7 as RefCodec>::gen(r, s)) }, } }
    fn node(&self) -> Node { match self { E24::Data(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x3f, 0xcc, 0xa9, 0x92, 0xba, 0xf6, 0xeb, 0x8f, 0xc1, 0xbe, 0xb5, 0xf5, 0xad, 0xe5, 0xa3, 0xd3, 0xc6, 0xcf, 0x35], vec![RefCodec::node(x0), RefCodec::node(x2), RefCodec::node(x3), RefCodec::node(&(x4.0.clone())), RefCodec::node(x5)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x3f, 0xcc, 0xa9, 0x92, 0xba, 0xf6, 0xeb, 0x8f, 0xc1, 0xbe, 0xb5, 0xf5, 0xad, 0xe5, 0xa3, 0xd3, 0xc6, 0xcf, 0x35] { e.want(&[0x3f, 0xcc, 0xa9, 0x92, 0xba, 0xf6, 0xeb, 0x8f, 0xc1, 0xbe, 0xb5, 0xf5, 0xad, 0xe5, 0xa3, 0xd3, 0xc6, 0xcf, 0x35])?; { let mut k = e.kids(m); let v0: Option<E15> = k.field(); let v2: Option<S21<u128, std::collections::VecDeque<i16>>> = k.field(); let v3: Option<BTreeMap<u8, String>> = k.field(); let v4: Option<Picky<u128>> = match k.next() { None => None, Some(e) => { let x = <u128 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v5: Option<E7> = k.field(); k.end()?; Ok(E24::Data(v0.unwrap(), Default::default(), v2.unwrap(), v3.unwrap(), v4.unwrap(), v5.unwrap())) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E24::Data(x0, x1, x2, x3, x4, x5) => Some(E24::Data(RefCodec::after(x0)?, Default::default(), RefCodec::after(x2)?, RefCodec::after(x3)?, { let v = x4; if refuses(&v.0) { return None } v.clone() }, RefCodec::after(x5)?)), } }
    fn wire(&self) -> Node { match self { E24::Data(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x3f, 0xcc, 0xa9, 0x92, 0xba, 0xf6, 0xeb, 0x8f, 0xc1, 0xbe, 0xb5, 0xf5, 0xad, 0xe5, 0xa3, 0xd3, 0xc6, 0xcf, 0x35], vec![RefCodec::wire(x0), RefCodec::wire(x2), RefCodec::wire(x3), RefCodec::wire(&x4.0), RefCodec::wire(x5)]), } }
}
#[derive(Hash, Debug, Eq, Clone, PartialEq, bsn1_serde::Deserialize, Ord, bsn1_serde::Serialize, PartialOrd)]
pub struct S25<T0>(pub T0) where T0: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize;
impl<T0: RefCodec> RefCodec for S25<T0> {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S25(<T0 as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::node((&self.0))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x30])?; let mut k = e.kids(m); let v0: Option<T0> = k.field(); k.end()?; Ok(S25(v0.unwrap())) }
    fn after(&self) -> Option<Self> { Some(S25(RefCodec::after((&self.0))?)) }
    fn wire(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::wire((&self.0))]) }
}
#[derive(bsn1_serde::Deserialize, Debug, Clone, bsn1_serde::Serialize, PartialEq)]
#[bsn1_serde(tag_pc = CONSTRUCTED, tag_class = PRIVATE)]
pub struct S26<T0: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize + Sized, T1: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize>(#[bsn1_serde(to = "conv_ref", from = "BTreeMap<String, Vec<u8>>")] pub Conv<BTreeMap<String, Vec<u8>>>, pub T0, pub Quiet<i8, 3>, pub E22, pub T1, pub S25<isize>);
impl<T0: RefCodec, T1: RefCodec> RefCodec for S26<T0, T1> {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 6; S26(Conv(<BTreeMap<String, Vec<u8>> as RefCodec>::gen(r, s)), <T0 as RefCodec>::gen(r, s), <Quiet<i8, 3> as RefCodec>::gen(r, s), <E22 as RefCodec>::gen(r, s), <T1 as RefCodec>::gen(r, s), <S25<isize> as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0xf0], vec![RefCodec::node(&((&self.0).0.clone())), RefCodec::node((&self.1)), RefCodec::node((&self.2)), RefCodec::node((&self.3)), RefCodec::node((&self.4)), RefCodec::node((&self.5))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0xf0])?; let mut k = e.kids(m); let v0: Option<Conv<BTreeMap<String, Vec<u8>>>> = match k.next() { None => None, Some(e) => { let x = <BTreeMap<String, Vec<u8>> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v1: Option<T0> = k.field(); let v2: Option<Quiet<i8, 3>> = k.field(); let v3: Option<E22> = k.field(); let v4: Option<T1> = k.field(); let v5: Option<S25<isize>> = k.field(); k.end()?; Ok(S26(v0.unwrap(), v1.unwrap(), v2.unwrap(), v3.unwrap(), v4.unwrap(), v5.unwrap())) }
    fn after(&self) -> Option<Self> { Some(S26((&self.0).clone(), RefCodec::after((&self.1))?, RefCodec::after((&self.2))?, RefCodec::after((&self.3))?, RefCodec::after((&self.4))?, RefCodec::after((&self.5))?)) }
    fn wire(&self) -> Node { Node::Cons(vec![0xf0], vec![RefCodec::wire(&(&self.0).0), RefCodec::wire((&self.1)), RefCodec::wire((&self.2)), RefCodec::wire((&self.3)), RefCodec::wire((&self.4)), RefCodec::wire((&self.5))]) }
}
#[derive(bsn1_serde::Serialize, Debug, PartialEq, Clone, bsn1_serde::Deserialize)]
pub enum E27 {
    #[bsn1_serde(tag_num = 0o1, tag_pc = PRIMITIVE, id = Boolean)]
    Unit { c: u128, length: i64 },
    #[bsn1_serde(tag_num = 0xf, id = Integer, tag_class = PRIVATE)]
    W14,
    #[bsn1_serde(tag_num = 0x1f, id = UTF8String, tag_pc = PRIMITIVE)]
    Error(),
    #[bsn1_serde(tag_pc = PRIMITIVE, id = Sequence)]
    W16(#[bsn1_serde(skip_serializing)] u64),
    #[bsn1_serde(tag_class = APPLICATION, id = OctetString)]
    A,
    #[bsn1_serde(tag_num = 0o1543453, tag_class = PRIVATE)]
    One,
    Data,
    #[bsn1_serde(tag_num = 0o10000000, id = EOC, tag_pc = PRIMITIVE, tag_class = APPLICATION)]
    Nothing(),
    #[bsn1_serde(id = Set, tag_pc = PRIMITIVE, tag_class = CONTEXT_SPECIFIC)]
    W15 {  },
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 0o35, id = Set, tag_class = CONTEXT_SPECIFIC)]
    W3(E24, #[bsn1_serde(skip_serializing)] u16),
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 31, id = Integer, tag_pc = PRIMITIVE)]
    Length { n4: E24, w: i8, #[bsn1_serde(skip)] write: std::time::Duration, #[bsn1_serde(to = "picky_ref", try_from = "OctetString<'static>")] r#struct: Picky<OctetString<'static>> },
    #[bsn1_serde(tag_num = 0x7f, id = Sequence, tag_class = CONTEXT_SPECIFIC)]
    W4 { _under: Quiet<u16, 1>, #[bsn1_serde(try_from = "BTreeMap<String, Vec<u8>>", into = "BTreeMap<String, Vec<u8>>")] n7: Picky<BTreeMap<String, Vec<u8>>>, n1: Quiet<i8, 3>, #[bsn1_serde(into = "OctetString<'static>", from = "OctetString<'static>")] field_0: Conv<OctetString<'static>> },
    #[bsn1_serde(tag_class = APPLICATION, tag_pc = CONSTRUCTED, tag_num = 0x10000000000000000, id = Integer)]
    W2 { r#fn: E4<K0>, #[bsn1_serde(skip, skip_serializing)] n3: Vec<String>, name: S26<Quiet<i8, 3>, E2> },
    #[bsn1_serde(tag_pc = PRIMITIVE, id = UTF8String)]
    W11(E6),
    #[bsn1_serde(id = EOC, tag_num = 340282366920938463463374607431768211455, tag_pc = PRIMITIVE, tag_class = APPLICATION)]
    C { #[bsn1_serde(to = "conv_ref", from = "u8")] n5: Conv<u8> },
    #[bsn1_serde(id = EOC, tag_num = 29, tag_class = UNIVERSAL)]
    W8(),
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_class = CONTEXT_SPECIFIC, id = Boolean)]
    W1 { #[bsn1_serde(skip_deserializing)] r#fn: bool, #[bsn1_serde(try_from = "HashSet<u16>", into = "HashSet<u16>")] f: Picky<HashSet<u16>>, buffer: HashSet<i8>, w: E15 },
    #[bsn1_serde(id = Boolean, tag_class = PRIVATE)]
    Leaf,
    #[bsn1_serde(id = Integer)]
    W12,
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 0x3FFF)]
    W7(E12, #[bsn1_serde(skip_deserializing, skip)] LinkedList<bool>, #[bsn1_serde(skip_serializing, skip)] [u8; 3]),
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, id = Null, tag_pc = CONSTRUCTED)]
    V1 { #[bsn1_serde(from = "u8", to = "conv_ref")] x: Conv<u8>, ber: E12 },
    #[bsn1_serde(tag_class = PRIVATE)]
    Many(HashSet<i8>, E12, E8, #[bsn1_serde(to = "conv_ref", from = "u8")] Conv<u8>),
    #[bsn1_serde(tag_pc = PRIMITIVE, id = Set, tag_class = UNIVERSAL)]
    Id(#[bsn1_serde(to = "conv_ref", from = "Vec<String>")] Conv<Vec<String>>, #[bsn1_serde(into = "String", try_from = "String")] Num),
    #[bsn1_serde(tag_num = 0b11111111111111)]
    W6,
}
impl RefCodec for E27 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(24) { 0 => { let s = s / 2; E27::Unit { c: <u128 as RefCodec>::gen(r, s), length: <i64 as RefCodec>::gen(r, s) } }, 1 => { let s = s / 1; E27::W14 }, 2 => { let s = s / 1; E27::Error() }, 3 => { let s = s / 1; E27::W16(<u64 as RefCodec>::gen(r, s)) }, 4 => { let s = s / 1; E27::A }, 5 => { let s = s / 1; E27::One }, 6 => { let s = s / 1; E27::Data }, 7 => { let s = s / 1; E27::Nothing() }, 8 => { let s = s / 1; E27::W15 {  } }, 9 => { let s = s / 2; E27::W3(<E24 as RefCodec>::gen(r, s), <u16 as RefCodec>::gen(r, s)) }, 10 => { let s = s / 4; E27::Length { n4: <E24 as RefCodec>::gen(r, s), w: <i8 as RefCodec>::gen(r, s), write: std::time::Duration::from_millis(r.below(5000) as u64), r#struct: gen_picky::<OctetString<'static>>(r, s) } }, 11 => { let s = s / 4; E27::W4 { _under: <Quiet<u16, 1> as RefCodec>::gen(r, s), n7: gen_picky::<BTreeMap<String, Vec<u8>>>(r, s), n1: <Quiet<i8, 3> as RefCodec>::gen(r, s), field_0: Conv(<OctetString<'static> as RefCodec>::gen(r, s)) } }, 12 => { let s = s / 3; E27::W2 { r#fn: <E4<K0> as RefCodec>::gen(r, s), n3: <Vec<String> as RefCodec>::gen(r, s), name: <S26<Quiet<i8, 3>, E2> as RefCodec>::gen(r, s) } }, 13 => { let s = s / 1; E27::W11(<E6 as RefCodec>::gen(r, s)) }, 14 => { let s = s / 1; E27::C { n5: Conv(<u8 as RefCodec>::gen(r, s)) } }, 15 => { let s = s / 1; E27::W8() }, 16 => { let s = s / 4; E27::W1 { r#fn: <bool as RefCodec>::gen(r, s), f: gen_picky::<HashSet<u16>>(r, s), buffer: <HashSet<i8> as RefCodec>::gen(r, s), w: <E15 as RefCodec>::gen(r, s) } }, 17 => { let s = s / 1; E27::Leaf }, 18 => { let s = s / 1; E27::W12 }, 19 => { let s = s / 3; E27::W7(<E12 as RefCodec>::gen(r, s), <LinkedList<bool> as RefCodec>::gen(r, s), [r.u8(), r.u8(), r.u8()]) }, 20 => { let s = s / 2; E27::V1 { x: Conv(<u8 as RefCodec>::gen(r, s)), ber: <E12 as RefCodec>::gen(r, s) } }, 21 => { let s = s / 4; E27::Many(<HashSet<i8> as RefCodec>::gen(r, s), <E12 as RefCodec>::gen(r, s), <E8 as RefCodec>::gen(r, s), Conv(<u8 as RefCodec>::gen(r, s))) }, 22 => { let s = s / 2; E27::Id(Conv(<Vec<String> as RefCodec>::gen(r, s)), <Num as RefCodec>::gen(r, s)) }, _ => { let s = s / 1; E27::W6 }, } }
    fn node(&self) -> Node { match self { E27::Unit { c: x0, length: x1 } => Node::Cons(vec![0x01], vec![RefCodec::node(x0), RefCodec::node(x1)]), E27::W14 => Node::Cons(vec![0xcf], vec![]), E27::Error() => Node::Cons(vec![0x1f, 0x1f], vec![]), E27::W16(x0) => Node::Cons(vec![0x10], vec![]), E27::A => Node::Cons(vec![0x44], vec![]), E27::One => Node::Cons(vec![0xff, 0x9b, 0x8e, 0x2b], vec![]), E27::Data => Node::Cons(vec![0x30], vec![]), E27::Nothing() => Node::Cons(vec![0x5f, 0x81, 0x80, 0x80, 0x00], vec![]), E27::W15 {  } => Node::Cons(vec![0x91], vec![]), E27::W3(x0, x1) => Node::Cons(vec![0x9d], vec![RefCodec::node(x0)]), E27::Length { n4: x0, w: x1, write: x2, r#struct: x3 } => Node::Cons(vec![0x5f, 0x1f], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(&(x3.0.clone()))]), E27::W4 { _under: x0, n7: x1, n1: x2, field_0: x3 } => Node::Cons(vec![0xbf, 0x7f], vec![RefCodec::node(x0), RefCodec::node(&(x1.0.clone())), RefCodec::node(x2), RefCodec::node(&(x3.0.clone()))]), E27::W2 { r#fn: x0, n3: x1, name: x2 } => Node::Cons(vec![0x7f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![RefCodec::node(x0), RefCodec::node(x2)]), E27::W11(x0) => Node::Cons(vec![0x0c], vec![RefCodec::node(x0)]), E27::C { n5: x0 } => Node::Cons(vec![0x5f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![RefCodec::node(&(x0.0.clone()))]), E27::W8() => Node::Cons(vec![0x1d], vec![]), E27::W1 { r#fn: x0, f: x1, buffer: x2, w: x3 } => Node::Cons(vec![0x81], vec![RefCodec::node(x0), RefCodec::node(&(x1.0.clone())), RefCodec::node(x2), RefCodec::node(x3)]), E27::Leaf => Node::Cons(vec![0xc1], vec![]), E27::W12 => Node::Cons(vec![0x02], vec![]), E27::W7(x0, x1, x2) => Node::Cons(vec![0xff, 0xff, 0x7f], vec![RefCodec::node(x0)]), E27::V1 { x: x0, ber: x1 } => Node::Cons(vec![0xa5], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(x1)]), E27::Many(x0, x1, x2, x3) => Node::Cons(vec![0xf0], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(x2), RefCodec::node(&(x3.0.clone()))]), E27::Id(x0, x1) => Node::Cons(vec![0x11], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(&(x1.0.to_string()))]), E27::W6 => Node::Cons(vec![0x3f, 0xff, 0x7f], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x01] { e.want(&[0x01])?; { let mut k = e.kids(m); let v0: Option<u128> = k.field(); let v1: Option<i64> = k.field(); k.end()?; Ok(E27::Unit { c: v0.unwrap(), length: v1.unwrap() }) } } else if e.id == &[0xcf] { e.want(&[0xcf])?; { let mut k = e.kids(m); k.end()?; Ok(E27::W14) } } else if e.id == &[0x1f, 0x1f] { e.want(&[0x1f, 0x1f])?; { let mut k = e.kids(m); k.end()?; Ok(E27::Error()) } } else if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); let v0: Option<u64> = k.field(); k.end()?; Ok(E27::W16(v0.unwrap())) } } else if e.id == &[0x44] { e.want(&[0x44])?; { let mut k = e.kids(m); k.end()?; Ok(E27::A) } } else if e.id == &[0xff, 0x9b, 0x8e, 0x2b] { e.want(&[0xff, 0x9b, 0x8e, 0x2b])?; { let mut k = e.kids(m); k.end()?; Ok(E27::One) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); k.end()?; Ok(E27::Data) } } else if e.id == &[0x5f, 0x81, 0x80, 0x80, 0x00] { e.want(&[0x5f, 0x81, 0x80, 0x80, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E27::Nothing()) } } else if e.id == &[0x91] { e.want(&[0x91])?; { let mut k = e.kids(m); k.end()?; Ok(E27::W15 {  }) } } else if e.id == &[0x9d] { e.want(&[0x9d])?; { let mut k = e.kids(m); let v0: Option<E24> = k.field(); let v1: Option<u16> = k.field(); k.end()?; Ok(E27::W3(v0.unwrap(), v1.unwrap())) } } else if e.id == &[0x5f, 0x1f] { e.want(&[0x5f, 0x1f])?; { let mut k = e.kids(m); let v0: Option<E24> = k.field(); let v1: Option<i8> = k.field(); let v3: Option<Picky<OctetString<'static>>> = match k.next() { None => None, Some(e) => { let x = <OctetString<'static> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(E27::Length { n4: v0.unwrap(), w: v1.unwrap(), write: Default::default(), r#struct: v3.unwrap() }) } } else if e.id == &[0xbf, 0x7f] { e.want(&[0xbf, 0x7f])?; { let mut k = e.kids(m); let v0: Option<Quiet<u16, 1>> = k.field(); let v1: Option<Picky<BTreeMap<String, Vec<u8>>>> = match k.next() { None => None, Some(e) => { let x = <BTreeMap<String, Vec<u8>> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v2: Option<Quiet<i8, 3>> = k.field(); let v3: Option<Conv<OctetString<'static>>> = match k.next() { None => None, Some(e) => { let x = <OctetString<'static> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E27::W4 { _under: v0.unwrap(), n7: v1.unwrap(), n1: v2.unwrap(), field_0: v3.unwrap() }) } } else if e.id == &[0x7f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00] { e.want(&[0x7f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00])?; { let mut k = e.kids(m); let v0: Option<E4<K0>> = k.field(); let v2: Option<S26<Quiet<i8, 3>, E2>> = k.field(); k.end()?; Ok(E27::W2 { r#fn: v0.unwrap(), n3: Default::default(), name: v2.unwrap() }) } } else if e.id == &[0x0c] { e.want(&[0x0c])?; { let mut k = e.kids(m); let v0: Option<E6> = k.field(); k.end()?; Ok(E27::W11(v0.unwrap())) } } else if e.id == &[0x5f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f] { e.want(&[0x5f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f])?; { let mut k = e.kids(m); let v0: Option<Conv<u8>> = match k.next() { None => None, Some(e) => { let x = <u8 as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E27::C { n5: v0.unwrap() }) } } else if e.id == &[0x1d] { e.want(&[0x1d])?; { let mut k = e.kids(m); k.end()?; Ok(E27::W8()) } } else if e.id == &[0x81] { e.want(&[0x81])?; { let mut k = e.kids(m); let v1: Option<Picky<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v2: Option<HashSet<i8>> = k.field(); let v3: Option<E15> = k.field(); k.end()?; Ok(E27::W1 { r#fn: Default::default(), f: v1.unwrap(), buffer: v2.unwrap(), w: v3.unwrap() }) } } else if e.id == &[0xc1] { e.want(&[0xc1])?; { let mut k = e.kids(m); k.end()?; Ok(E27::Leaf) } } else if e.id == &[0x02] { e.want(&[0x02])?; { let mut k = e.kids(m); k.end()?; Ok(E27::W12) } } else if e.id == &[0xff, 0xff, 0x7f] { e.want(&[0xff, 0xff, 0x7f])?; { let mut k = e.kids(m); let v0: Option<E12> = k.field(); k.end()?; Ok(E27::W7(v0.unwrap(), Default::default(), Default::default())) } } else if e.id == &[0xa5] { e.want(&[0xa5])?; { let mut k = e.kids(m); let v0: Option<Conv<u8>> = match k.next() { None => None, Some(e) => { let x = <u8 as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v1: Option<E12> = k.field(); k.end()?; Ok(E27::V1 { x: v0.unwrap(), ber: v1.unwrap() }) } } else if e.id == &[0xf0] { e.want(&[0xf0])?; { let mut k = e.kids(m); let v0: Option<HashSet<i8>> = k.field(); let v1: Option<E12> = k.field(); let v2: Option<E8> = k.field(); let v3: Option<Conv<u8>> = match k.next() { None => None, Some(e) => { let x = <u8 as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E27::Many(v0.unwrap(), v1.unwrap(), v2.unwrap(), v3.unwrap())) } } else if e.id == &[0x11] { e.want(&[0x11])?; { let mut k = e.kids(m); let v0: Option<Conv<Vec<String>>> = match k.next() { None => None, Some(e) => { let x = <Vec<String> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v1: Option<Num> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| c.parse::<i32>().map(Num).map_err(|_| Kinds::ANYHOW)); k.keep(x) } }; k.end()?; Ok(E27::Id(v0.unwrap(), v1.unwrap())) } } else if e.id == &[0x3f, 0xff, 0x7f] { e.want(&[0x3f, 0xff, 0x7f])?; { let mut k = e.kids(m); k.end()?; Ok(E27::W6) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E27::Unit { c: x0, length: x1 } => Some(E27::Unit { c: RefCodec::after(x0)?, length: RefCodec::after(x1)? }), E27::W14 => Some(E27::W14), E27::Error() => Some(E27::Error()), E27::W16(x0) => None, E27::A => Some(E27::A), E27::One => Some(E27::One), E27::Data => Some(E27::Data), E27::Nothing() => Some(E27::Nothing()), E27::W15 {  } => Some(E27::W15 {  }), E27::W3(x0, x1) => None, E27::Length { n4: x0, w: x1, write: x2, r#struct: x3 } => Some(E27::Length { n4: RefCodec::after(x0)?, w: RefCodec::after(x1)?, write: Default::default(), r#struct: { let v = x3; if refuses(&v.0) { return None } v.clone() } }), E27::W4 { _under: x0, n7: x1, n1: x2, field_0: x3 } => Some(E27::W4 { _under: RefCodec::after(x0)?, n7: { let v = x1; if refuses(&v.0) { return None } v.clone() }, n1: RefCodec::after(x2)?, field_0: x3.clone() }), E27::W2 { r#fn: x0, n3: x1, name: x2 } => Some(E27::W2 { r#fn: RefCodec::after(x0)?, n3: Default::default(), name: RefCodec::after(x2)? }), E27::W11(x0) => Some(E27::W11(RefCodec::after(x0)?)), E27::C { n5: x0 } => Some(E27::C { n5: x0.clone() }), E27::W8() => Some(E27::W8()), E27::W1 { r#fn: x0, f: x1, buffer: x2, w: x3 } => None, E27::Leaf => Some(E27::Leaf), E27::W12 => Some(E27::W12), E27::W7(x0, x1, x2) => Some(E27::W7(RefCodec::after(x0)?, Default::default(), Default::default())), E27::V1 { x: x0, ber: x1 } => Some(E27::V1 { x: x0.clone(), ber: RefCodec::after(x1)? }), E27::Many(x0, x1, x2, x3) => Some(E27::Many(RefCodec::after(x0)?, RefCodec::after(x1)?, RefCodec::after(x2)?, x3.clone())), E27::Id(x0, x1) => Some(E27::Id(x0.clone(), x1.clone())), E27::W6 => Some(E27::W6), } }
    fn wire(&self) -> Node { match self { E27::Unit { c: x0, length: x1 } => Node::Cons(vec![0x01], vec![RefCodec::wire(x0), RefCodec::wire(x1)]), E27::W14 => Node::Cons(vec![0xcf], vec![]), E27::Error() => Node::Cons(vec![0x1f, 0x1f], vec![]), E27::W16(x0) => Node::Cons(vec![0x10], vec![RefCodec::wire(x0)]), E27::A => Node::Cons(vec![0x44], vec![]), E27::One => Node::Cons(vec![0xff, 0x9b, 0x8e, 0x2b], vec![]), E27::Data => Node::Cons(vec![0x30], vec![]), E27::Nothing() => Node::Cons(vec![0x5f, 0x81, 0x80, 0x80, 0x00], vec![]), E27::W15 {  } => Node::Cons(vec![0x91], vec![]), E27::W3(x0, x1) => Node::Cons(vec![0x9d], vec![RefCodec::wire(x0), RefCodec::wire(x1)]), E27::Length { n4: x0, w: x1, write: x2, r#struct: x3 } => Node::Cons(vec![0x5f, 0x1f], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(&x3.0)]), E27::W4 { _under: x0, n7: x1, n1: x2, field_0: x3 } => Node::Cons(vec![0xbf, 0x7f], vec![RefCodec::wire(x0), RefCodec::wire(&x1.0), RefCodec::wire(x2), RefCodec::wire(&x3.0)]), E27::W2 { r#fn: x0, n3: x1, name: x2 } => Node::Cons(vec![0x7f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![RefCodec::wire(x0), RefCodec::wire(x2)]), E27::W11(x0) => Node::Cons(vec![0x0c], vec![RefCodec::wire(x0)]), E27::C { n5: x0 } => Node::Cons(vec![0x5f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![RefCodec::wire(&x0.0)]), E27::W8() => Node::Cons(vec![0x1d], vec![]), E27::W1 { r#fn: x0, f: x1, buffer: x2, w: x3 } => Node::Cons(vec![0x81], vec![RefCodec::wire(&x1.0), RefCodec::wire(x2), RefCodec::wire(x3)]), E27::Leaf => Node::Cons(vec![0xc1], vec![]), E27::W12 => Node::Cons(vec![0x02], vec![]), E27::W7(x0, x1, x2) => Node::Cons(vec![0xff, 0xff, 0x7f], vec![RefCodec::wire(x0)]), E27::V1 { x: x0, ber: x1 } => Node::Cons(vec![0xa5], vec![RefCodec::wire(&x0.0), RefCodec::wire(x1)]), E27::Many(x0, x1, x2, x3) => Node::Cons(vec![0xf0], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(x2), RefCodec::wire(&x3.0)]), E27::Id(x0, x1) => Node::Cons(vec![0x11], vec![RefCodec::wire(&x0.0), RefCodec::node(&x1.0.to_string())]), E27::W6 => Node::Cons(vec![0x3f, 0xff, 0x7f], vec![]), } }
}
#[derive(Clone, Debug, bsn1_serde::Serialize, bsn1_serde::Deserialize, PartialEq)]
pub enum E28 {
    #[bsn1_serde(tag_num = 0o674062, tag_pc = CONSTRUCTED, tag_class = APPLICATION)]
    Pair(S26<Quiet<i8, 3>, E2>),
    #[bsn1_serde(tag_num = 0b111, tag_class = UNIVERSAL)]
    W3(i8),
    #[bsn1_serde(tag_num = 16384)]
    W12(),
}
impl RefCodec for E28 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(3) { 0 => { let s = s / 1; E28::Pair(<S26<Quiet<i8, 3>, E2> as RefCodec>::gen(r, s)) }, 1 => { let s = s / 1; E28::W3(<i8 as RefCodec>::gen(r, s)) }, _ => { let s = s / 1; E28::W12() }, } }
    fn node(&self) -> Node { match self { E28::Pair(x0) => Node::Cons(vec![0x7f, 0x8d, 0xf0, 0x32], vec![RefCodec::node(x0)]), E28::W3(x0) => Node::Cons(vec![0x27], vec![RefCodec::node(x0)]), E28::W12() => Node::Cons(vec![0x3f, 0x81, 0x80, 0x00], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x7f, 0x8d, 0xf0, 0x32] { e.want(&[0x7f, 0x8d, 0xf0, 0x32])?; { let mut k = e.kids(m); let v0: Option<S26<Quiet<i8, 3>, E2>> = k.field(); k.end()?; Ok(E28::Pair(v0.unwrap())) } } else if e.id == &[0x27] { e.want(&[0x27])?; { let mut k = e.kids(m); let v0: Option<i8> = k.field(); k.end()?; Ok(E28::W3(v0.unwrap())) } } else if e.id == &[0x3f, 0x81, 0x80, 0x00] { e.want(&[0x3f, 0x81, 0x80, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E28::W12()) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E28::Pair(x0) => Some(E28::Pair(RefCodec::after(x0)?)), E28::W3(x0) => Some(E28::W3(RefCodec::after(x0)?)), E28::W12() => Some(E28::W12()), } }
    fn wire(&self) -> Node { match self { E28::Pair(x0) => Node::Cons(vec![0x7f, 0x8d, 0xf0, 0x32], vec![RefCodec::wire(x0)]), E28::W3(x0) => Node::Cons(vec![0x27], vec![RefCodec::wire(x0)]), E28::W12() => Node::Cons(vec![0x3f, 0x81, 0x80, 0x00], vec![]), } }
}
#[derive(PartialEq, bsn1_serde::Deserialize, bsn1_serde::Serialize, Clone, Debug)]
pub enum E29 {
    #[bsn1_serde(id = OctetString, tag_num = 129, tag_class = UNIVERSAL)]
    Length(#[bsn1_serde(skip, skip_deserializing)] i8, K18, E22),
    #[bsn1_serde(id = EOC, tag_pc = PRIMITIVE, tag_class = APPLICATION)]
    W19,
    #[bsn1_serde(tag_num = 0o200, tag_pc = PRIMITIVE, tag_class = PRIVATE, id = EOC)]
    V1 {  },
    #[bsn1_serde(id = Real, tag_class = CONTEXT_SPECIFIC, tag_num = 1)]
    W5 { ret: Quiet<String, 2> },
}
impl RefCodec for E29 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(4) { 0 => { let s = s / 3; E29::Length(<i8 as RefCodec>::gen(r, s), <K18 as RefCodec>::gen(r, s), <E22 as RefCodec>::gen(r, s)) }, 1 => { let s = s / 1; E29::W19 }, 2 => { let s = s / 1; E29::V1 {  } }, _ => { let s = s / 1; E29::W5 { ret: <Quiet<String, 2> as RefCodec>::gen(r, s) } }, } }
    fn node(&self) -> Node { match self { E29::Length(x0, x1, x2) => Node::Cons(vec![0x1f, 0x81, 0x01], vec![RefCodec::node(x1), RefCodec::node(x2)]), E29::W19 => Node::Cons(vec![0x40], vec![]), E29::V1 {  } => Node::Cons(vec![0xdf, 0x81, 0x00], vec![]), E29::W5 { ret: x0 } => Node::Cons(vec![0x81], vec![RefCodec::node(x0)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x1f, 0x81, 0x01] { e.want(&[0x1f, 0x81, 0x01])?; { let mut k = e.kids(m); let v1: Option<K18> = k.field(); let v2: Option<E22> = k.field(); k.end()?; Ok(E29::Length(Default::default(), v1.unwrap(), v2.unwrap())) } } else if e.id == &[0x40] { e.want(&[0x40])?; { let mut k = e.kids(m); k.end()?; Ok(E29::W19) } } else if e.id == &[0xdf, 0x81, 0x00] { e.want(&[0xdf, 0x81, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E29::V1 {  }) } } else if e.id == &[0x81] { e.want(&[0x81])?; { let mut k = e.kids(m); let v0: Option<Quiet<String, 2>> = k.field(); k.end()?; Ok(E29::W5 { ret: v0.unwrap() }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E29::Length(x0, x1, x2) => Some(E29::Length(Default::default(), RefCodec::after(x1)?, RefCodec::after(x2)?)), E29::W19 => Some(E29::W19), E29::V1 {  } => Some(E29::V1 {  }), E29::W5 { ret: x0 } => Some(E29::W5 { ret: RefCodec::after(x0)? }), } }
    fn wire(&self) -> Node { match self { E29::Length(x0, x1, x2) => Node::Cons(vec![0x1f, 0x81, 0x01], vec![RefCodec::wire(x1), RefCodec::wire(x2)]), E29::W19 => Node::Cons(vec![0x40], vec![]), E29::V1 {  } => Node::Cons(vec![0xdf, 0x81, 0x00], vec![]), E29::W5 { ret: x0 } => Node::Cons(vec![0x81], vec![RefCodec::wire(x0)]), } }
}
#[derive(PartialEq, Eq, Hash, Clone, Debug, Ord, PartialOrd, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = CONSTRUCTED, tag_class = UNIVERSAL)]
pub struct S30 { #[bsn1_serde(try_from = "BTreeMap<String, Vec<u8>>", into = "BTreeMap<String, Vec<u8>>")] pub field_0: Picky<BTreeMap<String, Vec<u8>>> }
impl RefCodec for S30 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S30 { field_0: gen_picky::<BTreeMap<String, Vec<u8>>>(r, s) } } }
    fn node(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::node(&((&self.field_0).0.clone()))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x30])?; let mut k = e.kids(m); let v0: Option<Picky<BTreeMap<String, Vec<u8>>>> = match k.next() { None => None, Some(e) => { let x = <BTreeMap<String, Vec<u8>> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(S30 { field_0: v0.unwrap() }) }
    fn after(&self) -> Option<Self> { Some(S30 { field_0: { let v = (&self.field_0); if refuses(&v.0) { return None } v.clone() } }) }
    fn wire(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::wire(&(&self.field_0).0)]) }
}
#[derive(PartialEq, bsn1_serde::Serialize, Debug, Clone, bsn1_serde::Deserialize)]
pub enum E31 {
    #[bsn1_serde(tag_num = 1, tag_class = APPLICATION)]
    Nothing { r#fn: i64 },
    #[bsn1_serde(tag_class = PRIVATE, tag_pc = PRIMITIVE)]
    W13 { b: E2 },
    #[bsn1_serde(id = Boolean)]
    W12(),
}
impl RefCodec for E31 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(3) { 0 => { let s = s / 1; E31::Nothing { r#fn: <i64 as RefCodec>::gen(r, s) } }, 1 => { let s = s / 1; E31::W13 { b: <E2 as RefCodec>::gen(r, s) } }, _ => { let s = s / 1; E31::W12() }, } }
    fn node(&self) -> Node { match self { E31::Nothing { r#fn: x0 } => Node::Cons(vec![0x61], vec![RefCodec::node(x0)]), E31::W13 { b: x0 } => Node::Cons(vec![0xd0], vec![RefCodec::node(x0)]), E31::W12() => Node::Cons(vec![0x01], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x61] { e.want(&[0x61])?; { let mut k = e.kids(m); let v0: Option<i64> = k.field(); k.end()?; Ok(E31::Nothing { r#fn: v0.unwrap() }) } } else if e.id == &[0xd0] { e.want(&[0xd0])?; { let mut k = e.kids(m); let v0: Option<E2> = k.field(); k.end()?; Ok(E31::W13 { b: v0.unwrap() }) } } else if e.id == &[0x01] { e.want(&[0x01])?; { let mut k = e.kids(m); k.end()?; Ok(E31::W12()) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E31::Nothing { r#fn: x0 } => Some(E31::Nothing { r#fn: RefCodec::after(x0)? }), E31::W13 { b: x0 } => Some(E31::W13 { b: RefCodec::after(x0)? }), E31::W12() => Some(E31::W12()), } }
    fn wire(&self) -> Node { match self { E31::Nothing { r#fn: x0 } => Node::Cons(vec![0x61], vec![RefCodec::wire(x0)]), E31::W13 { b: x0 } => Node::Cons(vec![0xd0], vec![RefCodec::wire(x0)]), E31::W12() => Node::Cons(vec![0x01], vec![]), } }
}
#[derive(bsn1_serde::Serialize, bsn1_serde::Deserialize, Clone, Debug, PartialEq)]
#[bsn1_serde(tag_num = 0b1111, id = Boolean)]
pub struct S32 { pub r#match: E24, pub contents: Quiet<u16, 1>, pub n0: S16, pub camelCase: E24, pub n7: Num, pub value: E23 }
impl RefCodec for S32 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 6; S32 { r#match: <E24 as RefCodec>::gen(r, s), contents: <Quiet<u16, 1> as RefCodec>::gen(r, s), n0: <S16 as RefCodec>::gen(r, s), camelCase: <E24 as RefCodec>::gen(r, s), n7: <Num as RefCodec>::gen(r, s), value: <E23 as RefCodec>::gen(r, s) } } }
    fn node(&self) -> Node { Node::Cons(vec![0x0f], vec![RefCodec::node((&self.r#match)), RefCodec::node((&self.contents)), RefCodec::node((&self.n0)), RefCodec::node((&self.camelCase)), RefCodec::node((&self.n7)), RefCodec::node((&self.value))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x0f])?; let mut k = e.kids(m); let v0: Option<E24> = k.field(); let v1: Option<Quiet<u16, 1>> = k.field(); let v2: Option<S16> = k.field(); let v3: Option<E24> = k.field(); let v4: Option<Num> = k.field(); let v5: Option<E23> = k.field(); k.end()?; Ok(S32 { r#match: v0.unwrap(), contents: v1.unwrap(), n0: v2.unwrap(), camelCase: v3.unwrap(), n7: v4.unwrap(), value: v5.unwrap() }) }
    fn after(&self) -> Option<Self> { Some(S32 { r#match: RefCodec::after((&self.r#match))?, contents: RefCodec::after((&self.contents))?, n0: RefCodec::after((&self.n0))?, camelCase: RefCodec::after((&self.camelCase))?, n7: RefCodec::after((&self.n7))?, value: RefCodec::after((&self.value))? }) }
    fn wire(&self) -> Node { Node::Cons(vec![0x0f], vec![RefCodec::wire((&self.r#match)), RefCodec::wire((&self.contents)), RefCodec::wire((&self.n0)), RefCodec::wire((&self.camelCase)), RefCodec::wire((&self.n7)), RefCodec::wire((&self.value))]) }
}
#[derive(PartialOrd, Hash, Debug, Ord, Clone, Eq, bsn1_serde::Deserialize, bsn1_serde::Serialize, PartialEq)]
#[bsn1_serde(into = "E6", try_from = "E6")]
pub struct K33(pub u8, pub E6);
impl From<K33> for E6 { fn from(v: K33) -> Self { v.1 } }
pub fn out_33(v: &K33) -> E6 { v.1.clone() }
impl K33 { pub fn out(&self) -> E6 { out_33(self) } }
impl TryFrom<E6> for K33 { type Error = Refused; fn try_from(c: E6) -> Result<Self, Refused> { if refuses(&c) { Err(Refused(format!("{:?}", c))) } else { Ok(K33(0, c)) } } }
impl RefCodec for K33 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <E6 as RefCodec>::gen(r, s); K33(r.u8(), c) }
    fn node(&self) -> Node { RefCodec::node((&out_33(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <E6 as RefCodec>::dec(e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(K33(0, c)) }) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_33(self)))?; if refuses(&c) { return None } Some(K33(0, c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_33(self))) }
}
pub struct Host2;
impl Host2 { pub fn make() -> u8 { 255 } }
#[derive(bsn1_serde::Serialize, bsn1_serde::Deserialize, PartialEq, Clone, Debug)]
pub enum E34 {
    #[bsn1_serde(tag_pc = CONSTRUCTED, id = EOC)]
    W5(E22, isize, K10, #[bsn1_serde(skip)] [u8; 3], #[bsn1_serde(to = "conv_ref", from = "u128")] Conv<u128>, #[bsn1_serde(into = "OctetString<'static>", from = "OctetString<'static>")] Conv<OctetString<'static>>),
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 0o20)]
    W0(#[bsn1_serde(to = "conv_ref", from = "String")] Conv<String>, #[bsn1_serde(skip)] u64, i32, #[bsn1_serde(into = "i64", try_from = "i64")] Picky<i64>, #[bsn1_serde(skip, default = "Host2::make")] u8, #[bsn1_serde(skip, skip_deserializing)] usize),
    #[bsn1_serde(id = OctetString, tag_class = PRIVATE, tag_num = 0o1016337716501333150275251225126141626257211)]
    W16(#[bsn1_serde(into = "bool", try_from = "bool")] Picky<bool>, #[bsn1_serde(from = "HashSet<u16>", into = "HashSet<u16>")] Conv<HashSet<u16>>, #[bsn1_serde(from = "String", into = "String")] Conv<String>),
    #[bsn1_serde(id = OctetString, tag_pc = CONSTRUCTED)]
    W10 { n7: S21<u128, std::collections::VecDeque<i16>>, #[bsn1_serde(from = "Vec<u8>", into = "Vec<u8>")] id: Conv<Vec<u8>>, #[bsn1_serde(skip_serializing, skip)] buffer: BTreeSet<u8> },
    #[bsn1_serde(tag_class = PRIVATE, tag_pc = CONSTRUCTED)]
    C { name: S25<isize> },
}
impl RefCodec for E34 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(5) { 0 => { let s = s / 6; E34::W5(<E22 as RefCodec>::gen(r, s), <isize as RefCodec>::gen(r, s), <K10 as RefCodec>::gen(r, s), [r.u8(), r.u8(), r.u8()], Conv(<u128 as RefCodec>::gen(r, s)), Conv(<OctetString<'static> as RefCodec>::gen(r, s))) }, 1 => { let s = s / 6; E34::W0(Conv(<String as RefCodec>::gen(r, s)), <u64 as RefCodec>::gen(r, s), <i32 as RefCodec>::gen(r, s), gen_picky::<i64>(r, s), <u8 as RefCodec>::gen(r, s), <usize as RefCodec>::gen(r, s)) }, 2 => { let s = s / 3; E34::W16(gen_picky::<bool>(r, s), Conv(<HashSet<u16> as RefCodec>::gen(r, s)), Conv(<String as RefCodec>::gen(r, s))) }, 3 => { let s = s / 3; E34::W10 { n7: <S21<u128, std::collections::VecDeque<i16>> as RefCodec>::gen(r, s), id: Conv(<Vec<u8> as RefCodec>::gen(r, s)), buffer: <BTreeSet<u8> as RefCodec>::gen(r, s) } }, _ => { let s = s / 1; E34::C { name: <S25<isize> as RefCodec>::gen(r, s) } }, } }
    fn node(&self) -> Node { match self { E34::W5(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x20], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(x2), RefCodec::node(&(x4.0.clone())), RefCodec::node(&(x5.0.clone()))]), E34::W0(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x10], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(x2), RefCodec::node(&(x3.0.clone()))]), E34::W16(x0, x1, x2) => Node::Cons(vec![0xdf, 0x81, 0x83, 0xcd, 0xff, 0x9d, 0xa0, 0xdb, 0xb3, 0xa1, 0xbd, 0xaa, 0xa9, 0xa9, 0xac, 0xb0, 0xf2, 0xe5, 0xbd, 0x09], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(&(x1.0.clone())), RefCodec::node(&(x2.0.clone()))]), E34::W10 { n7: x0, id: x1, buffer: x2 } => Node::Cons(vec![0x24], vec![RefCodec::node(x0), RefCodec::node(&(x1.0.clone()))]), E34::C { name: x0 } => Node::Cons(vec![0xf0], vec![RefCodec::node(x0)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x20] { e.want(&[0x20])?; { let mut k = e.kids(m); let v0: Option<E22> = k.field(); let v1: Option<isize> = k.field(); let v2: Option<K10> = k.field(); let v4: Option<Conv<u128>> = match k.next() { None => None, Some(e) => { let x = <u128 as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v5: Option<Conv<OctetString<'static>>> = match k.next() { None => None, Some(e) => { let x = <OctetString<'static> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E34::W5(v0.unwrap(), v1.unwrap(), v2.unwrap(), Default::default(), v4.unwrap(), v5.unwrap())) } } else if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); let v0: Option<Conv<String>> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v2: Option<i32> = k.field(); let v3: Option<Picky<i64>> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(E34::W0(v0.unwrap(), Default::default(), v2.unwrap(), v3.unwrap(), 255, Default::default())) } } else if e.id == &[0xdf, 0x81, 0x83, 0xcd, 0xff, 0x9d, 0xa0, 0xdb, 0xb3, 0xa1, 0xbd, 0xaa, 0xa9, 0xa9, 0xac, 0xb0, 0xf2, 0xe5, 0xbd, 0x09] { e.want(&[0xdf, 0x81, 0x83, 0xcd, 0xff, 0x9d, 0xa0, 0xdb, 0xb3, 0xa1, 0xbd, 0xaa, 0xa9, 0xa9, 0xac, 0xb0, 0xf2, 0xe5, 0xbd, 0x09])?; { let mut k = e.kids(m); let v0: Option<Picky<bool>> = match k.next() { None => None, Some(e) => { let x = <bool as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v1: Option<Conv<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v2: Option<Conv<String>> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E34::W16(v0.unwrap(), v1.unwrap(), v2.unwrap())) } } else if e.id == &[0x24] { e.want(&[0x24])?; { let mut k = e.kids(m); let v0: Option<S21<u128, std::collections::VecDeque<i16>>> = k.field(); let v1: Option<Conv<Vec<u8>>> = match k.next() { None => None, Some(e) => { let x = <Vec<u8> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E34::W10 { n7: v0.unwrap(), id: v1.unwrap(), buffer: Default::default() }) } } else if e.id == &[0xf0] { e.want(&[0xf0])?; { let mut k = e.kids(m); let v0: Option<S25<isize>> = k.field(); k.end()?; Ok(E34::C { name: v0.unwrap() }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E34::W5(x0, x1, x2, x3, x4, x5) => Some(E34::W5(RefCodec::after(x0)?, RefCodec::after(x1)?, RefCodec::after(x2)?, Default::default(), x4.clone(), x5.clone())), E34::W0(x0, x1, x2, x3, x4, x5) => Some(E34::W0(x0.clone(), Default::default(), RefCodec::after(x2)?, { let v = x3; if refuses(&v.0) { return None } v.clone() }, 255, Default::default())), E34::W16(x0, x1, x2) => Some(E34::W16({ let v = x0; if refuses(&v.0) { return None } v.clone() }, x1.clone(), x2.clone())), E34::W10 { n7: x0, id: x1, buffer: x2 } => Some(E34::W10 { n7: RefCodec::after(x0)?, id: x1.clone(), buffer: Default::default() }), E34::C { name: x0 } => Some(E34::C { name: RefCodec::after(x0)? }), } }
    fn wire(&self) -> Node { match self { E34::W5(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x20], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(x2), RefCodec::wire(&x4.0), RefCodec::wire(&x5.0)]), E34::W0(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x10], vec![RefCodec::wire(&x0.0), RefCodec::wire(x2), RefCodec::wire(&x3.0)]), E34::W16(x0, x1, x2) => Node::Cons(vec![0xdf, 0x81, 0x83, 0xcd, 0xff, 0x9d, 0xa0, 0xdb, 0xb3, 0xa1, 0xbd, 0xaa, 0xa9, 0xa9, 0xac, 0xb0, 0xf2, 0xe5, 0xbd, 0x09], vec![RefCodec::wire(&x0.0), RefCodec::wire(&x1.0), RefCodec::wire(&x2.0)]), E34::W10 { n7: x0, id: x1, buffer: x2 } => Node::Cons(vec![0x24], vec![RefCodec::wire(x0), RefCodec::wire(&x1.0)]), E34::C { name: x0 } => Node::Cons(vec![0xf0], vec![RefCodec::wire(x0)]), } }
}
#[derive(PartialEq, Debug, Hash, PartialOrd, Ord, Clone, bsn1_serde::Deserialize, bsn1_serde::Serialize, Eq)]
#[bsn1_serde(transparent)]
pub struct S35 { #[bsn1_serde(skip_serializing)] pub n6: u8, #[bsn1_serde(skip_deserializing)] pub x: String }
impl RefCodec for S35 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 2; S35 { n6: <u8 as RefCodec>::gen(r, s), x: <String as RefCodec>::gen(r, s) } } }
    fn node(&self) -> Node { RefCodec::node((&self.x)) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; let v: u8 = RefCodec::dec(e, m)?; Ok(S35 { n6: v, x: Default::default() }) }
    fn after(&self) -> Option<Self> { None }
    fn wire(&self) -> Node { RefCodec::wire((&self.n6)) }
}
pub struct Host3;
impl Host3 { pub fn make() -> Option<u8> { Some(9) } }
#[derive(Clone, PartialEq, bsn1_serde::Deserialize, bsn1_serde::Serialize, Debug)]
pub enum E36 {
    #[bsn1_serde(tag_pc = PRIMITIVE)]
    Leaf {  },
    #[bsn1_serde(id = EOC)]
    W8(),
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_pc = PRIMITIVE)]
    Data,
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_class = PRIVATE, id = Set)]
    W14 { #[bsn1_serde(skip, default = "Host3::make")] length: Option<u8>, n6: S20 },
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC)]
    One(E7, E8, E34, OctetString<'static>, K3, Quiet<i8, 3>),
}
impl RefCodec for E36 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(5) { 0 => { let s = s / 1; E36::Leaf {  } }, 1 => { let s = s / 1; E36::W8() }, 2 => { let s = s / 1; E36::Data }, 3 => { let s = s / 2; E36::W14 { length: if r.chance(1, 2) { Some(r.u8()) } else { None }, n6: <S20 as RefCodec>::gen(r, s) } }, _ => { let s = s / 6; E36::One(<E7 as RefCodec>::gen(r, s), <E8 as RefCodec>::gen(r, s), <E34 as RefCodec>::gen(r, s), <OctetString<'static> as RefCodec>::gen(r, s), <K3 as RefCodec>::gen(r, s), <Quiet<i8, 3> as RefCodec>::gen(r, s)) }, } }
    fn node(&self) -> Node { match self { E36::Leaf {  } => Node::Cons(vec![0x10], vec![]), E36::W8() => Node::Cons(vec![0x00], vec![]), E36::Data => Node::Cons(vec![0x90], vec![]), E36::W14 { length: x0, n6: x1 } => Node::Cons(vec![0xd1], vec![RefCodec::node(x1)]), E36::One(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0xb0], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(x2), RefCodec::node(x3), RefCodec::node(x4), RefCodec::node(x5)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); k.end()?; Ok(E36::Leaf {  }) } } else if e.id == &[0x00] { e.want(&[0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E36::W8()) } } else if e.id == &[0x90] { e.want(&[0x90])?; { let mut k = e.kids(m); k.end()?; Ok(E36::Data) } } else if e.id == &[0xd1] { e.want(&[0xd1])?; { let mut k = e.kids(m); let v1: Option<S20> = k.field(); k.end()?; Ok(E36::W14 { length: Some(9), n6: v1.unwrap() }) } } else if e.id == &[0xb0] { e.want(&[0xb0])?; { let mut k = e.kids(m); let v0: Option<E7> = k.field(); let v1: Option<E8> = k.field(); let v2: Option<E34> = k.field(); let v3: Option<OctetString<'static>> = k.field(); let v4: Option<K3> = k.field(); let v5: Option<Quiet<i8, 3>> = k.field(); k.end()?; Ok(E36::One(v0.unwrap(), v1.unwrap(), v2.unwrap(), v3.unwrap(), v4.unwrap(), v5.unwrap())) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E36::Leaf {  } => Some(E36::Leaf {  }), E36::W8() => Some(E36::W8()), E36::Data => Some(E36::Data), E36::W14 { length: x0, n6: x1 } => Some(E36::W14 { length: Some(9), n6: RefCodec::after(x1)? }), E36::One(x0, x1, x2, x3, x4, x5) => Some(E36::One(RefCodec::after(x0)?, RefCodec::after(x1)?, RefCodec::after(x2)?, RefCodec::after(x3)?, RefCodec::after(x4)?, RefCodec::after(x5)?)), } }
    fn wire(&self) -> Node { match self { E36::Leaf {  } => Node::Cons(vec![0x10], vec![]), E36::W8() => Node::Cons(vec![0x00], vec![]), E36::Data => Node::Cons(vec![0x90], vec![]), E36::W14 { length: x0, n6: x1 } => Node::Cons(vec![0xd1], vec![RefCodec::wire(x1)]), E36::One(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0xb0], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(x2), RefCodec::wire(x3), RefCodec::wire(x4), RefCodec::wire(x5)]), } }
}
pub fn dflt_4() -> Option<u8> { Some(9) }
#[derive(bsn1_serde::Deserialize, PartialEq, Debug, Clone, bsn1_serde::Serialize)]
#[bsn1_serde(id = Null, tag_num = 0x1f)]
pub struct S37(#[bsn1_serde(skip_serializing, default = "dflt_4", skip)] pub Option<u8>, #[bsn1_serde(to = "picky_ref", try_from = "HashSet<u16>")] pub Picky<HashSet<u16>>, #[bsn1_serde(skip_deserializing)] pub u64, #[bsn1_serde(into = "bool", try_from = "bool")] pub Picky<bool>, pub E31, pub E27, pub E28, pub K10, #[bsn1_serde(skip)] pub (u8, bool), pub BTreeMap<u8, String>, pub E34, pub bool, pub K33, #[bsn1_serde(skip)] pub u128);
impl RefCodec for S37 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 14; S37(if r.chance(1, 2) { Some(r.u8()) } else { None }, gen_picky::<HashSet<u16>>(r, s), <u64 as RefCodec>::gen(r, s), gen_picky::<bool>(r, s), <E31 as RefCodec>::gen(r, s), <E27 as RefCodec>::gen(r, s), <E28 as RefCodec>::gen(r, s), <K10 as RefCodec>::gen(r, s), (r.u8(), r.chance(1, 2)), <BTreeMap<u8, String> as RefCodec>::gen(r, s), <E34 as RefCodec>::gen(r, s), <bool as RefCodec>::gen(r, s), <K33 as RefCodec>::gen(r, s), <u128 as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0x1f, 0x1f], vec![RefCodec::node(&((&self.1).0.clone())), RefCodec::node((&self.2)), RefCodec::node(&((&self.3).0.clone())), RefCodec::node((&self.4)), RefCodec::node((&self.5)), RefCodec::node((&self.6)), RefCodec::node((&self.7)), RefCodec::node((&self.9)), RefCodec::node((&self.10)), RefCodec::node((&self.11)), RefCodec::node((&self.12))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x1f, 0x1f])?; let mut k = e.kids(m); let v1: Option<Picky<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v3: Option<Picky<bool>> = match k.next() { None => None, Some(e) => { let x = <bool as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v4: Option<E31> = k.field(); let v5: Option<E27> = k.field(); let v6: Option<E28> = k.field(); let v7: Option<K10> = k.field(); let v9: Option<BTreeMap<u8, String>> = k.field(); let v10: Option<E34> = k.field(); let v11: Option<bool> = k.field(); let v12: Option<K33> = k.field(); k.end()?; Ok(S37(Some(9), v1.unwrap(), Default::default(), v3.unwrap(), v4.unwrap(), v5.unwrap(), v6.unwrap(), v7.unwrap(), Default::default(), v9.unwrap(), v10.unwrap(), v11.unwrap(), v12.unwrap(), Default::default())) }
    fn after(&self) -> Option<Self> { None }
    fn wire(&self) -> Node { Node::Cons(vec![0x1f, 0x1f], vec![RefCodec::wire(&(&self.1).0), RefCodec::wire(&(&self.3).0), RefCodec::wire((&self.4)), RefCodec::wire((&self.5)), RefCodec::wire((&self.6)), RefCodec::wire((&self.7)), RefCodec::wire((&self.9)), RefCodec::wire((&self.10)), RefCodec::wire((&self.11)), RefCodec::wire((&self.12))]) }
}
#[derive(Ord, Eq, PartialEq, PartialOrd, bsn1_serde::Serialize, Hash, Clone, bsn1_serde::Deserialize, Debug)]
pub struct S38(#[bsn1_serde(from = "String", to = "conv_ref")] pub Conv<String>, pub K10);
impl RefCodec for S38 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 2; S38(Conv(<String as RefCodec>::gen(r, s)), <K10 as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::node(&((&self.0).0.clone())), RefCodec::node((&self.1))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x30])?; let mut k = e.kids(m); let v0: Option<Conv<String>> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v1: Option<K10> = k.field(); k.end()?; Ok(S38(v0.unwrap(), v1.unwrap())) }
    fn after(&self) -> Option<Self> { Some(S38((&self.0).clone(), RefCodec::after((&self.1))?)) }
    fn wire(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::wire(&(&self.0).0), RefCodec::wire((&self.1))]) }
}
#[derive(Eq, PartialEq, bsn1_serde::Serialize, PartialOrd, bsn1_serde::Deserialize, Debug, Ord, Hash, Clone)]
#[bsn1_serde(to = "K39::out", from = "bool")]
pub struct K39 { #[bsn1_serde(skip)] pub note: bool, pub inner: bool }
impl From<K39> for bool { fn from(v: K39) -> Self { v.inner } }
pub fn out_39(v: &K39) -> bool { v.inner.clone() }
impl K39 { pub fn out(&self) -> bool { out_39(self) } }
impl From<bool> for K39 { fn from(c: bool) -> Self { K39 { note: false, inner: c } } }
impl RefCodec for K39 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <bool as RefCodec>::gen(r, s); K39 { note: r.chance(1, 2), inner: c } }
    fn node(&self) -> Node { RefCodec::node((&out_39(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <bool as RefCodec>::dec(e, m).and_then(|c| Ok(K39 { note: false, inner: c })) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_39(self)))?; Some(K39 { note: false, inner: c }) }
    fn wire(&self) -> Node { RefCodec::wire((&out_39(self))) }
}
#[derive(Eq, bsn1_serde::Deserialize, PartialOrd, Clone, bsn1_serde::Serialize, Debug, Hash, Ord, PartialEq)]
#[bsn1_serde(tag_pc = PRIMITIVE, id = Real)]
pub struct S40();
impl RefCodec for S40 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S40() } }
    fn node(&self) -> Node { Node::Cons(vec![0x09], vec![]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x09])?; let mut k = e.kids(m); k.end()?; Ok(S40()) }
    fn after(&self) -> Option<Self> { Some(S40()) }
    fn wire(&self) -> Node { Node::Cons(vec![0x09], vec![]) }
}
#[derive(Clone, PartialEq, Debug, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E41<T0, T1: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize, T2> where T0: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize, T2: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize {
    #[bsn1_serde(tag_class = PRIVATE, id = Real)]
    Error { r#type: T1, eoc: T0, #[bsn1_serde(from = "i64", into = "i64")] der: Num, n7: T2 },
    #[bsn1_serde(id = Set, tag_class = CONTEXT_SPECIFIC, tag_num = 25)]
    One(),
    #[bsn1_serde(id = BitString)]
    Many,
    #[bsn1_serde(tag_num = 0b10000, id = Null)]
    W18(S16, Quiet<i8, 3>),
    #[bsn1_serde(tag_class = UNIVERSAL)]
    W6(i8),
}
impl<T0: RefCodec, T1: RefCodec, T2: RefCodec> RefCodec for E41<T0, T1, T2> {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(5) { 0 => { let s = s / 4; E41::Error { r#type: <T1 as RefCodec>::gen(r, s), eoc: <T0 as RefCodec>::gen(r, s), der: <Num as RefCodec>::gen(r, s), n7: <T2 as RefCodec>::gen(r, s) } }, 1 => { let s = s / 1; E41::One() }, 2 => { let s = s / 1; E41::Many }, 3 => { let s = s / 2; E41::W18(<S16 as RefCodec>::gen(r, s), <Quiet<i8, 3> as RefCodec>::gen(r, s)) }, _ => { let s = s / 1; E41::W6(<i8 as RefCodec>::gen(r, s)) }, } }
    fn node(&self) -> Node { match self { E41::Error { r#type: x0, eoc: x1, der: x2, n7: x3 } => Node::Cons(vec![0xc9], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(&((x2.0 as i64 * 3 + 1))), RefCodec::node(x3)]), E41::One() => Node::Cons(vec![0xb9], vec![]), E41::Many => Node::Cons(vec![0x03], vec![]), E41::W18(x0, x1) => Node::Cons(vec![0x10], vec![RefCodec::node(x0), RefCodec::node(x1)]), E41::W6(x0) => Node::Cons(vec![0x30], vec![RefCodec::node(x0)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0xc9] { e.want(&[0xc9])?; { let mut k = e.kids(m); let v0: Option<T1> = k.field(); let v1: Option<T0> = k.field(); let v2: Option<Num> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Num(c.wrapping_sub(1).wrapping_div(3) as i32))); k.keep(x) } }; let v3: Option<T2> = k.field(); k.end()?; Ok(E41::Error { r#type: v0.unwrap(), eoc: v1.unwrap(), der: v2.unwrap(), n7: v3.unwrap() }) } } else if e.id == &[0xb9] { e.want(&[0xb9])?; { let mut k = e.kids(m); k.end()?; Ok(E41::One()) } } else if e.id == &[0x03] { e.want(&[0x03])?; { let mut k = e.kids(m); k.end()?; Ok(E41::Many) } } else if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); let v0: Option<S16> = k.field(); let v1: Option<Quiet<i8, 3>> = k.field(); k.end()?; Ok(E41::W18(v0.unwrap(), v1.unwrap())) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); let v0: Option<i8> = k.field(); k.end()?; Ok(E41::W6(v0.unwrap())) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E41::Error { r#type: x0, eoc: x1, der: x2, n7: x3 } => Some(E41::Error { r#type: RefCodec::after(x0)?, eoc: RefCodec::after(x1)?, der: x2.clone(), n7: RefCodec::after(x3)? }), E41::One() => Some(E41::One()), E41::Many => Some(E41::Many), E41::W18(x0, x1) => Some(E41::W18(RefCodec::after(x0)?, RefCodec::after(x1)?)), E41::W6(x0) => Some(E41::W6(RefCodec::after(x0)?)), } }
    fn wire(&self) -> Node { match self { E41::Error { r#type: x0, eoc: x1, der: x2, n7: x3 } => Node::Cons(vec![0xc9], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::node(&(x2.0 as i64 * 3 + 1)), RefCodec::wire(x3)]), E41::One() => Node::Cons(vec![0xb9], vec![]), E41::Many => Node::Cons(vec![0x03], vec![]), E41::W18(x0, x1) => Node::Cons(vec![0x10], vec![RefCodec::wire(x0), RefCodec::wire(x1)]), E41::W6(x0) => Node::Cons(vec![0x30], vec![RefCodec::wire(x0)]), } }
}
#[derive(bsn1_serde::Deserialize, PartialOrd, bsn1_serde::Serialize, Clone, PartialEq, Debug, Ord, Eq, Hash)]
#[bsn1_serde(tag_pc = CONSTRUCTED, tag_num = 2097152, tag_class = PRIVATE)]
pub struct S42 {  }
impl RefCodec for S42 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S42 {  } } }
    fn node(&self) -> Node { Node::Cons(vec![0xff, 0x81, 0x80, 0x80, 0x00], vec![]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0xff, 0x81, 0x80, 0x80, 0x00])?; let mut k = e.kids(m); k.end()?; Ok(S42 {  }) }
    fn after(&self) -> Option<Self> { Some(S42 {  }) }
    fn wire(&self) -> Node { Node::Cons(vec![0xff, 0x81, 0x80, 0x80, 0x00], vec![]) }
}
pub fn dflt_5() -> u8 { 255 }
pub fn dflt_6() -> (u8, bool) { (3, true) }
#[derive(Debug, Clone, bsn1_serde::Serialize, PartialEq, bsn1_serde::Deserialize)]
pub enum E43 {
    #[bsn1_serde(tag_pc = PRIMITIVE)]
    One,
    #[bsn1_serde(tag_pc = CONSTRUCTED)]
    W1 {  },
    #[bsn1_serde(tag_num = 0x10000000000000000, id = Real, tag_class = UNIVERSAL)]
    W8(#[bsn1_serde(skip)] usize),
    #[bsn1_serde(tag_num = 127)]
    Leaf(S14, S14, #[bsn1_serde(skip_serializing)] Num, #[bsn1_serde(skip)] (u8, bool)),
    #[bsn1_serde(tag_num = 0xffffffffffffffffffffffffffffffff, tag_pc = CONSTRUCTED)]
    Length(#[bsn1_serde(skip)] [u8; 3], u16, E23),
    #[bsn1_serde(tag_num = 0o201)]
    W13(#[bsn1_serde(skip_serializing)] LinkedList<bool>, #[bsn1_serde(into = "i64", try_from = "i64")] Picky<i64>),
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC)]
    Nothing { field_0: E22 },
    #[bsn1_serde(tag_class = PRIVATE, tag_pc = PRIMITIVE)]
    Many,
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_class = CONTEXT_SPECIFIC, tag_num = 0x81)]
    W18(#[bsn1_serde(from = "String", into = "String")] Conv<String>),
    #[bsn1_serde(id = UTF8String, tag_pc = PRIMITIVE, tag_num = 0x81)]
    C { #[bsn1_serde(into = "HashSet<u16>", try_from = "HashSet<u16>")] n6: Picky<HashSet<u16>> },
    #[bsn1_serde(tag_num = 0x4000)]
    W15(),
    #[bsn1_serde(tag_num = 0b11101, tag_class = PRIVATE)]
    W17 { #[bsn1_serde(to = "picky_ref", try_from = "bool")] n0: Picky<bool> },
    #[bsn1_serde(tag_num = 0o201, id = Set, tag_class = APPLICATION)]
    Unit {  },
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 0x1893e)]
    B(#[bsn1_serde(into = "i64")] Num, #[bsn1_serde(skip_deserializing, skip_serializing, default = "dflt_5")] u8),
    #[bsn1_serde(tag_num = 0o20, tag_class = PRIVATE)]
    V2(#[bsn1_serde(skip, default = "dflt_6")] (u8, bool), #[bsn1_serde(skip)] i128, i8, #[bsn1_serde(skip, skip_deserializing)] i32),
    #[bsn1_serde(tag_num = 0x0, tag_pc = PRIMITIVE)]
    W7(Num, K18),
    #[bsn1_serde(tag_class = PRIVATE, id = Integer, tag_num = 0b1111)]
    W12,
    #[bsn1_serde(tag_pc = CONSTRUCTED, tag_num = 0b0, id = Null)]
    W4 { err: E22, r#type: E22 },
}
impl RefCodec for E43 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(18) { 0 => { let s = s / 1; E43::One }, 1 => { let s = s / 1; E43::W1 {  } }, 2 => { let s = s / 1; E43::W8(<usize as RefCodec>::gen(r, s)) }, 3 => { let s = s / 4; E43::Leaf(<S14 as RefCodec>::gen(r, s), <S14 as RefCodec>::gen(r, s), <Num as RefCodec>::gen(r, s), (r.u8(), r.chance(1, 2))) }, 4 => { let s = s / 3; E43::Length([r.u8(), r.u8(), r.u8()], <u16 as RefCodec>::gen(r, s), <E23 as RefCodec>::gen(r, s)) }, 5 => { let s = s / 2; E43::W13(<LinkedList<bool> as RefCodec>::gen(r, s), gen_picky::<i64>(r, s)) }, 6 => { let s = s / 1; E43::Nothing { field_0: <E22 as RefCodec>::gen(r, s) } }, 7 => { let s = s / 1; E43::Many }, 8 => { let s = s / 1; E43::W18(Conv(<String as RefCodec>::gen(r, s))) }, 9 => { let s = s / 1; E43::C { n6: gen_picky::<HashSet<u16>>(r, s) } }, 10 => { let s = s / 1; E43::W15() }, 11 => { let s = s / 1; E43::W17 { n0: gen_picky::<bool>(r, s) } }, 12 => { let s = s / 1; E43::Unit {  } }, 13 => { let s = s / 2; E43::B(<Num as RefCodec>::gen(r, s), <u8 as RefCodec>::gen(r, s)) }, 14 => { let s = s / 4; E43::V2((r.u8(), r.chance(1, 2)), <i128 as RefCodec>::gen(r, s), <i8 as RefCodec>::gen(r, s), <i32 as RefCodec>::gen(r, s)) }, 15 => { let s = s / 2; E43::W7(<Num as RefCodec>::gen(r, s), <K18 as RefCodec>::gen(r, s)) }, 16 => { let s = s / 1; E43::W12 }, _ => { let s = s / 2; E43::W4 { err: <E22 as RefCodec>::gen(r, s), r#type: <E22 as RefCodec>::gen(r, s) } }, } }
    fn node(&self) -> Node { match self { E43::One => Node::Cons(vec![0x10], vec![]), E43::W1 {  } => Node::Cons(vec![0x30], vec![]), E43::W8(x0) => Node::Cons(vec![0x1f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![]), E43::Leaf(x0, x1, x2, x3) => Node::Cons(vec![0x3f, 0x7f], vec![RefCodec::node(x0), RefCodec::node(x1)]), E43::Length(x0, x1, x2) => Node::Cons(vec![0x3f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![RefCodec::node(x1), RefCodec::node(x2)]), E43::W13(x0, x1) => Node::Cons(vec![0x3f, 0x81, 0x01], vec![RefCodec::node(&(x1.0.clone()))]), E43::Nothing { field_0: x0 } => Node::Cons(vec![0xb0], vec![RefCodec::node(x0)]), E43::Many => Node::Cons(vec![0xd0], vec![]), E43::W18(x0) => Node::Cons(vec![0x9f, 0x81, 0x01], vec![RefCodec::node(&(x0.0.clone()))]), E43::C { n6: x0 } => Node::Cons(vec![0x1f, 0x81, 0x01], vec![RefCodec::node(&(x0.0.clone()))]), E43::W15() => Node::Cons(vec![0x3f, 0x81, 0x80, 0x00], vec![]), E43::W17 { n0: x0 } => Node::Cons(vec![0xfd], vec![RefCodec::node(&(x0.0.clone()))]), E43::Unit {  } => Node::Cons(vec![0x7f, 0x81, 0x01], vec![]), E43::B(x0, x1) => Node::Cons(vec![0x7f, 0x86, 0x92, 0x3e], vec![RefCodec::node(&((x0.0 as i64 * 3 + 1)))]), E43::V2(x0, x1, x2, x3) => Node::Cons(vec![0xf0], vec![RefCodec::node(x2)]), E43::W7(x0, x1) => Node::Cons(vec![0x00], vec![RefCodec::node(x0), RefCodec::node(x1)]), E43::W12 => Node::Cons(vec![0xcf], vec![]), E43::W4 { err: x0, r#type: x1 } => Node::Cons(vec![0x20], vec![RefCodec::node(x0), RefCodec::node(x1)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); k.end()?; Ok(E43::One) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); k.end()?; Ok(E43::W1 {  }) } } else if e.id == &[0x1f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00] { e.want(&[0x1f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E43::W8(Default::default())) } } else if e.id == &[0x3f, 0x7f] { e.want(&[0x3f, 0x7f])?; { let mut k = e.kids(m); let v0: Option<S14> = k.field(); let v1: Option<S14> = k.field(); let v2: Option<Num> = k.field(); k.end()?; Ok(E43::Leaf(v0.unwrap(), v1.unwrap(), v2.unwrap(), Default::default())) } } else if e.id == &[0x3f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f] { e.want(&[0x3f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f])?; { let mut k = e.kids(m); let v1: Option<u16> = k.field(); let v2: Option<E23> = k.field(); k.end()?; Ok(E43::Length(Default::default(), v1.unwrap(), v2.unwrap())) } } else if e.id == &[0x3f, 0x81, 0x01] { e.want(&[0x3f, 0x81, 0x01])?; { let mut k = e.kids(m); let v0: Option<LinkedList<bool>> = k.field(); let v1: Option<Picky<i64>> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(E43::W13(v0.unwrap(), v1.unwrap())) } } else if e.id == &[0xb0] { e.want(&[0xb0])?; { let mut k = e.kids(m); let v0: Option<E22> = k.field(); k.end()?; Ok(E43::Nothing { field_0: v0.unwrap() }) } } else if e.id == &[0xd0] { e.want(&[0xd0])?; { let mut k = e.kids(m); k.end()?; Ok(E43::Many) } } else if e.id == &[0x9f, 0x81, 0x01] { e.want(&[0x9f, 0x81, 0x01])?; { let mut k = e.kids(m); let v0: Option<Conv<String>> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E43::W18(v0.unwrap())) } } else if e.id == &[0x1f, 0x81, 0x01] { e.want(&[0x1f, 0x81, 0x01])?; { let mut k = e.kids(m); let v0: Option<Picky<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(E43::C { n6: v0.unwrap() }) } } else if e.id == &[0x3f, 0x81, 0x80, 0x00] { e.want(&[0x3f, 0x81, 0x80, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E43::W15()) } } else if e.id == &[0xfd] { e.want(&[0xfd])?; { let mut k = e.kids(m); let v0: Option<Picky<bool>> = match k.next() { None => None, Some(e) => { let x = <bool as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(E43::W17 { n0: v0.unwrap() }) } } else if e.id == &[0x7f, 0x81, 0x01] { e.want(&[0x7f, 0x81, 0x01])?; { let mut k = e.kids(m); k.end()?; Ok(E43::Unit {  }) } } else if e.id == &[0x7f, 0x86, 0x92, 0x3e] { e.want(&[0x7f, 0x86, 0x92, 0x3e])?; { let mut k = e.kids(m); let v0: Option<Num> = k.field(); k.end()?; Ok(E43::B(v0.unwrap(), 255)) } } else if e.id == &[0xf0] { e.want(&[0xf0])?; { let mut k = e.kids(m); let v2: Option<i8> = k.field(); k.end()?; Ok(E43::V2((3, true), Default::default(), v2.unwrap(), Default::default())) } } else if e.id == &[0x00] { e.want(&[0x00])?; { let mut k = e.kids(m); let v0: Option<Num> = k.field(); let v1: Option<K18> = k.field(); k.end()?; Ok(E43::W7(v0.unwrap(), v1.unwrap())) } } else if e.id == &[0xcf] { e.want(&[0xcf])?; { let mut k = e.kids(m); k.end()?; Ok(E43::W12) } } else if e.id == &[0x20] { e.want(&[0x20])?; { let mut k = e.kids(m); let v0: Option<E22> = k.field(); let v1: Option<E22> = k.field(); k.end()?; Ok(E43::W4 { err: v0.unwrap(), r#type: v1.unwrap() }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E43::One => Some(E43::One), E43::W1 {  } => Some(E43::W1 {  }), E43::W8(x0) => Some(E43::W8(Default::default())), E43::Leaf(x0, x1, x2, x3) => None, E43::Length(x0, x1, x2) => Some(E43::Length(Default::default(), RefCodec::after(x1)?, RefCodec::after(x2)?)), E43::W13(x0, x1) => None, E43::Nothing { field_0: x0 } => Some(E43::Nothing { field_0: RefCodec::after(x0)? }), E43::Many => Some(E43::Many), E43::W18(x0) => Some(E43::W18(x0.clone())), E43::C { n6: x0 } => Some(E43::C { n6: { let v = x0; if refuses(&v.0) { return None } v.clone() } }), E43::W15() => Some(E43::W15()), E43::W17 { n0: x0 } => Some(E43::W17 { n0: { let v = x0; if refuses(&v.0) { return None } v.clone() } }), E43::Unit {  } => Some(E43::Unit {  }), E43::B(x0, x1) => None, E43::V2(x0, x1, x2, x3) => Some(E43::V2((3, true), Default::default(), RefCodec::after(x2)?, Default::default())), E43::W7(x0, x1) => Some(E43::W7(RefCodec::after(x0)?, RefCodec::after(x1)?)), E43::W12 => Some(E43::W12), E43::W4 { err: x0, r#type: x1 } => Some(E43::W4 { err: RefCodec::after(x0)?, r#type: RefCodec::after(x1)? }), } }
    fn wire(&self) -> Node { match self { E43::One => Node::Cons(vec![0x10], vec![]), E43::W1 {  } => Node::Cons(vec![0x30], vec![]), E43::W8(x0) => Node::Cons(vec![0x1f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![]), E43::Leaf(x0, x1, x2, x3) => Node::Cons(vec![0x3f, 0x7f], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(x2)]), E43::Length(x0, x1, x2) => Node::Cons(vec![0x3f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![RefCodec::wire(x1), RefCodec::wire(x2)]), E43::W13(x0, x1) => Node::Cons(vec![0x3f, 0x81, 0x01], vec![RefCodec::wire(x0), RefCodec::wire(&x1.0)]), E43::Nothing { field_0: x0 } => Node::Cons(vec![0xb0], vec![RefCodec::wire(x0)]), E43::Many => Node::Cons(vec![0xd0], vec![]), E43::W18(x0) => Node::Cons(vec![0x9f, 0x81, 0x01], vec![RefCodec::wire(&x0.0)]), E43::C { n6: x0 } => Node::Cons(vec![0x1f, 0x81, 0x01], vec![RefCodec::wire(&x0.0)]), E43::W15() => Node::Cons(vec![0x3f, 0x81, 0x80, 0x00], vec![]), E43::W17 { n0: x0 } => Node::Cons(vec![0xfd], vec![RefCodec::wire(&x0.0)]), E43::Unit {  } => Node::Cons(vec![0x7f, 0x81, 0x01], vec![]), E43::B(x0, x1) => Node::Cons(vec![0x7f, 0x86, 0x92, 0x3e], vec![RefCodec::wire(x0)]), E43::V2(x0, x1, x2, x3) => Node::Cons(vec![0xf0], vec![RefCodec::wire(x2)]), E43::W7(x0, x1) => Node::Cons(vec![0x00], vec![RefCodec::wire(x0), RefCodec::wire(x1)]), E43::W12 => Node::Cons(vec![0xcf], vec![]), E43::W4 { err: x0, r#type: x1 } => Node::Cons(vec![0x20], vec![RefCodec::wire(x0), RefCodec::wire(x1)]), } }
}
#[derive(PartialEq, bsn1_serde::Serialize, PartialOrd, bsn1_serde::Deserialize, Debug, Eq, Clone, Hash, Ord)]
pub enum E44 {
    #[bsn1_serde(id = OctetString, tag_num = 0x5D27)]
    Unit { #[bsn1_serde(skip_serializing, skip)] tag: u8 },
    #[bsn1_serde(tag_num = 0, tag_class = PRIVATE, id = Boolean)]
    W0 {  },
}
impl RefCodec for E44 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(2) { 0 => { let s = s / 1; E44::Unit { tag: <u8 as RefCodec>::gen(r, s) } }, _ => { let s = s / 1; E44::W0 {  } }, } }
    fn node(&self) -> Node { match self { E44::Unit { tag: x0 } => Node::Cons(vec![0x1f, 0x81, 0xba, 0x27], vec![]), E44::W0 {  } => Node::Cons(vec![0xc0], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x1f, 0x81, 0xba, 0x27] { e.want(&[0x1f, 0x81, 0xba, 0x27])?; { let mut k = e.kids(m); k.end()?; Ok(E44::Unit { tag: Default::default() }) } } else if e.id == &[0xc0] { e.want(&[0xc0])?; { let mut k = e.kids(m); k.end()?; Ok(E44::W0 {  }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E44::Unit { tag: x0 } => Some(E44::Unit { tag: Default::default() }), E44::W0 {  } => Some(E44::W0 {  }), } }
    fn wire(&self) -> Node { match self { E44::Unit { tag: x0 } => Node::Cons(vec![0x1f, 0x81, 0xba, 0x27], vec![]), E44::W0 {  } => Node::Cons(vec![0xc0], vec![]), } }
}
#[derive(PartialEq, Debug, Hash, Ord, Eq, bsn1_serde::Deserialize, PartialOrd, bsn1_serde::Serialize, Clone)]
#[bsn1_serde(tag_pc = PRIMITIVE, tag_class = CONTEXT_SPECIFIC)]
pub struct S45 {  }
impl RefCodec for S45 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S45 {  } } }
    fn node(&self) -> Node { Node::Cons(vec![0x90], vec![]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x90])?; let mut k = e.kids(m); k.end()?; Ok(S45 {  }) }
    fn after(&self) -> Option<Self> { Some(S45 {  }) }
    fn wire(&self) -> Node { Node::Cons(vec![0x90], vec![]) }
}
#[derive(bsn1_serde::Deserialize, Eq, Debug, Clone, bsn1_serde::Serialize, PartialOrd, Hash, PartialEq, Ord)]
#[bsn1_serde(tag_pc = CONSTRUCTED, tag_class = UNIVERSAL, tag_num = 0b1111, id = Null)]
pub struct S46 {  }
impl RefCodec for S46 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S46 {  } } }
    fn node(&self) -> Node { Node::Cons(vec![0x2f], vec![]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x2f])?; let mut k = e.kids(m); k.end()?; Ok(S46 {  }) }
    fn after(&self) -> Option<Self> { Some(S46 {  }) }
    fn wire(&self) -> Node { Node::Cons(vec![0x2f], vec![]) }
}
#[derive(bsn1_serde::Deserialize, PartialEq, Clone, PartialOrd, Eq, bsn1_serde::Serialize, Debug, Ord, Hash)]
pub enum E47 {
    #[bsn1_serde(tag_num = 0x7F)]
    Leaf(#[bsn1_serde(to = "picky_ref", try_from = "i64")] Picky<i64>, E13),
    #[bsn1_serde(tag_pc = CONSTRUCTED, id = Null, tag_num = 0b0)]
    Length(i32, #[bsn1_serde(from = "i64")] Num),
    #[bsn1_serde(id = BitString)]
    W15(),
}
impl RefCodec for E47 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(3) { 0 => { let s = s / 2; E47::Leaf(gen_picky::<i64>(r, s), <E13 as RefCodec>::gen(r, s)) }, 1 => { let s = s / 2; E47::Length(<i32 as RefCodec>::gen(r, s), <Num as RefCodec>::gen(r, s)) }, _ => { let s = s / 1; E47::W15() }, } }
    fn node(&self) -> Node { match self { E47::Leaf(x0, x1) => Node::Cons(vec![0x3f, 0x7f], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(x1)]), E47::Length(x0, x1) => Node::Cons(vec![0x20], vec![RefCodec::node(x0), RefCodec::node(x1)]), E47::W15() => Node::Cons(vec![0x03], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x3f, 0x7f] { e.want(&[0x3f, 0x7f])?; { let mut k = e.kids(m); let v0: Option<Picky<i64>> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v1: Option<E13> = k.field(); k.end()?; Ok(E47::Leaf(v0.unwrap(), v1.unwrap())) } } else if e.id == &[0x20] { e.want(&[0x20])?; { let mut k = e.kids(m); let v0: Option<i32> = k.field(); let v1: Option<Num> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Num(c.wrapping_sub(1).wrapping_div(3) as i32))); k.keep(x) } }; k.end()?; Ok(E47::Length(v0.unwrap(), v1.unwrap())) } } else if e.id == &[0x03] { e.want(&[0x03])?; { let mut k = e.kids(m); k.end()?; Ok(E47::W15()) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E47::Leaf(x0, x1) => Some(E47::Leaf({ let v = x0; if refuses(&v.0) { return None } v.clone() }, RefCodec::after(x1)?)), E47::Length(x0, x1) => None, E47::W15() => Some(E47::W15()), } }
    fn wire(&self) -> Node { match self { E47::Leaf(x0, x1) => Node::Cons(vec![0x3f, 0x7f], vec![RefCodec::wire(&x0.0), RefCodec::wire(x1)]), E47::Length(x0, x1) => Node::Cons(vec![0x20], vec![RefCodec::wire(x0), RefCodec::node(&(x1.0 as i64 * 3 + 1))]), E47::W15() => Node::Cons(vec![0x03], vec![]), } }
}
#[derive(Clone, PartialOrd, Hash, Debug, PartialEq, bsn1_serde::Deserialize, Ord, bsn1_serde::Serialize, Eq)]
#[bsn1_serde(from = "u128", into = "u128")]
pub struct K48(pub u8, pub u128);
impl From<K48> for u128 { fn from(v: K48) -> Self { v.1 } }
pub fn out_48(v: &K48) -> u128 { v.1.clone() }
impl K48 { pub fn out(&self) -> u128 { out_48(self) } }
impl From<u128> for K48 { fn from(c: u128) -> Self { K48(0, c) } }
impl RefCodec for K48 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <u128 as RefCodec>::gen(r, s); K48(r.u8(), c) }
    fn node(&self) -> Node { RefCodec::node((&out_48(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <u128 as RefCodec>::dec(e, m).and_then(|c| Ok(K48(0, c))) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_48(self)))?; Some(K48(0, c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_48(self))) }
}
pub fn dflt_7() -> Option<u8> { Some(9) }
#[derive(bsn1_serde::Serialize, Debug, bsn1_serde::Deserialize, Clone, PartialEq)]
pub enum E49 {
    #[bsn1_serde(id = UTF8String, tag_class = APPLICATION)]
    V1 {  },
    #[bsn1_serde(tag_class = PRIVATE)]
    Unit { #[bsn1_serde(into = "HashSet<u16>", from = "HashSet<u16>")] tag: Conv<HashSet<u16>>, inner: E8, #[bsn1_serde(into = "Vec<u8>", from = "Vec<u8>")] n8: Conv<Vec<u8>>, #[bsn1_serde(from = "OctetString<'static>", to = "conv_ref")] a: Conv<OctetString<'static>>, r#async: E8, n6: S14 },
    #[bsn1_serde(tag_num = 2097151, id = Real)]
    C(#[bsn1_serde(skip)] std::time::Duration, #[bsn1_serde(skip, default = "dflt_7")] Option<u8>, E43, S21<u128, std::collections::VecDeque<i16>>, K48, #[bsn1_serde(skip)] i16),
    #[bsn1_serde(tag_num = 0x80, tag_class = APPLICATION, id = OctetString)]
    W8(),
    #[bsn1_serde(id = Set, tag_pc = PRIMITIVE, tag_class = APPLICATION)]
    W18 {  },
}
impl RefCodec for E49 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(5) { 0 => { let s = s / 1; E49::V1 {  } }, 1 => { let s = s / 6; E49::Unit { tag: Conv(<HashSet<u16> as RefCodec>::gen(r, s)), inner: <E8 as RefCodec>::gen(r, s), n8: Conv(<Vec<u8> as RefCodec>::gen(r, s)), a: Conv(<OctetString<'static> as RefCodec>::gen(r, s)), r#async: <E8 as RefCodec>::gen(r, s), n6: <S14 as RefCodec>::gen(r, s) } }, 2 => { let s = s / 6; E49::C(std::time::Duration::from_millis(r.below(5000) as u64), if r.chance(1, 2) { Some(r.u8()) } else { None }, <E43 as RefCodec>::gen(r, s), <S21<u128, std::collections::VecDeque<i16>> as RefCodec>::gen(r, s), <K48 as RefCodec>::gen(r, s), <i16 as RefCodec>::gen(r, s)) }, 3 => { let s = s / 1; E49::W8() }, _ => { let s = s / 1; E49::W18 {  } }, } }
    fn node(&self) -> Node { match self { E49::V1 {  } => Node::Cons(vec![0x4c], vec![]), E49::Unit { tag: x0, inner: x1, n8: x2, a: x3, r#async: x4, n6: x5 } => Node::Cons(vec![0xf0], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(x1), RefCodec::node(&(x2.0.clone())), RefCodec::node(&(x3.0.clone())), RefCodec::node(x4), RefCodec::node(x5)]), E49::C(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x1f, 0xff, 0xff, 0x7f], vec![RefCodec::node(x2), RefCodec::node(x3), RefCodec::node(x4)]), E49::W8() => Node::Cons(vec![0x5f, 0x81, 0x00], vec![]), E49::W18 {  } => Node::Cons(vec![0x51], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x4c] { e.want(&[0x4c])?; { let mut k = e.kids(m); k.end()?; Ok(E49::V1 {  }) } } else if e.id == &[0xf0] { e.want(&[0xf0])?; { let mut k = e.kids(m); let v0: Option<Conv<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v1: Option<E8> = k.field(); let v2: Option<Conv<Vec<u8>>> = match k.next() { None => None, Some(e) => { let x = <Vec<u8> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v3: Option<Conv<OctetString<'static>>> = match k.next() { None => None, Some(e) => { let x = <OctetString<'static> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v4: Option<E8> = k.field(); let v5: Option<S14> = k.field(); k.end()?; Ok(E49::Unit { tag: v0.unwrap(), inner: v1.unwrap(), n8: v2.unwrap(), a: v3.unwrap(), r#async: v4.unwrap(), n6: v5.unwrap() }) } } else if e.id == &[0x1f, 0xff, 0xff, 0x7f] { e.want(&[0x1f, 0xff, 0xff, 0x7f])?; { let mut k = e.kids(m); let v2: Option<E43> = k.field(); let v3: Option<S21<u128, std::collections::VecDeque<i16>>> = k.field(); let v4: Option<K48> = k.field(); k.end()?; Ok(E49::C(Default::default(), Some(9), v2.unwrap(), v3.unwrap(), v4.unwrap(), Default::default())) } } else if e.id == &[0x5f, 0x81, 0x00] { e.want(&[0x5f, 0x81, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E49::W8()) } } else if e.id == &[0x51] { e.want(&[0x51])?; { let mut k = e.kids(m); k.end()?; Ok(E49::W18 {  }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E49::V1 {  } => Some(E49::V1 {  }), E49::Unit { tag: x0, inner: x1, n8: x2, a: x3, r#async: x4, n6: x5 } => Some(E49::Unit { tag: x0.clone(), inner: RefCodec::after(x1)?, n8: x2.clone(), a: x3.clone(), r#async: RefCodec::after(x4)?, n6: RefCodec::after(x5)? }), E49::C(x0, x1, x2, x3, x4, x5) => Some(E49::C(Default::default(), Some(9), RefCodec::after(x2)?, RefCodec::after(x3)?, RefCodec::after(x4)?, Default::default())), E49::W8() => Some(E49::W8()), E49::W18 {  } => Some(E49::W18 {  }), } }
    fn wire(&self) -> Node { match self { E49::V1 {  } => Node::Cons(vec![0x4c], vec![]), E49::Unit { tag: x0, inner: x1, n8: x2, a: x3, r#async: x4, n6: x5 } => Node::Cons(vec![0xf0], vec![RefCodec::wire(&x0.0), RefCodec::wire(x1), RefCodec::wire(&x2.0), RefCodec::wire(&x3.0), RefCodec::wire(x4), RefCodec::wire(x5)]), E49::C(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x1f, 0xff, 0xff, 0x7f], vec![RefCodec::wire(x2), RefCodec::wire(x3), RefCodec::wire(x4)]), E49::W8() => Node::Cons(vec![0x5f, 0x81, 0x00], vec![]), E49::W18 {  } => Node::Cons(vec![0x51], vec![]), } }
}
#[derive(bsn1_serde::Deserialize, Clone, bsn1_serde::Serialize, Debug, PartialEq)]
#[bsn1_serde(transparent)]
pub struct S50<T0: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize + Sized> { pub n3: T0, #[bsn1_serde(skip)] pub length: Num, #[bsn1_serde(skip)] pub c: Vec<Vec<i32>> }
impl<T0: RefCodec> RefCodec for S50<T0> {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 3; S50 { n3: <T0 as RefCodec>::gen(r, s), length: <Num as RefCodec>::gen(r, s), c: <Vec<Vec<i32>> as RefCodec>::gen(r, s) } } }
    fn node(&self) -> Node { RefCodec::node((&self.n3)) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; let v: T0 = RefCodec::dec(e, m)?; Ok(S50 { n3: v, length: Default::default(), c: Default::default() }) }
    fn after(&self) -> Option<Self> { Some(S50 { n3: RefCodec::after((&self.n3))?, length: Default::default(), c: Default::default() }) }
    fn wire(&self) -> Node { RefCodec::wire((&self.n3)) }
}
#[derive(Ord, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize, Eq, Hash, PartialOrd, Clone, Debug)]
#[bsn1_serde(tag_num = 0b1111111)]
pub struct S51<T0: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize + Sized>(pub i16, pub T0, #[bsn1_serde(from = "i64", to = "conv_ref")] pub Conv<i64>);
impl<T0: RefCodec> RefCodec for S51<T0> {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 3; S51(<i16 as RefCodec>::gen(r, s), <T0 as RefCodec>::gen(r, s), Conv(<i64 as RefCodec>::gen(r, s))) } }
    fn node(&self) -> Node { Node::Cons(vec![0x3f, 0x7f], vec![RefCodec::node((&self.0)), RefCodec::node((&self.1)), RefCodec::node(&((&self.2).0.clone()))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x3f, 0x7f])?; let mut k = e.kids(m); let v0: Option<i16> = k.field(); let v1: Option<T0> = k.field(); let v2: Option<Conv<i64>> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(S51(v0.unwrap(), v1.unwrap(), v2.unwrap())) }
    fn after(&self) -> Option<Self> { Some(S51(RefCodec::after((&self.0))?, RefCodec::after((&self.1))?, (&self.2).clone())) }
    fn wire(&self) -> Node { Node::Cons(vec![0x3f, 0x7f], vec![RefCodec::wire((&self.0)), RefCodec::wire((&self.1)), RefCodec::wire(&(&self.2).0)]) }
}
#[derive(PartialEq, Clone, bsn1_serde::Serialize, Debug, Hash, bsn1_serde::Deserialize, PartialOrd, Ord, Eq)]
pub enum E52 {
    #[bsn1_serde(id = Boolean, tag_class = UNIVERSAL)]
    Length(),
}
impl RefCodec for E52 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(1) { _ => { let s = s / 1; E52::Length() }, } }
    fn node(&self) -> Node { match self { E52::Length() => Node::Cons(vec![0x01], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x01] { e.want(&[0x01])?; { let mut k = e.kids(m); k.end()?; Ok(E52::Length()) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E52::Length() => Some(E52::Length()), } }
    fn wire(&self) -> Node { match self { E52::Length() => Node::Cons(vec![0x01], vec![]), } }
}
#[derive(Debug, PartialEq, bsn1_serde::Deserialize, bsn1_serde::Serialize, Clone)]
pub struct S53(#[bsn1_serde(skip_deserializing)] pub bool, pub S35, pub E11, pub E47, pub E15, #[bsn1_serde(from = "i64", into = "i64")] pub Num, #[bsn1_serde(from = "Vec<u8>", to = "conv_ref")] pub Conv<Vec<u8>>, pub E41<E4<K0>, K3, S14>, pub E34, pub E23, pub E43, pub S19, pub E43, pub S9, pub E7, #[bsn1_serde(skip_serializing)] pub String, pub S17<S14>, #[bsn1_serde(skip_deserializing)] pub i16, pub Vec<u8>, #[bsn1_serde(skip_deserializing, skip_serializing)] pub (u8, bool), #[bsn1_serde(to = "conv_ref", from = "i64")] pub Conv<i64>, #[bsn1_serde(skip_deserializing)] pub u16);
impl RefCodec for S53 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 22; S53(<bool as RefCodec>::gen(r, s), <S35 as RefCodec>::gen(r, s), <E11 as RefCodec>::gen(r, s), <E47 as RefCodec>::gen(r, s), <E15 as RefCodec>::gen(r, s), <Num as RefCodec>::gen(r, s), Conv(<Vec<u8> as RefCodec>::gen(r, s)), <E41<E4<K0>, K3, S14> as RefCodec>::gen(r, s), <E34 as RefCodec>::gen(r, s), <E23 as RefCodec>::gen(r, s), <E43 as RefCodec>::gen(r, s), <S19 as RefCodec>::gen(r, s), <E43 as RefCodec>::gen(r, s), <S9 as RefCodec>::gen(r, s), <E7 as RefCodec>::gen(r, s), <String as RefCodec>::gen(r, s), <S17<S14> as RefCodec>::gen(r, s), <i16 as RefCodec>::gen(r, s), <Vec<u8> as RefCodec>::gen(r, s), (r.u8(), r.chance(1, 2)), Conv(<i64 as RefCodec>::gen(r, s)), <u16 as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::node((&self.0)), RefCodec::node((&self.1)), RefCodec::node((&self.2)), RefCodec::node((&self.3)), RefCodec::node((&self.4)), RefCodec::node(&(((&self.5).0 as i64 * 3 + 1))), RefCodec::node(&((&self.6).0.clone())), RefCodec::node((&self.7)), RefCodec::node((&self.8)), RefCodec::node((&self.9)), RefCodec::node((&self.10)), RefCodec::node((&self.11)), RefCodec::node((&self.12)), RefCodec::node((&self.13)), RefCodec::node((&self.14)), RefCodec::node((&self.16)), RefCodec::node((&self.17)), RefCodec::node((&self.18)), RefCodec::node(&((&self.20).0.clone())), RefCodec::node((&self.21))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x30])?; let mut k = e.kids(m); let v1: Option<S35> = k.field(); let v2: Option<E11> = k.field(); let v3: Option<E47> = k.field(); let v4: Option<E15> = k.field(); let v5: Option<Num> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Num(c.wrapping_sub(1).wrapping_div(3) as i32))); k.keep(x) } }; let v6: Option<Conv<Vec<u8>>> = match k.next() { None => None, Some(e) => { let x = <Vec<u8> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v7: Option<E41<E4<K0>, K3, S14>> = k.field(); let v8: Option<E34> = k.field(); let v9: Option<E23> = k.field(); let v10: Option<E43> = k.field(); let v11: Option<S19> = k.field(); let v12: Option<E43> = k.field(); let v13: Option<S9> = k.field(); let v14: Option<E7> = k.field(); let v15: Option<String> = k.field(); let v16: Option<S17<S14>> = k.field(); let v18: Option<Vec<u8>> = k.field(); let v20: Option<Conv<i64>> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(S53(Default::default(), v1.unwrap(), v2.unwrap(), v3.unwrap(), v4.unwrap(), v5.unwrap(), v6.unwrap(), v7.unwrap(), v8.unwrap(), v9.unwrap(), v10.unwrap(), v11.unwrap(), v12.unwrap(), v13.unwrap(), v14.unwrap(), v15.unwrap(), v16.unwrap(), Default::default(), v18.unwrap(), Default::default(), v20.unwrap(), Default::default())) }
    fn after(&self) -> Option<Self> { None }
    fn wire(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::wire((&self.1)), RefCodec::wire((&self.2)), RefCodec::wire((&self.3)), RefCodec::wire((&self.4)), RefCodec::node(&((&self.5).0 as i64 * 3 + 1)), RefCodec::wire(&(&self.6).0), RefCodec::wire((&self.7)), RefCodec::wire((&self.8)), RefCodec::wire((&self.9)), RefCodec::wire((&self.10)), RefCodec::wire((&self.11)), RefCodec::wire((&self.12)), RefCodec::wire((&self.13)), RefCodec::wire((&self.14)), RefCodec::wire((&self.15)), RefCodec::wire((&self.16)), RefCodec::wire((&self.18)), RefCodec::wire(&(&self.20).0)]) }
}
#[derive(Debug, bsn1_serde::Serialize, Clone, bsn1_serde::Deserialize, PartialEq)]
pub enum E54 {
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC)]
    W17 { r#match: BTreeSet<u8> },
    #[bsn1_serde(id = OctetString, tag_pc = CONSTRUCTED, tag_num = 0xffffffffffffffff)]
    W15 { #[bsn1_serde(skip_serializing)] n9: BTreeSet<u8>, n10: E13 },
    W0 { #[bsn1_serde(skip_serializing, skip_deserializing)] _under: std::collections::VecDeque<i16>, #[bsn1_serde(into = "String")] w: Num },
    #[bsn1_serde(id = EOC, tag_class = UNIVERSAL, tag_num = 0o201)]
    Nothing {  },
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 0b10100)]
    W10 { n0: S32 },
}
impl RefCodec for E54 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(5) { 0 => { let s = s / 1; E54::W17 { r#match: <BTreeSet<u8> as RefCodec>::gen(r, s) } }, 1 => { let s = s / 2; E54::W15 { n9: <BTreeSet<u8> as RefCodec>::gen(r, s), n10: <E13 as RefCodec>::gen(r, s) } }, 2 => { let s = s / 2; E54::W0 { _under: <std::collections::VecDeque<i16> as RefCodec>::gen(r, s), w: <Num as RefCodec>::gen(r, s) } }, 3 => { let s = s / 1; E54::Nothing {  } }, _ => { let s = s / 1; E54::W10 { n0: <S32 as RefCodec>::gen(r, s) } }, } }
    fn node(&self) -> Node { match self { E54::W17 { r#match: x0 } => Node::Cons(vec![0xb0], vec![RefCodec::node(x0)]), E54::W15 { n9: x0, n10: x1 } => Node::Cons(vec![0x3f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![RefCodec::node(x1)]), E54::W0 { _under: x0, w: x1 } => Node::Cons(vec![0x30], vec![RefCodec::node(&(x1.0.to_string()))]), E54::Nothing {  } => Node::Cons(vec![0x1f, 0x81, 0x01], vec![]), E54::W10 { n0: x0 } => Node::Cons(vec![0x74], vec![RefCodec::node(x0)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0xb0] { e.want(&[0xb0])?; { let mut k = e.kids(m); let v0: Option<BTreeSet<u8>> = k.field(); k.end()?; Ok(E54::W17 { r#match: v0.unwrap() }) } } else if e.id == &[0x3f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f] { e.want(&[0x3f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f])?; { let mut k = e.kids(m); let v0: Option<BTreeSet<u8>> = k.field(); let v1: Option<E13> = k.field(); k.end()?; Ok(E54::W15 { n9: v0.unwrap(), n10: v1.unwrap() }) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); let v1: Option<Num> = k.field(); k.end()?; Ok(E54::W0 { _under: Default::default(), w: v1.unwrap() }) } } else if e.id == &[0x1f, 0x81, 0x01] { e.want(&[0x1f, 0x81, 0x01])?; { let mut k = e.kids(m); k.end()?; Ok(E54::Nothing {  }) } } else if e.id == &[0x74] { e.want(&[0x74])?; { let mut k = e.kids(m); let v0: Option<S32> = k.field(); k.end()?; Ok(E54::W10 { n0: v0.unwrap() }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E54::W17 { r#match: x0 } => Some(E54::W17 { r#match: RefCodec::after(x0)? }), E54::W15 { n9: x0, n10: x1 } => None, E54::W0 { _under: x0, w: x1 } => None, E54::Nothing {  } => Some(E54::Nothing {  }), E54::W10 { n0: x0 } => Some(E54::W10 { n0: RefCodec::after(x0)? }), } }
    fn wire(&self) -> Node { match self { E54::W17 { r#match: x0 } => Node::Cons(vec![0xb0], vec![RefCodec::wire(x0)]), E54::W15 { n9: x0, n10: x1 } => Node::Cons(vec![0x3f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![RefCodec::wire(x0), RefCodec::wire(x1)]), E54::W0 { _under: x0, w: x1 } => Node::Cons(vec![0x30], vec![RefCodec::wire(x1)]), E54::Nothing {  } => Node::Cons(vec![0x1f, 0x81, 0x01], vec![]), E54::W10 { n0: x0 } => Node::Cons(vec![0x74], vec![RefCodec::wire(x0)]), } }
}
#[derive(bsn1_serde::Serialize, bsn1_serde::Deserialize, Hash, Ord, PartialEq, Clone, Eq, Debug, PartialOrd)]
#[bsn1_serde(transparent)]
pub struct S55(#[bsn1_serde(from = "OctetString<'static>", into = "OctetString<'static>")] pub Conv<OctetString<'static>>);
impl RefCodec for S55 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S55(Conv(<OctetString<'static> as RefCodec>::gen(r, s))) } }
    fn node(&self) -> Node { RefCodec::node(&((&self.0).0.clone())) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; let v: Conv<OctetString<'static>> = <OctetString<'static> as RefCodec>::dec(e, m).and_then(|c| Ok(Conv(c)))?; Ok(S55(v)) }
    fn after(&self) -> Option<Self> { Some(S55((&self.0).clone())) }
    fn wire(&self) -> Node { RefCodec::wire(&(&self.0).0) }
}
#[derive(PartialEq, Eq, Hash, Clone, PartialOrd, bsn1_serde::Deserialize, bsn1_serde::Serialize, Ord, Debug)]
#[bsn1_serde(from = "S55", into = "S55")]
pub enum K56 { #[bsn1_serde(id = Set)] One(S55), #[allow(unused)] Two }
impl From<K56> for S55 { fn from(v: K56) -> Self { match v { K56::One(c) => c, K56::Two => unreachable!() } } }
pub fn out_56(v: &K56) -> S55 { match v { K56::One(c) => c.clone(), K56::Two => unreachable!() } }
impl K56 { pub fn out(&self) -> S55 { out_56(self) } }
impl From<S55> for K56 { fn from(c: S55) -> Self { K56::One(c) } }
impl RefCodec for K56 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <S55 as RefCodec>::gen(r, s); K56::One(c) }
    fn node(&self) -> Node { RefCodec::node((&out_56(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <S55 as RefCodec>::dec(e, m).and_then(|c| Ok(K56::One(c))) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_56(self)))?; Some(K56::One(c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_56(self))) }
}
#[derive(Debug, Clone, bsn1_serde::Serialize, bsn1_serde::Deserialize, PartialEq)]
#[bsn1_serde(tag_num = 0x1A, tag_class = UNIVERSAL)]
pub struct S57(pub E29, #[bsn1_serde(try_from = "BTreeMap<String, Vec<u8>>", to = "picky_ref")] pub Picky<BTreeMap<String, Vec<u8>>>, #[bsn1_serde(skip_serializing)] pub HashMap<String, u8>);
impl RefCodec for S57 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 3; S57(<E29 as RefCodec>::gen(r, s), gen_picky::<BTreeMap<String, Vec<u8>>>(r, s), <HashMap<String, u8> as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0x3a], vec![RefCodec::node((&self.0)), RefCodec::node(&((&self.1).0.clone()))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x3a])?; let mut k = e.kids(m); let v0: Option<E29> = k.field(); let v1: Option<Picky<BTreeMap<String, Vec<u8>>>> = match k.next() { None => None, Some(e) => { let x = <BTreeMap<String, Vec<u8>> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v2: Option<HashMap<String, u8>> = k.field(); k.end()?; Ok(S57(v0.unwrap(), v1.unwrap(), v2.unwrap())) }
    fn after(&self) -> Option<Self> { None }
    fn wire(&self) -> Node { Node::Cons(vec![0x3a], vec![RefCodec::wire((&self.0)), RefCodec::wire(&(&self.1).0), RefCodec::wire((&self.2))]) }
}
#[derive(Clone, Debug, bsn1_serde::Deserialize, PartialEq, bsn1_serde::Serialize)]
#[bsn1_serde(to = "out_58", from = "S21<u128, std::collections::VecDeque<i16>>")]
pub enum K58 { #[bsn1_serde(id = Set)] One(S21<u128, std::collections::VecDeque<i16>>), #[allow(unused)] Two }
impl From<K58> for S21<u128, std::collections::VecDeque<i16>> { fn from(v: K58) -> Self { match v { K58::One(c) => c, K58::Two => unreachable!() } } }
pub fn out_58(v: &K58) -> S21<u128, std::collections::VecDeque<i16>> { match v { K58::One(c) => c.clone(), K58::Two => unreachable!() } }
impl K58 { pub fn out(&self) -> S21<u128, std::collections::VecDeque<i16>> { out_58(self) } }
impl From<S21<u128, std::collections::VecDeque<i16>>> for K58 { fn from(c: S21<u128, std::collections::VecDeque<i16>>) -> Self { K58::One(c) } }
impl RefCodec for K58 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <S21<u128, std::collections::VecDeque<i16>> as RefCodec>::gen(r, s); K58::One(c) }
    fn node(&self) -> Node { RefCodec::node((&out_58(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <S21<u128, std::collections::VecDeque<i16>> as RefCodec>::dec(e, m).and_then(|c| Ok(K58::One(c))) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_58(self)))?; Some(K58::One(c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_58(self))) }
}
#[derive(PartialEq, Debug, bsn1_serde::Deserialize, bsn1_serde::Serialize, Clone)]
pub enum E59 {
    #[bsn1_serde(tag_pc = CONSTRUCTED, id = Real, tag_num = 0b1010010010000010010101110100111001000111010101110111110101110011101001001000011101000101111011101011100011011110111100110000111)]
    Nothing(Quiet<u16, 1>),
    #[bsn1_serde(id = Boolean, tag_num = 0x1D)]
    W3 { name: LinkedList<bool>, #[bsn1_serde(skip_deserializing, skip)] length: Option<u8>, n1: i64, der: S17<S14> },
    #[bsn1_serde(tag_class = UNIVERSAL, tag_pc = CONSTRUCTED, id = Real)]
    W5 { val: u128, a: E41<E4<K0>, K3, S14> },
    #[bsn1_serde(tag_num = 0x7F, tag_class = APPLICATION, tag_pc = PRIMITIVE)]
    W11 { write: Vec<u8>, r#fn: E29, #[bsn1_serde(try_from = "u128", to = "picky_ref")] this: Picky<u128>, #[bsn1_serde(skip_serializing, skip_deserializing)] id: HashSet<i8>, #[bsn1_serde(into = "String", try_from = "String")] r#match: Num, #[bsn1_serde(into = "i64", from = "i64")] n9: Num },
    A { #[bsn1_serde(into = "i64", from = "i64")] contents: Num },
    #[bsn1_serde(tag_num = 127, id = OctetString)]
    W1 { #[bsn1_serde(from = "i64", into = "i64")] n9: Num, #[bsn1_serde(skip_serializing)] c: Vec<u8>, n0: HashMap<String, u8>, #[bsn1_serde(to = "num_text", try_from = "String")] n1: Num, r#async: K0, #[bsn1_serde(skip_deserializing)] w: Vec<Vec<i32>> },
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC)]
    W15 { inner: E22, #[bsn1_serde(skip_deserializing)] w: i64 },
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_class = UNIVERSAL)]
    W17(Num, #[bsn1_serde(try_from = "u8", to = "picky_ref")] Picky<u8>, K0, #[bsn1_serde(try_from = "String", to = "picky_ref")] Picky<String>),
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_class = CONTEXT_SPECIFIC, tag_num = 0xFFFFFFFFFFFFFFFF)]
    W7,
    #[bsn1_serde(id = EOC)]
    W12,
    #[bsn1_serde(tag_num = 0b101)]
    C(),
    #[bsn1_serde(tag_num = 0b11111, tag_class = CONTEXT_SPECIFIC)]
    Unit(),
    #[bsn1_serde(tag_pc = CONSTRUCTED, id = UTF8String)]
    Length(#[bsn1_serde(try_from = "String", to = "num_text")] Num, #[bsn1_serde(into = "i64", from = "i64")] Num, #[bsn1_serde(from = "bool", to = "conv_ref")] Conv<bool>),
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_class = CONTEXT_SPECIFIC)]
    Pair {  },
    #[bsn1_serde(tag_num = 0x10000000000000000)]
    V1(),
}
impl RefCodec for E59 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(15) { 0 => { let s = s / 1; E59::Nothing(<Quiet<u16, 1> as RefCodec>::gen(r, s)) }, 1 => { let s = s / 4; E59::W3 { name: <LinkedList<bool> as RefCodec>::gen(r, s), length: if r.chance(1, 2) { Some(r.u8()) } else { None }, n1: <i64 as RefCodec>::gen(r, s), der: <S17<S14> as RefCodec>::gen(r, s) } }, 2 => { let s = s / 2; E59::W5 { val: <u128 as RefCodec>::gen(r, s), a: <E41<E4<K0>, K3, S14> as RefCodec>::gen(r, s) } }, 3 => { let s = s / 6; E59::W11 { write: <Vec<u8> as RefCodec>::gen(r, s), r#fn: <E29 as RefCodec>::gen(r, s), this: gen_picky::<u128>(r, s), id: <HashSet<i8> as RefCodec>::gen(r, s), r#match: <Num as RefCodec>::gen(r, s), n9: <Num as RefCodec>::gen(r, s) } }, 4 => { let s = s / 1; E59::A { contents: <Num as RefCodec>::gen(r, s) } }, 5 => { let s = s / 6; E59::W1 { n9: <Num as RefCodec>::gen(r, s), c: <Vec<u8> as RefCodec>::gen(r, s), n0: <HashMap<String, u8> as RefCodec>::gen(r, s), n1: <Num as RefCodec>::gen(r, s), r#async: <K0 as RefCodec>::gen(r, s), w: <Vec<Vec<i32>> as RefCodec>::gen(r, s) } }, 6 => { let s = s / 2; E59::W15 { inner: <E22 as RefCodec>::gen(r, s), w: <i64 as RefCodec>::gen(r, s) } }, 7 => { let s = s / 4; E59::W17(<Num as RefCodec>::gen(r, s), gen_picky::<u8>(r, s), <K0 as RefCodec>::gen(r, s), gen_picky::<String>(r, s)) }, 8 => { let s = s / 1; E59::W7 }, 9 => { let s = s / 1; E59::W12 }, 10 => { let s = s / 1; E59::C() }, 11 => { let s = s / 1; E59::Unit() }, 12 => { let s = s / 3; E59::Length(<Num as RefCodec>::gen(r, s), <Num as RefCodec>::gen(r, s), Conv(<bool as RefCodec>::gen(r, s))) }, 13 => { let s = s / 1; E59::Pair {  } }, _ => { let s = s / 1; E59::V1() }, } }
    fn node(&self) -> Node { match self { E59::Nothing(x0) => Node::Cons(vec![0x3f, 0x81, 0xa4, 0xc1, 0x95, 0xe9, 0xe4, 0xba, 0xdd, 0xfa, 0xf3, 0xd2, 0xa1, 0xe8, 0xde, 0xf5, 0xe3, 0xbd, 0xf3, 0x07], vec![RefCodec::node(x0)]), E59::W3 { name: x0, length: x1, n1: x2, der: x3 } => Node::Cons(vec![0x1d], vec![RefCodec::node(x0), RefCodec::node(x2), RefCodec::node(x3)]), E59::W5 { val: x0, a: x1 } => Node::Cons(vec![0x29], vec![RefCodec::node(x0), RefCodec::node(x1)]), E59::W11 { write: x0, r#fn: x1, this: x2, id: x3, r#match: x4, n9: x5 } => Node::Cons(vec![0x5f, 0x7f], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(&(x2.0.clone())), RefCodec::node(&(x4.0.to_string())), RefCodec::node(&((x5.0 as i64 * 3 + 1)))]), E59::A { contents: x0 } => Node::Cons(vec![0x30], vec![RefCodec::node(&((x0.0 as i64 * 3 + 1)))]), E59::W1 { n9: x0, c: x1, n0: x2, n1: x3, r#async: x4, w: x5 } => Node::Cons(vec![0x1f, 0x7f], vec![RefCodec::node(&((x0.0 as i64 * 3 + 1))), RefCodec::node(x2), RefCodec::node(&(x3.0.to_string())), RefCodec::node(x4), RefCodec::node(x5)]), E59::W15 { inner: x0, w: x1 } => Node::Cons(vec![0xb0], vec![RefCodec::node(x0), RefCodec::node(x1)]), E59::W17(x0, x1, x2, x3) => Node::Cons(vec![0x10], vec![RefCodec::node(x0), RefCodec::node(&(x1.0.clone())), RefCodec::node(x2), RefCodec::node(&(x3.0.clone()))]), E59::W7 => Node::Cons(vec![0x9f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![]), E59::W12 => Node::Cons(vec![0x00], vec![]), E59::C() => Node::Cons(vec![0x25], vec![]), E59::Unit() => Node::Cons(vec![0xbf, 0x1f], vec![]), E59::Length(x0, x1, x2) => Node::Cons(vec![0x2c], vec![RefCodec::node(&(x0.0.to_string())), RefCodec::node(&((x1.0 as i64 * 3 + 1))), RefCodec::node(&(x2.0.clone()))]), E59::Pair {  } => Node::Cons(vec![0x90], vec![]), E59::V1() => Node::Cons(vec![0x3f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x3f, 0x81, 0xa4, 0xc1, 0x95, 0xe9, 0xe4, 0xba, 0xdd, 0xfa, 0xf3, 0xd2, 0xa1, 0xe8, 0xde, 0xf5, 0xe3, 0xbd, 0xf3, 0x07] { e.want(&[0x3f, 0x81, 0xa4, 0xc1, 0x95, 0xe9, 0xe4, 0xba, 0xdd, 0xfa, 0xf3, 0xd2, 0xa1, 0xe8, 0xde, 0xf5, 0xe3, 0xbd, 0xf3, 0x07])?; { let mut k = e.kids(m); let v0: Option<Quiet<u16, 1>> = k.field(); k.end()?; Ok(E59::Nothing(v0.unwrap())) } } else if e.id == &[0x1d] { e.want(&[0x1d])?; { let mut k = e.kids(m); let v0: Option<LinkedList<bool>> = k.field(); let v2: Option<i64> = k.field(); let v3: Option<S17<S14>> = k.field(); k.end()?; Ok(E59::W3 { name: v0.unwrap(), length: Default::default(), n1: v2.unwrap(), der: v3.unwrap() }) } } else if e.id == &[0x29] { e.want(&[0x29])?; { let mut k = e.kids(m); let v0: Option<u128> = k.field(); let v1: Option<E41<E4<K0>, K3, S14>> = k.field(); k.end()?; Ok(E59::W5 { val: v0.unwrap(), a: v1.unwrap() }) } } else if e.id == &[0x5f, 0x7f] { e.want(&[0x5f, 0x7f])?; { let mut k = e.kids(m); let v0: Option<Vec<u8>> = k.field(); let v1: Option<E29> = k.field(); let v2: Option<Picky<u128>> = match k.next() { None => None, Some(e) => { let x = <u128 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v4: Option<Num> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| c.parse::<i32>().map(Num).map_err(|_| Kinds::ANYHOW)); k.keep(x) } }; let v5: Option<Num> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Num(c.wrapping_sub(1).wrapping_div(3) as i32))); k.keep(x) } }; k.end()?; Ok(E59::W11 { write: v0.unwrap(), r#fn: v1.unwrap(), this: v2.unwrap(), id: Default::default(), r#match: v4.unwrap(), n9: v5.unwrap() }) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); let v0: Option<Num> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Num(c.wrapping_sub(1).wrapping_div(3) as i32))); k.keep(x) } }; k.end()?; Ok(E59::A { contents: v0.unwrap() }) } } else if e.id == &[0x1f, 0x7f] { e.want(&[0x1f, 0x7f])?; { let mut k = e.kids(m); let v0: Option<Num> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Num(c.wrapping_sub(1).wrapping_div(3) as i32))); k.keep(x) } }; let v1: Option<Vec<u8>> = k.field(); let v2: Option<HashMap<String, u8>> = k.field(); let v3: Option<Num> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| c.parse::<i32>().map(Num).map_err(|_| Kinds::ANYHOW)); k.keep(x) } }; let v4: Option<K0> = k.field(); k.end()?; Ok(E59::W1 { n9: v0.unwrap(), c: v1.unwrap(), n0: v2.unwrap(), n1: v3.unwrap(), r#async: v4.unwrap(), w: Default::default() }) } } else if e.id == &[0xb0] { e.want(&[0xb0])?; { let mut k = e.kids(m); let v0: Option<E22> = k.field(); k.end()?; Ok(E59::W15 { inner: v0.unwrap(), w: Default::default() }) } } else if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); let v0: Option<Num> = k.field(); let v1: Option<Picky<u8>> = match k.next() { None => None, Some(e) => { let x = <u8 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v2: Option<K0> = k.field(); let v3: Option<Picky<String>> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(E59::W17(v0.unwrap(), v1.unwrap(), v2.unwrap(), v3.unwrap())) } } else if e.id == &[0x9f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f] { e.want(&[0x9f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f])?; { let mut k = e.kids(m); k.end()?; Ok(E59::W7) } } else if e.id == &[0x00] { e.want(&[0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E59::W12) } } else if e.id == &[0x25] { e.want(&[0x25])?; { let mut k = e.kids(m); k.end()?; Ok(E59::C()) } } else if e.id == &[0xbf, 0x1f] { e.want(&[0xbf, 0x1f])?; { let mut k = e.kids(m); k.end()?; Ok(E59::Unit()) } } else if e.id == &[0x2c] { e.want(&[0x2c])?; { let mut k = e.kids(m); let v0: Option<Num> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| c.parse::<i32>().map(Num).map_err(|_| Kinds::ANYHOW)); k.keep(x) } }; let v1: Option<Num> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Num(c.wrapping_sub(1).wrapping_div(3) as i32))); k.keep(x) } }; let v2: Option<Conv<bool>> = match k.next() { None => None, Some(e) => { let x = <bool as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E59::Length(v0.unwrap(), v1.unwrap(), v2.unwrap())) } } else if e.id == &[0x90] { e.want(&[0x90])?; { let mut k = e.kids(m); k.end()?; Ok(E59::Pair {  }) } } else if e.id == &[0x3f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00] { e.want(&[0x3f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E59::V1()) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E59::Nothing(x0) => Some(E59::Nothing(RefCodec::after(x0)?)), E59::W3 { name: x0, length: x1, n1: x2, der: x3 } => Some(E59::W3 { name: RefCodec::after(x0)?, length: Default::default(), n1: RefCodec::after(x2)?, der: RefCodec::after(x3)? }), E59::W5 { val: x0, a: x1 } => Some(E59::W5 { val: RefCodec::after(x0)?, a: RefCodec::after(x1)? }), E59::W11 { write: x0, r#fn: x1, this: x2, id: x3, r#match: x4, n9: x5 } => Some(E59::W11 { write: RefCodec::after(x0)?, r#fn: RefCodec::after(x1)?, this: { let v = x2; if refuses(&v.0) { return None } v.clone() }, id: Default::default(), r#match: x4.clone(), n9: x5.clone() }), E59::A { contents: x0 } => Some(E59::A { contents: x0.clone() }), E59::W1 { n9: x0, c: x1, n0: x2, n1: x3, r#async: x4, w: x5 } => None, E59::W15 { inner: x0, w: x1 } => None, E59::W17(x0, x1, x2, x3) => Some(E59::W17(RefCodec::after(x0)?, { let v = x1; if refuses(&v.0) { return None } v.clone() }, RefCodec::after(x2)?, { let v = x3; if refuses(&v.0) { return None } v.clone() })), E59::W7 => Some(E59::W7), E59::W12 => Some(E59::W12), E59::C() => Some(E59::C()), E59::Unit() => Some(E59::Unit()), E59::Length(x0, x1, x2) => Some(E59::Length(x0.clone(), x1.clone(), x2.clone())), E59::Pair {  } => Some(E59::Pair {  }), E59::V1() => Some(E59::V1()), } }
    fn wire(&self) -> Node { match self { E59::Nothing(x0) => Node::Cons(vec![0x3f, 0x81, 0xa4, 0xc1, 0x95, 0xe9, 0xe4, 0xba, 0xdd, 0xfa, 0xf3, 0xd2, 0xa1, 0xe8, 0xde, 0xf5, 0xe3, 0xbd, 0xf3, 0x07], vec![RefCodec::wire(x0)]), E59::W3 { name: x0, length: x1, n1: x2, der: x3 } => Node::Cons(vec![0x1d], vec![RefCodec::wire(x0), RefCodec::wire(x2), RefCodec::wire(x3)]), E59::W5 { val: x0, a: x1 } => Node::Cons(vec![0x29], vec![RefCodec::wire(x0), RefCodec::wire(x1)]), E59::W11 { write: x0, r#fn: x1, this: x2, id: x3, r#match: x4, n9: x5 } => Node::Cons(vec![0x5f, 0x7f], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(&x2.0), RefCodec::node(&x4.0.to_string()), RefCodec::node(&(x5.0 as i64 * 3 + 1))]), E59::A { contents: x0 } => Node::Cons(vec![0x30], vec![RefCodec::node(&(x0.0 as i64 * 3 + 1))]), E59::W1 { n9: x0, c: x1, n0: x2, n1: x3, r#async: x4, w: x5 } => Node::Cons(vec![0x1f, 0x7f], vec![RefCodec::node(&(x0.0 as i64 * 3 + 1)), RefCodec::wire(x1), RefCodec::wire(x2), RefCodec::node(&x3.0.to_string()), RefCodec::wire(x4)]), E59::W15 { inner: x0, w: x1 } => Node::Cons(vec![0xb0], vec![RefCodec::wire(x0)]), E59::W17(x0, x1, x2, x3) => Node::Cons(vec![0x10], vec![RefCodec::wire(x0), RefCodec::wire(&x1.0), RefCodec::wire(x2), RefCodec::wire(&x3.0)]), E59::W7 => Node::Cons(vec![0x9f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![]), E59::W12 => Node::Cons(vec![0x00], vec![]), E59::C() => Node::Cons(vec![0x25], vec![]), E59::Unit() => Node::Cons(vec![0xbf, 0x1f], vec![]), E59::Length(x0, x1, x2) => Node::Cons(vec![0x2c], vec![RefCodec::node(&x0.0.to_string()), RefCodec::node(&(x1.0 as i64 * 3 + 1)), RefCodec::wire(&x2.0)]), E59::Pair {  } => Node::Cons(vec![0x90], vec![]), E59::V1() => Node::Cons(vec![0x3f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![]), } }
}
#[derive(Clone, bsn1_serde::Serialize, PartialEq, bsn1_serde::Deserialize, Debug)]
#[bsn1_serde(transparent)]
pub struct S60(#[bsn1_serde(skip)] pub Option<u8>, pub E11);
impl RefCodec for S60 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 2; S60(if r.chance(1, 2) { Some(r.u8()) } else { None }, <E11 as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { RefCodec::node((&self.1)) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; let v: E11 = RefCodec::dec(e, m)?; Ok(S60(Default::default(), v)) }
    fn after(&self) -> Option<Self> { Some(S60(Default::default(), RefCodec::after((&self.1))?)) }
    fn wire(&self) -> Node { RefCodec::wire((&self.1)) }
}
pub struct Host8;
impl Host8 { pub fn make() -> (u8, bool) { (3, true) } }
#[derive(Clone, bsn1_serde::Serialize, Debug, bsn1_serde::Deserialize, PartialEq)]
pub enum E61 {
    #[bsn1_serde(id = BitString, tag_class = CONTEXT_SPECIFIC)]
    W3 { err: S14, r#type: E15, buffer: LinkedList<bool>, #[bsn1_serde(skip_serializing, skip_deserializing, default = "Host8::make")] x: (u8, bool) },
    #[bsn1_serde(tag_num = 0b10000, tag_pc = CONSTRUCTED)]
    V1(Quiet<String, 2>, #[bsn1_serde(from = "String", into = "String")] Conv<String>, #[bsn1_serde(try_from = "BTreeMap<String, Vec<u8>>", into = "BTreeMap<String, Vec<u8>>")] Picky<BTreeMap<String, Vec<u8>>>),
    #[bsn1_serde(tag_class = UNIVERSAL, tag_pc = PRIMITIVE, id = Sequence)]
    Length(S40, E54, S32),
    #[bsn1_serde(tag_num = 0x10000000000000000, tag_class = APPLICATION)]
    W4,
    #[bsn1_serde(tag_num = 0o37777, id = Boolean, tag_class = CONTEXT_SPECIFIC)]
    Data(#[bsn1_serde(from = "OctetString<'static>", into = "OctetString<'static>")] Conv<OctetString<'static>>, E2),
}
impl RefCodec for E61 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(5) { 0 => { let s = s / 4; E61::W3 { err: <S14 as RefCodec>::gen(r, s), r#type: <E15 as RefCodec>::gen(r, s), buffer: <LinkedList<bool> as RefCodec>::gen(r, s), x: (r.u8(), r.chance(1, 2)) } }, 1 => { let s = s / 3; E61::V1(<Quiet<String, 2> as RefCodec>::gen(r, s), Conv(<String as RefCodec>::gen(r, s)), gen_picky::<BTreeMap<String, Vec<u8>>>(r, s)) }, 2 => { let s = s / 3; E61::Length(<S40 as RefCodec>::gen(r, s), <E54 as RefCodec>::gen(r, s), <S32 as RefCodec>::gen(r, s)) }, 3 => { let s = s / 1; E61::W4 }, _ => { let s = s / 2; E61::Data(Conv(<OctetString<'static> as RefCodec>::gen(r, s)), <E2 as RefCodec>::gen(r, s)) }, } }
    fn node(&self) -> Node { match self { E61::W3 { err: x0, r#type: x1, buffer: x2, x: x3 } => Node::Cons(vec![0x83], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(x2)]), E61::V1(x0, x1, x2) => Node::Cons(vec![0x30], vec![RefCodec::node(x0), RefCodec::node(&(x1.0.clone())), RefCodec::node(&(x2.0.clone()))]), E61::Length(x0, x1, x2) => Node::Cons(vec![0x10], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(x2)]), E61::W4 => Node::Cons(vec![0x7f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![]), E61::Data(x0, x1) => Node::Cons(vec![0x9f, 0xff, 0x7f], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(x1)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x83] { e.want(&[0x83])?; { let mut k = e.kids(m); let v0: Option<S14> = k.field(); let v1: Option<E15> = k.field(); let v2: Option<LinkedList<bool>> = k.field(); k.end()?; Ok(E61::W3 { err: v0.unwrap(), r#type: v1.unwrap(), buffer: v2.unwrap(), x: (3, true) }) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); let v0: Option<Quiet<String, 2>> = k.field(); let v1: Option<Conv<String>> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v2: Option<Picky<BTreeMap<String, Vec<u8>>>> = match k.next() { None => None, Some(e) => { let x = <BTreeMap<String, Vec<u8>> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(E61::V1(v0.unwrap(), v1.unwrap(), v2.unwrap())) } } else if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); let v0: Option<S40> = k.field(); let v1: Option<E54> = k.field(); let v2: Option<S32> = k.field(); k.end()?; Ok(E61::Length(v0.unwrap(), v1.unwrap(), v2.unwrap())) } } else if e.id == &[0x7f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00] { e.want(&[0x7f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E61::W4) } } else if e.id == &[0x9f, 0xff, 0x7f] { e.want(&[0x9f, 0xff, 0x7f])?; { let mut k = e.kids(m); let v0: Option<Conv<OctetString<'static>>> = match k.next() { None => None, Some(e) => { let x = <OctetString<'static> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v1: Option<E2> = k.field(); k.end()?; Ok(E61::Data(v0.unwrap(), v1.unwrap())) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E61::W3 { err: x0, r#type: x1, buffer: x2, x: x3 } => Some(E61::W3 { err: RefCodec::after(x0)?, r#type: RefCodec::after(x1)?, buffer: RefCodec::after(x2)?, x: (3, true) }), E61::V1(x0, x1, x2) => Some(E61::V1(RefCodec::after(x0)?, x1.clone(), { let v = x2; if refuses(&v.0) { return None } v.clone() })), E61::Length(x0, x1, x2) => Some(E61::Length(RefCodec::after(x0)?, RefCodec::after(x1)?, RefCodec::after(x2)?)), E61::W4 => Some(E61::W4), E61::Data(x0, x1) => Some(E61::Data(x0.clone(), RefCodec::after(x1)?)), } }
    fn wire(&self) -> Node { match self { E61::W3 { err: x0, r#type: x1, buffer: x2, x: x3 } => Node::Cons(vec![0x83], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(x2)]), E61::V1(x0, x1, x2) => Node::Cons(vec![0x30], vec![RefCodec::wire(x0), RefCodec::wire(&x1.0), RefCodec::wire(&x2.0)]), E61::Length(x0, x1, x2) => Node::Cons(vec![0x10], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(x2)]), E61::W4 => Node::Cons(vec![0x7f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![]), E61::Data(x0, x1) => Node::Cons(vec![0x9f, 0xff, 0x7f], vec![RefCodec::wire(&x0.0), RefCodec::wire(x1)]), } }
}
#[derive(PartialOrd, Hash, Eq, bsn1_serde::Deserialize, Debug, Ord, PartialEq, Clone, bsn1_serde::Serialize)]
pub enum E62 {
    #[bsn1_serde(tag_class = APPLICATION, id = Boolean)]
    W17(),
}
impl RefCodec for E62 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(1) { _ => { let s = s / 1; E62::W17() }, } }
    fn node(&self) -> Node { match self { E62::W17() => Node::Cons(vec![0x41], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x41] { e.want(&[0x41])?; { let mut k = e.kids(m); k.end()?; Ok(E62::W17()) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E62::W17() => Some(E62::W17()), } }
    fn wire(&self) -> Node { match self { E62::W17() => Node::Cons(vec![0x41], vec![]), } }
}
#[derive(bsn1_serde::Serialize, PartialOrd, PartialEq, Eq, Hash, Ord, bsn1_serde::Deserialize, Debug, Clone)]
#[bsn1_serde(tag_class = UNIVERSAL, id = UTF8String)]
pub struct S63();
impl RefCodec for S63 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S63() } }
    fn node(&self) -> Node { Node::Cons(vec![0x0c], vec![]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x0c])?; let mut k = e.kids(m); k.end()?; Ok(S63()) }
    fn after(&self) -> Option<Self> { Some(S63()) }
    fn wire(&self) -> Node { Node::Cons(vec![0x0c], vec![]) }
}
#[derive(Debug, Clone, Ord, bsn1_serde::Deserialize, Hash, Eq, bsn1_serde::Serialize, PartialOrd, PartialEq)]
pub enum E64 {
    #[bsn1_serde(id = Boolean, tag_num = 0x10)]
    W17 {  },
    #[bsn1_serde(tag_num = 0o37)]
    V1(#[bsn1_serde(to = "conv_ref", from = "u128")] Conv<u128>),
}
impl RefCodec for E64 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(2) { 0 => { let s = s / 1; E64::W17 {  } }, _ => { let s = s / 1; E64::V1(Conv(<u128 as RefCodec>::gen(r, s))) }, } }
    fn node(&self) -> Node { match self { E64::W17 {  } => Node::Cons(vec![0x10], vec![]), E64::V1(x0) => Node::Cons(vec![0x3f, 0x1f], vec![RefCodec::node(&(x0.0.clone()))]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); k.end()?; Ok(E64::W17 {  }) } } else if e.id == &[0x3f, 0x1f] { e.want(&[0x3f, 0x1f])?; { let mut k = e.kids(m); let v0: Option<Conv<u128>> = match k.next() { None => None, Some(e) => { let x = <u128 as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E64::V1(v0.unwrap())) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E64::W17 {  } => Some(E64::W17 {  }), E64::V1(x0) => Some(E64::V1(x0.clone())), } }
    fn wire(&self) -> Node { match self { E64::W17 {  } => Node::Cons(vec![0x10], vec![]), E64::V1(x0) => Node::Cons(vec![0x3f, 0x1f], vec![RefCodec::wire(&x0.0)]), } }
}
#[derive(Ord, Clone, bsn1_serde::Deserialize, Eq, Debug, PartialEq, bsn1_serde::Serialize, Hash, PartialOrd)]
#[bsn1_serde(tag_class = UNIVERSAL, tag_pc = CONSTRUCTED, id = EOC)]
pub struct S65();
impl RefCodec for S65 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S65() } }
    fn node(&self) -> Node { Node::Cons(vec![0x20], vec![]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x20])?; let mut k = e.kids(m); k.end()?; Ok(S65()) }
    fn after(&self) -> Option<Self> { Some(S65()) }
    fn wire(&self) -> Node { Node::Cons(vec![0x20], vec![]) }
}
#[derive(Clone, Debug, bsn1_serde::Deserialize, bsn1_serde::Serialize, PartialEq)]
pub enum E66 {
    #[bsn1_serde(tag_pc = PRIMITIVE, id = Integer)]
    W3,
    Data(#[bsn1_serde(into = "HashSet<u16>", from = "HashSet<u16>")] Conv<HashSet<u16>>, #[bsn1_serde(skip_deserializing, skip)] std::time::Duration, E34, E22, #[bsn1_serde(skip_serializing)] u128, #[bsn1_serde(try_from = "HashSet<u16>", to = "picky_ref")] Picky<HashSet<u16>>),
}
impl RefCodec for E66 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(2) { 0 => { let s = s / 1; E66::W3 }, _ => { let s = s / 6; E66::Data(Conv(<HashSet<u16> as RefCodec>::gen(r, s)), std::time::Duration::from_millis(r.below(5000) as u64), <E34 as RefCodec>::gen(r, s), <E22 as RefCodec>::gen(r, s), <u128 as RefCodec>::gen(r, s), gen_picky::<HashSet<u16>>(r, s)) }, } }
    fn node(&self) -> Node { match self { E66::W3 => Node::Cons(vec![0x02], vec![]), E66::Data(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x30], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(x2), RefCodec::node(x3), RefCodec::node(&(x5.0.clone()))]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x02] { e.want(&[0x02])?; { let mut k = e.kids(m); k.end()?; Ok(E66::W3) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); let v0: Option<Conv<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v2: Option<E34> = k.field(); let v3: Option<E22> = k.field(); let v4: Option<u128> = k.field(); let v5: Option<Picky<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(E66::Data(v0.unwrap(), Default::default(), v2.unwrap(), v3.unwrap(), v4.unwrap(), v5.unwrap())) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E66::W3 => Some(E66::W3), E66::Data(x0, x1, x2, x3, x4, x5) => None, } }
    fn wire(&self) -> Node { match self { E66::W3 => Node::Cons(vec![0x02], vec![]), E66::Data(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x30], vec![RefCodec::wire(&x0.0), RefCodec::wire(x2), RefCodec::wire(x3), RefCodec::wire(x4), RefCodec::wire(&x5.0)]), } }
}
#[derive(PartialOrd, Clone, bsn1_serde::Deserialize, PartialEq, Eq, bsn1_serde::Serialize, Hash, Ord, Debug)]
#[bsn1_serde(transparent)]
pub struct S67 { #[bsn1_serde(try_from = "Vec<String>", to = "picky_ref")] pub id: Picky<Vec<String>> }
impl RefCodec for S67 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S67 { id: gen_picky::<Vec<String>>(r, s) } } }
    fn node(&self) -> Node { RefCodec::node(&((&self.id).0.clone())) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; let v: Picky<Vec<String>> = <Vec<String> as RefCodec>::dec(e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) })?; Ok(S67 { id: v }) }
    fn after(&self) -> Option<Self> { Some(S67 { id: { let v = (&self.id); if refuses(&v.0) { return None } v.clone() } }) }
    fn wire(&self) -> Node { RefCodec::wire(&(&self.id).0) }
}
#[derive(bsn1_serde::Serialize, PartialEq, bsn1_serde::Deserialize, Hash, Debug, PartialOrd, Clone, Eq, Ord)]
#[bsn1_serde(tag_pc = PRIMITIVE, id = UTF8String)]
pub struct S68 {  }
impl RefCodec for S68 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S68 {  } } }
    fn node(&self) -> Node { Node::Cons(vec![0x0c], vec![]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x0c])?; let mut k = e.kids(m); k.end()?; Ok(S68 {  }) }
    fn after(&self) -> Option<Self> { Some(S68 {  }) }
    fn wire(&self) -> Node { Node::Cons(vec![0x0c], vec![]) }
}
pub struct Host9;
impl Host9 { pub fn make() -> (u8, bool) { (3, true) } }
#[derive(PartialEq, Debug, bsn1_serde::Deserialize, bsn1_serde::Serialize, Clone)]
pub struct S69(#[bsn1_serde(skip_deserializing, skip)] pub i8, #[bsn1_serde(into = "i64")] pub Num, pub S21<u128, std::collections::VecDeque<i16>>, #[bsn1_serde(skip_deserializing, skip_serializing)] pub i64, pub E1, pub S37, pub S53, #[bsn1_serde(into = "i64")] pub Num, #[bsn1_serde(into = "OctetString<'static>", try_from = "OctetString<'static>")] pub Picky<OctetString<'static>>, #[bsn1_serde(skip_serializing, skip_deserializing)] pub [u8; 3], pub u16, #[bsn1_serde(skip)] pub std::marker::PhantomData<String>, pub S30, pub S40, #[bsn1_serde(skip_deserializing)] pub u8, #[bsn1_serde(try_from = "HashSet<u16>", to = "picky_ref")] pub Picky<HashSet<u16>>, #[bsn1_serde(try_from = "u8", into = "u8")] pub Picky<u8>, #[bsn1_serde(skip, skip_serializing, default = "Host9::make")] pub (u8, bool), pub S60, pub S35, #[bsn1_serde(skip_deserializing, skip_serializing)] pub Vec<String>, #[bsn1_serde(from = "OctetString<'static>", to = "conv_ref")] pub Conv<OctetString<'static>>);
impl RefCodec for S69 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 22; S69(<i8 as RefCodec>::gen(r, s), <Num as RefCodec>::gen(r, s), <S21<u128, std::collections::VecDeque<i16>> as RefCodec>::gen(r, s), <i64 as RefCodec>::gen(r, s), <E1 as RefCodec>::gen(r, s), <S37 as RefCodec>::gen(r, s), <S53 as RefCodec>::gen(r, s), <Num as RefCodec>::gen(r, s), gen_picky::<OctetString<'static>>(r, s), [r.u8(), r.u8(), r.u8()], <u16 as RefCodec>::gen(r, s), std::marker::PhantomData, <S30 as RefCodec>::gen(r, s), <S40 as RefCodec>::gen(r, s), <u8 as RefCodec>::gen(r, s), gen_picky::<HashSet<u16>>(r, s), gen_picky::<u8>(r, s), (r.u8(), r.chance(1, 2)), <S60 as RefCodec>::gen(r, s), <S35 as RefCodec>::gen(r, s), <Vec<String> as RefCodec>::gen(r, s), Conv(<OctetString<'static> as RefCodec>::gen(r, s))) } }
    fn node(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::node(&(((&self.1).0 as i64 * 3 + 1))), RefCodec::node((&self.2)), RefCodec::node((&self.4)), RefCodec::node((&self.5)), RefCodec::node((&self.6)), RefCodec::node(&(((&self.7).0 as i64 * 3 + 1))), RefCodec::node(&((&self.8).0.clone())), RefCodec::node((&self.10)), RefCodec::node((&self.12)), RefCodec::node((&self.13)), RefCodec::node((&self.14)), RefCodec::node(&((&self.15).0.clone())), RefCodec::node(&((&self.16).0.clone())), RefCodec::node((&self.18)), RefCodec::node((&self.19)), RefCodec::node(&((&self.21).0.clone()))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x30])?; let mut k = e.kids(m); let v1: Option<Num> = k.field(); let v2: Option<S21<u128, std::collections::VecDeque<i16>>> = k.field(); let v4: Option<E1> = k.field(); let v5: Option<S37> = k.field(); let v6: Option<S53> = k.field(); let v7: Option<Num> = k.field(); let v8: Option<Picky<OctetString<'static>>> = match k.next() { None => None, Some(e) => { let x = <OctetString<'static> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v10: Option<u16> = k.field(); let v12: Option<S30> = k.field(); let v13: Option<S40> = k.field(); let v15: Option<Picky<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v16: Option<Picky<u8>> = match k.next() { None => None, Some(e) => { let x = <u8 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v18: Option<S60> = k.field(); let v19: Option<S35> = k.field(); let v21: Option<Conv<OctetString<'static>>> = match k.next() { None => None, Some(e) => { let x = <OctetString<'static> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(S69(Default::default(), v1.unwrap(), v2.unwrap(), Default::default(), v4.unwrap(), v5.unwrap(), v6.unwrap(), v7.unwrap(), v8.unwrap(), Default::default(), v10.unwrap(), Default::default(), v12.unwrap(), v13.unwrap(), Default::default(), v15.unwrap(), v16.unwrap(), (3, true), v18.unwrap(), v19.unwrap(), Default::default(), v21.unwrap())) }
    fn after(&self) -> Option<Self> { None }
    fn wire(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::wire((&self.1)), RefCodec::wire((&self.2)), RefCodec::wire((&self.4)), RefCodec::wire((&self.5)), RefCodec::wire((&self.6)), RefCodec::wire((&self.7)), RefCodec::wire(&(&self.8).0), RefCodec::wire((&self.10)), RefCodec::wire((&self.12)), RefCodec::wire((&self.13)), RefCodec::wire(&(&self.15).0), RefCodec::wire(&(&self.16).0), RefCodec::wire((&self.18)), RefCodec::wire((&self.19)), RefCodec::wire(&(&self.21).0)]) }
}
#[derive(PartialEq, Clone, Debug, bsn1_serde::Deserialize, bsn1_serde::Serialize)]
#[bsn1_serde(try_from = "K58", into = "K58")]
pub struct K70(pub u8, pub K58);
impl From<K70> for K58 { fn from(v: K70) -> Self { v.1 } }
pub fn out_70(v: &K70) -> K58 { v.1.clone() }
impl K70 { pub fn out(&self) -> K58 { out_70(self) } }
impl TryFrom<K58> for K70 { type Error = Refused; fn try_from(c: K58) -> Result<Self, Refused> { if refuses(&c) { Err(Refused(format!("{:?}", c))) } else { Ok(K70(0, c)) } } }
impl RefCodec for K70 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <K58 as RefCodec>::gen(r, s); K70(r.u8(), c) }
    fn node(&self) -> Node { RefCodec::node((&out_70(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <K58 as RefCodec>::dec(e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(K70(0, c)) }) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_70(self)))?; if refuses(&c) { return None } Some(K70(0, c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_70(self))) }
}
#[derive(Debug, PartialEq, PartialOrd, bsn1_serde::Serialize, Clone, Eq, bsn1_serde::Deserialize, Hash, Ord)]
#[bsn1_serde(from = "BTreeMap<String, Vec<u8>>", to = "K71::out")]
pub struct K71(pub u8, pub BTreeMap<String, Vec<u8>>);
impl From<K71> for BTreeMap<String, Vec<u8>> { fn from(v: K71) -> Self { v.1 } }
pub fn out_71(v: &K71) -> BTreeMap<String, Vec<u8>> { v.1.clone() }
impl K71 { pub fn out(&self) -> BTreeMap<String, Vec<u8>> { out_71(self) } }
impl From<BTreeMap<String, Vec<u8>>> for K71 { fn from(c: BTreeMap<String, Vec<u8>>) -> Self { K71(0, c) } }
impl RefCodec for K71 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <BTreeMap<String, Vec<u8>> as RefCodec>::gen(r, s); K71(r.u8(), c) }
    fn node(&self) -> Node { RefCodec::node((&out_71(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <BTreeMap<String, Vec<u8>> as RefCodec>::dec(e, m).and_then(|c| Ok(K71(0, c))) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_71(self)))?; Some(K71(0, c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_71(self))) }
}
#[derive(bsn1_serde::Serialize, bsn1_serde::Deserialize, Debug, PartialEq, Clone)]
#[bsn1_serde(try_from = "K58", into = "K58")]
pub enum K72 { #[bsn1_serde(id = Set)] One(K58), #[allow(unused)] Two }
impl From<K72> for K58 { fn from(v: K72) -> Self { match v { K72::One(c) => c, K72::Two => unreachable!() } } }
pub fn out_72(v: &K72) -> K58 { match v { K72::One(c) => c.clone(), K72::Two => unreachable!() } }
impl K72 { pub fn out(&self) -> K58 { out_72(self) } }
impl TryFrom<K58> for K72 { type Error = Refused; fn try_from(c: K58) -> Result<Self, Refused> { if refuses(&c) { Err(Refused(format!("{:?}", c))) } else { Ok(K72::One(c)) } } }
impl RefCodec for K72 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <K58 as RefCodec>::gen(r, s); K72::One(c) }
    fn node(&self) -> Node { RefCodec::node((&out_72(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <K58 as RefCodec>::dec(e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(K72::One(c)) }) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_72(self)))?; if refuses(&c) { return None } Some(K72::One(c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_72(self))) }
}
#[derive(bsn1_serde::Serialize, Debug, Clone, Ord, PartialEq, Eq, PartialOrd, bsn1_serde::Deserialize, Hash)]
#[bsn1_serde(into = "u8", from = "u8")]
pub struct K73(pub u8, pub u8);
impl From<K73> for u8 { fn from(v: K73) -> Self { v.1 } }
pub fn out_73(v: &K73) -> u8 { v.1.clone() }
impl K73 { pub fn out(&self) -> u8 { out_73(self) } }
impl From<u8> for K73 { fn from(c: u8) -> Self { K73(0, c) } }
impl RefCodec for K73 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <u8 as RefCodec>::gen(r, s); K73(r.u8(), c) }
    fn node(&self) -> Node { RefCodec::node((&out_73(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <u8 as RefCodec>::dec(e, m).and_then(|c| Ok(K73(0, c))) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_73(self)))?; Some(K73(0, c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_73(self))) }
}
#[derive(Clone, bsn1_serde::Deserialize, PartialEq, bsn1_serde::Serialize, Debug)]
#[bsn1_serde(to = "out_74", try_from = "S50<E29>")]
pub struct K74(pub u8, pub S50<E29>);
impl From<K74> for S50<E29> { fn from(v: K74) -> Self { v.1 } }
pub fn out_74(v: &K74) -> S50<E29> { v.1.clone() }
impl K74 { pub fn out(&self) -> S50<E29> { out_74(self) } }
impl TryFrom<S50<E29>> for K74 { type Error = Refused; fn try_from(c: S50<E29>) -> Result<Self, Refused> { if refuses(&c) { Err(Refused(format!("{:?}", c))) } else { Ok(K74(0, c)) } } }
impl RefCodec for K74 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <S50<E29> as RefCodec>::gen(r, s); K74(r.u8(), c) }
    fn node(&self) -> Node { RefCodec::node((&out_74(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <S50<E29> as RefCodec>::dec(e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(K74(0, c)) }) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_74(self)))?; if refuses(&c) { return None } Some(K74(0, c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_74(self))) }
}
pub fn dflt_10() -> u8 { 7 }
#[derive(bsn1_serde::Deserialize, Clone, PartialEq, bsn1_serde::Serialize, Debug)]
pub enum E75 {
    #[bsn1_serde(tag_pc = CONSTRUCTED, tag_num = 0xffffffffffffffffffffffffffffffff)]
    Pair(),
    #[bsn1_serde(tag_class = APPLICATION, id = Integer, tag_pc = CONSTRUCTED)]
    W1 {  },
    Many {  },
    #[bsn1_serde(id = Null, tag_class = CONTEXT_SPECIFIC)]
    W12 {  },
    #[bsn1_serde(tag_num = 0b1111111111111111111111111111111111111111111111111111111111111111, id = Set)]
    W15 { #[bsn1_serde(skip_deserializing, skip_serializing)] tag: std::collections::VecDeque<i16>, #[bsn1_serde(try_from = "String", to = "num_text")] f: Num, r#fn: K3, eoc: S20 },
    #[bsn1_serde(id = EOC)]
    W18(#[bsn1_serde(skip, skip_serializing)] std::time::Duration, #[bsn1_serde(from = "i64")] Num, #[bsn1_serde(from = "Vec<String>", to = "conv_ref")] Conv<Vec<String>>),
    #[bsn1_serde(tag_pc = PRIMITIVE, id = Set, tag_class = PRIVATE)]
    W8(S37, E34, K72, #[bsn1_serde(try_from = "String", into = "String")] Num, #[bsn1_serde(into = "i64", from = "i64")] Conv<i64>, #[bsn1_serde(skip_serializing, skip_deserializing)] (u8, bool)),
    #[bsn1_serde(id = Sequence, tag_pc = PRIMITIVE)]
    V2 {  },
    #[bsn1_serde(id = Set, tag_class = UNIVERSAL)]
    Unit { name: S38 },
    #[bsn1_serde(tag_class = APPLICATION, id = Sequence, tag_num = 0x80)]
    W17(),
    #[bsn1_serde(id = EOC, tag_num = 0b0, tag_class = APPLICATION)]
    Nothing(#[bsn1_serde(skip_deserializing)] Vec<Vec<i32>>),
    #[bsn1_serde(tag_num = 0b100000000000000, id = UTF8String)]
    W11,
    #[bsn1_serde(id = Real, tag_class = CONTEXT_SPECIFIC)]
    W5(#[bsn1_serde(to = "picky_ref", try_from = "u128")] Picky<u128>),
    #[bsn1_serde(tag_class = UNIVERSAL, tag_num = 0x0)]
    Leaf {  },
    #[bsn1_serde(tag_num = 0x10000000000000000, id = Null)]
    W14 { n6: u16 },
    #[bsn1_serde(tag_class = UNIVERSAL, tag_num = 0b10000000000000000000000000000000000000000000000000000000000000000)]
    W6 { buffer: S51<std::collections::VecDeque<i16>>, eoc: E52, n2: E41<E4<K0>, K3, S14> },
    #[bsn1_serde(tag_num = 0x1)]
    A(K33, #[bsn1_serde(into = "HashSet<u16>", from = "HashSet<u16>")] Conv<HashSet<u16>>, #[bsn1_serde(skip_serializing)] bool, S63),
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_class = UNIVERSAL, tag_num = 0x1E)]
    W7(E61),
    #[bsn1_serde(tag_num = 0b1101, tag_pc = PRIMITIVE)]
    W4(),
    #[bsn1_serde(tag_num = 0xF)]
    W10 {  },
    #[bsn1_serde(tag_class = UNIVERSAL, tag_pc = CONSTRUCTED, tag_num = 128, id = Null)]
    W19 {  },
    #[bsn1_serde(id = Set, tag_pc = PRIMITIVE, tag_class = UNIVERSAL)]
    Error { #[bsn1_serde(from = "OctetString<'static>", to = "conv_ref")] x: Conv<OctetString<'static>>, #[bsn1_serde(to = "picky_ref", try_from = "bool")] length: Picky<bool> },
    #[bsn1_serde(tag_class = PRIVATE, id = UTF8String)]
    W2,
    #[bsn1_serde(tag_class = APPLICATION)]
    W0 { #[bsn1_serde(from = "BTreeMap<String, Vec<u8>>", to = "conv_ref")] id: Conv<BTreeMap<String, Vec<u8>>> },
    #[bsn1_serde(tag_num = 0x3fff, tag_pc = PRIMITIVE)]
    Id {  },
    #[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 0o2000000000000000000000, tag_class = APPLICATION)]
    Data,
    #[bsn1_serde(id = Boolean)]
    B(#[bsn1_serde(skip, default = "dflt_10", skip_deserializing)] u8),
    #[bsn1_serde(id = Real, tag_class = PRIVATE, tag_pc = CONSTRUCTED)]
    W13 { contents: E59, a: S25<isize>, this: Moody },
    #[bsn1_serde(id = UTF8String)]
    W9(#[bsn1_serde(skip_serializing, skip)] i32),
}
impl RefCodec for E75 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(29) { 0 => { let s = s / 1; E75::Pair() }, 1 => { let s = s / 1; E75::W1 {  } }, 2 => { let s = s / 1; E75::Many {  } }, 3 => { let s = s / 1; E75::W12 {  } }, 4 => { let s = s / 4; E75::W15 { tag: <std::collections::VecDeque<i16> as RefCodec>::gen(r, s), f: <Num as RefCodec>::gen(r, s), r#fn: <K3 as RefCodec>::gen(r, s), eoc: <S20 as RefCodec>::gen(r, s) } }, 5 => { let s = s / 3; E75::W18(std::time::Duration::from_millis(r.below(5000) as u64), <Num as RefCodec>::gen(r, s), Conv(<Vec<String> as RefCodec>::gen(r, s))) }, 6 => { let s = s / 6; E75::W8(<S37 as RefCodec>::gen(r, s), <E34 as RefCodec>::gen(r, s), <K72 as RefCodec>::gen(r, s), <Num as RefCodec>::gen(r, s), Conv(<i64 as RefCodec>::gen(r, s)), (r.u8(), r.chance(1, 2))) }, 7 => { let s = s / 1; E75::V2 {  } }, 8 => { let s = s / 1; E75::Unit { name: <S38 as RefCodec>::gen(r, s) } }, 9 => { let s = s / 1; E75::W17() }, 10 => { let s = s / 1; E75::Nothing(<Vec<Vec<i32>> as RefCodec>::gen(r, s)) }, 11 => { let s = s / 1; E75::W11 }, 12 => { let s = s / 1; E75::W5(gen_picky::<u128>(r, s)) }, 13 => { let s = s / 1; E75::Leaf {  } }, 14 => { let s = s / 1; E75::W14 { n6: <u16 as RefCodec>::gen(r, s) } }, 15 => { let s = s / 3; E75::W6 { buffer: <S51<std::collections::VecDeque<i16>> as RefCodec>::gen(r, s), eoc: <E52 as RefCodec>::gen(r, s), n2: <E41<E4<K0>, K3, S14> as RefCodec>::gen(r, s) } }, 16 => { let s = s / 4; E75::A(<K33 as RefCodec>::gen(r, s), Conv(<HashSet<u16> as RefCodec>::gen(r, s)), <bool as RefCodec>::gen(r, s), <S63 as RefCodec>::gen(r, s)) }, 17 => { let s = s / 1; E75::W7(<E61 as RefCodec>::gen(r, s)) }, 18 => { let s = s / 1; E75::W4() }, 19 => { let s = s / 1; E75::W10 {  } }, 20 => { let s = s / 1; E75::W19 {  } }, 21 => { let s = s / 2; E75::Error { x: Conv(<OctetString<'static> as RefCodec>::gen(r, s)), length: gen_picky::<bool>(r, s) } }, 22 => { let s = s / 1; E75::W2 }, 23 => { let s = s / 1; E75::W0 { id: Conv(<BTreeMap<String, Vec<u8>> as RefCodec>::gen(r, s)) } }, 24 => { let s = s / 1; E75::Id {  } }, 25 => { let s = s / 1; E75::Data }, 26 => { let s = s / 1; E75::B(<u8 as RefCodec>::gen(r, s)) }, 27 => { let s = s / 3; E75::W13 { contents: <E59 as RefCodec>::gen(r, s), a: <S25<isize> as RefCodec>::gen(r, s), this: <Moody as RefCodec>::gen(r, s) } }, _ => { let s = s / 1; E75::W9(<i32 as RefCodec>::gen(r, s)) }, } }
    fn node(&self) -> Node { match self { E75::Pair() => Node::Cons(vec![0x3f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![]), E75::W1 {  } => Node::Cons(vec![0x62], vec![]), E75::Many {  } => Node::Cons(vec![0x30], vec![]), E75::W12 {  } => Node::Cons(vec![0x85], vec![]), E75::W15 { tag: x0, f: x1, r#fn: x2, eoc: x3 } => Node::Cons(vec![0x3f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![RefCodec::node(&(x1.0.to_string())), RefCodec::node(x2), RefCodec::node(x3)]), E75::W18(x0, x1, x2) => Node::Cons(vec![0x00], vec![RefCodec::node(x1), RefCodec::node(&(x2.0.clone()))]), E75::W8(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0xd1], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(x2), RefCodec::node(&(x3.0.to_string())), RefCodec::node(&(x4.0.clone()))]), E75::V2 {  } => Node::Cons(vec![0x10], vec![]), E75::Unit { name: x0 } => Node::Cons(vec![0x31], vec![RefCodec::node(x0)]), E75::W17() => Node::Cons(vec![0x7f, 0x81, 0x00], vec![]), E75::Nothing(x0) => Node::Cons(vec![0x40], vec![RefCodec::node(x0)]), E75::W11 => Node::Cons(vec![0x1f, 0x81, 0x80, 0x00], vec![]), E75::W5(x0) => Node::Cons(vec![0x89], vec![RefCodec::node(&(x0.0.clone()))]), E75::Leaf {  } => Node::Cons(vec![0x20], vec![]), E75::W14 { n6: x0 } => Node::Cons(vec![0x1f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![RefCodec::node(x0)]), E75::W6 { buffer: x0, eoc: x1, n2: x2 } => Node::Cons(vec![0x3f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(x2)]), E75::A(x0, x1, x2, x3) => Node::Cons(vec![0x21], vec![RefCodec::node(x0), RefCodec::node(&(x1.0.clone())), RefCodec::node(x3)]), E75::W7(x0) => Node::Cons(vec![0x1e], vec![RefCodec::node(x0)]), E75::W4() => Node::Cons(vec![0x0d], vec![]), E75::W10 {  } => Node::Cons(vec![0x2f], vec![]), E75::W19 {  } => Node::Cons(vec![0x3f, 0x81, 0x00], vec![]), E75::Error { x: x0, length: x1 } => Node::Cons(vec![0x11], vec![RefCodec::node(&(x0.0.clone())), RefCodec::node(&(x1.0.clone()))]), E75::W2 => Node::Cons(vec![0xcc], vec![]), E75::W0 { id: x0 } => Node::Cons(vec![0x70], vec![RefCodec::node(&(x0.0.clone()))]), E75::Id {  } => Node::Cons(vec![0x1f, 0xff, 0x7f], vec![]), E75::Data => Node::Cons(vec![0x5f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![]), E75::B(x0) => Node::Cons(vec![0x01], vec![]), E75::W13 { contents: x0, a: x1, this: x2 } => Node::Cons(vec![0xe9], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(x2)]), E75::W9(x0) => Node::Cons(vec![0x0c], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x3f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f] { e.want(&[0x3f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f])?; { let mut k = e.kids(m); k.end()?; Ok(E75::Pair()) } } else if e.id == &[0x62] { e.want(&[0x62])?; { let mut k = e.kids(m); k.end()?; Ok(E75::W1 {  }) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); k.end()?; Ok(E75::Many {  }) } } else if e.id == &[0x85] { e.want(&[0x85])?; { let mut k = e.kids(m); k.end()?; Ok(E75::W12 {  }) } } else if e.id == &[0x3f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f] { e.want(&[0x3f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f])?; { let mut k = e.kids(m); let v1: Option<Num> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| c.parse::<i32>().map(Num).map_err(|_| Kinds::ANYHOW)); k.keep(x) } }; let v2: Option<K3> = k.field(); let v3: Option<S20> = k.field(); k.end()?; Ok(E75::W15 { tag: Default::default(), f: v1.unwrap(), r#fn: v2.unwrap(), eoc: v3.unwrap() }) } } else if e.id == &[0x00] { e.want(&[0x00])?; { let mut k = e.kids(m); let v1: Option<Num> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Num(c.wrapping_sub(1).wrapping_div(3) as i32))); k.keep(x) } }; let v2: Option<Conv<Vec<String>>> = match k.next() { None => None, Some(e) => { let x = <Vec<String> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E75::W18(Default::default(), v1.unwrap(), v2.unwrap())) } } else if e.id == &[0xd1] { e.want(&[0xd1])?; { let mut k = e.kids(m); let v0: Option<S37> = k.field(); let v1: Option<E34> = k.field(); let v2: Option<K72> = k.field(); let v3: Option<Num> = match k.next() { None => None, Some(e) => { let x = <String as RefCodec>::dec(&e, m).and_then(|c| c.parse::<i32>().map(Num).map_err(|_| Kinds::ANYHOW)); k.keep(x) } }; let v4: Option<Conv<i64>> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E75::W8(v0.unwrap(), v1.unwrap(), v2.unwrap(), v3.unwrap(), v4.unwrap(), Default::default())) } } else if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); k.end()?; Ok(E75::V2 {  }) } } else if e.id == &[0x31] { e.want(&[0x31])?; { let mut k = e.kids(m); let v0: Option<S38> = k.field(); k.end()?; Ok(E75::Unit { name: v0.unwrap() }) } } else if e.id == &[0x7f, 0x81, 0x00] { e.want(&[0x7f, 0x81, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E75::W17()) } } else if e.id == &[0x40] { e.want(&[0x40])?; { let mut k = e.kids(m); k.end()?; Ok(E75::Nothing(Default::default())) } } else if e.id == &[0x1f, 0x81, 0x80, 0x00] { e.want(&[0x1f, 0x81, 0x80, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E75::W11) } } else if e.id == &[0x89] { e.want(&[0x89])?; { let mut k = e.kids(m); let v0: Option<Picky<u128>> = match k.next() { None => None, Some(e) => { let x = <u128 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(E75::W5(v0.unwrap())) } } else if e.id == &[0x20] { e.want(&[0x20])?; { let mut k = e.kids(m); k.end()?; Ok(E75::Leaf {  }) } } else if e.id == &[0x1f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00] { e.want(&[0x1f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00])?; { let mut k = e.kids(m); let v0: Option<u16> = k.field(); k.end()?; Ok(E75::W14 { n6: v0.unwrap() }) } } else if e.id == &[0x3f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00] { e.want(&[0x3f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00])?; { let mut k = e.kids(m); let v0: Option<S51<std::collections::VecDeque<i16>>> = k.field(); let v1: Option<E52> = k.field(); let v2: Option<E41<E4<K0>, K3, S14>> = k.field(); k.end()?; Ok(E75::W6 { buffer: v0.unwrap(), eoc: v1.unwrap(), n2: v2.unwrap() }) } } else if e.id == &[0x21] { e.want(&[0x21])?; { let mut k = e.kids(m); let v0: Option<K33> = k.field(); let v1: Option<Conv<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v2: Option<bool> = k.field(); let v3: Option<S63> = k.field(); k.end()?; Ok(E75::A(v0.unwrap(), v1.unwrap(), v2.unwrap(), v3.unwrap())) } } else if e.id == &[0x1e] { e.want(&[0x1e])?; { let mut k = e.kids(m); let v0: Option<E61> = k.field(); k.end()?; Ok(E75::W7(v0.unwrap())) } } else if e.id == &[0x0d] { e.want(&[0x0d])?; { let mut k = e.kids(m); k.end()?; Ok(E75::W4()) } } else if e.id == &[0x2f] { e.want(&[0x2f])?; { let mut k = e.kids(m); k.end()?; Ok(E75::W10 {  }) } } else if e.id == &[0x3f, 0x81, 0x00] { e.want(&[0x3f, 0x81, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E75::W19 {  }) } } else if e.id == &[0x11] { e.want(&[0x11])?; { let mut k = e.kids(m); let v0: Option<Conv<OctetString<'static>>> = match k.next() { None => None, Some(e) => { let x = <OctetString<'static> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v1: Option<Picky<bool>> = match k.next() { None => None, Some(e) => { let x = <bool as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(E75::Error { x: v0.unwrap(), length: v1.unwrap() }) } } else if e.id == &[0xcc] { e.want(&[0xcc])?; { let mut k = e.kids(m); k.end()?; Ok(E75::W2) } } else if e.id == &[0x70] { e.want(&[0x70])?; { let mut k = e.kids(m); let v0: Option<Conv<BTreeMap<String, Vec<u8>>>> = match k.next() { None => None, Some(e) => { let x = <BTreeMap<String, Vec<u8>> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E75::W0 { id: v0.unwrap() }) } } else if e.id == &[0x1f, 0xff, 0x7f] { e.want(&[0x1f, 0xff, 0x7f])?; { let mut k = e.kids(m); k.end()?; Ok(E75::Id {  }) } } else if e.id == &[0x5f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00] { e.want(&[0x5f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00])?; { let mut k = e.kids(m); k.end()?; Ok(E75::Data) } } else if e.id == &[0x01] { e.want(&[0x01])?; { let mut k = e.kids(m); k.end()?; Ok(E75::B(7)) } } else if e.id == &[0xe9] { e.want(&[0xe9])?; { let mut k = e.kids(m); let v0: Option<E59> = k.field(); let v1: Option<S25<isize>> = k.field(); let v2: Option<Moody> = k.field(); k.end()?; Ok(E75::W13 { contents: v0.unwrap(), a: v1.unwrap(), this: v2.unwrap() }) } } else if e.id == &[0x0c] { e.want(&[0x0c])?; { let mut k = e.kids(m); k.end()?; Ok(E75::W9(Default::default())) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E75::Pair() => Some(E75::Pair()), E75::W1 {  } => Some(E75::W1 {  }), E75::Many {  } => Some(E75::Many {  }), E75::W12 {  } => Some(E75::W12 {  }), E75::W15 { tag: x0, f: x1, r#fn: x2, eoc: x3 } => Some(E75::W15 { tag: Default::default(), f: x1.clone(), r#fn: RefCodec::after(x2)?, eoc: RefCodec::after(x3)? }), E75::W18(x0, x1, x2) => None, E75::W8(x0, x1, x2, x3, x4, x5) => Some(E75::W8(RefCodec::after(x0)?, RefCodec::after(x1)?, RefCodec::after(x2)?, x3.clone(), x4.clone(), Default::default())), E75::V2 {  } => Some(E75::V2 {  }), E75::Unit { name: x0 } => Some(E75::Unit { name: RefCodec::after(x0)? }), E75::W17() => Some(E75::W17()), E75::Nothing(x0) => None, E75::W11 => Some(E75::W11), E75::W5(x0) => Some(E75::W5({ let v = x0; if refuses(&v.0) { return None } v.clone() })), E75::Leaf {  } => Some(E75::Leaf {  }), E75::W14 { n6: x0 } => Some(E75::W14 { n6: RefCodec::after(x0)? }), E75::W6 { buffer: x0, eoc: x1, n2: x2 } => Some(E75::W6 { buffer: RefCodec::after(x0)?, eoc: RefCodec::after(x1)?, n2: RefCodec::after(x2)? }), E75::A(x0, x1, x2, x3) => None, E75::W7(x0) => Some(E75::W7(RefCodec::after(x0)?)), E75::W4() => Some(E75::W4()), E75::W10 {  } => Some(E75::W10 {  }), E75::W19 {  } => Some(E75::W19 {  }), E75::Error { x: x0, length: x1 } => Some(E75::Error { x: x0.clone(), length: { let v = x1; if refuses(&v.0) { return None } v.clone() } }), E75::W2 => Some(E75::W2), E75::W0 { id: x0 } => Some(E75::W0 { id: x0.clone() }), E75::Id {  } => Some(E75::Id {  }), E75::Data => Some(E75::Data), E75::B(x0) => Some(E75::B(7)), E75::W13 { contents: x0, a: x1, this: x2 } => Some(E75::W13 { contents: RefCodec::after(x0)?, a: RefCodec::after(x1)?, this: RefCodec::after(x2)? }), E75::W9(x0) => Some(E75::W9(Default::default())), } }
    fn wire(&self) -> Node { match self { E75::Pair() => Node::Cons(vec![0x3f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![]), E75::W1 {  } => Node::Cons(vec![0x62], vec![]), E75::Many {  } => Node::Cons(vec![0x30], vec![]), E75::W12 {  } => Node::Cons(vec![0x85], vec![]), E75::W15 { tag: x0, f: x1, r#fn: x2, eoc: x3 } => Node::Cons(vec![0x3f, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![RefCodec::node(&x1.0.to_string()), RefCodec::wire(x2), RefCodec::wire(x3)]), E75::W18(x0, x1, x2) => Node::Cons(vec![0x00], vec![RefCodec::node(&(x1.0 as i64 * 3 + 1)), RefCodec::wire(&x2.0)]), E75::W8(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0xd1], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(x2), RefCodec::node(&x3.0.to_string()), RefCodec::wire(&x4.0)]), E75::V2 {  } => Node::Cons(vec![0x10], vec![]), E75::Unit { name: x0 } => Node::Cons(vec![0x31], vec![RefCodec::wire(x0)]), E75::W17() => Node::Cons(vec![0x7f, 0x81, 0x00], vec![]), E75::Nothing(x0) => Node::Cons(vec![0x40], vec![]), E75::W11 => Node::Cons(vec![0x1f, 0x81, 0x80, 0x00], vec![]), E75::W5(x0) => Node::Cons(vec![0x89], vec![RefCodec::wire(&x0.0)]), E75::Leaf {  } => Node::Cons(vec![0x20], vec![]), E75::W14 { n6: x0 } => Node::Cons(vec![0x1f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![RefCodec::wire(x0)]), E75::W6 { buffer: x0, eoc: x1, n2: x2 } => Node::Cons(vec![0x3f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(x2)]), E75::A(x0, x1, x2, x3) => Node::Cons(vec![0x21], vec![RefCodec::wire(x0), RefCodec::wire(&x1.0), RefCodec::wire(x2), RefCodec::wire(x3)]), E75::W7(x0) => Node::Cons(vec![0x1e], vec![RefCodec::wire(x0)]), E75::W4() => Node::Cons(vec![0x0d], vec![]), E75::W10 {  } => Node::Cons(vec![0x2f], vec![]), E75::W19 {  } => Node::Cons(vec![0x3f, 0x81, 0x00], vec![]), E75::Error { x: x0, length: x1 } => Node::Cons(vec![0x11], vec![RefCodec::wire(&x0.0), RefCodec::wire(&x1.0)]), E75::W2 => Node::Cons(vec![0xcc], vec![]), E75::W0 { id: x0 } => Node::Cons(vec![0x70], vec![RefCodec::wire(&x0.0)]), E75::Id {  } => Node::Cons(vec![0x1f, 0xff, 0x7f], vec![]), E75::Data => Node::Cons(vec![0x5f, 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], vec![]), E75::B(x0) => Node::Cons(vec![0x01], vec![]), E75::W13 { contents: x0, a: x1, this: x2 } => Node::Cons(vec![0xe9], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(x2)]), E75::W9(x0) => Node::Cons(vec![0x0c], vec![]), } }
}
#[derive(bsn1_serde::Serialize, PartialOrd, Eq, Clone, bsn1_serde::Deserialize, Ord, PartialEq, Debug, Hash)]
#[bsn1_serde(try_from = "S68", to = "K76::out")]
pub struct K76(pub u8, pub S68);
impl From<K76> for S68 { fn from(v: K76) -> Self { v.1 } }
pub fn out_76(v: &K76) -> S68 { v.1.clone() }
impl K76 { pub fn out(&self) -> S68 { out_76(self) } }
impl TryFrom<S68> for K76 { type Error = Refused; fn try_from(c: S68) -> Result<Self, Refused> { if refuses(&c) { Err(Refused(format!("{:?}", c))) } else { Ok(K76(0, c)) } } }
impl RefCodec for K76 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); let c = <S68 as RefCodec>::gen(r, s); K76(r.u8(), c) }
    fn node(&self) -> Node { RefCodec::node((&out_76(self))) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; <S68 as RefCodec>::dec(e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(K76(0, c)) }) }
    fn after(&self) -> Option<Self> { let c = RefCodec::after((&out_76(self)))?; if refuses(&c) { return None } Some(K76(0, c)) }
    fn wire(&self) -> Node { RefCodec::wire((&out_76(self))) }
}
#[derive(PartialOrd, Eq, PartialEq, Debug, bsn1_serde::Serialize, Hash, bsn1_serde::Deserialize, Clone, Ord)]
#[bsn1_serde(id = Sequence)]
pub struct S77(#[bsn1_serde(skip_deserializing)] pub LinkedList<bool>);
impl RefCodec for S77 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S77(<LinkedList<bool> as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::node((&self.0))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x30])?; let mut k = e.kids(m); k.end()?; Ok(S77(Default::default())) }
    fn after(&self) -> Option<Self> { None }
    fn wire(&self) -> Node { Node::Cons(vec![0x30], vec![]) }
}
#[derive(Ord, PartialOrd, PartialEq, Debug, bsn1_serde::Deserialize, Eq, Hash, Clone, bsn1_serde::Serialize)]
pub enum E78 {
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 129, id = Boolean)]
    W14 { #[bsn1_serde(from = "u8", into = "u8")] n8: Conv<u8> },
    W12 {  },
}
impl RefCodec for E78 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(2) { 0 => { let s = s / 1; E78::W14 { n8: Conv(<u8 as RefCodec>::gen(r, s)) } }, _ => { let s = s / 1; E78::W12 {  } }, } }
    fn node(&self) -> Node { match self { E78::W14 { n8: x0 } => Node::Cons(vec![0x9f, 0x81, 0x01], vec![RefCodec::node(&(x0.0.clone()))]), E78::W12 {  } => Node::Cons(vec![0x30], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x9f, 0x81, 0x01] { e.want(&[0x9f, 0x81, 0x01])?; { let mut k = e.kids(m); let v0: Option<Conv<u8>> = match k.next() { None => None, Some(e) => { let x = <u8 as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; k.end()?; Ok(E78::W14 { n8: v0.unwrap() }) } } else if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); k.end()?; Ok(E78::W12 {  }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E78::W14 { n8: x0 } => Some(E78::W14 { n8: x0.clone() }), E78::W12 {  } => Some(E78::W12 {  }), } }
    fn wire(&self) -> Node { match self { E78::W14 { n8: x0 } => Node::Cons(vec![0x9f, 0x81, 0x01], vec![RefCodec::wire(&x0.0)]), E78::W12 {  } => Node::Cons(vec![0x30], vec![]), } }
}
#[derive(PartialOrd, bsn1_serde::Serialize, Eq, Hash, bsn1_serde::Deserialize, Ord, PartialEq, Clone, Debug)]
#[bsn1_serde(id = Real, tag_class = CONTEXT_SPECIFIC)]
pub struct S79;
impl RefCodec for S79 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S79 } }
    fn node(&self) -> Node { Node::Cons(vec![0x89], vec![]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x89])?; let mut k = e.kids(m); k.end()?; Ok(S79) }
    fn after(&self) -> Option<Self> { Some(S79) }
    fn wire(&self) -> Node { Node::Cons(vec![0x89], vec![]) }
}
pub fn dflt_11() -> Option<u8> { Some(9) }
pub fn dflt_12() -> Option<u8> { Some(9) }
#[derive(Debug, bsn1_serde::Deserialize, bsn1_serde::Serialize, PartialEq, Clone)]
pub enum E80 {
    #[bsn1_serde(id = Real)]
    W6(#[bsn1_serde(default = "dflt_11", skip_serializing, skip_deserializing)] Option<u8>, bool, #[bsn1_serde(default = "dflt_12", skip)] Option<u8>, S42, E66, E31),
}
impl RefCodec for E80 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(1) { _ => { let s = s / 6; E80::W6(if r.chance(1, 2) { Some(r.u8()) } else { None }, <bool as RefCodec>::gen(r, s), if r.chance(1, 2) { Some(r.u8()) } else { None }, <S42 as RefCodec>::gen(r, s), <E66 as RefCodec>::gen(r, s), <E31 as RefCodec>::gen(r, s)) }, } }
    fn node(&self) -> Node { match self { E80::W6(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x09], vec![RefCodec::node(x1), RefCodec::node(x3), RefCodec::node(x4), RefCodec::node(x5)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x09] { e.want(&[0x09])?; { let mut k = e.kids(m); let v1: Option<bool> = k.field(); let v3: Option<S42> = k.field(); let v4: Option<E66> = k.field(); let v5: Option<E31> = k.field(); k.end()?; Ok(E80::W6(Some(9), v1.unwrap(), Some(9), v3.unwrap(), v4.unwrap(), v5.unwrap())) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E80::W6(x0, x1, x2, x3, x4, x5) => Some(E80::W6(Some(9), RefCodec::after(x1)?, Some(9), RefCodec::after(x3)?, RefCodec::after(x4)?, RefCodec::after(x5)?)), } }
    fn wire(&self) -> Node { match self { E80::W6(x0, x1, x2, x3, x4, x5) => Node::Cons(vec![0x09], vec![RefCodec::wire(x1), RefCodec::wire(x3), RefCodec::wire(x4), RefCodec::wire(x5)]), } }
}
#[derive(Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize, Debug, Eq, Hash, PartialOrd, PartialEq, Clone)]
pub enum E81 {
    W17(),
}
impl RefCodec for E81 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(1) { _ => { let s = s / 1; E81::W17() }, } }
    fn node(&self) -> Node { match self { E81::W17() => Node::Cons(vec![0x30], vec![]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); k.end()?; Ok(E81::W17()) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E81::W17() => Some(E81::W17()), } }
    fn wire(&self) -> Node { match self { E81::W17() => Node::Cons(vec![0x30], vec![]), } }
}
#[derive(Debug, bsn1_serde::Serialize, PartialEq, Clone, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct S82(#[bsn1_serde(from = "HashSet<u16>", into = "HashSet<u16>")] pub Conv<HashSet<u16>>);
impl RefCodec for S82 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S82(Conv(<HashSet<u16> as RefCodec>::gen(r, s))) } }
    fn node(&self) -> Node { RefCodec::node(&((&self.0).0.clone())) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; let v: Conv<HashSet<u16>> = <HashSet<u16> as RefCodec>::dec(e, m).and_then(|c| Ok(Conv(c)))?; Ok(S82(v)) }
    fn after(&self) -> Option<Self> { Some(S82((&self.0).clone())) }
    fn wire(&self) -> Node { RefCodec::wire(&(&self.0).0) }
}
#[derive(bsn1_serde::Serialize, bsn1_serde::Deserialize, Debug, PartialEq, Clone)]
pub enum E83 {
    #[bsn1_serde(tag_pc = CONSTRUCTED, id = Sequence)]
    W3 {  },
    #[bsn1_serde(tag_class = UNIVERSAL, id = BitString, tag_pc = PRIMITIVE, tag_num = 0b11110)]
    W15 { b: K33, #[bsn1_serde(from = "HashSet<u16>", to = "conv_ref")] r#struct: Conv<HashSet<u16>>, #[bsn1_serde(try_from = "Vec<u8>", into = "Vec<u8>")] der: Picky<Vec<u8>> },
    #[bsn1_serde(tag_class = APPLICATION)]
    Many {  },
    #[bsn1_serde(id = UTF8String, tag_class = APPLICATION)]
    W0 {  },
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC)]
    Leaf(#[bsn1_serde(skip_deserializing)] HashSet<i8>, #[bsn1_serde(from = "bool", to = "conv_ref")] Conv<bool>, S16),
}
impl RefCodec for E83 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(5) { 0 => { let s = s / 1; E83::W3 {  } }, 1 => { let s = s / 3; E83::W15 { b: <K33 as RefCodec>::gen(r, s), r#struct: Conv(<HashSet<u16> as RefCodec>::gen(r, s)), der: gen_picky::<Vec<u8>>(r, s) } }, 2 => { let s = s / 1; E83::Many {  } }, 3 => { let s = s / 1; E83::W0 {  } }, _ => { let s = s / 3; E83::Leaf(<HashSet<i8> as RefCodec>::gen(r, s), Conv(<bool as RefCodec>::gen(r, s)), <S16 as RefCodec>::gen(r, s)) }, } }
    fn node(&self) -> Node { match self { E83::W3 {  } => Node::Cons(vec![0x30], vec![]), E83::W15 { b: x0, r#struct: x1, der: x2 } => Node::Cons(vec![0x1e], vec![RefCodec::node(x0), RefCodec::node(&(x1.0.clone())), RefCodec::node(&(x2.0.clone()))]), E83::Many {  } => Node::Cons(vec![0x70], vec![]), E83::W0 {  } => Node::Cons(vec![0x4c], vec![]), E83::Leaf(x0, x1, x2) => Node::Cons(vec![0xb0], vec![RefCodec::node(x0), RefCodec::node(&(x1.0.clone())), RefCodec::node(x2)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x30] { e.want(&[0x30])?; { let mut k = e.kids(m); k.end()?; Ok(E83::W3 {  }) } } else if e.id == &[0x1e] { e.want(&[0x1e])?; { let mut k = e.kids(m); let v0: Option<K33> = k.field(); let v1: Option<Conv<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v2: Option<Picky<Vec<u8>>> = match k.next() { None => None, Some(e) => { let x = <Vec<u8> as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; k.end()?; Ok(E83::W15 { b: v0.unwrap(), r#struct: v1.unwrap(), der: v2.unwrap() }) } } else if e.id == &[0x70] { e.want(&[0x70])?; { let mut k = e.kids(m); k.end()?; Ok(E83::Many {  }) } } else if e.id == &[0x4c] { e.want(&[0x4c])?; { let mut k = e.kids(m); k.end()?; Ok(E83::W0 {  }) } } else if e.id == &[0xb0] { e.want(&[0xb0])?; { let mut k = e.kids(m); let v1: Option<Conv<bool>> = match k.next() { None => None, Some(e) => { let x = <bool as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v2: Option<S16> = k.field(); k.end()?; Ok(E83::Leaf(Default::default(), v1.unwrap(), v2.unwrap())) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E83::W3 {  } => Some(E83::W3 {  }), E83::W15 { b: x0, r#struct: x1, der: x2 } => Some(E83::W15 { b: RefCodec::after(x0)?, r#struct: x1.clone(), der: { let v = x2; if refuses(&v.0) { return None } v.clone() } }), E83::Many {  } => Some(E83::Many {  }), E83::W0 {  } => Some(E83::W0 {  }), E83::Leaf(x0, x1, x2) => None, } }
    fn wire(&self) -> Node { match self { E83::W3 {  } => Node::Cons(vec![0x30], vec![]), E83::W15 { b: x0, r#struct: x1, der: x2 } => Node::Cons(vec![0x1e], vec![RefCodec::wire(x0), RefCodec::wire(&x1.0), RefCodec::wire(&x2.0)]), E83::Many {  } => Node::Cons(vec![0x70], vec![]), E83::W0 {  } => Node::Cons(vec![0x4c], vec![]), E83::Leaf(x0, x1, x2) => Node::Cons(vec![0xb0], vec![RefCodec::wire(&x1.0), RefCodec::wire(x2)]), } }
}
#[derive(Debug, bsn1_serde::Deserialize, bsn1_serde::Serialize, Clone, PartialEq)]
#[bsn1_serde(id = Boolean)]
pub struct S84(pub E28, #[bsn1_serde(skip)] pub Vec<u8>, pub K70, pub E52, pub Num, pub K71);
impl RefCodec for S84 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 6; S84(<E28 as RefCodec>::gen(r, s), <Vec<u8> as RefCodec>::gen(r, s), <K70 as RefCodec>::gen(r, s), <E52 as RefCodec>::gen(r, s), <Num as RefCodec>::gen(r, s), <K71 as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0x01], vec![RefCodec::node((&self.0)), RefCodec::node((&self.2)), RefCodec::node((&self.3)), RefCodec::node((&self.4)), RefCodec::node((&self.5))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x01])?; let mut k = e.kids(m); let v0: Option<E28> = k.field(); let v2: Option<K70> = k.field(); let v3: Option<E52> = k.field(); let v4: Option<Num> = k.field(); let v5: Option<K71> = k.field(); k.end()?; Ok(S84(v0.unwrap(), Default::default(), v2.unwrap(), v3.unwrap(), v4.unwrap(), v5.unwrap())) }
    fn after(&self) -> Option<Self> { Some(S84(RefCodec::after((&self.0))?, Default::default(), RefCodec::after((&self.2))?, RefCodec::after((&self.3))?, RefCodec::after((&self.4))?, RefCodec::after((&self.5))?)) }
    fn wire(&self) -> Node { Node::Cons(vec![0x01], vec![RefCodec::wire((&self.0)), RefCodec::wire((&self.2)), RefCodec::wire((&self.3)), RefCodec::wire((&self.4)), RefCodec::wire((&self.5))]) }
}
pub fn dflt_13() -> u128 { u128::MAX }
#[derive(PartialEq, bsn1_serde::Deserialize, bsn1_serde::Serialize, Debug, Clone)]
pub struct S85<T0, T1: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize>(pub T0, pub E24, #[bsn1_serde(to = "num_text")] pub Num, pub S84, #[bsn1_serde(to = "picky_ref", try_from = "u8")] pub Picky<u8>, #[bsn1_serde(to = "conv_ref", from = "Vec<String>")] pub Conv<Vec<String>>, #[bsn1_serde(skip, skip_deserializing)] pub std::marker::PhantomData<String>, #[bsn1_serde(to = "conv_ref", from = "HashSet<u16>")] pub Conv<HashSet<u16>>, pub T1, #[bsn1_serde(from = "Vec<u8>", into = "Vec<u8>")] pub Conv<Vec<u8>>, #[bsn1_serde(skip, skip_deserializing, default = "dflt_13")] pub u128, #[bsn1_serde(from = "Vec<String>", to = "conv_ref")] pub Conv<Vec<String>>, pub E62) where T0: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize;
impl<T0: RefCodec, T1: RefCodec> RefCodec for S85<T0, T1> {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 13; S85(<T0 as RefCodec>::gen(r, s), <E24 as RefCodec>::gen(r, s), <Num as RefCodec>::gen(r, s), <S84 as RefCodec>::gen(r, s), gen_picky::<u8>(r, s), Conv(<Vec<String> as RefCodec>::gen(r, s)), std::marker::PhantomData, Conv(<HashSet<u16> as RefCodec>::gen(r, s)), <T1 as RefCodec>::gen(r, s), Conv(<Vec<u8> as RefCodec>::gen(r, s)), <u128 as RefCodec>::gen(r, s), Conv(<Vec<String> as RefCodec>::gen(r, s)), <E62 as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::node((&self.0)), RefCodec::node((&self.1)), RefCodec::node(&((&self.2).0.to_string())), RefCodec::node((&self.3)), RefCodec::node(&((&self.4).0.clone())), RefCodec::node(&((&self.5).0.clone())), RefCodec::node(&((&self.7).0.clone())), RefCodec::node((&self.8)), RefCodec::node(&((&self.9).0.clone())), RefCodec::node(&((&self.11).0.clone())), RefCodec::node((&self.12))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x30])?; let mut k = e.kids(m); let v0: Option<T0> = k.field(); let v1: Option<E24> = k.field(); let v2: Option<Num> = k.field(); let v3: Option<S84> = k.field(); let v4: Option<Picky<u8>> = match k.next() { None => None, Some(e) => { let x = <u8 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v5: Option<Conv<Vec<String>>> = match k.next() { None => None, Some(e) => { let x = <Vec<String> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v7: Option<Conv<HashSet<u16>>> = match k.next() { None => None, Some(e) => { let x = <HashSet<u16> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v8: Option<T1> = k.field(); let v9: Option<Conv<Vec<u8>>> = match k.next() { None => None, Some(e) => { let x = <Vec<u8> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v11: Option<Conv<Vec<String>>> = match k.next() { None => None, Some(e) => { let x = <Vec<String> as RefCodec>::dec(&e, m).and_then(|c| Ok(Conv(c))); k.keep(x) } }; let v12: Option<E62> = k.field(); k.end()?; Ok(S85(v0.unwrap(), v1.unwrap(), v2.unwrap(), v3.unwrap(), v4.unwrap(), v5.unwrap(), Default::default(), v7.unwrap(), v8.unwrap(), v9.unwrap(), u128::MAX, v11.unwrap(), v12.unwrap())) }
    fn after(&self) -> Option<Self> { None }
    fn wire(&self) -> Node { Node::Cons(vec![0x30], vec![RefCodec::wire((&self.0)), RefCodec::wire((&self.1)), RefCodec::wire((&self.2)), RefCodec::wire((&self.3)), RefCodec::wire(&(&self.4).0), RefCodec::wire(&(&self.5).0), RefCodec::wire(&(&self.7).0), RefCodec::wire((&self.8)), RefCodec::wire(&(&self.9).0), RefCodec::wire(&(&self.11).0), RefCodec::wire((&self.12))]) }
}
pub fn dflt_14() -> String { "dflt".to_string() }
#[derive(Debug, Clone, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E86<T0> where T0: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize {
    #[bsn1_serde(id = Boolean, tag_num = 60484301732710472589605852529885788807, tag_class = CONTEXT_SPECIFIC)]
    Id { #[bsn1_serde(skip_deserializing, default = "dflt_14")] der: String },
    #[bsn1_serde(tag_pc = PRIMITIVE)]
    V2 { value: HashMap<String, u8>, tag: u64, #[bsn1_serde(try_from = "i64", into = "i64")] n1: Picky<i64>, n5: T0, n4: S84, contents: E29 },
}
impl<T0: RefCodec> RefCodec for E86<T0> {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); match r.below(2) { 0 => { let s = s / 1; E86::Id { der: <String as RefCodec>::gen(r, s) } }, _ => { let s = s / 6; E86::V2 { value: <HashMap<String, u8> as RefCodec>::gen(r, s), tag: <u64 as RefCodec>::gen(r, s), n1: gen_picky::<i64>(r, s), n5: <T0 as RefCodec>::gen(r, s), n4: <S84 as RefCodec>::gen(r, s), contents: <E29 as RefCodec>::gen(r, s) } }, } }
    fn node(&self) -> Node { match self { E86::Id { der: x0 } => Node::Cons(vec![0x9f, 0xdb, 0x80, 0xed, 0x94, 0x88, 0xbb, 0x8c, 0xe8, 0xaa, 0xe4, 0xe2, 0xd6, 0x83, 0xe3, 0xe1, 0xc4, 0xf5, 0x07], vec![RefCodec::node(x0)]), E86::V2 { value: x0, tag: x1, n1: x2, n5: x3, n4: x4, contents: x5 } => Node::Cons(vec![0x10], vec![RefCodec::node(x0), RefCodec::node(x1), RefCodec::node(&(x2.0.clone())), RefCodec::node(x3), RefCodec::node(x4), RefCodec::node(x5)]), } }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; if e.id == &[0x9f, 0xdb, 0x80, 0xed, 0x94, 0x88, 0xbb, 0x8c, 0xe8, 0xaa, 0xe4, 0xe2, 0xd6, 0x83, 0xe3, 0xe1, 0xc4, 0xf5, 0x07] { e.want(&[0x9f, 0xdb, 0x80, 0xed, 0x94, 0x88, 0xbb, 0x8c, 0xe8, 0xaa, 0xe4, 0xe2, 0xd6, 0x83, 0xe3, 0xe1, 0xc4, 0xf5, 0x07])?; { let mut k = e.kids(m); k.end()?; Ok(E86::Id { der: "dflt".to_string() }) } } else if e.id == &[0x10] { e.want(&[0x10])?; { let mut k = e.kids(m); let v0: Option<HashMap<String, u8>> = k.field(); let v1: Option<u64> = k.field(); let v2: Option<Picky<i64>> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }); k.keep(x) } }; let v3: Option<T0> = k.field(); let v4: Option<S84> = k.field(); let v5: Option<E29> = k.field(); k.end()?; Ok(E86::V2 { value: v0.unwrap(), tag: v1.unwrap(), n1: v2.unwrap(), n5: v3.unwrap(), n4: v4.unwrap(), contents: v5.unwrap() }) } } else { Err(Kinds::UNMATCHED) } }
    fn after(&self) -> Option<Self> { match self { E86::Id { der: x0 } => None, E86::V2 { value: x0, tag: x1, n1: x2, n5: x3, n4: x4, contents: x5 } => Some(E86::V2 { value: RefCodec::after(x0)?, tag: RefCodec::after(x1)?, n1: { let v = x2; if refuses(&v.0) { return None } v.clone() }, n5: RefCodec::after(x3)?, n4: RefCodec::after(x4)?, contents: RefCodec::after(x5)? }), } }
    fn wire(&self) -> Node { match self { E86::Id { der: x0 } => Node::Cons(vec![0x9f, 0xdb, 0x80, 0xed, 0x94, 0x88, 0xbb, 0x8c, 0xe8, 0xaa, 0xe4, 0xe2, 0xd6, 0x83, 0xe3, 0xe1, 0xc4, 0xf5, 0x07], vec![]), E86::V2 { value: x0, tag: x1, n1: x2, n5: x3, n4: x4, contents: x5 } => Node::Cons(vec![0x10], vec![RefCodec::wire(x0), RefCodec::wire(x1), RefCodec::wire(&x2.0), RefCodec::wire(x3), RefCodec::wire(x4), RefCodec::wire(x5)]), } }
}
#[derive(Eq, Hash, Debug, PartialOrd, bsn1_serde::Deserialize, Ord, bsn1_serde::Serialize, Clone, PartialEq)]
#[bsn1_serde(tag_pc = CONSTRUCTED)]
pub struct S87;
impl RefCodec for S87 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S87 } }
    fn node(&self) -> Node { Node::Cons(vec![0x30], vec![]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x30])?; let mut k = e.kids(m); k.end()?; Ok(S87) }
    fn after(&self) -> Option<Self> { Some(S87) }
    fn wire(&self) -> Node { Node::Cons(vec![0x30], vec![]) }
}
#[derive(PartialEq, bsn1_serde::Deserialize, Eq, Debug, PartialOrd, Hash, bsn1_serde::Serialize, Clone, Ord)]
#[bsn1_serde(id = Boolean, tag_pc = PRIMITIVE, tag_class = APPLICATION)]
pub struct S88<T0: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize>(pub T0);
impl<T0: RefCodec> RefCodec for S88<T0> {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 1; S88(<T0 as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0x41], vec![RefCodec::node((&self.0))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0x41])?; let mut k = e.kids(m); let v0: Option<T0> = k.field(); k.end()?; Ok(S88(v0.unwrap())) }
    fn after(&self) -> Option<Self> { Some(S88(RefCodec::after((&self.0))?)) }
    fn wire(&self) -> Node { Node::Cons(vec![0x41], vec![RefCodec::wire((&self.0))]) }
}
#[derive(Clone, PartialEq, bsn1_serde::Deserialize, Debug, bsn1_serde::Serialize)]
#[bsn1_serde(id = Integer, tag_class = CONTEXT_SPECIFIC, tag_pc = CONSTRUCTED)]
pub struct S89(#[bsn1_serde(from = "i64", into = "i64")] pub Num, pub E31);
impl RefCodec for S89 {
    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); { let s = s / 2; S89(<Num as RefCodec>::gen(r, s), <E31 as RefCodec>::gen(r, s)) } }
    fn node(&self) -> Node { Node::Cons(vec![0xa2], vec![RefCodec::node(&(((&self.0).0 as i64 * 3 + 1))), RefCodec::node((&self.1))]) }
    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; e.want(&[0xa2])?; let mut k = e.kids(m); let v0: Option<Num> = match k.next() { None => None, Some(e) => { let x = <i64 as RefCodec>::dec(&e, m).and_then(|c| Ok(Num(c.wrapping_sub(1).wrapping_div(3) as i32))); k.keep(x) } }; let v1: Option<E31> = k.field(); k.end()?; Ok(S89(v0.unwrap(), v1.unwrap())) }
    fn after(&self) -> Option<Self> { Some(S89((&self.0).clone(), RefCodec::after((&self.1))?)) }
    fn wire(&self) -> Node { Node::Cons(vec![0xa2], vec![RefCodec::node(&((&self.0).0 as i64 * 3 + 1)), RefCodec::wire((&self.1))]) }
}

pub fn types() -> Types {
    crate::types![
        K0,
        E1,
        E2,
        K3,
        E4<K0>,
        S5<OctetString<'static>>,
        E6,
        E7,
        E8,
        Vec<E8>,
        S9,
        K10,
        E11,
        BTreeMap<String, E11>,
        E12,
        E13,
        S14,
        HashSet<S14>,
        E15,
        S16,
        BTreeMap<S16, bool>,
        S17<S14>,
        BTreeMap<String, S17<S14>>,
        K18,
        S19,
        HashSet<S19>,
        S20,
        S21<u128, std::collections::VecDeque<i16>>,
        E22,
        E23,
        E24,
        Vec<E24>,
        S25<isize>,
        BTreeMap<String, S25<isize>>,
        S26<Quiet<i8, 3>, E2>,
        HashMap<u8, S26<Quiet<i8, 3>, E2>>,
        E27,
        E28,
        E29,
        S30,
        E31,
        S32,
        K33,
        E34,
        S35,
        E36,
        S37,
        S38,
        BTreeMap<String, S38>,
        K39,
        HashSet<K39>,
        S40,
        BTreeSet<S40>,
        E41<E4<K0>, K3, S14>,
        S42,
        E43,
        E44,
        S45,
        BTreeMap<S45, bool>,
        S46,
        E47,
        HashMap<u8, E47>,
        K48,
        E49,
        S50<E29>,
        Vec<S50<E29>>,
        S51<std::collections::VecDeque<i16>>,
        E52,
        S53,
        BTreeMap<String, S53>,
        E54,
        S55,
        K56,
        S57,
        K58,
        E59,
        LinkedList<E59>,
        S60,
        E61,
        BTreeMap<String, E61>,
        E62,
        HashMap<E62, u8>,
        S63,
        E64,
        S65,
        E66,
        S67,
        S68,
        S69,
        K70,
        K71,
        BTreeMap<String, K71>,
        K72,
        K73,
        HashSet<K73>,
        K74,
        E75,
        K76,
        S77,
        BTreeMap<String, S77>,
        E78,
        BTreeMap<String, E78>,
        S79,
        HashSet<S79>,
        E80,
        E81,
        S82,
        E83,
        S84,
        S85<E54, K3>,
        E86<S67>,
        S87,
        LinkedList<S87>,
        S88<E47>,
        Vec<S88<E47>>,
        S89,
    ]
}

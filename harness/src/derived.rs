//! Derived types: the generated ones, and hand-written ones the generator does not make
//! (recursion, type and const parameters, lifetimes).

use crate::codec::Types;

#[cfg(feature = "derived")]
#[path = "gen_derived.rs"]
pub mod generated;

#[cfg(not(feature = "derived"))]
pub fn types() -> Types {
    Vec::new()
}

#[cfg(feature = "derived")]
pub use hand::types;

#[cfg(feature = "derived")]
mod hand {
    use super::{generated, Types};
    use crate::codec::*;
    use crate::model::Kinds;
    use crate::rng::Rng;
    use bsn1_serde::OctetString;
    use std::collections::{BTreeMap, HashMap, HashSet};
    use std::marker::PhantomData;

    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
    #[bsn1_serde(id = Set)]
    pub struct Tree {
        pub name: String,
        pub kids: Vec<Tree>,
    }
    impl RefCodec for Tree {
        fn gen(r: &mut Rng, s: usize) -> Self {
            let n = if s < 2 { 0 } else { r.below(3.min(s)) };
            Tree {
                name: gen_string(r, s.min(6)),
                kids: (0..n).map(|_| Tree::gen(r, if n == 1 { s - 1 } else { s / 2 })).collect(),
            }
        }
        fn node(&self) -> Node {
            Node::Cons(vec![0x31], vec![RefCodec::node(&self.name), RefCodec::node(&self.kids)])
        }
        fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
            e.want(&[0x31])?;
            let mut k = e.kids(m);
            let name: Option<String> = k.field();
            let kids: Option<Vec<Tree>> = k.field();
            k.end()?;
            Ok(Tree {
                name: name.unwrap(),
                kids: kids.unwrap(),
            })
        }
    }

    /// Type parameters; one of them is called as the generated code might call its own.
    #[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 300)]
    pub struct Two<T, W>
    where
        T: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize,
        W: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize,
    {
        pub w: W,
        pub t: Vec<T>,
        #[bsn1_serde(skip)]
        pub p: PhantomData<T>,
    }
    impl<T: RefCodec, W: RefCodec> RefCodec for Two<T, W> {
        fn gen(r: &mut Rng, s: usize) -> Self {
            Two {
                w: W::gen(r, s / 2),
                t: RefCodec::gen(r, s / 2),
                p: PhantomData,
            }
        }
        fn node(&self) -> Node {
            Node::Cons(vec![0xff, 0x82, 0x2c], vec![RefCodec::node(&self.w), RefCodec::node(&self.t)])
        }
        fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
            e.want(&[0xff, 0x82, 0x2c])?;
            let mut k = e.kids(m);
            let w: Option<W> = k.field();
            let t: Option<Vec<T>> = k.field();
            k.end()?;
            Ok(Two {
                w: w.unwrap(),
                t: t.unwrap(),
                p: PhantomData,
            })
        }
        fn after(&self) -> Option<Self> {
            Some(Two {
                w: self.w.after()?,
                t: self.t.after()?,
                p: PhantomData,
            })
        }
        fn wire(&self) -> Node {
            Node::Cons(vec![0xff, 0x82, 0x2c], vec![RefCodec::wire(&self.w), RefCodec::wire(&self.t)])
        }
    }

    /// A const parameter, a lifetime, and a choice by parameter.
    #[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
    pub enum Choice<'a, T: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize, const N: usize> {
        Default(T, #[bsn1_serde(skip)] PhantomData<&'a u8>),
        #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 31)]
        Long {
            #[bsn1_serde(skip, default = "filler::<N>")]
            fill: Vec<u8>,
            r#in: T,
        },
        #[bsn1_serde(id = Null)]
        Empty,
    }
    pub fn filler<const N: usize>() -> Vec<u8> {
        vec![N as u8; N]
    }
    impl<T: RefCodec, const N: usize> RefCodec for Choice<'static, T, N> {
        fn gen(r: &mut Rng, s: usize) -> Self {
            match r.below(3) {
                0 => Choice::Default(T::gen(r, s), PhantomData),
                1 => Choice::Long {
                    fill: r.bytes(2),
                    r#in: T::gen(r, s),
                },
                _ => Choice::Empty,
            }
        }
        fn node(&self) -> Node {
            match self {
                Choice::Default(t, _) => Node::Cons(vec![0x30], vec![RefCodec::node(t)]),
                Choice::Long { r#in, .. } => Node::Cons(vec![0xbf, 0x1f], vec![RefCodec::node(r#in)]),
                Choice::Empty => Node::Cons(vec![0x05], vec![]),
            }
        }
        fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
            let mut k = e.kids(m);
            if e.id == [0x30] {
                let t: Option<T> = k.field();
                k.end()?;
                Ok(Choice::Default(t.unwrap(), PhantomData))
            } else if e.id == [0xbf, 0x1f] {
                let t: Option<T> = k.field();
                k.end()?;
                Ok(Choice::Long {
                    fill: vec![N as u8; N],
                    r#in: t.unwrap(),
                })
            } else if e.id == [0x05] {
                e.want(&[0x05])?;
                k.end()?;
                Ok(Choice::Empty)
            } else {
                Err(Kinds::UNMATCHED)
            }
        }
        fn after(&self) -> Option<Self> {
            Some(match self {
                Choice::Default(t, p) => Choice::Default(t.after()?, *p),
                Choice::Long { r#in, .. } => Choice::Long {
                    fill: vec![N as u8; N],
                    r#in: r#in.after()?,
                },
                Choice::Empty => Choice::Empty,
            })
        }
        fn wire(&self) -> Node {
            match self {
                Choice::Default(t, _) => Node::Cons(vec![0x30], vec![RefCodec::wire(t)]),
                Choice::Long { r#in, .. } => Node::Cons(vec![0xbf, 0x1f], vec![RefCodec::wire(r#in)]),
                Choice::Empty => Node::Cons(vec![0x05], vec![]),
            }
        }
    }

    /// The example of the documentation: text carried as octet string, transparently.
    #[derive(Clone, Debug, PartialEq, Eq, Hash, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
    #[bsn1_serde(transparent)]
    pub struct Text {
        #[bsn1_serde(to = "OctetString::new", try_from = "OctetString")]
        pub x: String,
        #[bsn1_serde(skip)]
        pub y: i32,
    }
    impl RefCodec for Text {
        fn gen(r: &mut Rng, s: usize) -> Self {
            Text {
                x: gen_string(r, s),
                y: r.below(9) as i32,
            }
        }
        fn node(&self) -> Node {
            Node::Prim(vec![0x04], self.x.as_bytes().to_vec())
        }
        fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
            let o = <OctetString<'static> as RefCodec>::dec(e, m)?;
            // OctetString is converted by the library, which says InvalidUtf8
            match String::from_utf8(o.as_ref().to_vec()) {
                Ok(x) => Ok(Text { x, y: 0 }),
                Err(_) => Err(Kinds::UTF8 | Kinds::ANYHOW),
            }
        }
        fn after(&self) -> Option<Self> {
            Some(Text {
                x: self.x.clone(),
                y: 0,
            })
        }
    }

    /// Identifier octets as long as they get.
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 0xffffffffffffffffffffffffffffffff)]
    pub struct Far(pub u8, pub bool);
    fn far() -> Vec<u8> {
        let mut v = vec![0x7f, 0x83];
        v.extend([0xff; 17]);
        v.push(0x7f);
        v
    }
    impl RefCodec for Far {
        fn gen(r: &mut Rng, _: usize) -> Self {
            Far(gen_int::<u8>(r), r.chance(1, 2))
        }
        fn node(&self) -> Node {
            Node::Cons(far(), vec![RefCodec::node(&self.0), RefCodec::node(&self.1)])
        }
        fn dec(e: &El, m: Mode) -> Result<Self, Kinds> {
            e.want(&far())?;
            let mut k = e.kids(m);
            let a: Option<u8> = k.field();
            let b: Option<bool> = k.field();
            k.end()?;
            Ok(Far(a.unwrap(), b.unwrap()))
        }
    }

    pub fn types() -> Types {
        let mut t: Types = crate::types![
            Tree,
            Vec<Tree>,
            HashMap<Tree, Tree>,
            Two<u8, String>,
            Two<Vec<bool>, HashMap<u8, u8>>,
            Two<Tree, Two<u8, u8>>,
            Choice<'static, u8, 3>,
            Choice<'static, Vec<String>, 0>,
            Vec<Choice<'static, Tree, 1>>,
            Text,
            HashSet<Text>,
            BTreeMap<Far, Text>,
            Far,
            HashSet<Far>,
        ];
        t.extend(generated::types());
        t
    }
}

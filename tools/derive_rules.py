#!/usr/bin/env python3
"""Derive inputs that the documented attribute rules accept or refuse.

items(seed, count) gives a list of Item; an item is a self-contained piece of Rust source, the
expectation (accept or reject) and the rule it comes from. Bodies of conversions are never run,
so they are `unimplemented!()`.
"""
import copy, random

ID_VALUES = ["EOC", "Boolean", "Integer", "BitString", "OctetString", "Null", "Real", "UTF8String", "Sequence", "Set"]
CLASS_VALUES = ["UNIVERSAL", "APPLICATION", "CONTEXT_SPECIFIC", "PRIVATE"]
PC_VALUES = ["PRIMITIVE", "CONSTRUCTED"]
NUM_VALUES = ["0", "1", "30", "31", "127", "128", "0x1f", "0XFF".lower(), "0o777", "0b1011", "65536",
              "340282366920938463463374607431768211455", "0xffffffffffffffffffffffffffffffff"]
IDG = ["id", "tag_class", "tag_pc", "tag_num"]
SKIP = ["skip", "skip_serializing", "skip_deserializing", "default"]
CONV = ["into", "from", "to", "try_from"]
ALL = IDG + SKIP + CONV + ["transparent"]
ALLOWED = {
    "struct": IDG + CONV + ["transparent"],
    "enum": CONV,
    "variant": IDG,
    "field": SKIP + CONV,
    "union": CONV,
}

PRELUDE = """#![allow(warnings)]
extern crate bsn1_serde;
use bsn1_serde::{de::Deserialize, ser::Serialize, Deserialize, OctetString, Serialize};

/// Supports every way a field may be written or read.
#[derive(Clone, Copy, Default, Serialize, Deserialize)]
pub struct X(u8);
impl From<u8> for X { fn from(_: u8) -> Self { unimplemented!() } }
impl TryFrom<u16> for X { type Error = std::fmt::Error; fn try_from(_: u16) -> Result<Self, std::fmt::Error> { unimplemented!() } }
impl From<X> for u32 { fn from(_: X) -> u32 { unimplemented!() } }
impl From<X> for Vec<String> { fn from(_: X) -> Vec<String> { unimplemented!() } }
impl From<Vec<u8>> for X { fn from(_: Vec<u8>) -> Self { unimplemented!() } }
pub fn any_to<T>(_: &T) -> i64 { unimplemented!() }
pub fn make<T>() -> T { unimplemented!() }
pub mod deep { pub mod er {
    pub fn any_to<T>(_: &T) -> String { unimplemented!() }
    pub fn make<T>() -> T { unimplemented!() }
    pub type Alias = u8;
} }
/// What a converted container has to offer.
macro_rules! conv { ($t: ident) => {
    impl Clone for $t { fn clone(&self) -> Self { unimplemented!() } }
    impl From<u8> for $t { fn from(_: u8) -> Self { unimplemented!() } }
    impl TryFrom<u16> for $t { type Error = std::fmt::Error; fn try_from(_: u16) -> Result<Self, std::fmt::Error> { unimplemented!() } }
    impl From<$t> for u32 { fn from(_: $t) -> u32 { unimplemented!() } }
    impl From<$t> for Vec<String> { fn from(_: $t) -> Vec<String> { unimplemented!() } }
    impl From<Vec<u8>> for $t { fn from(_: Vec<u8>) -> Self { unimplemented!() } }
} }
"""


def arg(r, a):
    """One argument with a valid value."""
    if a == "id":
        return "id = " + r.choice(ID_VALUES)
    if a == "tag_class":
        return "tag_class = " + r.choice(CLASS_VALUES)
    if a == "tag_pc":
        return "tag_pc = " + r.choice(PC_VALUES)
    if a == "tag_num":
        return "tag_num = " + r.choice(NUM_VALUES)
    if a == "default":
        return 'default = "%s"' % r.choice(["make", "Default::default", "crate::deep::er::make", "crate::make",
                                            "::core::default::Default::default", "X::default"])
    if a == "into":
        return 'into = "%s"' % r.choice(["u32", "Vec<String>", "std::vec::Vec<String>"])
    if a == "from":
        return 'from = "%s"' % r.choice(["u8", "crate::deep::er::Alias", "Vec<u8>", "::std::vec::Vec<u8>"])
    if a == "to":
        return 'to = "%s"' % r.choice(["any_to", "crate::deep::er::any_to", "any_to::<_>"])
    if a == "try_from":
        return 'try_from = "%s"' % r.choice(["u16", "::core::primitive::u16"])
    return a


def exclusive(a, b):
    groups = [IDG, SKIP, CONV, ["transparent"]]
    ga = next(g for g in groups if a in g)
    gb = next(g for g in groups if b in g)
    return ga is not gb or {a, b} in ({"from", "try_from"}, {"into", "to"})


NOISE = ["#[doc = \"text\"]", "/// comment", "#[allow(unused)]", "#[cfg(all())]", "#[cfg_attr(any(), nothing)]"]


class Place:
    """A list of arguments (None: no attribute at all) and raw attributes beside it."""

    def __init__(self, kind, args=None):
        self.kind, self.args, self.raw_before, self.raw_after, self.tail = kind, args, [], [], ""
        self.sep = ", "

    def text(self):
        out = list(self.raw_before)
        if self.args is not None:
            out.append("#[bsn1_serde(%s%s)]" % (self.sep.join(self.args), self.tail))
        out += self.raw_after
        return "".join(x + "\n" for x in out)


class Body:
    def __init__(self, r, n, shape):
        self.shape = shape
        names = r.sample(["a", "b", "c", "r#type", "value", "id", "length", "r#fn", "field", "w", "contents"], n)
        self.fields = [[names[i] if shape == "named" else None, Place("field"), "X"] for i in range(n)]

    def text(self, vis=""):
        if self.shape == "unit":
            return ""
        fs = "".join("%s%s%s,\n" % (p.text(), (vis + n + ": ") if n else vis, t) for n, p, t in self.fields)
        return " {\n%s}" % fs if self.shape == "named" else "(\n%s)" % fs


class Item:
    def __init__(self, kind):
        self.kind, self.place, self.body, self.variants = kind, Place(kind), None, []
        self.expect, self.why, self.derive = "accept", "", "both"

    def places(self):
        out = [self.place]
        for b in ([self.body] if self.body else []) + [v[2] for v in self.variants]:
            out += [f[1] for f in b.fields]
        return out + [v[1] for v in self.variants]

    def text(self, name):
        d = {"both": "Serialize, Deserialize", "ser": "Serialize", "de": "Deserialize"}[self.derive]
        s = "#[derive(%s)]\n" % d + self.place.text()
        if self.kind == "enum":
            s += "pub enum %s {\n%s}\n" % (name, "".join("%s%s%s,\n" % (p.text(), n, b.text()) for n, p, b in self.variants))
        elif self.kind == "union":
            s += "pub union %s%s\n" % (name, self.body.text())
        else:
            s += "pub struct %s%s%s\n" % (name, self.body.text("pub "), "" if self.body.shape == "named" else ";")
        return s + "conv!(%s);\n" % name


def group_args(r, group):
    """A documented combination out of one group."""
    if group is CONV:
        ks = [k for k in (r.choice([None, "into", "to"]), r.choice([None, "from", "try_from"])) if k]
        ks = ks or ["into"]
    elif group is SKIP:
        ks = r.choice([["skip"], ["skip_serializing"], ["skip_deserializing"], ["skip_serializing", "skip_deserializing"],
                       ["skip", "skip_serializing"], ["skip", "skip_deserializing"], ["skip"] + SKIP[1:3]])
        ks = list(ks)
        if ("skip" in ks or "skip_deserializing" in ks) and r.random() < .5:
            ks.append("default")
    else:
        ks = r.sample(IDG, r.randint(1, 4))
    r.shuffle(ks)
    return [arg(r, k) for k in ks]


def rnd_fields(r, b, p=.5):
    for f in b.fields:
        if r.random() < p:
            f[1].args = group_args(r, r.choice([SKIP, CONV]))
            if r.random() < .2:
                f[1].tail = ","
        if r.random() < .2:
            f[1].raw_before.append(r.choice(NOISE))
        if r.random() < .2:
            f[1].raw_after.append(r.choice(NOISE))


def ser_de_counts(b):
    s = d = 0
    for _, p, _ in b.fields:
        ks = [a.split(" ")[0] for a in p.args or []]
        s += not ("skip" in ks or "skip_serializing" in ks)
        d += not ("skip" in ks or "skip_deserializing" in ks)
    return s, d


def base(r, kind=None, conv=None):
    """A random item that must be accepted."""
    kind = kind or r.choice(["struct", "struct", "enum", "enum"])
    it = Item(kind)
    if kind == "enum":
        for n in r.sample(["A", "B", "C", "Data", "Error", "Unit", "Other", "Some", "Ok"][:7], r.randint(1, 4)):
            sh = r.choice(["named", "tuple", "unit"])
            b = Body(r, r.randint(0, 4) if sh != "unit" else 0, sh)
            rnd_fields(r, b)
            p = Place("variant", group_args(r, IDG) if r.random() < .6 else None)
            if r.random() < .2:
                p.raw_before.append(r.choice(NOISE))
            it.variants.append((n, p, b))
    else:
        sh = r.choice(["named", "tuple", "unit"]) if kind == "struct" else "named"
        it.body = Body(r, r.randint(0 if kind == "struct" else 1, 5) if sh != "unit" else 0, sh)
        rnd_fields(r, it.body)
    x = r.random()
    if conv or (conv is None and x < .2) or kind == "union":
        it.place.args = group_args(r, CONV)
        if kind == "union":
            it.place.args = [arg(r, r.choice(["into", "to"])), arg(r, r.choice(["from", "try_from"]))]
    elif x < .7 and kind == "struct":
        it.place.args = group_args(r, IDG)
    if it.place.args and r.random() < .2:
        it.place.tail = ","
    if r.random() < .2:
        it.place.raw_before.append(r.choice(NOISE))
    return it


def with_place(r, kind, n=40):
    """A base item that has a place of this kind, and that place."""
    for _ in range(400):
        it = base(r, {"struct": "struct", "enum": "enum", "variant": "enum", "union": "union"}.get(kind))
        ps = [p for p in it.places() if p.kind == kind]
        if ps:
            return it, r.choice(ps)
    raise AssertionError


MALFORMED = {
    "id": ["id", "id =", "id Set", "id = \"Set\"", "id = 3", "id = sequence", "id = SEQUENCE", "id = Sequences", "id: Set",
           "id(Set)", "id = (Set)", "id == Set", "id = Enumerated", "= Set"],
    "tag_class": ["tag_class", "tag_class =", "tag_class = universal", "tag_class = Private", "tag_class = \"PRIVATE\"",
                  "tag_class = 1", "tag_class = CONTEXT", "tag_class = CONTEXT_SPECIFICS", "tag_class: PRIVATE"],
    "tag_pc": ["tag_pc", "tag_pc =", "tag_pc = primitive", "tag_pc = 0", "tag_pc = \"PRIMITIVE\"", "tag_pc = CONSTRUCT",
               "tag_pc = true", "tag_pc(PRIMITIVE)"],
    "tag_num": ["tag_num", "tag_num =", "tag_num = -1", "tag_num = x", "tag_num = 1.5", "tag_num = \"3\"", "tag_num = 'a'",
                "tag_num = 340282366920938463463374607431768211456", "tag_num = 0x100000000000000000000000000000000",
                "tag_num = 999999999999999999999999999999999999999999", "tag_num: 3", "tag_num = (3)", "tag_num = 1 + 1",
                "tag_num = 1e3", "tag_num = b'1'"],
    "skip": ["skip = true", "skip()", "skip = \"\"", "Skip", "skipped", "\"skip\"", "(skip)", "skip; ", "!skip"],
    "skip_serializing": ["skip_serializing = true", "skip_serialize", "skip_ser"],
    "skip_deserializing": ["skip_deserializing = true", "skip_deserialize"],
    "default": ["default", "default =", "default = make", "default = \"\"", "default = \"1x\"", "default = \"a b\"",
                "default = 3", "default: \"make\"", "default(\"make\")", "default = \"make()\"", "default = \"|| 3\""],
    "into": ["into", "into =", "into = u32", "into = \"\"", "into = \"u32 u32\"", "into = 3", "into = \"3\"", "into(\"u32\")",
             "into = \"(u8, u8)\"", "into = \"&u8\"", "into = \"Vec<u8\""],
    "from": ["from", "from =", "from = u8", "from = \"\"", "from = \"-\"", "from = 3", "from: \"u8\"", "from = \"[u8; 2]\""],
    "to": ["to", "to =", "to = any_to", "to = \"\"", "to = \"any_to()\"", "to = 3"],
    "try_from": ["try_from", "try_from =", "try_from = u16", "try_from = \"\"", "try_from = \"u16;\"", "try_from = 3", "try_into = \"u16\""],
    "transparent": ["transparent = true", "transparent()", "Transparent", "transparen", "transparent = \"\""],
    "": ["unknown", "unknown = 3", "rename = \"a\"", "flatten", "3", "\"text\"", "'c'", "@", "::", "[skip]", "{}", "tag = 3"],
}


def reject(it, why, derive):
    it = copy.deepcopy(it)
    it.expect, it.why, it.derive = "reject", why, derive
    return it


def accept(it, why, derive="both"):
    it = copy.deepcopy(it)
    it.expect, it.why, it.derive = "accept", why, derive
    return it


def systematic(r):
    out = []
    both = ("ser", "de")
    for kind in ("struct", "enum", "variant", "field"):
        # every argument where it does not belong
        for a in ALL:
            if a in ALLOWED[kind]:
                continue
            for d in both:
                it, p = with_place(r, kind)
                p.args = [arg(r, a)]
                out.append(reject(it, "`%s` at a %s" % (a, kind), d))
        # every pair that must not be combined
        for a in ALL:
            for b in ALL:
                if a < b and exclusive(a, b) and a in ALLOWED[kind] and b in ALLOWED[kind]:
                    for d in both:
                        it, p = with_place(r, kind)
                        p.args = [arg(r, a), arg(r, b)]
                        if kind == "struct" and "transparent" in (a, b):
                            it = base(r, "struct", False)
                            it.body = Body(r, 1, r.choice(["named", "tuple"]))
                            it.place.args = p.args
                            p = it.place
                        r.shuffle(p.args)
                        out.append(reject(it, "`%s` with `%s` at a %s" % (a, b, kind), d))
        # every argument twice
        for a in ALLOWED[kind]:
            for d in both:
                it, p = with_place(r, kind)
                if a == "transparent":
                    it = base(r, "struct", False)
                    it.body = Body(r, 1, r.choice(["named", "tuple"]))
                    p = it.place
                p.args = [arg(r, a), arg(r, a)]
                between = [x for x in ALLOWED[kind] if x != a and not exclusive(a, x)]
                if between and r.random() < .5:
                    p.args.insert(1, arg(r, r.choice(between)))
                out.append(reject(it, "`%s` twice at a %s" % (a, kind), d))
        # every malformed or unknown value
        for a in list(ALLOWED[kind]) + [""]:
            for bad in MALFORMED[a]:
                d = r.choice(both)
                it, p = with_place(r, kind)
                if a == "transparent":
                    it = base(r, "struct", False)
                    it.body = Body(r, 1, "tuple")
                    p = it.place
                p.args = [bad]
                out.append(reject(it, "`%s` at a %s" % (bad, kind), d))
        for d in both:
            # two attributes, a value instead of a list
            it, p = with_place(r, kind)
            p.args = [arg(r, ALLOWED[kind][0])]
            p.raw_before = ["#[bsn1_serde(%s)]" % arg(r, ALLOWED[kind][1 if kind != "field" else 3])]
            out.append(reject(it, "two attributes at a %s" % kind, d))
            it, p = with_place(r, kind)
            a = arg(r, ALLOWED[kind][0])
            p.args = [a]
            p.raw_after = [r.choice(NOISE), "#[bsn1_serde(%s)]" % a]
            out.append(reject(it, "the same attribute twice at a %s" % kind, d))
            it, p = with_place(r, kind)
            p.args = None
            p.raw_after = ['#[bsn1_serde = "%s"]' % ALLOWED[kind][0]]
            out.append(reject(it, "#[bsn1_serde = ...] at a %s" % kind, d))
    # fields and variants of converted containers are looked at as well
    for kind in ("struct", "enum", "union"):
        for d in both:
            for bad in [arg(r, "id"), arg(r, "transparent"), "unknown", "skip, " + arg(r, "from"), "skip, skip"]:
                for _ in range(60):
                    it = base(r, kind, True)
                    ps = [p for p in it.places() if p.kind == "field"]
                    if ps:
                        break
                it.place.args = [arg(r, r.choice(["into", "to"])), arg(r, r.choice(["from", "try_from"]))]
                p = r.choice(ps)
                p.args = [bad]
                out.append(reject(it, "`%s` at a field of a converted %s" % (bad, kind), d))
            if kind == "enum":
                for bad in ["skip", "transparent", arg(r, "into"), "unknown", "id = Set, id = Set"]:
                    it = base(r, kind, True)
                    it.place.args = [arg(r, r.choice(["into", "to"])), arg(r, r.choice(["from", "try_from"]))]
                    p = r.choice([p for p in it.places() if p.kind == "variant"])
                    p.args = [bad]
                    out.append(reject(it, "`%s` at a variant of a converted enum" % bad, d))
    # unions
    for d in both:
        for args in (None, ["id = Set"], [arg(r, "into")] if d == "de" else [arg(r, "from")]):
            it = base(r, "union")
            for p in it.places():
                p.args = None
            it.place.args = args
            out.append(reject(it, "union without conversion (%s)" % args, d))
        it = base(r, "union")
        it.place.args = [arg(r, "into"), arg(r, "from")]
        for f in it.body.fields:
            f[1].args = None
        out.append(accept(it, "converted union", d))
    # transparent
    for n in range(0, 6):
        for sh in ("named", "tuple"):
            for _ in range(4):
                it = Item("struct")
                it.place.args = ["transparent"]
                it.body = Body(r, n, sh)
                rnd_fields(r, it.body, .3)
                if n and r.random() < .7:
                    keep = r.randrange(n)
                    for i, f in enumerate(it.body.fields):
                        if i != keep:
                            f[1].args = group_args(r, SKIP)
                s, dd = ser_de_counts(it.body)
                for d, k in (("ser", s), ("de", dd)):
                    f = accept if k == 1 else reject
                    out.append(f(it, "transparent with %d fields, %d of them for %s" % (n, k, d), d))
    it = Item("struct")
    it.place.args = ["transparent"]
    it.body = Body(r, 0, "unit")
    for d in both:
        out.append(reject(it, "transparent unit structure", d))
    # what is documented works
    for kind in ("struct", "enum", "variant", "field"):
        for a in ALLOWED[kind]:
            for v in {"id": ID_VALUES, "tag_class": CLASS_VALUES, "tag_pc": PC_VALUES, "tag_num": NUM_VALUES}.get(a, [None]):
                it, p = with_place(r, kind)
                p.args = [a + " = " + v if v else arg(r, a)]
                if a == "transparent":
                    it.body = Body(r, 1, r.choice(["named", "tuple"]))
                    p = it.place
                if a == "default":
                    p.args.append("skip")
                out.append(accept(it, "`%s` at a %s" % (p.args, kind)))
        for g in (IDG, SKIP, CONV):
            if g[0] not in ALLOWED[kind]:
                continue
            n = len(g)
            for mask in range(1, 1 << n):
                ks = [g[i] for i in range(n) if mask >> i & 1]
                if any(exclusive(a, b) for a in ks for b in ks if a != b):
                    continue
                if ks == ["default"] or ks == ["skip_serializing", "default"]:
                    continue
                for d in ("ser", "de", "both"):
                    it, p = with_place(r, kind)
                    r.shuffle(ks)
                    p.args = [arg(r, k) for k in ks]
                    out.append(accept(it, "%s at a %s" % (p.args, kind), d))
    return out


def faulty(r):
    """A random acceptable item with one fault somewhere."""
    it = base(r)
    p = r.choice(it.places())
    d = r.choice(["ser", "de"])
    keep = list(p.args or [])
    k = p.kind
    x = r.random()
    names = [a.split(" ")[0] for a in keep]
    if x < .3:
        a = r.choice([a for a in ALL if a not in ALLOWED[k]])
        keep.insert(r.randint(0, len(keep)), arg(r, a))
        why = "misplaced `%s`" % a
    elif x < .5:
        pairs = [(a, b) for a in ALLOWED[k] for b in ALLOWED[k] if a != b and exclusive(a, b)]
        if not pairs:
            return None
        a, b = r.choice(pairs)
        keep = [arg(r, a), arg(r, b)]
        why = "`%s` with `%s`" % (a, b)
    elif x < .65:
        a = r.choice(names) if names else r.choice(ALLOWED[k])
        if not names:
            keep = [arg(r, a)]
        keep.insert(r.randint(0, len(keep)), arg(r, a))
        why = "`%s` twice" % a
    elif x < .9:
        a = r.choice(ALLOWED[k] + [""])
        bad = r.choice(MALFORMED[a])
        keep = [q for q in keep if q.split(" ")[0] != a]
        at = len(keep) if bad.endswith("=") or bad == a else r.randint(0, len(keep))
        keep.insert(at, bad)
        why = "malformed `%s`" % bad
    else:
        if p.args is None:
            keep = [arg(r, ALLOWED[k][0])]
        p.raw_after.append("#[bsn1_serde(%s)]" % arg(r, r.choice(ALLOWED[k])))
        why = "second attribute"
    p.args = keep
    return reject(it, "%s at a %s" % (why, k), d)


# Documented use in surroundings the generator above does not produce.
SPECIAL = [
    ("generic structure", """
#[derive(Serialize, Deserialize)] pub struct NAME<T: Serialize + Deserialize>(T);
fn use_NAME(x: &NAME<Vec<u8>>) -> NAME<Vec<u8>> { let _ = bsn1_serde::to_der(x); bsn1_serde::from_der(&bsn1_serde::to_der(x).unwrap()).unwrap() }
"""),
    ("bounded generics", """
#[derive(Serialize, Deserialize)] #[bsn1_serde(id = Set)] pub struct NAME<T: Clone + Serialize, U = u8> where U: Default, T: Deserialize { a: T, #[bsn1_serde(skip)] b: U }
fn use_NAME(x: &NAME<u8, String>) { let _ = bsn1_serde::to_der(x); }
"""),
    ("type parameters with names the macros might use", """
#[derive(Serialize, Deserialize)] pub struct NAME<W, R, E, Error, Result>(W, R, E, Error, Result) where W: Serialize + Deserialize, R: Serialize + Deserialize, E: Serialize + Deserialize, Error: Serialize + Deserialize, Result: Serialize + Deserialize;
#[derive(Serialize, Deserialize)] pub enum NAMEe<W: Serialize + Deserialize, Buffer: Serialize + Deserialize, D: Deserialize + Serialize, S: Serialize> where S: Deserialize { A(W), #[bsn1_serde(id = Set)] B { buffer: Buffer }, #[bsn1_serde(tag_num = 9)] C(D, S) }
"""),
    ("lifetime", """
#[derive(Serialize)] pub struct NAME<'a> { a: OctetString<'a>, #[bsn1_serde(skip)] b: &'a [u8] }
#[derive(Serialize)] pub enum NAMEe<'a, 'b> { A(OctetString<'a>), #[bsn1_serde(id = Set)] B(#[bsn1_serde(skip)] &'a u8, Vec<OctetString<'b>>) }
"""),
    ("constant parameter", """
#[derive(Clone, Serialize, Deserialize)] pub struct NAME<const N: usize> { a: Vec<u8>, #[bsn1_serde(skip, default = "make")] b: [u8; N] }
#[derive(Serialize, Deserialize)] pub enum NAMEe<const N: usize, T: Serialize + Deserialize> { A(T), #[bsn1_serde(id = Set)] B(#[bsn1_serde(skip, default = "make")] [T; N]) }
"""),
    ("alias of Result in scope", """
mod mod_NAME { use super::{X, Serialize, Deserialize, make, any_to}; pub struct MyError; pub type Result<T> = std::result::Result<T, MyError>;
#[derive(Clone, Serialize, Deserialize)] pub struct S { a: u8, #[bsn1_serde(to = "any_to", try_from = "u16")] b: X, #[bsn1_serde(skip)] c: X }
#[derive(Serialize, Deserialize)] #[bsn1_serde(transparent)] pub struct T(#[bsn1_serde(into = "u32", from = "u8")] X);
#[derive(Serialize, Deserialize)] pub enum E { A, #[bsn1_serde(id = Set)] B(X, #[bsn1_serde(skip, default = "make")] u8) }
}
"""),
    ("own types with the names of library types", """
mod mod_NAME { use super::{X, Serialize, Deserialize, make, any_to}; pub struct Error; pub struct Length; pub struct IdRef; pub struct BerRef; pub struct DerRef; pub trait Write {} pub trait Into {} pub trait From {} pub struct Vec; pub struct String; pub struct Box;
#[derive(Clone, Serialize, Deserialize)] pub struct S { a: u8, #[bsn1_serde(to = "any_to", try_from = "u16")] b: X, #[bsn1_serde(skip)] c: X }
#[derive(Serialize, Deserialize)] #[bsn1_serde(transparent)] pub struct T(#[bsn1_serde(into = "u32", from = "u8")] X);
#[derive(Serialize, Deserialize)] pub enum E { A, #[bsn1_serde(id = Set)] B(X, #[bsn1_serde(skip, default = "make")] u8) }
}
"""),
    ("derive inside a function", """
fn fn_NAME() { #[derive(Serialize, Deserialize)] struct L { r#fn: u8, r#type: String } #[derive(Serialize, Deserialize)] enum M { A { r#match: u8 }, #[bsn1_serde(id = Set)] B { r#loop: Vec<L>, #[bsn1_serde(skip)] r#ref: u8 } } }
"""),
    ("full paths, no imports", """
mod mod_NAME { #[derive(bsn1_serde::Serialize, ::bsn1_serde::Deserialize)] #[bsn1_serde(tag_class = PRIVATE)] pub struct S { pub(crate) a: u8, pub(super) b: std::string::String }
#[derive(bsn1_serde::Serialize)] pub struct OnlySer(u8); #[derive(bsn1_serde::Deserialize)] pub struct OnlyDe(u8); }
"""),
    ("many fields", "#[derive(Serialize, Deserialize)] pub struct NAME { %s }\n" % ", ".join("f%d: X" % i for i in range(60))),
    ("many variants", "#[derive(Serialize, Deserialize)] pub enum NAME { %s }\n" % ", ".join(
        "#[bsn1_serde(tag_class = PRIVATE, tag_num = %d)] V%d(X)" % (i, i) for i in range(60))),
    ("recursive types", """
#[derive(Serialize, Deserialize)] pub struct NAME { id: u8, kids: Vec<NAME> }
#[derive(Serialize, Deserialize)] pub enum NAMEe { #[bsn1_serde(id = Set)] Leaf(u8), Node(Vec<NAMEe>, std::collections::BTreeMap<u8, NAMEe>) }
"""),
    ("empty attribute", """
#[derive(Serialize, Deserialize)] #[bsn1_serde()] pub struct NAME { #[bsn1_serde()] a: u8 }
"""),
    ("documented builder of the own type", """
#[derive(Serialize, Deserialize)] pub struct NAME { x: i32, #[bsn1_serde(skip_serializing, skip_deserializing, default = "NAME::one")] w: i32 }
impl NAME { fn one() -> i32 { 1 } }
"""),
    ("documented string conversion", """
#[derive(Serialize, Deserialize)] #[bsn1_serde(tag_class = PRIVATE)]
pub struct NAME(#[bsn1_serde(to = "bsn1_serde::OctetString::new", try_from = "bsn1_serde::OctetString")] String);
"""),
    ("fields named like locals of an implementation", """
#[derive(Serialize, Deserialize)] pub struct NAME { buffer: u8, id: u8, length: u8, contents: u8, this: u8, ret: u8, err: u8, context: u8, bytes: u8, val: u8 }
#[derive(Serialize, Deserialize)] pub enum NAMEe { A { buffer: u8, id: u8, length: u8, contents: u8, this: u8, ret: u8, err: u8, context: u8, bytes: u8, val: u8 }, #[bsn1_serde(id = Set)] B { id: u8, e: u8, f: u8, w: u8, x: u8 } }
"""),
    ("one sided conversions and fields that are only writable or only readable", """
mod mod_NAME { use super::{Serialize, Deserialize}; pub struct W; #[derive(Clone)] pub struct V; impl From<V> for u8 { fn from(_: V) -> u8 { 0 } } impl From<u8> for W { fn from(_: u8) -> W { W } }
#[derive(Serialize)] pub struct S(#[bsn1_serde(into = "u8")] V); #[derive(Deserialize)] pub struct D { #[bsn1_serde(from = "u8")] w: W }
pub struct NoDefault; #[derive(Serialize)] pub struct K { #[bsn1_serde(skip_serializing)] a: NoDefault, b: u8 } }
"""),
]


class Text:
    def __init__(self, why, src):
        self.expect, self.why, self.src, self.derive = "accept", why, src, "both"

    def text(self, name):
        return self.src.strip().replace("NAME", name) + "\n"


def items(seed, count):
    """All systematic items, `count` random acceptable ones and `count` random faulty ones."""
    r = random.Random(seed)
    out = systematic(r) + [Text(w, s) for w, s in SPECIAL]
    for _ in range(count):
        out.append(accept(base(r), "random item", r.choice(["ser", "de", "both"])))
        f = faulty(r)
        if f:
            out.append(f)
    return out


def source(its):
    """Source text and, per item, its first and last line (counted from 1)."""
    lines = PRELUDE.count("\n")
    parts, ranges = [PRELUDE], []
    for i, (n, it) in enumerate(its):
        t = it.text("T%d" % n)
        k = t.count("\n")
        parts.append(t)
        ranges.append((n, lines + 1, lines + k))
        lines += k
    return "".join(parts) + "fn main() {}\n", ranges


if __name__ == "__main__":
    import sys
    its = list(enumerate(items(int(sys.argv[1]), int(sys.argv[2]))))
    sys.stdout.write(source([x for x in its if x[1].expect == sys.argv[3]])[0])

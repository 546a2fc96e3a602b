#!/usr/bin/env python3
"""Writes a Rust module with random derived types and, beside each, an independent model of it.

  gen_derive.py <seed> <count> <output file> [crate prefix]

The model comes from the attributes as documented: identifier, fields in order, skipping,
defaults, conversions, transparency. Nothing of it goes through the derive macros.
"""
import random, sys

UNIV = {"EOC": 0, "Boolean": 1, "Integer": 2, "BitString": 3, "OctetString": 4, "Null": 5, "Real": 9,
        "UTF8String": 12, "Sequence": 0x30, "Set": 0x31}
CLASS = {"UNIVERSAL": 0, "APPLICATION": 1, "CONTEXT_SPECIFIC": 2, "PRIVATE": 3}

# (type, ordered and hashable, has Default)
PLAIN = [
    ("bool", 1, 1), ("i8", 1, 1), ("i16", 1, 1), ("i32", 1, 1), ("i64", 1, 1), ("i128", 1, 1), ("isize", 1, 1),
    ("u8", 1, 1), ("u16", 1, 1), ("u32", 1, 1), ("u64", 1, 1), ("u128", 1, 1), ("usize", 1, 1),
    ("String", 1, 1), ("OctetString<'static>", 1, 0), ("Vec<u8>", 1, 1), ("Vec<String>", 1, 1),
    ("std::collections::VecDeque<i16>", 1, 1), ("LinkedList<bool>", 1, 1), ("BTreeSet<u8>", 1, 1),
    ("HashSet<i8>", 0, 1), ("BTreeMap<u8, String>", 1, 1), ("HashMap<String, u8>", 0, 1), ("Vec<Vec<i32>>", 1, 1),
    ("Quiet<u16, 1>", 1, 0), ("Quiet<String, 2>", 1, 0), ("Quiet<i8, 3>", 1, 0), ("Moody", 1, 0), ("Num", 1, 1),
]
CONV = ["u8", "i64", "u128", "bool", "String", "Vec<u8>", "Vec<String>", "BTreeMap<String, Vec<u8>>",
        "OctetString<'static>", "HashSet<u16>"]
# types that are no ASN.1 types: (type, expression of a random one)
OPAQUE = [
    ("Option<u8>", "if r.chance(1, 2) { Some(r.u8()) } else { None }"),
    ("(u8, bool)", "(r.u8(), r.chance(1, 2))"),
    ("std::time::Duration", "std::time::Duration::from_millis(r.below(5000) as u64)"),
    ("[u8; 3]", "[r.u8(), r.u8(), r.u8()]"),
    ("std::marker::PhantomData<String>", "std::marker::PhantomData"),
]
DEFAULTS = {  # type: constant expressions
    "u8": ["7", "255"], "i64": ["-1", "1 << 40"], "String": ['"dflt".to_string()'], "Vec<u8>": ["vec![1, 2, 3]"],
    "bool": ["true"], "Option<u8>": ["Some(9)"], "(u8, bool)": ["(3, true)"], "u128": ["u128::MAX"],
}
NAMES = ["a", "b", "c", "x", "value", "id", "length", "contents", "buffer", "write", "ret", "err", "context", "this",
         "val", "r#type", "r#match", "r#fn", "r#struct", "data", "inner", "name", "tag", "e", "f", "w", "_under", "r#async",
         "camelCase", "field_0", "der", "ber", "eoc"]
VNAMES = ["A", "B", "C", "Data", "Error", "Leaf", "Many", "One", "Id", "Length", "Nothing", "Unit", "V1", "V2", "Pair"]
NAMES += ["n%d" % i for i in range(12)]
VNAMES += ["W%d" % i for i in range(20)]


def octets(num):
    out = [num % 128]
    num //= 128
    while num:
        out.append(num % 128 + 128)
        num //= 128
    return out[::-1]


class Id:
    """Identifier arguments and what they mean."""

    def __init__(self, r, allow_none=True):
        self.args = []
        base = 0x30
        if r.random() < 0.5:
            n = r.choice(list(UNIV))
            base = UNIV[n]
            self.args.append("id = " + n)
        cls, con, num = base >> 6, bool(base & 0x20), base & 31
        if r.random() < 0.5:
            c = r.choice(list(CLASS))
            cls = CLASS[c]
            self.args.append("tag_class = " + c)
        if r.random() < 0.4:
            p = r.choice(["PRIMITIVE", "CONSTRUCTED"])
            con = p == "CONSTRUCTED"
            self.args.append("tag_pc = " + p)
        if r.random() < 0.5:
            num = r.choice([0, 1, 15, 16, 29, 30, 31, 32, 127, 128, 129, 16383, 16384, 2097151, 2097152, (1 << 64) - 1,
                            1 << 64, (1 << 128) - 1, r.randrange(31), r.randrange(1 << 20), r.randrange(1 << 127)])
            self.args.append("tag_num = " + r.choice(["{:d}", "0x{:x}", "0x{:X}", "0o{:o}", "0b{:b}"]).format(num))
        if not self.args and not allow_none:
            self.args.append("id = Set")
            num = 0x11
        r.shuffle(self.args)
        lead = cls << 6 | (0x20 if con else 0)
        self.octets = [lead | num] if num < 31 else [lead | 31] + octets(num)

    def rust(self):
        return "vec![" + ", ".join("0x%02x" % o for o in self.octets) + "]"

    def slice(self):
        return "&[" + ", ".join("0x%02x" % o for o in self.octets) + "]"


class Field:
    """ser/de: how the field goes out and comes in: None (skipped), 'plain', or (kind, type or path, ...)"""

    def __init__(self, name, ty):
        self.name, self.ty = name, ty
        self.ord = True
        self.attr = []
        self.ser = self.de = "plain"
        self.gen = "<%s as RefCodec>::gen(r, s)" % ty
        self.back = "RefCodec::after(%s)?"          # value after a round trip
        self.dnode = "RefCodec::wire(%s)"           # element to read it from
        self.default = "Default::default()"

    def sym(self):
        return (self.ser is None) == (self.de is None) and self.symconv

    symconv = True


def make_field(r, g, name, only=None):
    """A field of some kind; `only` asks for an active (not skipped) symmetrical or asymmetrical one."""
    x = r.random()
    kind = only or ("plain" if x < .5 else "skip" if x < .64 else "oneside" if x < .7 else "conv" if x < .93 else "num")
    if kind == "plain":
        pool = PLAIN + g.types
        t = r.choice(g.types) if g.types and r.random() < .3 else r.choice(pool)
        f = Field(name, t[0])
        f.ord = t[1]
        return f
    if kind in ("skip", "oneside"):
        if r.random() < .5:
            ty = r.choice([p for p in PLAIN if p[2]])[0]
            gen, o = "<%s as RefCodec>::gen(r, s)" % ty, ty not in ("HashSet<i8>", "HashMap<String, u8>")
        elif kind == "oneside":
            ty = r.choice(["u8", "i64", "String", "Vec<u8>", "bool", "u128"])
            gen, o = "<%s as RefCodec>::gen(r, s)" % ty, True
        else:
            ty, gen = r.choice(OPAQUE)
            o = True
        f = Field(name, ty)
        f.gen, f.ord = gen, o
        if kind == "skip":
            f.attr = r.choice([["skip"], ["skip"], ["skip_serializing", "skip_deserializing"],
                               ["skip", "skip_serializing"], ["skip", "skip_deserializing"]])
            f.ser = f.de = None
        elif r.random() < .5:
            f.attr, f.ser = ["skip_serializing"], None
        else:
            f.attr, f.de = ["skip_deserializing"], None
        if f.de is None and (r.random() < .5):
            if ty in DEFAULTS:
                fn = g.default_fn(ty, r.choice(DEFAULTS[ty]))
                f.attr = f.attr + ['default = "%s"' % fn]
                f.default = g.defaults[fn]
            elif ty == "String":
                f.attr = f.attr + ['default = "String::new"']
        f.attr = list(f.attr)
        r.shuffle(f.attr)
        return f
    if kind == "conv":
        c = r.choice(CONV)
        picky = r.random() < .45
        w = ("Picky<%s>" if picky else "Conv<%s>") % c
        f = Field(name, w)
        f.ord = c != "HashSet<u16>"
        f.gen = ("gen_picky::<%s>(r, s)" % c) if picky else "Conv(<%s as RefCodec>::gen(r, s))" % c
        if r.random() < .5:
            f.ser = ("expr", "%s.0.clone()")
            f.attr.append('into = "%s"' % c)
        else:
            f.ser = ("expr", "%s.0.clone()")
            f.attr.append('to = "%s"' % ("picky_ref" if picky else "conv_ref"))
        f.dnode = "RefCodec::wire(&%s.0)"
        if picky:
            f.attr.append('try_from = "%s"' % c)
            f.de = ("try", c, "if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(Picky(c)) }")
            f.back = "{ let v = %s; if refuses(&v.0) { return None } v.clone() }"
        else:
            f.attr.append('from = "%s"' % c)
            f.de = ("from", c, "Ok(Conv(c))")
            f.back = "%s.clone()"
        r.shuffle(f.attr)
        return f
    assert kind == "num"
    f = Field(name, "Num")
    f.back = "%s.clone()"
    text = r.random() < .5
    side = r.choice(["both", "both", "ser", "de"])
    if side in ("both", "ser"):
        if text:
            f.attr.append(r.choice(['into = "String"', 'to = "num_text"']))
            f.ser = ("expr", "%s.0.to_string()")
        else:
            f.attr.append('into = "i64"')
            f.ser = ("expr", "(%s.0 as i64 * 3 + 1)")
    if side in ("both", "de"):
        if text:
            f.attr.append('try_from = "String"')
            f.de = ("try", "String", "c.parse::<i32>().map(Num).map_err(|_| Kinds::ANYHOW)")
            f.dnode = "RefCodec::node(&%s.0.to_string())"
        else:
            f.attr.append('from = "i64"')
            f.de = ("from", "i64", "Ok(Num(c.wrapping_sub(1).wrapping_div(3) as i32))")
            f.dnode = "RefCodec::node(&(%s.0 as i64 * 3 + 1))"
    if side != "both":
        f.symconv = False
    r.shuffle(f.attr)
    return f


class Body:
    """Fields of a structure or variant."""

    def __init__(self, r, g, transparent=False, shape=None, wide=False):
        self.shape = shape or r.choice(["named", "named", "tuple", "tuple", "unit", "named0", "tuple0"][:7 if not transparent and not wide else 4])
        self.fields = []
        if self.shape in ("named", "tuple"):
            if transparent:
                act = make_field(r, g, "", r.choice(["plain", "plain", "conv", "num"]))
                n = r.choice([0, 0, 1, 2])
                rest = [make_field(r, g, "", "skip") for _ in range(n)]
                self.fields = rest + [act]
                if r.random() < .15:
                    # one field goes out, another comes in
                    a, b = Field("", "u8"), Field("", "String")
                    a.attr, a.ser = ["skip_serializing"], None
                    b.attr, b.de = ["skip_deserializing"], None
                    self.fields = rest + [a, b]
                r.shuffle(self.fields)
            else:
                n = r.randrange(11, 24) if wide else r.choice([1, 1, 2, 2, 3, 4, 6])
                self.fields = [make_field(r, g, "") for _ in range(n)]
            names = r.sample(NAMES, len(self.fields))
            for i, f in enumerate(self.fields):
                f.name = names[i] if self.shape == "named" else str(i)

    def parameters(self, r):
        """Turns up to three plain fields into fields of the types' parameters; gives the parameters' values."""
        plain = [f for f in self.fields if not f.attr]
        out = []
        for f in r.sample(plain, min(len(plain), r.choice([1, 1, 2, 3]))):
            out.append(f.ty)
            f.ty = "T%d" % (len(out) - 1)
            f.gen = "<%s as RefCodec>::gen(r, s)" % f.ty
        return out

    def decl(self, pub=""):
        fs = []
        for f in self.fields:
            a = "#[bsn1_serde(%s)] " % ", ".join(f.attr) if f.attr else ""
            fs.append(a + pub + ((f.name + ": ") if self.shape == "named" else "") + f.ty)
        if self.shape in ("named", "named0"):
            return " { %s }" % ", ".join(fs)
        if self.shape in ("tuple", "tuple0"):
            return "(%s)" % ", ".join(fs)
        return ""

    def build(self, path, exprs):
        if self.shape in ("named", "named0"):
            return "%s { %s }" % (path, ", ".join("%s: %s" % (f.name, e) for f, e in zip(self.fields, exprs)))
        if self.shape in ("tuple", "tuple0"):
            return "%s(%s)" % (path, ", ".join(exprs))
        return path

    def ord(self):
        return all(f.ord for f in self.fields)

    def sym(self):
        return all(f.sym() for f in self.fields)

    def gen(self, path):
        return "{ let s = s / %d; %s }" % (max(1, len(self.fields)), self.build(path, [f.gen for f in self.fields]))

    def node(self, id, acc):
        parts = []
        for f in self.fields:
            if f.ser == "plain":
                parts.append("RefCodec::node(%s)" % acc(f))
            elif f.ser:
                parts.append("RefCodec::node(&(%s))" % (f.ser[1] % acc(f)))
        if id is None:
            return parts[0]
        return "Node::Cons(%s, vec![%s])" % (id.rust(), ", ".join(parts))

    def wire(self, id, acc):
        parts = [f.dnode % acc(f) for f in self.fields if f.de is not None]
        if id is None:
            return parts[0]
        return "Node::Cons(%s, vec![%s])" % (id.rust(), ", ".join(parts))

    def after(self, path, acc):
        return self.build(path, [f.default if f.de is None else f.back % acc(f) for f in self.fields])

    def dec(self, path):
        out = ["let mut k = e.kids(m);"]
        ex = []
        for i, f in enumerate(self.fields):
            v = "v%d" % i
            if f.de is None:
                ex.append(f.default)
                continue
            if f.de == "plain":
                out.append("let %s: Option<%s> = k.field();" % (v, f.ty))
            else:
                out.append("let %s: Option<%s> = match k.next() { None => None, Some(e) => { let x = <%s as RefCodec>::dec(&e, m)"
                           ".and_then(|c| %s); k.keep(x) } };" % (v, f.ty, f.de[1], f.de[2]))
            ex.append("%s.unwrap()" % v)
        out.append("k.end()?;")
        return " ".join(out) + " Ok(%s)" % self.build(path, ex)

    def dec_transparent(self, path):
        ex = []
        pre = ""
        for f in self.fields:
            if f.de is None:
                ex.append(f.default)
            elif f.de == "plain":
                pre = "let v: %s = RefCodec::dec(e, m)?;" % f.ty
                ex.append("v")
            else:
                pre = "let v: %s = <%s as RefCodec>::dec(e, m).and_then(|c| %s)?;" % (f.ty, f.de[1], f.de[2])
                ex.append("v")
        return "%s Ok(%s)" % (pre, self.build(path, ex))


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.types = []
        self.listed = []
        self.out = []
        self.defaults = {}
        self.n = 0

    def default_fn(self, ty, expr):
        fn = "dflt_%d" % len(self.defaults)
        if self.r.random() < .4:
            host = "Host%d" % len(self.defaults)
            self.out.append("pub struct %s;\nimpl %s { pub fn make() -> %s { %s } }" % (host, host, ty, expr))
            fn = host + "::make"
        else:
            self.out.append("pub fn %s() -> %s { %s }" % (fn, ty, expr))
        self.defaults[fn] = expr
        return fn

    def derives(self, ord):
        d = ["Clone", "Debug", "PartialEq", "bsn1_serde::Serialize", "bsn1_serde::Deserialize"]
        if ord:
            d += ["Eq", "PartialOrd", "Ord", "Hash"]
        self.r.shuffle(d)
        return "#[derive(%s)]" % ", ".join(d)

    def register(self, name, ord):
        self.types.append((name, ord, 0))
        self.listed.append(name)
        r = self.r
        x = r.random()
        if x < .15:
            self.listed.append(r.choice(["Vec<%s>", "LinkedList<%s>", "HashMap<u8, %s>", "BTreeMap<String, %s>"]) % name)
        elif x < .3 and ord:
            self.listed.append(r.choice(["BTreeSet<%s>", "HashSet<%s>", "HashMap<%s, u8>", "BTreeMap<%s, bool>"]) % name)

    def impl(self, name, gen, node, dec, after, wire, args=""):
        bounds = "<%s>" % ", ".join(a + ": RefCodec" for a in args[1:-1].split(", ")) if args else ""
        self.out.append("impl%s RefCodec for %s {\n"
                        "    fn gen(r: &mut Rng, s: usize) -> Self { let _ = (&r, s); %s }\n"
                        "    fn node(&self) -> Node { %s }\n"
                        "    fn dec(e: &El, m: Mode) -> Result<Self, Kinds> { let _ = m; %s }\n"
                        "    fn after(&self) -> Option<Self> { %s }\n"
                        "    fn wire(&self) -> Node { %s }\n"
                        "}" % (bounds, name + args, gen, node, dec, after, wire))

    def heading(self, n):
        """Parameters of a generic type: as declared, where clause, names."""
        if not n:
            return "", "", ""
        bound = "bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize"
        ins, wh = [], []
        for i in range(n):
            if self.r.random() < .5:
                ins.append("T%d: %s" % (i, bound) + self.r.choice(["", " + Sized"]))
            else:
                ins.append("T%d" % i)
                wh.append("T%d: %s" % (i, bound))
        return ("<%s>" % ", ".join(ins), " where " + ", ".join(wh) if wh else "",
                "<%s>" % ", ".join("T%d" % i for i in range(n)))

    def struct(self, wide=False):
        r = self.r
        name = "S%d" % self.n
        transparent = not wide and r.random() < .25
        id = None if transparent else Id(r)
        body = Body(r, self, transparent, wide=wide)
        params = body.parameters(r) if r.random() < .25 else []
        head, where, args = self.heading(len(params))
        attr = ["transparent"] if transparent else id.args
        a = "#[bsn1_serde(%s)]\n" % ", ".join(attr) if attr else ""
        d = self.derives(body.ord())
        if body.shape in ("tuple", "tuple0", "unit"):
            self.out.append(d + "\n" + a + "pub struct %s%s%s%s;" % (name, head, body.decl("pub "), where))
        else:
            self.out.append(d + "\n" + a + "pub struct %s%s%s%s" % (name, head, where, body.decl("pub ")))
        acc = lambda f: "(&self.%s)" % f.name
        after = ("Some(%s)" % body.after(name, acc)) if body.sym() else "None"
        dec = body.dec_transparent(name) if transparent else "e.want(%s)?; %s" % (id.slice(), body.dec(name))
        self.impl(name, body.gen(name), body.node(id, acc), dec, after, body.wire(id, acc), args)
        self.register(name + ("<%s>" % ", ".join(params) if params else ""), body.ord())

    def enum(self, wide=False):
        r = self.r
        name = "E%d" % self.n
        n = r.randrange(11, 30) if wide else r.choice([1, 2, 2, 3, 4, 5])
        vs, seen = [], set()
        names = r.sample(VNAMES, n)
        for v in names:
            for _ in range(40):
                id = Id(r)
                if tuple(id.octets) not in seen:
                    break
            else:
                continue
            seen.add(tuple(id.octets))
            vs.append((v, id, Body(r, self)))
        ord = all(b.ord() for _, _, b in vs)
        params = r.choice(vs)[2].parameters(r) if r.random() < .25 else []
        head, where, args = self.heading(len(params))
        txt = self.derives(ord) + "\npub enum %s%s%s {\n" % (name, head, where)
        for v, id, b in vs:
            a = "    #[bsn1_serde(%s)]\n" % ", ".join(id.args) if id.args else ""
            txt += a + "    %s%s,\n" % (v, b.decl())
        self.out.append(txt + "}")
        gen = "match r.below(%d) { " % len(vs)
        node, after, wire, dec = "match self { ", "match self { ", "match self { ", ""
        for i, (v, id, b) in enumerate(vs):
            p = "%s::%s" % (name, v)
            gen += ("_" if i == len(vs) - 1 else str(i)) + " => %s, " % b.gen(p)
            pat = b.build(p, ["x%d" % j for j in range(len(b.fields))])
            idx = {f: j for j, f in enumerate(b.fields)}
            acc = lambda f: "x%d" % idx[f]
            node += "%s => %s, " % (pat, b.node(id, acc))
            wire += "%s => %s, " % (pat, b.wire(id, acc))
            after += "%s => %s, " % (pat, "Some(%s)" % b.after(p, acc) if b.sym() else "None")
            dec += "if e.id == %s { e.want(%s)?; %s } else " % (id.slice(), id.slice(), "{ " + b.dec(p) + " }")
        dec += "{ Err(Kinds::UNMATCHED) }"
        self.impl(name, gen + "}", node + "}", dec, after + "}", wire + "}", args)
        self.register(name + ("<%s>" % ", ".join(params) if params else ""), ord)

    def converted(self):
        """A structure or enumeration converted as a whole."""
        r = self.r
        name = "K%d" % self.n
        pool = [(c, c != "HashSet<u16>", 0) for c in CONV] + self.types
        c, o, _ = r.choice(pool)
        picky = r.random() < .4
        out_kind = r.choice(["into", "to"])
        attr = []
        if out_kind == "into":
            attr.append('into = "%s"' % c)
        else:
            attr.append('to = "%s"' % r.choice(["out_%d" % self.n, "%s::out" % name]))
        attr.append('%s = "%s"' % ("try_from" if picky else "from", c))
        r.shuffle(attr)
        shape = r.choice(["tuple", "named", "enum"])
        d = self.derives(o)
        a = "#[bsn1_serde(%s)]\n" % ", ".join(attr)
        if shape == "tuple":
            self.out.append(d + "\n" + a + "pub struct %s(pub u8, pub %s);" % (name, c))
            mk, get = "%s(0, c)" % name, "v.1"
            gen = "%s(r.u8(), c)" % name
        elif shape == "named":
            self.out.append(d + "\n" + a + "pub struct %s { #[bsn1_serde(skip)] pub note: bool, pub inner: %s }" % (name, c))
            mk, get = "%s { note: false, inner: c }" % name, "v.inner"
            gen = "%s { note: r.chance(1, 2), inner: c }" % name
        else:
            self.out.append(d + "\n" + a + "pub enum %s { #[bsn1_serde(id = Set)] One(%s), #[allow(unused)] Two }" % (name, c))
            mk = gen = "%s::One(c)" % name
            get = None
        take = "match v { %s::One(c) => c, %s::Two => unreachable!() }" % (name, name) if get is None else get
        self.out.append("impl From<%s> for %s { fn from(v: %s) -> Self { %s } }" % (name, c, name, take))
        self.out.append("pub fn out_%d(v: &%s) -> %s { %s }" % (
            self.n, name, c, take.replace("=> c,", "=> c.clone(),") if get is None else get + ".clone()"))
        self.out.append("impl %s { pub fn out(&self) -> %s { out_%d(self) } }" % (name, c, self.n))
        if picky:
            self.out.append("impl TryFrom<%s> for %s { type Error = Refused; fn try_from(c: %s) -> Result<Self, Refused> "
                            "{ if refuses(&c) { Err(Refused(format!(\"{:?}\", c))) } else { Ok(%s) } } }" % (c, name, c, mk))
        else:
            self.out.append("impl From<%s> for %s { fn from(c: %s) -> Self { %s } }" % (c, name, c, mk))
        sel = "if refuses(&c) { Err(Kinds::ANYHOW) } else { Ok(%s) }" % mk if picky else "Ok(%s)" % mk
        inner = "(&out_%d(self))" % self.n
        after = "let c = RefCodec::after(%s)?; %sSome(%s)" % (inner, "if refuses(&c) { return None } " if picky else "", mk)
        self.impl(name, "let c = <%s as RefCodec>::gen(r, s); %s" % (c, gen), "RefCodec::node(%s)" % inner,
                  "<%s as RefCodec>::dec(e, m).and_then(|c| %s)" % (c, sel), after, "RefCodec::wire(%s)" % inner)
        self.register(name, o)

    def run(self, count):
        for i in range(count):
            x = self.r.random()
            if i % 16 == 5:
                self.struct(wide=True)
            elif i % 16 == 11:
                self.enum(wide=True)
            elif x < .5:
                self.struct()
            elif x < .82:
                self.enum()
            else:
                self.converted()
            self.n += 1


INNER = """#![allow(unused, non_snake_case, clippy::all)]
#![cfg_attr(rustfmt, rustfmt_skip)]
"""
HEAD = """// Generated by tools/gen_derive.py (seed %s). Do not edit.
%suse %s::codec::*;
use %s::model::Kinds;
use %s::rng::Rng;
use bsn1_serde::OctetString;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList};
"""


def module(seed, count, prefix):
    g = Gen(seed)
    g.run(count)
    return (HEAD % (seed, INNER if prefix == "crate" else "", prefix, prefix, prefix) + "\n" + "\n".join(g.out)
            + "\n\npub fn types() -> Types {\n    %s::types![\n        %s,\n    ]\n}\n" % (prefix, ",\n        ".join(g.listed)))


if __name__ == "__main__":
    seed, count, out = sys.argv[1:4]
    with open(out, "w") as f:
        f.write(module(int(seed), int(count), sys.argv[4] if len(sys.argv) > 4 else "crate"))

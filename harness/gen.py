#!/usr/bin/env python3
"""Seeded schema generator and layout reference model.

Emits, for one corpus seed:
  * shardN/src/lib.rs : Rust types using #[derive(Bitfields)] / #[derive(BitfieldEnum)] plus glue
  * model.txt         : for every schema, the documented wire layout as explicit physical bit positions

The layout is computed here, from the documentation's rules only; nothing is read from /repo."""
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

# ----------------------------------------------------------------- types


class Ty:
    def __init__(self, k, w=0, ref=None, n=0, el=None):
        self.k, self.w, self.ref, self.n, self.el = k, w, ref, n, el
        self.path = False  # written with a path

    def rust(self):
        k = self.k
        if self.path and k != "arr":
            self.path = False
            t = self.rust()
            self.path = True
            return ("self::" if self.ref else "core::primitive::") + t
        if k in ("bool", "f32", "f64", "char"):
            return k
        if k in ("u", "i"):
            return f"{k}{self.w}"
        if k == "prim":
            return self.ref.name
        if k == "nest":
            return self.ref.name
        return f"[{self.el.rust()}; {self.n}]"

    def full_bits(self):
        return {"bool": 1, "f32": 32, "f64": 64, "char": 32, "prim": 8}.get(self.k) or (
            self.w if self.k in "ui" else self.ref.bytes * 8 if self.k == "nest" else self.n * self.el.full_bits()
        )

    def size_bytes(self):  # rust-side storage used for endianness defaulting
        if self.k == "bool":
            return 1
        if self.k == "nest":
            return self.ref.bytes
        if self.k == "arr":
            return self.n * self.el.size_bytes()
        return self.full_bits() // 8


def leaf_bits(s, n, endian):
    """logical positions of an n-bit value placed at [s, s+n), most significant bit first"""
    if endian == "be" or n <= 8:
        return list(range(s, s + n))
    out = [None] * n  # out[i] = position of bit n-1-i
    for k in range(n):  # k = bit index from the least significant
        j = k // 8
        w = min(8, n - 8 * j)
        out[n - 1 - k] = s + 8 * j + (w - 1 - (k % 8))
    return out


def bl(bits):
    return ",".join(map(str, bits)) or "-"


class Prim:
    """old style BitfieldEnum over u8"""

    def __init__(self, name, variants, catch, stores):
        self.name, self.variants, self.catch, self.stores = name, variants, catch, stores
        self.named = False  # the storing variant has a named field
        self.compare = False  # comparable to its primitive
        self.docs = False

    def stored(self, x):
        return f" {{ val: {x} }}" if self.named else f"({x})"

    def rust(self, mark_invalid):
        o = ["#[derive(BitfieldEnum, Clone, Debug, PartialEq, Eq)]"]
        if self.stores and any(l is not None for _, l, _ in self.variants):
            o.append("#[repr(u8)]")
        if self.compare:
            o.append("#[bondrewd_enum(u8, partial_eq)]")
        o.append(f"pub enum {self.name} {{")
        for i, (n, lit, _val) in enumerate(self.variants):
            if i == self.catch and mark_invalid:
                o.append("    #[bondrewd_enum(invalid)]")
            if self.docs:
                o.append("    /// One of the values.")
            if i == self.catch and self.stores:
                o.append(f"    {n}{' { val: u8 }' if self.named else '(u8)'},")
            else:
                o.append(f"    {n}{'' if lit is None else ' = %d' % lit},")
        o.append("}")
        to, fr = [], []
        for i, (n, _l, _v) in enumerate(self.variants):
            if i == self.catch and self.stores:
                to.append(f"Self::{n}{self.stored('x')} => Val::P({i}, Some(*x))")
                fr.append(f"Val::P({i}, x) => Self::{n}{self.stored('x.unwrap()')}")
            else:
                to.append(f"Self::{n} => Val::P({i}, None)")
                fr.append(f"Val::P({i}, _) => Self::{n}")
        o.append(
            f"impl V for {self.name} {{ fn tv(&self) -> Val {{ match self {{ {', '.join(to)} }} }} "
            f"fn fv(v: &Val) -> Self {{ match v {{ {', '.join(fr)}, _ => unreachable!() }} }} }}"
        )
        z = [i for i, (_, _, v) in enumerate(self.variants) if v == 0 and i != self.catch]
        z = f"Val::P({z[0]}, None)" if z else f"Val::P({self.catch}, {'Some(0)' if self.stores else 'None'})"
        o.append(f"impl Default for {self.name} {{ fn default() -> Self {{ V::fv(&{z}) }} }}")
        cmp = f"Some(<{self.name} as V>::fv(v) == x)" if self.compare else "None"
        o.append(
            f"pub struct {self.name}Ops; impl PrimOps for {self.name}Ops {{ fn of(&self, x: u8) -> Val {{ {self.name}::from_primitive(x).tv() }} "
            f"fn to(&self, v: &Val) -> u8 {{ <{self.name} as V>::fv(v).into_primitive() }} fn eq(&self, v: &Val, x: u8) -> Option<bool> {{ {cmp} }} }}"
        )
        return "\n".join(o)

    def model(self):
        return f"(P {self.name} {self.catch} {int(self.stores)} " + " ".join(str(v) for _, _, v in self.variants) + ")"


class Field:
    def __init__(self, name, ty, start, end, endian, attrs, arr="elem", w=True, r=True, redundant=False, overlap=0, cap=False):
        self.name, self.ty, self.start, self.end, self.endian, self.attrs = name, ty, start, end, endian, attrs
        self.arr, self.w, self.r, self.redundant, self.overlap, self.cap = arr, w, r, redundant, overlap, cap
        self.doc = self.split = False
        self.vis = "pub "

    def counted(self):
        return 0 if self.redundant else self.end - self.start - self.overlap


def attr_lines(a, split):
    if split:
        return [f"#[bondrewd({x})]" for x in a]
    return [f"#[bondrewd({', '.join(a)})]"] if a else []


def elements(ty, s, n, arr):
    """(first bit, bits) of the elements of an array stored in logical bits [s, s+n)"""
    if arr == "elem":
        e = n // ty.n
        return [(s + i * e, e) for i in range(ty.n)]
    full = ty.el.size_bytes() * 8
    out, left = [], n
    for _ in range(ty.n):
        e = left % full or full
        out.append((s + n - left, e))
        left -= e
    return out


def node(ty, s, n, endian, arr, ph):
    """model text of type ty stored in logical bits [s, s+n)"""
    k = ty.k
    if k == "arr":
        return "(A " + " ".join(node(ty.el, p, e, endian, arr, ph) for p, e in elements(ty, s, n, arr)) + ")"
    if k == "nest":
        m = {i: ph(s + i) for i in range(n)}
        return ty.ref.root(lambda p: m.get(p, -1))
    kind = {"bool": "B", "f32": "F4", "f64": "F8", "char": "C"}.get(k)
    if k in "ui":
        kind = f"{k.upper()}{ty.w}"
    if k == "prim":
        kind = ty.ref.model()
    return f"(L {kind} {bl([ph(b) for b in leaf_bits(s, n, endian)])})"


class Schema:
    """a struct"""

    is_enum = False

    def __init__(self, name):
        self.name = name
        self.fields = []
        self.flip = self.lsb0 = False
        self.default_endian = self.spelled = None
        self.fill = None
        self.extra = []
        self.split = False  # one attribute per line
        self.vis = "pub "

    def finish(self):
        # unused bits between fields count as well
        self.sum_bits = sum(f.counted() for f in self.fields)
        self.used_bits = max(self.sum_bits, max(f.end for f in self.fields))
        self.bits = self.fill * 8 if self.fill else self.used_bits
        self.bytes = (self.bits + 7) // 8

    def logical(self, f):
        if self.lsb0:
            return self.used_bits - f.end, self.used_bits - f.start
        return f.start, f.end

    def phys(self):
        if self.flip:
            t = self.bytes - 1
            return lambda b: (t - b // 8) * 8 + b % 8
        return lambda b: b

    def fnode(self, f, m):
        ph = self.phys()
        s, e = self.logical(f)
        return node(f.ty, s, e - s, f.endian, f.arr, lambda b: m(ph(b)))

    def root(self, m=lambda p: p):
        o = [f"(S {bl([b for b in (m(p) for p in range(self.bytes * 8)) if b >= 0])}"]
        for f in self.fields:
            o.append(f"(F {f.name} {int(f.w)}{int(f.r)} {self.fnode(f, m)})")
        return " ".join(o) + ")"

    def attr_text(self):
        a = []
        if self.default_endian:
            a.append(f'default_endianness = "{self.spelled or self.default_endian}"')
        if self.lsb0:
            a.append('read_from = "lsb0"')
        if self.flip:
            a.append("reverse")
        if self.fill:
            a.append(f"fill_bytes = {self.fill}")
        return a + self.extra

    def rust(self):
        o = ["#[derive(Bitfields, Clone, Debug)]"]
        a = self.attr_text()
        o += attr_lines(a, self.split)
        o.append(f"pub struct {self.name} {{")
        for f in self.fields:
            if f.doc:
                o.append("    /// Some field.")
            o += ["    " + l for l in attr_lines(f.attrs, f.split)]
            o.append(f"    {f.vis}{f.name}: {f.ty.rust()},")
        o.append("}")
        o.append(f"impl Default for {self.name} {{ fn default() -> Self {{ Self::from_bytes([0; {self.bytes}]) }} }}")
        o.append(
            f"impl V for {self.name} {{ fn tv(&self) -> Val {{ Val::S(vec![{', '.join(f'self.{f.name}.tv()' for f in self.fields)}]) }} "
            f"fn fv(v: &Val) -> Self {{ let v = v.s(); Self {{ {', '.join(f'{f.name}: V::fv(&v[{i}])' for i, f in enumerate(self.fields))} }} }} }}"
        )
        return "\n".join(o)

    def tops(self):
        """(fn suffix, has_read, has_write, has_write_slice, has_checked)"""
        return [(f.name, 1, 1, 1, 1) for f in self.fields]

    def model(self):
        return f"(schema {self.name} struct {self.bytes} {self.bits} {self.root()} {self.flags()} {self.nests(enumerate(self.fields))})"

    def nests(self, fields):
        """where the bits of every directly nested structure are: (nest FIELD_INDEX NAME (bits of element) ..)"""
        out = []
        ph = self.phys()
        for i, f in fields:
            arr = f.ty.k == "arr"
            el = f.ty.el if arr else f.ty
            if el.k != "nest":
                continue
            s, e = self.logical(f)
            maps = []
            for p, n in elements(f.ty, s, e - s, f.arr) if arr else [(s, e - s)]:
                maps.append("(" + bl([ph(p + k) if k < n else -1 for k in range(el.ref.bytes * 8)]) + ")")
            out.append(f"(nest {i} {el.ref.name} {int(arr)} {' '.join(maps)})")
        return " ".join(out)

    def flags(self):
        fl = set()
        if self.flip:
            fl.add("reverse")
        if self.lsb0:
            fl.add("lsb0")
        if self.fill:
            fl.add("fill")
        if self.bits % 8:
            fl.add("partial")
        for f in [f for v in self.variants for f in v["fields"]] if self.is_enum else self.fields:
            b = f.ty.el if f.ty.k == "arr" else f.ty
            fl.add({"u": "uint", "i": "int"}.get(b.k, b.k))
            if f.ty.k == "arr":
                fl.add(f.arr + "array")
            if b.k == "nest":
                fl.add("nest")
            if f.overlap:
                fl.add("overlap")
            if f.redundant:
                fl.add("redundant")
            if f.cap:
                fl.add("capture")
            elif not f.r:
                fl.add("reserve")
            elif not f.w and not f.redundant:
                fl.add("readonly")
            if b.k in "ui" and b.w > 8:
                fl.add(f.endian)
        return " ".join(sorted(fl))


class EnumSchema(Schema):
    is_enum = True

    def __init__(self, name):
        super().__init__(name)
        self.variants = []  # dict(name, id, fields, tuple, attrs, lit, cap)
        self.id_bits = 8
        self.invalid = None

    def finish(self):
        big = 0
        for v in self.variants:
            v["bits"] = max([self.id_bits + sum(f.counted() for f in v["fields"] if not f.cap)] + [f.end for f in v["fields"]])
            if v["fill"]:
                v["bits"] = v["fill"] * 8
            big = max(big, v["bits"])
        self.bits = self.used_bits = big
        self.bytes = (self.bits + 7) // 8

    def logical(self, f):
        return f.start, f.end

    def id_type(self):
        for w in (8, 16, 32, 64, 128):
            if self.id_bits <= w:
                return w

    def id_leaf(self, m):
        e = "be" if self.default_endian == "be" else "le"
        ph = self.phys()
        return [m(ph(b)) for b in leaf_bits(0, self.id_bits, e)]

    def ordered(self):
        """variants in generation order: the invalid one moved last"""
        v = list(self.variants)
        if self.invalid is not None:
            v.append(v.pop(self.invalid))
        return v

    def root(self, m=lambda p: p):
        o = [f"(E {bl([b for b in (m(p) for p in range(self.bytes * 8)) if b >= 0])} {bl(self.id_leaf(m))} {self.id_type()}"]
        for v in self.ordered():
            fs = " ".join(f"(F {f.name} {int(f.w)}{int(f.r)} {self.fnode(f, m)})" for f in v["fields"])
            o.append(f"(V {v['name']} {v['id']} {int(v['cap'])} {fs})")
        return " ".join(o) + ")"

    def rust(self):
        o = ["#[derive(Bitfields, Clone, Debug)]"]
        a = self.attr_text() + [self.id_attr]
        o += attr_lines(a, self.split)
        if any(v["lit"] is not None and v["fields"] for v in self.variants) or (
            any(v["lit"] is not None for v in self.variants) and any(x["fields"] for x in self.variants)
        ):
            o.insert(0, f"#[repr(u{self.id_type()})]")
        o.append(f"pub enum {self.name} {{")
        to, fr = [], []
        for v in self.variants:
            if v["doc"]:
                o.append("    /// Some variant.")
            o += ["    " + l for l in attr_lines(v["attrs"], v["split"])]
            lit = "" if v["lit"] is None else f" = {v['lit']}"
            body = ""
            if v["fields"]:
                fl = []
                for f in v["fields"]:
                    at = f"#[bondrewd({', '.join(f.attrs)})] " if f.attrs else ""
                    fl.append(f"{at}{f.ty.rust()}" if v["tuple"] else f"{at}{f.name}: {f.ty.rust()}")
                body = f"({', '.join(fl)})" if v["tuple"] else f" {{ {', '.join(fl)} }}"
            o.append(f"    {v['name']}{body}{lit},")
        o.append("}")
        o.append(f"impl Default for {self.name} {{ fn default() -> Self {{ Self::from_bytes([0; {self.bytes}]) }} }}")
        for i, v in enumerate(self.ordered()):
            n, fs = v["name"], v["fields"]
            xs = [f"x{j}" for j in range(len(fs))]
            if v["tuple"]:
                pat = f"({', '.join(xs)})"
                con = f"({', '.join(f'V::fv(&f[{j}])' for j in range(len(fs)))})"
            elif fs:
                pat = "{ " + ", ".join(f"{f.name}: {x}" for f, x in zip(fs, xs)) + " }"
                con = "{ " + ", ".join(f"{f.name}: V::fv(&f[{j}])" for j, f in enumerate(fs)) + " }"
            else:
                pat = con = ""
            to.append(f"Self::{n}{pat} => Val::E({i}, vec![{', '.join(f'{x}.tv()' for x in xs)}])")
            fr.append(f"Val::E({i}, _f) => {{ let f = _f; let _ = f; Self::{n}{con} }}")
        o.append(
            f"#[allow(unused_variables)] impl V for {self.name} {{ fn tv(&self) -> Val {{ match self {{ {', '.join(to)} }} }} "
            f"fn fv(v: &Val) -> Self {{ match v {{ {', '.join(fr)}, _ => unreachable!() }} }} }}"
        )
        return "\n".join(o)

    def tops(self):
        o = [("variant_id", 1, 1, 0, 0)]
        for v in self.ordered():
            for f in v["fields"]:
                n = "variant_id" if (f.cap and v["tuple"]) else f.name
                o.append((f"{snake(v['name'])}_{n}", 1, int(not f.cap), int(not f.cap), 1))
        return o

    def model(self):
        fs = [(None, None)] + [(v, f) for v in self.ordered() for f in v["fields"]]
        return f"(schema {self.name} enum {self.bytes} {self.bits} {self.root()} {self.flags()} {self.nests([(i, f) for i, (_, f) in enumerate(fs) if f])})"


def snake(s):
    o = ""
    for c in s:
        if c.isupper() and o:
            o += "_"
        o += c.lower()
    return o


# ----------------------------------------------------------------- glue


def glue(s, plain=False):
    """the operations of a definition; with plain the ones that exist without the feature dyn_fns come from
    the same definition compiled without it"""
    n = s.name
    p, B = ("plain::" + n, "bondrewd_plain") if plain else (n, "bondrewd")
    t = s.tops()

    def arms(f):
        return " ".join(f"{i} => {{ {f(*x)} }}" for i, x in enumerate(t) if f(*x)) + " _ => unreachable!(),"

    L = "|e: bondrewd::BitfieldLengthError| len_err(e.0, e.1, e.to_string())"
    o = [f"pub struct {n}Ops;", "#[allow(unused_variables)]", f"impl Ops for {n}Ops {{"]
    o.append(f"fn sizes(&self) -> (usize, usize) {{ (<{p} as {B}::Bitfields<_>>::BYTE_SIZE, <{p} as {B}::Bitfields<_>>::BIT_SIZE) }}")
    o.append(f"fn encode(&self, v: &Val) -> Vec<u8> {{ {B}::Bitfields::into_bytes(<{p} as V>::fv(v)).to_vec() }}")
    o.append(f"fn decode(&self, b: &[u8]) -> Val {{ <{p} as {B}::Bitfields<_>>::from_bytes(b.try_into().unwrap()).tv() }}")
    o.append(f"fn read(&self, f: usize, b: &[u8]) -> Val {{ match f {{ {arms(lambda m, r, w, ws, c: f'{p}::read_{m}(b.try_into().unwrap()).tv()')} }} }}")
    o.append(
        f"fn write(&self, f: usize, b: &mut [u8], v: &Val) {{ match f {{ {arms(lambda m, r, w, ws, c: f'{p}::write_{m}(b.try_into().unwrap(), V::fv(v))' if w else '')} }} }}"
    )
    o.append(f"fn read_slice(&self, f: usize, b: &[u8]) -> R<Val> {{ match f {{ {arms(lambda m, r, w, ws, c: f'{n}::read_slice_{m}(b).map(|x| x.tv()).map_err({L})')} }} }}")
    o.append(
        f"fn write_slice(&self, f: usize, b: &mut [u8], v: &Val) -> R<()> {{ match f {{ {arms(lambda m, r, w, ws, c: f'{n}::write_slice_{m}(b, V::fv(v)).map_err({L})' if ws else '')} }} }}"
    )
    o.append(f"fn check(&self, b: &[u8]) -> R<()> {{ {n}::check_slice(b).map(|_| ()).map_err({L}) }}")
    o.append(f"fn check_mut(&self, b: &mut [u8]) -> R<()> {{ {n}::check_slice_mut(b).map(|_| ()).map_err({L}) }}")
    o.append(
        f"fn checked_read(&self, f: usize, b: &[u8]) -> R<Val> {{ let c = {n}::check_slice(b).map_err({L})?; Ok(match f {{ {arms(lambda m, r, w, ws, c: f'c.read_{m}().tv()' if c else '')} }}) }}"
    )
    o.append(
        f"fn checked_mut_read(&self, f: usize, b: &mut [u8]) -> R<Val> {{ let c = {n}::check_slice_mut(b).map_err({L})?; Ok(match f {{ {arms(lambda m, r, w, ws, c: f'c.read_{m}().tv()' if c else '')} }}) }}"
    )
    o.append(
        f"fn checked_mut_write(&self, f: usize, b: &mut [u8], v: &Val) -> R<()> {{ let mut c = {n}::check_slice_mut(b).map_err({L})?; match f {{ {arms(lambda m, r, w, ws, c: f'c.write_{m}(V::fv(v))' if c and w else '')} }} Ok(()) }}"
    )
    o.append(
        f"fn unchecked_read(&self, f: usize, b: &[u8]) -> Val {{ let c = {n}Checked::from_unchecked_slice(b); match f {{ {arms(lambda m, r, w, ws, c: f'c.read_{m}().tv()' if c else '')} }} }}"
    )
    o.append(
        f"fn unchecked_write(&self, f: usize, b: &mut [u8], v: &Val) {{ let mut c = {n}CheckedMut::from_unchecked_slice(b); match f {{ {arms(lambda m, r, w, ws, c: f'c.write_{m}(V::fv(v))' if c and w else '')} }} }}"
    )
    o.append(f"fn from_slice(&self, b: &[u8]) -> R<Val> {{ <{n} as BitfieldsDyn<_>>::from_slice(b).map(|x| x.tv()).map_err({L}) }}")
    o.append(f"fn from_vec(&self, b: &mut Vec<u8>) -> R<Val> {{ <{n} as BitfieldsDyn<_>>::from_vec(b).map(|x| x.tv()).map_err({L}) }}")
    o.append(f"fn hex(&self, v: &Val, up: bool) -> Vec<u8> {{ let x = <{p} as V>::fv(v); if up {{ {B}::BitfieldHex::into_hex_upper(x).to_vec() }} else {{ {B}::BitfieldHex::into_hex_lower(x).to_vec() }} }}")
    o.append(f"fn from_hex(&self, b: &[u8]) -> Result<Val, HexErr> {{ <{p} as {B}::BitfieldHex<_, _>>::from_hex(b.try_into().unwrap()).map(|x| x.tv()).map_err(|e| hex_err(e.0, e.1, e.to_string())) }}")
    HD = "|e| { let t = e.to_string(); match e { bondrewd::BitfieldHexDynError::Hex(e) => hex_err(e.0, e.1, t), bondrewd::BitfieldHexDynError::Length(e) => { let e = len_err(e.0, e.1, t); HexErr::Len(e.0, e.1) } } }"
    o.append(f"fn from_hex_slice(&self, b: &[u8]) -> Result<Val, HexErr> {{ <{n} as BitfieldHexDyn<_, _>>::from_hex_slice(b).map(|x| x.tv()).map_err({HD}) }}")
    o.append(f"fn from_hex_vec(&self, b: &mut Vec<u8>) -> Result<Val, HexErr> {{ <{n} as BitfieldHexDyn<_, _>>::from_hex_vec(b).map(|x| x.tv()).map_err({HD}) }}")
    if s.is_enum:
        up = [snake(v["name"]).upper() for v in s.ordered()]
        vs = ", ".join(f"({n}::{u}_BYTE_SIZE, {n}::{u}_BIT_SIZE)" for u in up)
        o.append(f"fn variant_sizes(&self) -> Vec<(usize, usize)> {{ vec![{vs}] }}")
        o.append(f"fn id(&self, v: &Val) -> u128 {{ <{p} as V>::fv(v).id() as u128 }}")
        o.append(f"fn id_eq(&self, v: &Val, id: u128) -> bool {{ <{n} as V>::fv(v) == (id as u{s.id_type()}) }}")
    o.append("}")
    return "\n".join(o)


# ----------------------------------------------------------------- random generation

FNAMES = ["alpha", "bravo", "charlie", "delta", "echo", "fox", "golf", "hotel", "india", "juliet", "kilo", "lima", "mike", "nov"]
FNAMES += ["a", "b2", "x_1", "id", "value", "len", "kind", "data", "kilo_bytes", "flags", "crc", "n", "bytes", "size", "index", "mode"]
FNAMES += ["temperature_raw", "seq_no", "_pad", "payload", "version", "checksum16", "lo", "hi", "state", "buf", "bit", "start", "end_", "total"]
FNAMES += ["alpha_bytes", "bravo_0", "charlie_buffer", "out", "self_", "value_0", "x", "x_0"]
VNAMES = ["Alpha", "BetaTwo", "Gamma", "Delta", "EpsilonFive", "Zeta", "Eta", "Theta", "Iota", "Kappa", "LambdaFn", "Mu", "Nu", "Xi"]
MORE = [a + b for a in "VWXYZ" for b in "abcdefghijklmnopqrst"]
VNAMES += ["Omicron", "Pi", "Rho", "Sigma", "Tau", "Upsilon", "PhiPsi", "Chi", "Psi", "Omega"]
SPELL = {"be": ["be", "msb", "big"], "le": ["le", "lsb", "little", "lil"]}


class Gen:
    def __init__(self, seed, tag, opts=None):
        self.r = random.Random(f"{seed}/{tag}")
        self.tag = tag
        self.prims, self.schemas, self.nestable = [], [], []
        self.n = 0
        self.o = opts or {}

    def prim(self):
        r = self.r
        big = r.random() < 0.06
        cnt = r.randint(2, 7) if not big else r.randint(20, 60) if r.random() < 0.7 else r.randint(100, 200)
        names = VNAMES if not big else [f"V{i}" for i in range(cnt)]
        stores = r.random() < 0.35
        catch = cnt - 1 if stores or r.random() < 0.6 else r.randrange(cnt)
        if stores and r.random() < 0.25:
            catch = r.randrange(cnt)
        mark = (catch != cnt - 1 or r.random() < 0.3) and not stores
        vs, used = [], set()
        lits = [None] * cnt
        mixed = stores and r.random() < 0.4
        for i in range(cnt):
            if (r.random() < 0.35 and not stores) or (mixed and i != catch and r.random() < 0.5):
                while True:
                    x = r.randrange(0, 256 if r.random() < 0.3 else cnt + 6)
                    if x not in used:
                        break
                lits[i] = x
                used.add(x)
        g = 0
        # undefined values: lowest unused value, in declaration order
        for i in range(cnt):
            v = lits[i]
            if v is None:
                while g in used:
                    g += 1
                v = g
                used.add(g)
            # a variant which stores the value takes a number but has none of its own
            vs.append((names[i], lits[i], -1 if stores and i == catch else v))
        # rust: duplicate discriminants are refused (implicit = previous + 1), as is more than 255 after a literal
        if not stores:
            cur, seen, clash = -1, set(), False
            for n, l, v in vs:
                cur = l if l is not None else cur + 1
                if cur in seen:
                    clash = True
                seen.add(cur)
            if clash:
                vs = [(n, v, v) for n, l, v in vs]
        elif mixed:
            # the variant that stores counts on from the one before it
            cur, seen, clash = -1, set(), False
            for n, l, v in vs:
                cur = l if l is not None else cur + 1
                clash |= cur in seen or cur > 255
                seen.add(cur)
            if clash:
                gap = {v for _, _, v in vs}
                if catch and (vs[catch - 1][2] + 1 in gap or vs[catch - 1][2] == 255):
                    return self.prim()
                vs = [(n, None if i == catch else v, v) for i, (n, l, v) in enumerate(vs)]
                if not catch and 0 in gap:
                    return self.prim()
        self.n += 1
        p = Prim(f"P{self.tag}x{self.n}", vs, catch, stores)
        p.mark = mark
        p.named = stores and r.random() < 0.4
        p.compare = r.random() < 0.3
        p.docs = r.random() < 0.1
        self.prims.append(p)
        return p

    def scalar_ty(self):
        r = self.r
        x = r.random()
        if x < self.o.get("prim", 0):
            return Ty("prim", ref=self.prim() if not self.prims or r.random() < 0.4 else r.choice(self.prims))
        x = r.random()
        if x < 0.36:
            return Ty("u", r.choice([8, 8, 16, 16, 32, 32, 64, 128]))
        if x < 0.64:
            return Ty("i", r.choice([8, 8, 16, 16, 32, 32, 64, 128]))
        if x < 0.74:
            return Ty("bool")
        if x < 0.79:
            return Ty("f32")
        if x < 0.83:
            return Ty("f64")
        if x < 0.90:
            return Ty("char")
        return Ty("prim", ref=self.prim() if not self.prims or r.random() < 0.3 else r.choice(self.prims))

    def scalar_bits(self, ty):
        r = self.r
        if ty.k in ("bool",):
            return 1
        if ty.k in ("f32", "f64"):
            return ty.full_bits()
        if ty.k == "char":
            return r.choice([32, 32, 21, 27, r.randint(17, 32), r.randint(9, 32), r.randint(1, 8)])
        full = ty.full_bits()
        if ty.k == "prim":
            return r.choice([8, r.randint(2, 8), r.randint(3, 8)])
        x = r.random()
        if x < 0.3:
            return full
        if x < 0.42:
            return min(full, 8 * r.randint(1, max(1, full // 8)))
        low = 2 if ty.k == "i" else 1
        if x < 0.54:
            return max(low, min(full, 8 * r.randint(1, max(1, full // 8)) + r.choice([-1, 1])))
        if x < 0.64:
            return r.randint(low, 8)
        return r.randint(low, full)

    def endian_for(self, ty, s, attrs):
        r = self.r
        base = ty
        while base.k == "arr":
            base = base.el
        if base.k in ("bool", "nest"):
            return "be"
        if base.size_bytes() > 1 or r.random() < 0.08:
            if r.random() < 0.35:
                e = r.choice(["be", "le"])
                attrs.append(f'endianness = "{r.choice(SPELL[e])}"')
                return e
        return "be" if s.default_endian == "be" else "le"

    def count(self, big=False):
        r = self.r
        if r.random() < 0.85 and not big:
            return r.randint(2, 5)
        return r.choice([1, 2, 7, 8, 9, 16, 17] + [33, 64, 100, 257, 300] * big)

    def place(self, s, attrs, pos, n, limit=0.1):
        """the start of a field of n bits after pos, possibly with a range of its own (and a gap before it)"""
        r = self.r
        if s.gaps and r.random() < 0.35:
            pos += r.randint(1, 11)
            attrs.append(f'bits = "{pos}..{pos + n}"')
            return pos
        if r.random() < limit or s.must:
            attrs.append(f'bits = "{pos}..{pos + n}"')
            return pos
        return None

    def field(self, s, name, pos, nested_ok=True, budget=200, big=False):
        """a field placed at logical bit pos"""
        r = self.r
        attrs = []
        x = r.random()
        arr = "elem"
        if nested_ok and self.nestable and x < self.o.get("nest", 0.12):
            ref = r.choice(self.nestable)
            ty = Ty("nest", ref=ref)
            n = ref.bytes * 8
            if r.random() < 0.3:
                n = r.randint(max(1, n - 7) if r.random() < 0.6 or ref.bytes < 3 else 9, n)
            elif ref.bits % 8 and not ref.flip and r.random() < 0.6:
                n = ref.bits
            if r.random() < 0.3 and n * 2 < budget:
                cnt = r.randint(2, max(2, min(6, budget // n)))
                ty = Ty("arr", n=cnt, el=ty)
                trim = n != ref.bytes * 8 or r.random() < 0.5
                at = self.place(s, attrs, pos, n * cnt, 0.05)
                attrs.append(f"struct_size = {ref.bytes}")
                if trim:
                    attrs.append(f"element_bit_length = {n}")
                    arr = "elem"
                else:
                    arr = "block"
                    if at is None and r.random() < 0.4:
                        # the first one is trimmed
                        total = n * cnt - r.randint(1, n - 1 if n == 8 else n - 9)
                        attrs.append(f"block_bit_length = {total}" if total % 8 or r.random() < 0.5 else f"block_byte_length = {total // 8}")
                        return Field(name, ty, pos, pos + total, "be", attrs, arr)
                    if at is not None or r.random() < 0.4:
                        attrs.append(f"block_bit_length = {n * cnt}")
                at = pos if at is None else at
                return Field(name, ty, at, at + n * cnt, "be", attrs, arr)
            at = self.place(s, attrs, pos, n, 0.05)
            if at is not None:
                attrs.insert(0, f"struct_size = {ref.bytes}")
                return Field(name, ty, at, at + n, "be", attrs, arr)
            if ref.is_enum and r.random() < 0.5:
                attrs.append(f"bit_length = {n}")
                if (n + 7) // 8 != ref.bytes:
                    attrs[-1:] = [f"struct_size = {ref.bytes}", f"bit_length = {n}"]
            elif n == ref.bytes * 8 and r.random() < 0.5:
                attrs.append(f"struct_size = {ref.bytes}")
            else:
                attrs.append(f"struct_size = {ref.bytes}")
                attrs.append(f"bit_length = {n}")
            return Field(name, ty, pos, pos + n, "be", attrs, arr)
        if x < self.o.get("nest", 0.12) + 0.18:
            el = self.scalar_ty()
            while el.full_bits() > 32 and r.random() < 0.8:
                el = self.scalar_ty()
            cnt = self.count(big)
            if el.k not in ("bool", "f32", "f64", "char") and r.random() < 0.45:
                arr = "block"
                full = el.size_bytes() * 8
                n = full * cnt
                if r.random() < 0.7:
                    n = full * (cnt - 1) + r.randint(2 if el.k == "i" else 1, full)
                if el.k == "prim" and r.random() < 0.5:
                    n = full * cnt
                ty = Ty("arr", n=cnt, el=el)
                if n > budget:
                    return self.field(s, name, pos, False, budget, big)
                at = self.place(s, attrs, pos, n, 0.05)
                if el.k == "prim":
                    attrs.append('enum_primitive = "u8"')
                if n == full * cnt and el.k == "prim" and at is None and r.random() < 0.5:
                    pass  # inferred
                elif n % 8 == 0 and r.random() < 0.5:
                    attrs.append(f"block_byte_length = {n // 8}")
                else:
                    attrs.append(f"block_bit_length = {n}")
                e = self.endian_for(ty, s, attrs)
                at = pos if at is None else at
                return Field(name, ty, at, at + n, e, attrs, "block")
            b = self.scalar_bits(el)
            if b * cnt > budget:
                return self.field(s, name, pos, False, budget, big)
            ty = Ty("arr", n=cnt, el=el)
            fl = el.k in ("f32", "f64")
            at = self.place(s, attrs, pos, b * cnt, 0.05) if not fl or not s.must else None
            if at is None and s.must:
                return self.field(s, name, pos, False, budget, big)
            if fl and at is not None:
                attrs, at = [], None
            if el.k == "prim":
                attrs.append('enum_primitive = "u8"')
            if b == el.full_bits() and el.k != "prim" and at is None and (fl or r.random() < 0.5):
                pass
            elif b % 8 == 0 and r.random() < 0.4:
                attrs.append(f"element_byte_length = {b // 8}")
            else:
                attrs.append(f"element_bit_length = {b}")
            e = self.endian_for(ty, s, attrs)
            at = pos if at is None else at
            return Field(name, ty, at, at + b * cnt, e, attrs, "elem")
        ty = self.scalar_ty()
        for _ in range(5):
            if ty.full_bits() <= budget:
                break
            ty = self.scalar_ty()
        n = self.scalar_bits(ty)
        if ty.k == "prim":
            attrs.append('enum_primitive = "u8"')
        at = self.place(s, attrs, pos, n)
        if at is not None:
            pos = at
        elif n == ty.full_bits() and r.random() < 0.6:
            pass
        elif n % 8 == 0 and r.random() < 0.3:
            attrs.append(f"byte_length = {n // 8}")
        else:
            attrs.append(f"bit_length = {n}")
        e = self.endian_for(ty, s, attrs)
        return Field(name, ty, pos, pos + n, e, attrs, "elem")

    def view(self, s, name, end, plain=False):
        """a field over already placed bits, not reaching behind end"""
        r = self.r
        x = r.random()
        if x < 0.12 and not plain and self.nestable:
            ref = r.choice(self.nestable)
            n = ref.bits if ref.bits % 8 and not ref.flip and r.random() < 0.5 else ref.bytes * 8
            if n <= end:
                st = r.randint(0, end - n)
                return Field(name, Ty("nest", ref=ref), st, st + n, "be", [f"struct_size = {ref.bytes}", f'bits = "{st}..{st + n}"'])
        if x < 0.3:
            el = r.choice([Ty("bool"), Ty("u", 8), Ty("i", 8), Ty("u", 16), Ty("i", 32)])
            cnt = r.randint(2, 4)
            n = 1 if el.k == "bool" else r.randint(2, el.w)
            if n * cnt <= end:
                st = r.randint(0, end - n * cnt)
                f = Field(name, Ty("arr", n=cnt, el=el), st, st + n * cnt, "be", [f'bits = "{st}..{st + n * cnt}"', f"element_bit_length = {n}"], "elem")
                f.endian = self.endian_for(f.ty, s, f.attrs)
                return f
        for _ in range(20):
            ty = self.scalar_ty()
            n = self.scalar_bits(ty)
            if n > end or (plain and ty.k in ("char", "prim")):
                continue
            st = r.randint(0, end - n)
            f = Field(name, ty, st, st + n, "be", ['enum_primitive = "u8"'] * (ty.k == "prim") + [f'bits = "{st}..{st + n}"'])
            f.endian = self.endian_for(f.ty, s, f.attrs)
            return f
        f = Field(name, Ty("bool"), end - 1, end, "be", [f'bits = "{end - 1}..{end}"'])
        return f

    def marks(self, f, k, defaults=True):
        """reserve or read only"""
        r = self.r
        y = r.random()
        if y < 0.07 * k and defaults and not (f.ty.k == "arr" and f.ty.n > 32):
            f.attrs.append("reserve")
            f.w = f.r = False
        elif y < 0.12 * k:
            f.attrs.append("read_only")
            f.w = False

    def struct(self, maxbits=None, nested_ok=True, plain=False):
        r = self.r
        self.n += 1
        s = Schema(f"S{self.tag}x{self.n}")
        s.default_endian = r.choice(["be", "be", "le", "le", None])
        if s.default_endian:
            s.spelled = r.choice(SPELL[s.default_endian]) if r.random() < 0.3 else None
        s.flip = r.random() < 0.25 and not plain
        s.lsb0 = r.random() < 0.25 and not plain
        big = maxbits is None and not plain and r.random() < 0.05
        maxbits = maxbits or r.choice([16, 32, 48, 64, 96, 160, 256])
        nf = r.randint(2, 9)
        if big:
            maxbits = r.choice([512, 1024, 2048, 2500, 4096])
            nf = r.randint(8, 24) if r.random() < 0.8 else r.randint(40, 80)
        s.gaps = not plain and not s.lsb0 and r.random() < 0.12
        s.must = False
        names = r.sample(FNAMES, 28) + [f"field_{i}" for i in range(60)]
        pos = 0
        k = self.o.get("alias", 1)
        lapsing = not plain and not s.lsb0 and r.random() < 0.1 * k
        for i in range(nf):
            if pos >= maxbits:
                break
            f = self.field(s, names[i], pos, nested_ok, max(8, maxbits - pos + 8), big and r.random() < 0.5)
            pos = f.end
            s.must = False
            if not plain:
                self.marks(f, k)
            s.fields.append(f)
            if lapsing and r.random() < 0.4:
                # a field sharing bits with those before it, possibly reaching behind them
                share = r.randint(1, min(pos, 16))
                more = r.randint(0, 12)
                n = max(2, share + more)
                share = n - more
                if share > pos:
                    continue
                w = next(w for w in (8, 16, 32) if n <= w)
                g = Field(f"lap{i}", Ty(r.choice("ui"), w), pos - share, pos + more, "be", [f"overlapping_bits = {share}", f'bits = "{pos - share}..{pos + more}"'], overlap=share)
                g.endian = self.endian_for(g.ty, s, g.attrs)
                s.fields.append(g)
                pos += more
        if not plain and r.random() < 0.12 and pos % 8:
            n = 8 - pos % 8
            s.fields.append(Field("tail", Ty("u", 8), pos, pos + n, "be", [f"bit_length = {n}"] + (["reserve"] if r.random() < 0.5 else [])))
            if "reserve" in s.fields[-1].attrs:
                s.fields[-1].w = s.fields[-1].r = False
            pos += n
        # redundant views over already placed bits: fields after one are placed after the last one which is not redundant
        if not plain and r.random() < 0.2 * k and pos >= 4:
            for i in range(r.choice([1, 1, 1, 2, 3])):
                f = self.view(s, ["shadow", "mirror", "peep"][i], pos)
                f.attrs.append("redundant")
                if r.random() < 0.5:
                    f.attrs.insert(0, f.attrs.pop())
                f.w, f.redundant = False, True
                s.fields.insert(r.randint(0, len(s.fields)), f)
        # overlapping view with its own write
        elif not plain and not s.gaps and r.random() < 0.12 * k and pos >= 4 and not s.lsb0:
            f = self.view(s, "alias", pos, True)
            f.overlap = f.end - f.start
            f.attrs.insert(0, f"overlapping_bits = {f.overlap}")
            s.fields.append(f)
            if r.random() < 0.5:
                s.must = True
                g = self.field(s, "after", pos, False, 64)
                s.must = False
                s.fields.append(g)
                pos = g.end
        self.only_look(s.fields)
        if not plain and r.random() < 0.15 and not s.lsb0:
            used = (pos + 7) // 8
            s.fill = used + r.randint(0 if pos % 8 else 1, 3)
        s.finish()
        if s.sum_bits == s.used_bits and not plain and r.random() < 0.1:
            s.extra.append(f"enforce_bits = {s.used_bits}")
        elif s.sum_bits == s.used_bits and s.used_bits % 8 == 0 and r.random() < 0.1:
            s.extra.append(r.choice(["enforce_full_bytes", f"enforce_bytes = {s.used_bits // 8}"]))
        if not s.lsb0 and r.random() < 0.08:
            s.extra.append('read_from = "msb0"')
        self.style(s, s.fields)
        self.schemas.append(s)
        return s

    def only_look(self, fields):
        """bits shared with a kind of field for which not all values exist: such views only read"""
        if not all((f.ty.el if f.ty.k == "arr" else f.ty).k in ("u", "i", "bool", "f32", "f64") for f in fields):
            for f in fields:
                if f.overlap and f.w and f.r:
                    f.attrs.append("read_only")
                    f.w = False

    def style(self, s, fields):
        """spellings without meaning"""
        r = self.r
        s.split = r.random() < 0.15
        for f in fields:
            f.split = r.random() < 0.1
            f.doc = r.random() < 0.06
            f.vis = r.choice(["pub ", "pub ", "pub ", "pub(crate) ", ""])
            self.bare(f)
            if not f.cap and r.random() < 0.03:
                (f.ty.el if f.ty.k == "arr" else f.ty).path = True
            if r.random() < 0.4:
                r.shuffle(f.attrs)

    def bare(self, f):
        """an array with a range: what its elements take may be left to the range"""
        lens = [a for a in f.attrs if a.split(" ")[0] in ("element_bit_length", "element_byte_length")]
        if f.ty.k != "arr" or not lens or not any(a.startswith("bits ") for a in f.attrs) or self.r.random() < 0.6:
            return
        el = f.ty.el
        if el.k in ("f32", "f64"):
            return
        if el.k in ("nest", "prim"):
            # without a length such an array is a block array, which is the same for full elements
            if f.end - f.start != f.ty.n * el.size_bytes() * 8:
                return
            f.arr = "block"
        f.attrs.remove(lens[0])

    def explicit(self, f):
        """a range instead of whatever the place of f was given by; false where that is not possible"""
        if f.ty.k == "arr" and f.ty.el.k in ("f32", "f64"):
            return False
        keep = [a for a in f.attrs if a.split(" ")[0] in ("endianness", "enum_primitive", "element_bit_length", "element_byte_length", "block_bit_length", "block_byte_length", "struct_size", "reserve", "read_only")]
        rng = f'bits = "{f.start}..{f.end}"'
        if f.ty.k == "arr":
            # array attributes come after the range in the attribute list
            size = [a for a in keep if a.startswith("struct_size")]
            f.attrs = [rng] + size + [a for a in keep if a not in size]
            if not any("_length" in a for a in keep):
                f.attrs.append(f"element_bit_length = {(f.end - f.start) // f.ty.n}")
                f.arr = "elem"
            self.bare(f)
        else:
            if f.ty.k == "nest" and not any(a.startswith("struct_size") for a in keep) and (f.end - f.start + 7) // 8 != f.ty.ref.bytes:
                keep.insert(0, f"struct_size = {f.ty.ref.bytes}")
            f.attrs = keep + [rng]
        return True

    def shuffled(self):
        """declared out of order: ranges on every field, or on those which do not follow the one before"""
        r = self.r
        nested = r.random() < 0.4
        s = self.struct(plain=True, nested_ok=nested, maxbits=r.choice([24, 40, 64]))
        while any(f.ty.k == "arr" and f.ty.el.k in ("f32", "f64") for f in s.fields):
            self.schemas.pop()
            s = self.struct(plain=True, nested_ok=nested, maxbits=r.choice([24, 40, 64]))
        gap = r.random() < 0.3
        s.lsb0 = not gap and r.random() < 0.2
        follow = r.choice([0, 0, 0.3, 0.6])
        huge = gap and r.random() < 0.15
        off = 0
        groups = []
        for f in s.fields:
            far = gap and r.random() < 0.4
            if far:
                off += r.randint(1, 9)
                if huge:
                    off += r.choice([300, 2048, 2300, 70000]) + r.randint(0, 60)
                    huge = False
            f.start += off
            f.end += off
            if groups and not far and r.random() < follow and not any(a.startswith("bits ") for a in f.attrs):
                groups[-1].append(f)
                continue
            self.explicit(f)
            groups.append([f])
        top = max(f.end for f in s.fields)
        r.shuffle(groups)
        s.fields = [f for g in groups for f in g]
        if r.random() < 0.3:
            f = self.view(s, "shadow", top)
            f.attrs.append("redundant")
            f.w, f.redundant = False, True
            s.fields.insert(r.randint(0, len(s.fields)), f)
        if r.random() < 0.25 and not s.lsb0:
            s.fill = (top + 7) // 8 + r.randint(0 if top % 8 else 1, 2)
        s.flip = r.random() < 0.25
        s.extra = []
        s.finish()
        return s

    def enum(self, small=False):
        r = self.r
        self.n += 1
        s = EnumSchema(f"E{self.tag}x{self.n}")
        s.default_endian = r.choice(["be", "be", "le", None])
        if s.default_endian and r.random() < 0.3:
            s.spelled = r.choice(SPELL[s.default_endian])
        s.flip = r.random() < 0.2 and not small
        cnt = r.randint(2, 6)
        if not small and r.random() < 0.1:
            cnt = r.randint(7, 20) if r.random() < 0.8 else r.randint(30, 70)
        lits = r.random() < 0.4
        ids = [None] * cnt
        used = set()
        s.id_bits = r.choice([r.randint(3, 8), 8, r.randint(9, 16), r.randint(17, 32), 32, r.randint(33, 64), r.randint(65, 128), r.choice([9, 16, 17, 31, 33, 63, 64, 65, 127, 128])] if not small else [3, 4, 8])
        if r.random() < 0.6:
            s.id_bits = r.randint(1, 8)
        while 2**s.id_bits < cnt:
            s.id_bits += 1
        hi = 2**s.id_bits - 1
        unit_only = r.random() < 0.2
        use_disc = r.random() < 0.5 and s.id_bits <= 64
        if use_disc:
            hi = min(hi, 2**63 - 1 if not unit_only else 2**31 - 1)
        for i in range(cnt):
            if lits and r.random() < 0.6:
                while True:
                    v = r.randint(0, hi) if r.random() < 0.4 else r.randint(0, min(hi, cnt)) if r.random() < 0.8 else hi - r.randint(0, min(hi, cnt))
                    if v not in used:
                        break
                used.add(v)
                ids[i] = v
        given = list(ids)
        g = 0
        for i in range(cnt):
            if ids[i] is None:
                while g in used:
                    g += 1
                ids[i] = g
                used.add(g)
        if r.random() < 0.35:
            s.invalid = r.randrange(cnt)
        s.gaps = s.must = False
        for i in range(cnt):
            last = (s.invalid == i) or (s.invalid is None and i == cnt - 1)
            v = dict(name=(VNAMES + MORE)[i], id=ids[i], fields=[], tuple=False, attrs=[], lit=None, cap=False, fill=0, doc=False, split=r.random() < 0.1)
            if not s.split and r.random() < 0.06:
                v["doc"] = True
            if given[i] is not None:
                if use_disc:
                    v["lit"] = ids[i]
                else:
                    v["attrs"].append(f"variant_id = {ids[i]}")
            if s.invalid == i:
                v["attrs"].append("invalid")
            pos = s.id_bits
            if not unit_only and (r.random() < 0.85):
                v["tuple"] = r.random() < 0.3
                j0 = 0
                if r.random() < (0.6 if last else 0.05):
                    f = Field("idf", Ty("u", s.id_type()), 0, s.id_bits, "be" if s.default_endian == "be" else "le", ["capture_id"], cap=True)
                    if r.random() < 0.1:
                        f.attrs.append(f"bit_length = {s.id_bits}")
                    if v["tuple"]:
                        f.name = "variant_id"
                    v["fields"].append(f)
                    v["cap"] = True
                    j0 = 1
                owner = s
                if r.random() < 0.1:
                    owner = Schema("")
                    owner.gaps = owner.must = False
                    owner.default_endian = r.choice(["be", "le"])
                    owner.gaps = not small and r.random() < 0.5
                    v["attrs"].append(f'default_endianness = "{r.choice(SPELL[owner.default_endian])}"')
                names = r.sample(FNAMES, 8)
                for j in range(r.randint(0 if j0 else 1, 3 if small else 4)):
                    nm = f"field_{j + 1}" if v["tuple"] else names[j]
                    f = self.field(owner, nm, pos, not small, 40 if small else 72)
                    pos = f.end
                    if not small:
                        self.marks(f, self.o.get("alias", 1))
                    v["fields"].append(f)
                    back = pos - s.id_bits
                    if not small and not v["tuple"] and back and r.random() < 0.03 * self.o.get("alias", 1):
                        share = r.randint(1, min(back, 16))
                        more = r.randint(max(0, 2 - share), 12)
                        w = next(w for w in (8, 16, 32) if share + more <= w)
                        g = Field(f"lap{j}", Ty(r.choice("ui"), w), pos - share, pos + more, "be", [f"overlapping_bits = {share}", f'bits = "{pos - share}..{pos + more}"'], overlap=share)
                        g.endian = self.endian_for(g.ty, owner, g.attrs)
                        v["fields"].append(g)
                        pos = g.end
                self.only_look(v["fields"])
                if not small and not v["tuple"] and pos - s.id_bits >= 4 and r.random() < 0.08 * self.o.get("alias", 1):
                    f = self.view(owner, "shadow", pos)
                    f.attrs.append("redundant")
                    f.w, f.redundant = False, True
                    v["fields"].append(f)
                elif not small and not v["tuple"] and len(v["fields"]) > 1 + v["cap"] and r.random() < 0.15 and not any(f.overlap for f in v["fields"]):
                    # out of order
                    cap, rest = v["fields"][: v["cap"]], v["fields"][v["cap"] :]
                    if not any(f.ty.k == "arr" and f.ty.el.k in ("f32", "f64") for f in rest):
                        for f in rest:
                            self.explicit(f)
                        r.shuffle(rest)
                        v["fields"] = cap + rest
                if not small and r.random() < 0.06:
                    v["fill"] = (pos + 7) // 8 + r.randint(0 if pos % 8 else 1, 2)
                    v["attrs"].append(f"fill_bytes = {v['fill']}")
            if not v["fields"]:
                v["tuple"] = False
            r.shuffle(v["attrs"])
            s.variants.append(v)
        # explicit discriminants must not clash with rust's implicit numbering
        if use_disc and any(v["lit"] is not None for v in s.variants):
            for v in s.variants:
                v["lit"] = v["id"]
        s.id_attr = f"id_bit_length = {s.id_bits}"
        if s.id_bits % 8 == 0 and r.random() < 0.5:
            s.id_attr = f"id_byte_length = {s.id_bits // 8}"
        s.finish()
        x = r.random()
        pay = s.bits - s.id_bits
        total = f"enforce_bytes = {s.bits // 8}" if s.bits % 8 == 0 and r.random() < 0.5 else f"enforce_bits = {s.bits}"
        payload = f"payload_byte_length = {pay // 8}" if pay % 8 == 0 and r.random() < 0.5 else f"payload_bit_length = {pay}"
        if x < 0.07:
            s.extra.append(payload)
        elif x < 0.14:
            # in each variant the total is not more than this
            s.extra.append(total)
        elif x < 0.21 and pay:
            both = [total, payload]
            r.shuffle(both)
            s.id_attr = ", ".join(both)
        self.style(s, [f for v in s.variants for f in v["fields"]])
        self.schemas.append(s)
        return s


def emit(outdir, shards):
    """shards: list of Gen"""
    model = []
    os.makedirs(outdir, exist_ok=True)
    for i, g in enumerate(shards):
        d = f"{outdir}/shard{i}"
        os.makedirs(d + "/src", exist_ok=True)
        put(
            d + "/Cargo.toml",
            f'[package]\nname = "shard{i}"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n[dependencies]\n'
            f'bondrewd = {{ path = "{HERE}/wrap/bondrewd", features = ["derive", "dyn_fns", "hex_fns"] }}\n'
            f'bondrewd_plain = {{ path = "{HERE}/wrap/bondrewd-plain" }}\nsimcore = {{ path = "{HERE}/simcore" }}\n',
        )
        o = ["#![allow(warnings)]", "#![allow(unconditional_panic, arithmetic_overflow, overflowing_literals)]", "use bondrewd::*;", "use simcore::*;"]
        plain = int(g.tag) % 8 == 5
        for p in g.prims:
            o.append(p.rust(p.mark))
        for s in g.schemas:
            o.append(f"// @schema {s.name}")
            o.append(s.rust())
            o.append(glue(s, plain))
            model.append(s.model())
        if plain:
            o.append("pub mod plain {\nuse bondrewd_plain as bondrewd;\nuse bondrewd_plain::*;\nuse simcore::*;")
            o += [p.rust(p.mark) for p in g.prims]
            for s in g.schemas:
                o.append(f"// @schema {s.name}")
                o.append(s.rust())
            o.append("}")
        o.append("// @end")
        o.append("pub static ALL: &[(&str, &dyn Ops)] = &[" + ", ".join(f'("{s.name}", &{s.name}Ops)' for s in g.schemas) + "];")
        o.append("pub static PRIMS: &[(&str, &dyn PrimOps)] = &[" + ", ".join(f'("{p.name}", &{p.name}Ops)' for p in g.prims) + "];")
        put(d + "/src/lib.rs", "\n".join(o) + "\n")
    put(outdir + "/model.txt", "\n".join(model) + "\n")
    return model


def put(p, t):
    if os.path.exists(p) and open(p).read() == t:
        return
    open(p, "w").write(t)

//! The independent reference codec: schemas as explicit physical bit positions.
use crate::rng::Rng;
use crate::Val;

#[derive(Clone, Debug)]
pub enum Sx {
    A(String),
    L(Vec<Sx>),
}
impl Sx {
    pub fn parse_all(t: &str) -> Vec<Sx> {
        let mut st: Vec<Vec<Sx>> = vec![vec![]];
        let mut w = String::new();
        for c in t.chars().chain(Some(' ')) {
            match c {
                '(' | ')' | ' ' | '\n' | '\t' | '\r' => {
                    if !w.is_empty() {
                        st.last_mut().unwrap().push(Sx::A(std::mem::take(&mut w)));
                    }
                    if c == '(' {
                        st.push(vec![]);
                    } else if c == ')' {
                        let l = st.pop().unwrap();
                        st.last_mut().expect("unbalanced").push(Sx::L(l));
                    }
                }
                c => w.push(c),
            }
        }
        st.pop().unwrap()
    }
    pub fn l(&self) -> &[Sx] {
        match self {
            Sx::L(v) => v,
            Sx::A(a) => panic!("expected list, found {a}"),
        }
    }
    pub fn a(&self) -> &str {
        match self {
            Sx::A(v) => v,
            _ => panic!("expected atom"),
        }
    }
    pub fn n<T: std::str::FromStr>(&self) -> T {
        self.a().parse().ok().unwrap_or_else(|| panic!("bad number {}", self.a()))
    }
    fn bits(&self) -> Vec<i32> {
        match self.a() {
            "-" => vec![],
            s => s.split(',').map(|x| x.parse().unwrap()).collect(),
        }
    }
}

pub fn val_of(x: &Sx) -> Val {
    let l = x.l();
    let rest = |k: usize| l[k..].iter().map(val_of).collect();
    match l[0].a() {
        "b" => Val::B(l[1].a() == "1"),
        "u" => Val::U(l[1].n()),
        "i" => Val::I(l[1].n()),
        "f4" => Val::F4(l[1].n()),
        "f8" => Val::F8(l[1].n()),
        "c" => Val::C(l[1].n()),
        "p" => Val::P(l[1].n(), l.get(2).map(|x| x.n())),
        "a" => Val::A(rest(1)),
        "s" => Val::S(rest(1)),
        "e" => Val::E(l[1].n(), rest(2)),
        o => panic!("bad value {o}"),
    }
}

#[derive(Clone, Debug)]
pub struct Prim {
    pub name: String,
    pub catch: usize,
    pub stores: bool,
    pub vals: Vec<i64>,
}
#[derive(Clone, Debug)]
pub enum Kind {
    U(u32),
    I(u32),
    B,
    F4,
    F8,
    C,
    P(Prim),
}
/// A node of the layout tree. Bit positions are physical (byte * 8 + bit, 0 = most significant), listed from
/// the most significant bit of the value; -1 marks a bit which is not stored.
#[derive(Clone, Debug)]
pub enum Node {
    L(Kind, Vec<i32>),
    A(Vec<Node>),
    S { span: Vec<i32>, fields: Vec<Field>, alias: bool },
    E { span: Vec<i32>, id: Vec<i32>, width: u32, vars: Vec<Var>, alias: bool },
}
#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub w: bool,
    pub r: bool,
    pub node: Node,
}
#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub id: u128,
    pub cap: bool,
    pub fields: Vec<Field>,
}
#[derive(Clone, Debug)]
pub struct Schema {
    pub name: String,
    pub is_enum: bool,
    pub bytes: usize,
    pub bits: usize,
    pub root: Node,
    pub tops: Vec<Top>,
    pub flags: Vec<String>,
    pub nests: Vec<Nest>,
}
/// A field holding another schema, or an array of it: for each element, where every bit of the
/// inner structure is stored (-1: trimmed).
#[derive(Clone, Debug)]
pub struct Nest {
    pub top: usize,
    pub inner: String,
    pub array: bool,
    pub maps: Vec<Vec<i32>>,
}
/// One externally addressable field of a schema.
#[derive(Clone, Debug)]
pub struct Top {
    pub name: String,
    pub node: Node,
    pub w: bool,
    pub r: bool,
    pub writable: bool,
    pub slice_write: bool,
    pub checked: bool,
    /// bits covered, as physical positions
    pub cover: Vec<usize>,
    /// bytes a slice must have for this field
    pub need: usize,
    /// (variant, field) for enums
    pub at: Option<(usize, usize)>,
}

impl Node {
    fn parse(x: &Sx) -> Node {
        let l = x.l();
        match l[0].a() {
            "L" => {
                let k = match &l[1] {
                    Sx::L(p) => Kind::P(Prim {
                        name: p[1].a().into(),
                        catch: p[2].n(),
                        stores: p[3].a() == "1",
                        vals: p[4..].iter().map(|x| x.n()).collect(),
                    }),
                    Sx::A(a) => match a.as_str() {
                        "B" => Kind::B,
                        "F4" => Kind::F4,
                        "F8" => Kind::F8,
                        "C" => Kind::C,
                        a if a.starts_with('U') => Kind::U(a[1..].parse().unwrap()),
                        a => Kind::I(a[1..].parse().unwrap()),
                    },
                };
                Node::L(k, l[2].bits())
            }
            "A" => Node::A(l[1..].iter().map(Node::parse).collect()),
            "S" => {
                let fields: Vec<Field> = l[2..].iter().map(field).collect();
                Node::S { span: l[1].bits(), alias: aliased(&fields), fields }
            }
            "E" => {
                let vars: Vec<Var> = l[4..]
                    .iter()
                    .map(|v| {
                        let v = v.l();
                        Var { name: v[1].a().into(), id: v[2].n(), cap: v[3].a() == "1", fields: v[4..].iter().map(field).collect() }
                    })
                    .collect();
                // a captured id shares its bits with the id, which is written from it
                let alias = vars.iter().any(|v| aliased(&v.fields[v.cap as usize..]));
                Node::E { span: l[1].bits(), id: l[2].bits(), width: l[3].n(), alias, vars }
            }
            o => panic!("bad node {o}"),
        }
    }
    pub fn cover(&self, out: &mut Vec<usize>) {
        let mut add = |v: &[i32]| out.extend(v.iter().filter(|b| **b >= 0).map(|b| *b as usize));
        match self {
            Node::L(_, b) => add(b),
            Node::S { span, .. } | Node::E { span, .. } => add(span),
            Node::A(v) => v.iter().for_each(|n| n.cover(out)),
        }
    }
    pub fn enc(&self, v: &Val, b: &mut [u8]) {
        match (self, v) {
            (Node::L(k, bits), v) => put(bits, raw(k, v), b),
            (Node::A(n), Val::A(v)) => n.iter().zip(v).for_each(|(n, v)| n.enc(v, b)),
            (Node::S { span, fields, .. }, Val::S(v)) => {
                put(span, 0, b);
                for (f, v) in fields.iter().zip(v) {
                    if f.w {
                        f.node.enc(v, b);
                    }
                }
            }
            (Node::E { span, id, vars, .. }, Val::E(i, v)) => {
                put(span, 0, b);
                let var = &vars[*i];
                put(id, var.id, b);
                for (f, v) in var.fields.iter().zip(v) {
                    if f.w {
                        f.node.enc(v, b);
                    }
                }
            }
            _ => panic!("harness: value shape"),
        }
    }
    pub fn dec(&self, b: &[u8]) -> Val {
        match self {
            Node::L(k, bits) => {
                let x = get(bits, b);
                unraw(k, x, bits.len() as u32)
            }
            Node::A(n) => Val::A(n.iter().map(|n| n.dec(b)).collect()),
            Node::S { fields, .. } => Val::S(fields.iter().map(|f| f.dec(b)).collect()),
            Node::E { id, vars, .. } => {
                let x = get(id, b);
                let i = vars.iter().position(|v| v.id == x).unwrap_or(vars.len() - 1);
                Val::E(i, vars[i].fields.iter().map(|f| f.dec(b)).collect())
            }
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Node::L(k, _) => unraw(k, 0, 1),
            Node::A(n) => Val::A(n.iter().map(|n| n.zero()).collect()),
            // `Default` of the corpus' types is what all zero bytes stand for
            _ => {
                let mut c = vec![];
                self.cover(&mut c);
                self.dec(&vec![0; c.iter().max().map_or(0, |m| m / 8 + 1)])
            }
        }
    }
    /// a value of this node's type; `fit` keeps integers within the stored width
    /// With overlapping fields the parts of a value must agree, so such a value is made from its encoding.
    pub fn gen(&self, r: &mut Rng, fit: bool) -> Val {
        let v = self.gen_raw(r, fit);
        match self {
            Node::S { alias: true, .. } | Node::E { alias: true, .. } => self.canon(v),
            _ => v,
        }
    }
    fn canon(&self, mut v: Val) -> Val {
        let mut c = vec![];
        self.cover(&mut c);
        let mut b = vec![0; c.iter().max().map_or(0, |m| m / 8 + 1)];
        for _ in 0..6 {
            b.fill(0);
            self.enc(&v, &mut b);
            let w = self.dec(&b);
            if w == v {
                return v;
            }
            v = w;
        }
        b.fill(0);
        self.dec(&b)
    }
    fn gen_raw(&self, r: &mut Rng, fit: bool) -> Val {
        match self {
            Node::L(k, bits) => {
                let n = bits.len() as u32;
                match k {
                    Kind::B => Val::B(r.pm(500)),
                    Kind::U(w) => {
                        let x = pattern(r, *w, n);
                        Val::U(if fit { x & mask(n) } else { x })
                    }
                    Kind::I(w) => {
                        let x = pattern(r, *w, n);
                        Val::I(sext(x, if fit { n } else { *w }))
                    }
                    Kind::F4 => Val::F4(pattern(r, 32, 32) as u32),
                    Kind::F8 => Val::F8(pattern(r, 64, 64) as u64),
                    Kind::C => loop {
                        let m = if fit { n.min(21) } else { 21 };
                        let x = match r.below(3) {
                            0 => r.next() as u32 & mask(m) as u32,
                            1 => r.below(128) as u32,
                            _ => *r.pick(&[0xe000u32, 0xd7ff, 0x10ffff, 0x10fffe, 0xffff, 0x10000, 0xfffd, 0]),
                        };
                        if char::from_u32(x).is_some() && (!fit || x as u128 & mask(n) == x as u128) {
                            break Val::C(x);
                        }
                    },
                    Kind::P(p) => {
                        let i = r.below(p.vals.len());
                        if i == p.catch && p.stores {
                            Val::P(i, Some(r.next() as u8))
                        } else {
                            Val::P(i, None)
                        }
                    }
                }
            }
            Node::A(n) => Val::A(n.iter().map(|n| n.gen(r, fit)).collect()),
            Node::S { fields, .. } => Val::S(fields.iter().map(|f| f.node.gen(r, fit)).collect()),
            Node::E { vars, .. } => {
                let i = r.below(vars.len());
                Val::E(i, vars[i].fields.iter().map(|f| f.node.gen(r, fit)).collect())
            }
        }
    }
}
impl Field {
    pub fn dec(&self, b: &[u8]) -> Val {
        if self.r {
            self.node.dec(b)
        } else {
            self.node.zero()
        }
    }
}

fn aliased(f: &[Field]) -> bool {
    let mut c = vec![];
    f.iter().filter(|f| f.w && f.r).for_each(|f| f.node.cover(&mut c));
    let n = c.len();
    c.sort();
    c.dedup();
    n != c.len()
}

fn pattern(r: &mut Rng, w: u32, n: u32) -> u128 {
    let x = match r.below(8) {
        0 => 0,
        1 => u128::MAX,
        2 => 1u128 << r.below(n as usize),
        3 => !(1u128 << r.below(n as usize)),
        4 => mask(n),
        5 => 1u128 << (n - 1),
        _ => r.wide(),
    };
    x & mask(w)
}
pub fn mask(n: u32) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1u128 << n) - 1
    }
}
fn sext(x: u128, n: u32) -> i128 {
    if n >= 128 {
        x as i128
    } else {
        ((x << (128 - n)) as i128) >> (128 - n)
    }
}
pub fn put(bits: &[i32], x: u128, b: &mut [u8]) {
    let n = bits.len();
    for (i, p) in bits.iter().enumerate() {
        if *p < 0 {
            continue;
        }
        let sh = n - 1 - i;
        let one = sh < 128 && (x >> sh) & 1 == 1;
        let m = 0x80u8 >> (*p % 8);
        let byte = &mut b[*p as usize / 8];
        if one {
            *byte |= m
        } else {
            *byte &= !m
        }
    }
}
pub fn get(bits: &[i32], b: &[u8]) -> u128 {
    let mut x = 0u128;
    for p in bits {
        x <<= 1;
        if *p >= 0 {
            x |= (b[*p as usize / 8] >> (7 - *p % 8) & 1) as u128;
        }
    }
    x
}
fn raw(k: &Kind, v: &Val) -> u128 {
    match (k, v) {
        (_, Val::U(x)) => *x,
        (_, Val::I(x)) => *x as u128,
        (_, Val::B(x)) => *x as u128,
        (_, Val::F4(x)) => *x as u128,
        (_, Val::F8(x)) => *x as u128,
        (_, Val::C(x)) => *x as u128,
        (Kind::P(p), Val::P(i, s)) => match s {
            Some(x) => *x as u128,
            None => p.vals[*i] as u128,
        },
        _ => panic!("harness: leaf value"),
    }
}
fn unraw(k: &Kind, x: u128, n: u32) -> Val {
    match k {
        Kind::U(_) => Val::U(x),
        Kind::I(_) => Val::I(sext(x, n)),
        Kind::B => Val::B(x != 0),
        Kind::F4 => Val::F4(x as u32),
        Kind::F8 => Val::F8(x as u64),
        Kind::C => Val::C(if char::from_u32(x as u32).is_some() { x as u32 } else { 0xfffd }),
        Kind::P(p) => {
            let hit = p.vals.iter().enumerate().position(|(i, v)| *v == x as i64 && i != p.catch);
            let i = hit.unwrap_or(p.catch);
            Val::P(i, if i == p.catch && p.stores { Some(x as u8) } else { None })
        }
    }
}
fn field(x: &Sx) -> Field {
    let l = x.l();
    let fl = l[2].a().as_bytes();
    Field { name: l[1].a().into(), w: fl[0] == b'1', r: fl[1] == b'1', node: Node::parse(&l[3]) }
}

impl Kind {
    pub fn raw(&self, v: &Val) -> u128 {
        raw(self, v)
    }
    pub fn unraw(&self, x: u128) -> Val {
        unraw(self, x, 8)
    }
}
impl Prim {
    /// the variant declared with a value, if it is not the catch variant
    pub fn stands_for(&self, x: u8) -> Option<usize> {
        self.vals.iter().enumerate().position(|(i, v)| *v == x as i64 && i != self.catch)
    }
}

impl Schema {
    pub fn parse_all(t: &str) -> Vec<Schema> {
        Sx::parse_all(t).iter().map(Schema::parse).collect()
    }
    pub fn parse(x: &Sx) -> Schema {
        let l = x.l();
        let root = Node::parse(&l[5]);
        let mut tops = vec![];
        let mut top = |name: String, node: Node, f: Option<&Field>, at, cap: bool, id: bool| {
            let mut cover = vec![];
            node.cover(&mut cover);
            let need = cover.iter().max().map_or(0, |m| m / 8 + 1);
            tops.push(Top {
                name,
                node,
                w: f.map_or(true, |f| f.w),
                r: f.map_or(true, |f| f.r),
                writable: !cap,
                slice_write: !cap && !id,
                checked: !id,
                cover,
                need,
                at,
            })
        };
        match &root {
            Node::S { fields, .. } => {
                for f in fields {
                    top(f.name.clone(), f.node.clone(), Some(f), None, false, false)
                }
            }
            Node::E { id, width, vars, .. } => {
                top("variant_id".into(), Node::L(Kind::U(*width), id.clone()), None, None, false, true);
                for (vi, v) in vars.iter().enumerate() {
                    for (fi, f) in v.fields.iter().enumerate() {
                        let cap = v.cap && fi == 0;
                        top(format!("{}.{}", v.name, f.name), f.node.clone(), Some(f), Some((vi, fi)), cap, false)
                    }
                }
            }
            _ => panic!("bad root"),
        }
        Schema {
            name: l[1].a().into(),
            is_enum: l[2].a() == "enum",
            bytes: l[3].n(),
            bits: l[4].n(),
            flags: l[6..].iter().filter_map(|x| if let Sx::A(a) = x { Some(a.clone()) } else { None }).collect(),
            nests: l[6..]
                .iter()
                .filter_map(|x| {
                    let Sx::L(n) = x else { return None };
                    Some(Nest {
                        top: n[1].n(),
                        inner: n[2].a().into(),
                        array: n[3].a() == "1",
                        maps: n[4..].iter().map(|m| m.l()[0].bits()).collect(),
                    })
                })
                .collect(),
            root,
            tops,
        }
    }
    pub fn enc(&self, v: &Val) -> Vec<u8> {
        let mut b = vec![0; self.bytes];
        self.root.enc(v, &mut b);
        b
    }
    pub fn dec(&self, b: &[u8]) -> Val {
        self.root.dec(b)
    }
    pub fn gen(&self, r: &mut Rng, fit: bool) -> Val {
        self.root.gen(r, fit)
    }
}

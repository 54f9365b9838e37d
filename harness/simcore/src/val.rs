use std::fmt;

/// A value of any field or schema, independent of the generated Rust types.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    B(bool),
    U(u128),
    I(i128),
    F4(u32),
    F8(u64),
    C(u32),
    /// old style enum: variant index, stored primitive of a catch-all variant
    P(usize, Option<u8>),
    A(Vec<Val>),
    S(Vec<Val>),
    /// enum: variant index in generation order, fields
    E(usize, Vec<Val>),
}

impl Val {
    pub fn s(&self) -> &[Val] {
        match self {
            Val::S(v) | Val::A(v) | Val::E(_, v) => v,
            _ => panic!("harness: not a compound value"),
        }
    }
}

impl Val {
    pub fn kind(&self) -> std::mem::Discriminant<Val> {
        std::mem::discriminant(self)
    }
}

impl fmt::Display for Val {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let list = |f: &mut fmt::Formatter, v: &[Val]| {
            for x in v {
                write!(f, " {x}")?;
            }
            write!(f, ")")
        };
        match self {
            Val::B(b) => write!(f, "(b {})", *b as u8),
            Val::U(x) => write!(f, "(u {x})"),
            Val::I(x) => write!(f, "(i {x})"),
            Val::F4(x) => write!(f, "(f4 {x})"),
            Val::F8(x) => write!(f, "(f8 {x})"),
            Val::C(x) => write!(f, "(c {x})"),
            Val::P(i, None) => write!(f, "(p {i})"),
            Val::P(i, Some(x)) => write!(f, "(p {i} {x})"),
            Val::A(v) => {
                write!(f, "(a")?;
                list(f, v)
            }
            Val::S(v) => {
                write!(f, "(s")?;
                list(f, v)
            }
            Val::E(i, v) => {
                write!(f, "(e {i}")?;
                list(f, v)
            }
        }
    }
}

/// Conversion between generated Rust types and `Val`.
pub trait V {
    fn tv(&self) -> Val;
    fn fv(v: &Val) -> Self;
}
macro_rules! ints {
    ($c:ident: $($t:ty),*) => {$(impl V for $t {
        fn tv(&self) -> Val { Val::$c(*self as _) }
        fn fv(v: &Val) -> Self { match v { Val::$c(x) => *x as $t, _ => panic!("harness: value kind {v}") } }
    })*};
}
ints!(U: u8, u16, u32, u64, u128);
ints!(I: i8, i16, i32, i64, i128);
impl V for bool {
    fn tv(&self) -> Val {
        Val::B(*self)
    }
    fn fv(v: &Val) -> Self {
        matches!(v, Val::B(true))
    }
}
impl V for f32 {
    fn tv(&self) -> Val {
        Val::F4(self.to_bits())
    }
    fn fv(v: &Val) -> Self {
        match v {
            Val::F4(x) => f32::from_bits(*x),
            _ => panic!("harness: value kind {v}"),
        }
    }
}
impl V for f64 {
    fn tv(&self) -> Val {
        Val::F8(self.to_bits())
    }
    fn fv(v: &Val) -> Self {
        match v {
            Val::F8(x) => f64::from_bits(*x),
            _ => panic!("harness: value kind {v}"),
        }
    }
}
impl V for char {
    fn tv(&self) -> Val {
        Val::C(*self as u32)
    }
    fn fv(v: &Val) -> Self {
        match v {
            Val::C(x) => char::from_u32(*x).expect("harness: char"),
            _ => panic!("harness: value kind {v}"),
        }
    }
}
impl<T: V, const N: usize> V for [T; N] {
    fn tv(&self) -> Val {
        Val::A(self.iter().map(|x| x.tv()).collect())
    }
    fn fv(v: &Val) -> Self {
        let v = v.s();
        core::array::from_fn(|i| T::fv(&v[i]))
    }
}

pub type R<T> = Result<T, (usize, usize)>;
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum HexErr {
    Char(u32, usize),
    Len(usize, usize),
}

/// the numbers of a length error, or nonsense if its text does not state them
pub fn len_err(got: usize, want: usize, text: String) -> (usize, usize) {
    if text == format!("Expected {want} bytes, {got} bytes were provided.") {
        (got, want)
    } else {
        (usize::MAX, usize::MAX)
    }
}
pub fn hex_err(c: char, at: usize, text: String) -> HexErr {
    if text == format!("Found Invalid character {c} @ index {at}.") {
        HexErr::Char(c as u32, at)
    } else {
        HexErr::Char(u32::MAX, usize::MAX)
    }
}
/// What the derive generates for an old style enum.
pub trait PrimOps: Sync {
    fn of(&self, x: u8) -> Val;
    fn to(&self, v: &Val) -> u8;
    /// comparison with a primitive, for those which have it
    fn eq(&self, v: &Val, x: u8) -> Option<bool>;
}

/// Everything the derive generates for one type, addressed by field index.
pub trait Ops: Sync {
    fn sizes(&self) -> (usize, usize);
    fn encode(&self, v: &Val) -> Vec<u8>;
    fn decode(&self, b: &[u8]) -> Val;
    fn read(&self, f: usize, b: &[u8]) -> Val;
    fn write(&self, f: usize, b: &mut [u8], v: &Val);
    fn read_slice(&self, f: usize, b: &[u8]) -> R<Val>;
    fn write_slice(&self, f: usize, b: &mut [u8], v: &Val) -> R<()>;
    fn check(&self, b: &[u8]) -> R<()>;
    fn check_mut(&self, b: &mut [u8]) -> R<()>;
    fn checked_read(&self, f: usize, b: &[u8]) -> R<Val>;
    fn checked_mut_read(&self, f: usize, b: &mut [u8]) -> R<Val>;
    fn checked_mut_write(&self, f: usize, b: &mut [u8], v: &Val) -> R<()>;
    fn unchecked_read(&self, f: usize, b: &[u8]) -> Val;
    fn unchecked_write(&self, f: usize, b: &mut [u8], v: &Val);
    fn from_slice(&self, b: &[u8]) -> R<Val>;
    fn from_vec(&self, b: &mut Vec<u8>) -> R<Val>;
    fn hex(&self, v: &Val, up: bool) -> Vec<u8>;
    fn from_hex(&self, b: &[u8]) -> Result<Val, HexErr>;
    fn from_hex_slice(&self, b: &[u8]) -> Result<Val, HexErr>;
    fn from_hex_vec(&self, b: &mut Vec<u8>) -> Result<Val, HexErr>;
    fn variant_sizes(&self) -> Vec<(usize, usize)> {
        vec![]
    }
    fn id(&self, _v: &Val) -> u128 {
        unreachable!("harness: not an enum")
    }
    fn id_eq(&self, _v: &Val, _id: u128) -> bool {
        unreachable!("harness: not an enum")
    }
}

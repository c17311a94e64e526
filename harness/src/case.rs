//! An event: one call of the library (`Case`) and what it returned (`Out`).
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Mode {
    Floor = 0,
    Nearest = 1,
    Ceil = 2,
}
pub const MODES: [Mode; 3] = [Mode::Floor, Mode::Nearest, Mode::Ceil];

macro_rules! ops {
    ($($v:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
        #[repr(u8)]
        pub enum Op { $($v),* }
        pub const OPS: &[Op] = &[$(Op::$v),*];
        impl Op {
            pub fn name(self) -> &'static str { match self { $(Op::$v => stringify!($v)),* } }
            pub fn parse(s: &str) -> Option<Op> { OPS.iter().copied().find(|o| o.name() == s) }
        }
    };
}
ops! {
    // arithmetic
    Rmul, RdivFF, RdivFI, RdivIF, Recip, IntRdiv,
    Cadd, Csub, CmulFI, CmulIF, Cneg, Abs, IntCadd, IntCsub, IntCmul,
    SatAdd, SatSub, SatMulFI, SatMulIF, SatRmul, IntSatAdd, IntSatSub, IntSatMul,
    DefSatAdd, DefSatSub, DefSatMul, DefSatRmul,
    Rsqrt, Integral, Floor, Ceil, Round, HalfSum, NextPow, RoundTz,
    FromDec, ToDec,
    // text and numbers
    Show, Debug, ShowParse, ShowParseExact, ShowPadded, ShowNested, Parse, ParseExact,
    FromF64, FromF64Neg, F64Round, ToF64, ToF64Pair, FromInt,
    // values
    Cmp, Consts, Collect,
    // wrappers made with impl_op! (`subj` is a wrapper set, `c` the combination)
    Wrap,
    // codecs
    JsonSer, JsonDe, JsonPos, XmlRound, XmlDe, RonRound, Schema, ModSer, ModRound, ModDe, ModVal, HrNum,
    BinSer, BinDe, BinPos, CborRound, CborDe,
    ScaleEnc, ScaleDec, ScaleCompEnc, ScaleCompDec, ScaleSeq,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub op: Op,
    pub subj: u16,
    pub mode: Mode,
    pub a: i128,
    pub b: i128,
    pub c: i32,
    pub s: String,
}

impl Case {
    pub fn new(op: Op, subj: u16) -> Case {
        Case { op, subj, mode: Mode::Floor, a: 0, b: 0, c: 0, s: String::new() }
    }
    pub fn m(mut self, m: Mode) -> Case {
        self.mode = m;
        self
    }
    pub fn a(mut self, a: i128) -> Case {
        self.a = a;
        self
    }
    pub fn b(mut self, b: i128) -> Case {
        self.b = b;
        self
    }
    pub fn c(mut self, c: i32) -> Case {
        self.c = c;
        self
    }
    pub fn s(mut self, s: String) -> Case {
        self.s = s;
        self
    }

    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut mix = |x: u64| {
            h ^= x;
            h = h.wrapping_mul(0x9fb21c651e98df25);
            h ^= h >> 29;
        };
        mix(self.op as u64 | (self.mode as u64) << 8 | (self.subj as u64) << 16 | (self.c as u32 as u64) << 32);
        mix(self.a as u64);
        mix((self.a >> 64) as u64);
        mix(self.b as u64);
        mix((self.b >> 64) as u64);
        for c in self.s.as_bytes().chunks(8) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            mix(u64::from_le_bytes(b));
        }
        mix(self.s.len() as u64);
        h
    }

    pub fn line(&self, subj_name: &str) -> String {
        let hex: String = self.s.bytes().map(|b| format!("{b:02x}")).collect();
        format!(
            "{} {} {:?} {} {} {} x{}",
            self.op.name(), subj_name, self.mode, self.a, self.b, self.c, hex
        )
    }

    pub fn from_line(line: &str, find: impl Fn(&str) -> Option<u16>) -> Option<Case> {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.len() != 7 {
            return None;
        }
        let mode = MODES.iter().copied().find(|m| format!("{m:?}") == w[2])?;
        let hex = w[6].strip_prefix('x')?;
        let bytes: Option<Vec<u8>> =
            (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).ok()).collect();
        Some(Case {
            op: Op::parse(w[0])?,
            subj: find(w[1])?,
            mode,
            a: w[3].parse().ok()?,
            b: w[4].parse().ok()?,
            c: w[5].parse().ok()?,
            s: String::from_utf8(bytes?).ok()?,
        })
    }
}

#[derive(Clone, PartialEq)]
pub enum Out {
    Int(i128),
    Pair(i128, i64),
    List(Vec<i128>),
    F64(u64),
    Text(String),
    Bytes(Vec<u8>),
    Overflow,
    DivZero,
    Domain,
    Conv(&'static str),
    /// An error reported by a codec; its text is not part of any property.
    Reject,
    Panic(String),
}

impl Out {
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Overflow | Out::DivZero | Out::Domain | Out::Conv(_) | Out::Reject)
    }

    /// The parts of a result that must agree between builds (panic texts need not).
    pub fn hash(&self) -> u64 {
        let mut h = 0x84222325cbf29ce4u64;
        let mut mix = |x: u64| {
            h ^= x;
            h = h.wrapping_mul(0x9fb21c651e98df25);
            h ^= h >> 31;
        };
        let mut bytes = |t: u64, b: &[u8]| {
            mix(t);
            for c in b {
                mix(*c as u64);
            }
        };
        match self {
            Out::Int(x) => bytes(1, &x.to_le_bytes()),
            Out::Pair(x, y) => {
                bytes(2, &x.to_le_bytes());
                bytes(2, &y.to_le_bytes());
            }
            Out::List(v) => {
                for x in v {
                    bytes(3, &x.to_le_bytes());
                }
            }
            Out::F64(x) => bytes(4, &x.to_le_bytes()),
            Out::Text(s) => bytes(5, s.as_bytes()),
            Out::Bytes(s) => bytes(6, s),
            Out::Overflow => bytes(7, &[]),
            Out::DivZero => bytes(8, &[]),
            Out::Domain => bytes(9, &[]),
            Out::Conv(_) => bytes(10, &[]),
            Out::Reject => bytes(11, &[]),
            Out::Panic(_) => bytes(12, &[]),
        }
        h
    }
}

impl fmt::Debug for Out {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Out::Int(x) => write!(f, "{x}"),
            Out::Pair(x, y) => write!(f, "({x}, {y})"),
            Out::List(v) => write!(f, "{v:?}"),
            Out::F64(x) => write!(f, "{:e}", f64::from_bits(*x)),
            Out::Text(s) => write!(f, "{s:?}"),
            Out::Bytes(s) => write!(f, "{s:02x?}"),
            Out::Overflow => write!(f, "Err(Overflow)"),
            Out::DivZero => write!(f, "Err(DivisionByZero)"),
            Out::Domain => write!(f, "Err(DomainViolation)"),
            Out::Conv(e) => write!(f, "Err({e})"),
            Out::Reject => write!(f, "Err(codec)"),
            Out::Panic(p) => write!(f, "panic: {p}"),
        }
    }
}

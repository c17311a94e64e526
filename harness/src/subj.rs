//! The numeric types under monitoring and the calls into the real code.
//! Every supported precision of every layout is an instance; values cross as raw representations.
use crate::case::*;
#[allow(unused_imports)]
use fixnum::{ops::*, typenum::{consts::*, Unsigned}, ArithmeticError, ConvertError, FixedPoint};
use std::hash::{Hash, Hasher};

pub struct Subj {
    pub name: String,
    pub bits: u32,
    pub prec: u32,
    /// Plain primitive integers (no precision).
    pub int: bool,
    pub core: fn(&Case) -> Out,
    #[cfg(feature = "codec")]
    pub codec: fn(&Case) -> Out,
}

impl Subj {
    pub fn min(&self) -> i128 {
        i128::MIN >> (128 - self.bits)
    }
    pub fn max(&self) -> i128 {
        i128::MAX >> (128 - self.bits)
    }
    pub fn coef(&self) -> i128 {
        10i128.pow(self.prec)
    }
}

/// A writer that displays another number whenever it receives a part of a text, or stops accepting after some bytes.
struct Writer<'a, T> {
    text: String,
    inner: Vec<String>,
    other: Option<&'a T>,
    room: usize,
    unwind: bool,
}

impl<T: std::fmt::Display> std::fmt::Write for Writer<'_, T> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if let Some(y) = self.other {
            self.inner.push(y.to_string());
        }
        if self.text.len() + s.len() > self.room {
            if self.unwind {
                std::panic::panic_any("no room");
            }
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// Displays numbers while others are being displayed, and after attempts that did not come to an end.
fn nested<T: std::fmt::Display + std::fmt::Debug>(x: T, y: T, c: i32) -> Out {
    use std::fmt::Write;
    let mut w = Writer { text: String::new(), inner: vec![], other: None, room: usize::MAX, unwind: false };
    match c & 3 {
        0 | 3 => {
            w.other = Some(&y);
            let done = if c & 3 == 0 { write!(w, "{x:?}") } else { write!(w, "{y} {x}") };
            if done.is_err() {
                return Out::Text("the writer did not fail".into());
            }
            w.inner.dedup();
            Out::Text(format!("{}|{}", w.text, w.inner.join(",")))
        }
        v => {
            w.room = (c >> 2) as usize;
            w.unwind = v == 2;
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| write!(w, "{x}")));
            Out::Text(format!("{y}"))
        }
    }
}

pub trait ToOut {
    fn out(self) -> Out;
}
impl ToOut for ArithmeticError {
    fn out(self) -> Out {
        match self {
            ArithmeticError::Overflow => Out::Overflow,
            ArithmeticError::DivisionByZero => Out::DivZero,
            ArithmeticError::DomainViolation => Out::Domain,
            _ => Out::Reject,
        }
    }
}
impl ToOut for ConvertError {
    fn out(self) -> Out {
        Out::Conv(self.as_str())
    }
}
impl<T: ToOut, E: ToOut> ToOut for Result<T, E> {
    fn out(self) -> Out {
        match self {
            Ok(x) => x.out(),
            Err(e) => e.out(),
        }
    }
}
macro_rules! int_out {
    ($($t:ty),*) => { $(
        impl ToOut for $t { fn out(self) -> Out { Out::Int(self as i128) } }
        impl<P> ToOut for FixedPoint<$t, P> { fn out(self) -> Out { Out::Int(self.into_bits() as i128) } }
    )* };
}
int_out!(i8, i16, i32, i64, i128);

/// A user type that implements only the checked operations, so the provided saturating
/// implementations of the traits are the ones that run.
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct Def<T>(pub T);
impl<T: Zero> Zero for Def<T> {
    const ZERO: Self = Def(T::ZERO);
}
impl<T: Bounded> Bounded for Def<T> {
    const MIN: Self = Def(T::MIN);
    const MAX: Self = Def(T::MAX);
}
impl<T: CheckedAdd<Output = T>> CheckedAdd for Def<T> {
    type Output = Self;
    type Error = T::Error;
    fn cadd(self, r: Self) -> Result<Self, T::Error> {
        self.0.cadd(r.0).map(Def)
    }
}
impl<T: CheckedSub<Output = T>> CheckedSub for Def<T> {
    type Output = Self;
    type Error = T::Error;
    fn csub(self, r: Self) -> Result<Self, T::Error> {
        self.0.csub(r.0).map(Def)
    }
}
impl<T: CheckedMul<R, Output = T>, R> CheckedMul<Def<R>> for Def<T> {
    type Output = Self;
    type Error = T::Error;
    fn cmul(self, r: Def<R>) -> Result<Self, T::Error> {
        self.0.cmul(r.0).map(Def)
    }
}
impl<T: RoundingMul<Output = T>> RoundingMul for Def<T> {
    type Output = Self;
    type Error = T::Error;
    fn rmul(self, r: Self, m: RoundMode) -> Result<Self, T::Error> {
        self.0.rmul(r.0, m).map(Def)
    }
}

pub fn mode(m: Mode) -> RoundMode {
    match m {
        Mode::Floor => RoundMode::Floor,
        Mode::Nearest => RoundMode::Nearest,
        Mode::Ceil => RoundMode::Ceil,
    }
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn pack_cmp<T: Ord + Hash + Copy>(a: T, b: T) -> Out {
    let o = |o: std::cmp::Ordering| o as i8 as i128;
    Out::List(vec![
        (a < b) as i128,
        (a <= b) as i128,
        (a > b) as i128,
        (a >= b) as i128,
        (a == b) as i128,
        (a != b) as i128,
        o(a.cmp(&b)),
        a.partial_cmp(&b).map_or(7, o),
        (hash_of(&a) == hash_of(&b)) as i128,
        (a.max(b) == b) as i128,
        (a.min(b) == b) as i128,
    ])
}

fn s_min(bits: u32) -> i128 {
    i128::MIN >> (128 - bits)
}

/// The steps of a collection history: (kind, value).
pub fn collect_steps(seed: u64, n: usize, min: i128) -> Vec<(u8, i128)> {
    let r = crate::gen::Rng::new(seed);
    let mut near: Vec<i128> = vec![0, min, !min, r.i128().clamp(min, !min)];
    (0..n).map(|_| {
        let v = match r.below(4) {
            0 => r.i128() >> r.below(127),
            1 => near[r.below(near.len() as u64) as usize],
            _ => near[r.below(near.len() as u64) as usize].saturating_add(r.small()),
        }.clamp(min, !min);
        near.push(v);
        (r.below(6) as u8, v)
    }).collect()
}

/// Runs a history of insertions, removals and lookups against real collections keyed by the values.
fn collect<T: Ord + Hash + Copy>(seed: u64, n: usize, min: i128, make: impl Fn(i128) -> T, raw: impl Fn(T) -> i128) -> Out {
    use std::collections::*;
    let (mut tree, mut set, mut heap, mut list) = (BTreeMap::new(), HashSet::new(), BinaryHeap::new(), Vec::new());
    let mut seen: Vec<i128> = Vec::new();
    for (i, (kind, v)) in collect_steps(seed, n, min).into_iter().enumerate() {
        let x = make(v);
        match kind {
            0 | 1 => {
                seen.push(tree.insert(x, i as i128).unwrap_or(-1));
                seen.push(set.insert(x) as i128);
            }
            2 => {
                seen.push(tree.remove(&x).unwrap_or(-1));
                seen.push(set.remove(&x) as i128);
            }
            3 => {
                heap.push(x);
                list.push(x);
            }
            4 => seen.push(heap.pop().map_or(-1, &raw)),
            _ => {
                seen.push(tree.range(x..).next().map_or(-1, |(k, _)| raw(*k)));
                seen.push(tree.range(..x).next_back().map_or(-1, |(k, _)| raw(*k)));
                seen.push(set.contains(&x) as i128);
            }
        }
    }
    list.sort_unstable();
    seen.extend(list.iter().map(|x| raw(*x)));
    list.dedup();
    seen.push(list.len() as i128);
    seen.extend(tree.keys().map(|x| raw(*x)));
    let mut all: Vec<i128> = set.iter().map(|x| raw(*x)).collect();
    all.sort_unstable();
    seen.extend(all);
    seen.extend([list.iter().max().map_or(-1, |x| raw(*x)), list.iter().min().map_or(-1, |x| raw(*x))]);
    Out::List(seen)
}

/// The same history on plain integers, the model.
pub fn collect_model(seed: u64, n: usize, min: i128) -> Out {
    let mut tree: Vec<(i128, i128)> = Vec::new();
    let (mut heap, mut list, mut seen) = (Vec::<i128>::new(), Vec::new(), Vec::new());
    for (i, (kind, v)) in collect_steps(seed, n, min).into_iter().enumerate() {
        let at = tree.iter().position(|e| e.0 == v);
        match kind {
            0 | 1 => match at {
                Some(j) => {
                    seen.extend([tree[j].1, 0]);
                    tree[j].1 = i as i128;
                }
                None => {
                    seen.extend([-1, 1]);
                    tree.push((v, i as i128));
                }
            },
            2 => match at {
                Some(j) => {
                    seen.extend([tree[j].1, 1]);
                    tree.remove(j);
                }
                None => seen.extend([-1, 0]),
            },
            3 => {
                heap.push(v);
                list.push(v);
            }
            4 => {
                let m = heap.iter().copied().max();
                if let Some(m) = m {
                    let j = heap.iter().position(|&x| x == m).unwrap();
                    heap.swap_remove(j);
                }
                seen.push(m.unwrap_or(-1));
            }
            _ => {
                seen.push(tree.iter().map(|e| e.0).filter(|&x| x >= v).min().unwrap_or(-1));
                seen.push(tree.iter().map(|e| e.0).filter(|&x| x < v).max().unwrap_or(-1));
                seen.push(at.is_some() as i128);
            }
        }
    }
    list.sort_unstable();
    seen.extend(&list);
    list.dedup();
    seen.push(list.len() as i128);
    let mut keys: Vec<i128> = tree.iter().map(|e| e.0).collect();
    keys.sort_unstable();
    seen.extend(&keys);
    seen.extend(&keys);
    seen.extend([list.last().copied().unwrap_or(-1), list.first().copied().unwrap_or(-1)]);
    Out::List(seen)
}

#[allow(unused_macros)]
macro_rules! layout {
    ($m:ident, $l:ident) => {
        #[allow(dead_code)]
        pub mod $m {
            use super::*;

            fn arith<P: Unsigned>(k: &Case) -> Out
            where
                FixedPoint<$l, P>: Copy + Ord + Hash + Default,
            {
                type F<P> = FixedPoint<$l, P>;
                let m = mode(k.mode);
                let (a, b) = (k.a as $l, k.b as $l);
                let (x, y) = (F::<P>::from_bits(a), F::<P>::from_bits(b));
                match k.op {
                    Op::Rmul => x.rmul(y, m).out(),
                    Op::RdivFF => x.rdiv(y, m).out(),
                    Op::RdivFI => x.rdiv(b, m).out(),
                    Op::RdivIF => a.rdiv(y, m).out(),
                    Op::Recip => x.recip(m).out(),
                    Op::Cadd => x.cadd(y).out(),
                    Op::Csub => x.csub(y).out(),
                    Op::CmulFI => x.cmul(b).out(),
                    Op::CmulIF => a.cmul(y).out(),
                    Op::Cneg => x.cneg().out(),
                    Op::Abs => x.abs().out(),
                    Op::SatAdd => CheckedAdd::saturating_add(x, y).out(),
                    Op::SatSub => CheckedSub::saturating_sub(x, y).out(),
                    Op::SatMulFI => CheckedMul::saturating_mul(x, b).out(),
                    Op::SatMulIF => CheckedMul::saturating_mul(a, y).out(),
                    Op::SatRmul => x.saturating_rmul(y, m).out(),
                    Op::DefSatAdd => CheckedAdd::saturating_add(Def(x), Def(y)).0.out(),
                    Op::DefSatSub => CheckedSub::saturating_sub(Def(x), Def(y)).0.out(),
                    Op::DefSatMul => CheckedMul::saturating_mul(Def(x), Def(b)).0.out(),
                    Op::DefSatRmul => Def(x).saturating_rmul(Def(y), m).0.out(),
                    Op::Rsqrt => x.rsqrt(m).out(),
                    Op::Integral => x.integral(m).out(),
                    Op::Floor => x.floor().out(),
                    Op::Ceil => x.ceil().out(),
                    Op::Round => x.round().out(),
                    Op::HalfSum => F::<P>::half_sum(x, y, m).out(),
                    Op::NextPow => x.next_power_of_ten().out(),
                    Op::RoundTz => x.round_towards_zero_by(y).out(),
                    Op::FromDec => F::<P>::from_decimal(a, k.c).out(),
                    Op::ToDec => {
                        let (m, e) = x.to_decimal(k.c);
                        Out::Pair(m as i128, e as i64)
                    }
                    _ => text::<P>(k),
                }
            }

            #[inline(never)]
            fn text<P: Unsigned>(k: &Case) -> Out
            where
                FixedPoint<$l, P>: Copy + Ord + Hash + Default,
            {
                type F<P> = FixedPoint<$l, P>;
                let x = F::<P>::from_bits(k.a as $l);
                match k.op {
                    Op::Show => Out::Text(format!("{x}")),
                    Op::Debug => Out::Text(format!("{x:?}")),
                    Op::ShowNested => {
                        let y = F::<P>::from_bits(k.b as $l);
                        nested(x, y, k.c)
                    }
                    Op::ShowPadded => Out::Text(match k.c % 4 {
                        0 => format!("[{x:>50}]"),
                        1 => format!("[{x:+}]"),
                        2 => format!("[{x:#?}]"),
                        _ => format!("[{x:.3}]"),
                    }),
                    Op::ShowParse => format!("{x}").parse::<F<P>>().out(),
                    Op::ShowParseExact => F::<P>::from_str_exact(&format!("{x}")).out(),
                    Op::Parse => k.s.parse::<F<P>>().out(),
                    Op::ParseExact => F::<P>::from_str_exact(&k.s).out(),
                    Op::FromF64 => F::<P>::try_from(f64::from_bits(k.a as u64)).out(),
                    Op::FromF64Neg => {
                        let x = f64::from_bits(k.a as u64);
                        let mut v = Vec::with_capacity(4);
                        for x in [x, -x] {
                            match F::<P>::try_from(x) {
                                Ok(r) => v.extend([1, r.into_bits() as i128]),
                                Err(_) => v.extend([0, 0]),
                            }
                        }
                        Out::List(v)
                    }
                    Op::F64Round => F::<P>::try_from(f64::from(x)).out(),
                    Op::ToF64 => Out::F64(f64::from(x).to_bits()),
                    Op::ToF64Pair => {
                        let y = F::<P>::from_bits(k.b as $l);
                        Out::List(vec![
                            f64::from(x).to_bits() as i128,
                            f64::from(y).to_bits() as i128,
                        ])
                    }
                    Op::FromInt => match k.c {
                        0 => F::<P>::try_from(k.a as i8).out(),
                        1 => F::<P>::try_from(k.a as u8).out(),
                        2 => F::<P>::try_from(k.a as i16).out(),
                        3 => F::<P>::try_from(k.a as u16).out(),
                        4 => F::<P>::try_from(k.a as i32).out(),
                        5 => F::<P>::try_from(k.a as u32).out(),
                        6 => F::<P>::try_from(k.a as i64).out(),
                        7 => F::<P>::try_from(k.a as u64).out(),
                        8 => F::<P>::try_from(k.a as i128).out(),
                        9 => F::<P>::try_from(k.a as u128).out(),
                        10 => F::<P>::try_from(k.a as isize).out(),
                        _ => F::<P>::try_from(k.a as usize).out(),
                    },
                    Op::Cmp => {
                        let y = F::<P>::from_bits(k.b as $l);
                        pack_cmp(x, y)
                    }
                    Op::Consts => {
                        #[allow(clippy::clone_on_copy)]
                        let z = x.clone();
                        Out::List(vec![
                            F::<P>::ZERO.into_bits() as i128,
                            F::<P>::ONE.into_bits() as i128,
                            <F<P> as Bounded>::MIN.into_bits() as i128,
                            <F<P> as Bounded>::MAX.into_bits() as i128,
                            F::<P>::EPSILON.into_bits() as i128,
                            F::<P>::PRECISION as i128,
                            F::<P>::default().into_bits() as i128,
                            x.signum() as i128,
                            x.into_bits() as i128,
                            *z.as_bits() as i128,
                            std::mem::size_of::<F<P>>() as i128,
                        ])
                    }
                    Op::Collect => collect(k.a as u64, k.c as usize, s_min(<$l>::BITS), |v| F::<P>::from_bits(v as $l), |x| x.into_bits() as i128),
                    op => panic!("monitor: {} is not a core operation", op.name()),
                }
            }

            pub fn subj<P: Unsigned>() -> Subj
            where
                FixedPoint<$l, P>: Copy + Ord + Hash + Default,
            {
                Subj {
                    name: format!("{}/{}", stringify!($l), P::U32),
                    bits: <$l>::BITS,
                    prec: P::U32,
                    int: false,
                    core: arith::<P>,
                    #[cfg(feature = "codec")]
                    codec: crate::codec::$m::exec::<P>,
                }
            }
        }
    };
}

#[cfg(feature = "i16")]
layout!(l16, i16);
#[cfg(feature = "i32")]
layout!(l32, i32);
#[cfg(feature = "i64")]
layout!(l64, i64);
#[cfg(feature = "i128")]
layout!(l128, i128);

macro_rules! int_subj {
    ($f:ident, $l:ident) => {
        fn $f(k: &Case) -> Out {
            let (a, b) = (k.a as $l, k.b as $l);
            match k.op {
                Op::IntRdiv => a.rdiv(b, mode(k.mode)).out(),
                Op::IntCadd => a.cadd(b).out(),
                Op::IntCsub => a.csub(b).out(),
                Op::IntCmul => a.cmul(b).out(),
                Op::IntSatAdd => CheckedAdd::saturating_add(a, b).out(),
                Op::IntSatSub => CheckedSub::saturating_sub(a, b).out(),
                Op::IntSatMul => CheckedMul::saturating_mul(a, b).out(),
                Op::DefSatAdd => CheckedAdd::saturating_add(Def(a), Def(b)).0.out(),
                Op::DefSatSub => CheckedSub::saturating_sub(Def(a), Def(b)).0.out(),
                Op::DefSatMul => CheckedMul::saturating_mul(Def(a), Def(b)).0.out(),
                Op::Consts => Out::List(vec![
                    <$l as Zero>::ZERO as i128,
                    <$l as One>::ONE as i128,
                    <$l as Bounded>::MIN as i128,
                    <$l as Bounded>::MAX as i128,
                ]),
                op => panic!("monitor: {} is not an integer operation", op.name()),
            }
        }
    };
}
int_subj!(int8, i8);
int_subj!(int16, i16);
int_subj!(int32, i32);
int_subj!(int64, i64);
int_subj!(int128, i128);

#[cfg(feature = "codec")]
fn no_codec(_: &Case) -> Out {
    panic!("monitor: integers have no codec")
}

/// Only some precisions are instantiated when the build wants to be small (`--cfg fewprec`).
pub fn subjects() -> Vec<Subj> {
    let mut v: Vec<Subj> = Vec::new();
    let ints: [(&str, u32, fn(&Case) -> Out); 5] =
        [("i8", 8, int8), ("i16", 16, int16), ("i32", 32, int32), ("i64", 64, int64), ("i128", 128, int128)];
    for (n, bits, core) in ints {
        v.push(Subj {
            name: format!("int:{n}"),
            bits,
            prec: 0,
            int: true,
            core,
            #[cfg(feature = "codec")]
            codec: no_codec,
        });
    }
    #[allow(unused_macros)]
    macro_rules! push {
        ($m:ident: $($p:ident)*) => { $( v.push($m::subj::<$p>()); )* };
    }
    #[cfg(all(feature = "i16", not(fewprec)))]
    push!(l16: U0 U1 U2 U3 U4);
    #[cfg(all(feature = "i32", not(fewprec)))]
    push!(l32: U0 U1 U2 U3 U4 U5 U6 U7 U8 U9);
    #[cfg(all(feature = "i64", not(fewprec)))]
    push!(l64: U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18);
    #[cfg(all(feature = "i128", not(fewprec)))]
    push!(l128: U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19
          U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32 U33 U34 U35 U36 U37 U38);
    #[cfg(all(feature = "i16", fewprec))]
    push!(l16: U0 U2 U4);
    #[cfg(all(feature = "i32", fewprec))]
    push!(l32: U0 U4 U9);
    #[cfg(all(feature = "i64", fewprec))]
    push!(l64: U0 U1 U9 U18);
    #[cfg(all(feature = "i128", fewprec))]
    push!(l128: U0 U9 U18 U19 U38);
    v
}

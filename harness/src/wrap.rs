//! Wrapper types as a user declares them with `impl_op!`, in every operator combination.
//! Each generated operation is judged by the exact result on the wrapped numbers.
use crate::case::*;
use crate::gen::{self, Rng};
use crate::judge::{self, Verdict};
use crate::subj::{mode, Subj, ToOut};
use fixnum::{impl_op, ops::*, typenum::consts::*, FixedPoint};
use std::sync::OnceLock;

pub struct Combo {
    pub name: String,
    run: fn(Mode, i128, i128) -> Out,
    /// The operation on inner numbers it must agree with.
    like: Op,
    /// Integer dividends are converted to the fixed-point result type first.
    scale_lhs: bool,
    layout: Subj,
    lbits: u32,
    rbits: u32,
}

fn no_core(_: &Case) -> Out {
    panic!("monitor: a wrapper layout has no calls of its own")
}

fn layout(bits: u32, prec: u32, int: bool) -> Subj {
    Subj {
        name: format!("i{bits}/{prec}"),
        bits,
        prec,
        int,
        core: no_core,
        #[cfg(feature = "codec")]
        codec: no_core,
    }
}

macro_rules! wrapper {
    ($($name:ident($inner:ty)),* $(,)?) => { $(
        #[derive(Clone, Copy, PartialEq, PartialOrd)]
        pub struct $name(pub $inner);
        impl From<$inner> for $name {
            fn from(x: $inner) -> Self {
                $name(x)
            }
        }
        impl Zero for $name {
            const ZERO: Self = $name(<$inner as Zero>::ZERO);
        }
        impl Bounded for $name {
            const MIN: Self = $name(<$inner as Bounded>::MIN);
            const MAX: Self = $name(<$inner as Bounded>::MAX);
        }
    )* };
}

/// One family: prices, ratios, amounts and sizes over one layout and precision.
macro_rules! family {
    ($m:ident, $l:ident, $p:ident, $prec:literal, [$($n:ident $m2:ident $i:ident),*]) => {
        mod $m {
            use super::*;
            type Fp = FixedPoint<$l, $p>;
            const BITS: u32 = <$l>::BITS;
            wrapper!(Price(Fp), Ratio(Fp), Amount(Fp), Delta(Fp), Total($l), $($n($i), $m2($i)),*);
            impl_op!(Price [cadd] Delta = Price);
            impl_op!(Price [csub] Price = Delta);
            impl_op!(Amount [cadd] Amount = Amount);
            impl_op!(Amount [csub] Amount = Amount);
            impl_op!(Price [rmul] Ratio = Amount);
            impl_op!(Price [rdiv] Price = Ratio);
            impl_op!(Amount [rdiv] Ratio = Price);
            $(
                impl_op!(Price [cmul] $n = Amount);
                impl_op!($n [cmul] Price = Amount);
                impl_op!(Amount [rdiv] $n = Price);
                impl_op!($n [rdiv] Price = Ratio);
                impl_op!($m2 [rdiv] $m2 = Total);
            )*
            ints!($($n $i),*);

            fn price(x: i128) -> Price { Price(Fp::from_bits(x as $l)) }
            fn ratio(x: i128) -> Ratio { Ratio(Fp::from_bits(x as $l)) }
            fn amount(x: i128) -> Amount { Amount(Fp::from_bits(x as $l)) }
            fn delta(x: i128) -> Delta { Delta(Fp::from_bits(x as $l)) }

            pub fn combos(v: &mut Vec<Combo>) {
                let fp = |v: &mut Vec<Combo>, name: &str, like: Op, run: fn(Mode, i128, i128) -> Out| v.push(Combo {
                    name: format!("{}/{} {name}", stringify!($l), $prec), run, like, scale_lhs: false,
                    layout: layout(BITS, $prec, false), lbits: BITS, rbits: BITS,
                });
                fp(v, "Price cadd Delta", Op::Cadd, |_, a, b| price(a).cadd(delta(b)).map(|x| x.0).out());
                fp(v, "Price saturating_add Delta", Op::SatAdd, |_, a, b| price(a).saturating_add(delta(b)).0.out());
                fp(v, "Price csub Price", Op::Csub, |_, a, b| price(a).csub(price(b)).map(|x| x.0).out());
                fp(v, "Price saturating_sub Price", Op::SatSub, |_, a, b| price(a).saturating_sub(price(b)).0.out());
                fp(v, "Amount cadd Amount", Op::Cadd, |_, a, b| amount(a).cadd(amount(b)).map(|x| x.0).out());
                fp(v, "Amount saturating_add Amount", Op::SatAdd, |_, a, b| amount(a).saturating_add(amount(b)).0.out());
                fp(v, "Amount csub Amount", Op::Csub, |_, a, b| amount(a).csub(amount(b)).map(|x| x.0).out());
                fp(v, "Amount saturating_sub Amount", Op::SatSub, |_, a, b| amount(a).saturating_sub(amount(b)).0.out());
                fp(v, "Price rmul Ratio", Op::Rmul, |m, a, b| price(a).rmul(ratio(b), mode(m)).map(|x| x.0).out());
                fp(v, "Price saturating_rmul Ratio", Op::SatRmul, |m, a, b| price(a).saturating_rmul(ratio(b), mode(m)).0.out());
                fp(v, "Price rdiv Price", Op::RdivFF, |m, a, b| price(a).rdiv(price(b), mode(m)).map(|x| x.0).out());
                fp(v, "Amount rdiv Ratio", Op::RdivFF, |m, a, b| amount(a).rdiv(ratio(b), mode(m)).map(|x| x.0).out());
                $({
                    let n = <$i>::BITS;
                    let fp = |v: &mut Vec<Combo>, name: &str, like: Op, lb: u32, rb: u32, run: fn(Mode, i128, i128) -> Out| v.push(Combo {
                        name: format!("{}/{} {}", stringify!($l), $prec, name.replace('N', concat!("N:", stringify!($i)))), run, like, scale_lhs: false,
                        layout: layout(BITS, $prec, false), lbits: lb, rbits: rb,
                    });
                    fp(v, "Price cmul N", Op::CmulFI, BITS, n, |_, a, b| price(a).cmul($n(b as $i)).map(|x| x.0).out());
                    fp(v, "Price saturating_mul N", Op::SatMulFI, BITS, n, |_, a, b| price(a).saturating_mul($n(b as $i)).0.out());
                    fp(v, "N cmul Price", Op::CmulIF, n, BITS, |_, a, b| $n(a as $i).cmul(price(b)).map(|x| x.0).out());
                    fp(v, "N saturating_mul Price", Op::SatMulIF, n, BITS, |_, a, b| $n(a as $i).saturating_mul(price(b)).0.out());
                    fp(v, "Amount rdiv N", Op::RdivFI, BITS, n, |m, a, b| amount(a).rdiv($n(b as $i), mode(m)).map(|x| x.0).out());
                    fp(v, "N rdiv Price", Op::RdivIF, n, BITS, |m, a, b| $n(a as $i).rdiv(price(b), mode(m)).map(|x| x.0).out());
                    v.push(Combo {
                        name: format!("{}/{} M:{} rdiv M", stringify!($l), $prec, stringify!($i)),
                        run: |m, a, b| $m2(a as $i).rdiv($m2(b as $i), mode(m)).map(|x| x.0).out(),
                        like: Op::IntRdiv, scale_lhs: false, layout: layout(BITS, 0, true), lbits: n, rbits: n,
                    });
                })*
                int_combos(v, stringify!($l), $prec);
            }
        }
    };
}

/// All pairs of integer wrappers.
macro_rules! ints {
    ($($n:ident $i:ident),*) => { ints!(@outer [$($n $i),*] $($n $i),*); };
    (@outer $all:tt $($n:ident $i:ident),*) => {
        $( ints!(@inner $n $i $all); )*
        fn int_combos(v: &mut Vec<Combo>, l: &str, prec: u32) {
            $( ints!(@push v l prec $n $i $all); )*
        }
    };
    (@inner $n:ident $i:ident [$($r:ident $j:ident),*]) => { $(
        impl_op!($n [cadd] $r = Total);
        impl_op!($n [csub] $r = Total);
        impl_op!($n [cmul] $r = Total);
        impl_op!($n [rdiv] $r = Ratio);
    )* };
    (@push $v:ident $l:ident $prec:ident $n:ident $i:ident [$($r:ident $j:ident),*]) => { $({
        let (lb, rb) = (<$i>::BITS, <$j>::BITS);
        let mut int = |name: &str, like: Op, run: fn(Mode, i128, i128) -> Out| $v.push(Combo {
            name: format!("{}/{} N:{} {name} N:{}", $l, $prec, stringify!($i), stringify!($j)),
            run, like, scale_lhs: false, layout: layout(BITS, 0, true), lbits: lb, rbits: rb,
        });
        int("cadd", Op::IntCadd, |_, a, b| $n(a as $i).cadd($r(b as $j)).map(|x| x.0).out());
        int("saturating_add", Op::IntSatAdd, |_, a, b| CheckedAdd::saturating_add($n(a as $i), $r(b as $j)).0.out());
        int("csub", Op::IntCsub, |_, a, b| $n(a as $i).csub($r(b as $j)).map(|x| x.0).out());
        int("saturating_sub", Op::IntSatSub, |_, a, b| CheckedSub::saturating_sub($n(a as $i), $r(b as $j)).0.out());
        int("cmul", Op::IntCmul, |_, a, b| $n(a as $i).cmul($r(b as $j)).map(|x| x.0).out());
        int("saturating_mul", Op::IntSatMul, |_, a, b| CheckedMul::saturating_mul($n(a as $i), $r(b as $j)).0.out());
        $v.push(Combo {
            name: format!("{}/{} N:{} rdiv N:{} = Ratio", $l, $prec, stringify!($i), stringify!($j)),
            run: |m, a, b| $n(a as $i).rdiv($r(b as $j), mode(m)).map(|x| x.0).out(),
            like: Op::RdivFI, scale_lhs: true, layout: layout(BITS, $prec, false), lbits: lb, rbits: rb,
        });
    })* };
}

#[cfg(feature = "i16")]
family!(f16_2, i16, U2, 2, [N8 M8 i8, N16 M16 i16]);
#[cfg(feature = "i32")]
family!(f32_0, i32, U0, 0, [N8 M8 i8, N16 M16 i16, N32 M32 i32]);
#[cfg(feature = "i32")]
family!(f32_4, i32, U4, 4, [N8 M8 i8, N16 M16 i16, N32 M32 i32]);
#[cfg(feature = "i64")]
family!(f64_0, i64, U0, 0, [N8 M8 i8, N16 M16 i16, N32 M32 i32, N64 M64 i64]);
#[cfg(feature = "i64")]
family!(f64_9, i64, U9, 9, [N8 M8 i8, N16 M16 i16, N32 M32 i32, N64 M64 i64]);
#[cfg(feature = "i64")]
family!(f64_18, i64, U18, 18, [N8 M8 i8, N16 M16 i16, N32 M32 i32, N64 M64 i64]);
#[cfg(feature = "i128")]
family!(f128_18, i128, U18, 18, [N8 M8 i8, N16 M16 i16, N32 M32 i32, N64 M64 i64, N128 M128 i128]);
#[cfg(feature = "i128")]
family!(f128_38, i128, U38, 38, [N8 M8 i8, N16 M16 i16, N32 M32 i32, N64 M64 i64, N128 M128 i128]);

pub fn combos() -> &'static [Combo] {
    static ALL: OnceLock<Vec<Combo>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = Vec::new();
        #[cfg(feature = "i16")]
        f16_2::combos(&mut v);
        #[cfg(feature = "i32")]
        f32_0::combos(&mut v);
        #[cfg(feature = "i32")]
        f32_4::combos(&mut v);
        #[cfg(feature = "i64")]
        f64_0::combos(&mut v);
        #[cfg(feature = "i64")]
        f64_9::combos(&mut v);
        #[cfg(feature = "i64")]
        f64_18::combos(&mut v);
        #[cfg(feature = "i128")]
        f128_18::combos(&mut v);
        #[cfg(feature = "i128")]
        f128_38::combos(&mut v);
        v
    })
}

pub fn exec(k: &Case) -> Out {
    (combos()[k.c as usize].run)(k.mode, k.a, k.b)
}

pub fn judge(k: &Case, out: &Out) -> Verdict {
    let c = &combos()[k.c as usize];
    let mut k2 = Case::new(c.like, k.subj).a(k.a).b(k.b).m(k.mode);
    if c.scale_lhs {
        // Integer / integer into a fixed-point result: the dividend is made a number first.
        let lhs = k.a.checked_mul(c.layout.coef()).filter(|&x| x >= c.layout.min() && x <= c.layout.max());
        match lhs {
            Some(x) => k2.a = x,
            None => {
                let ok = *out == Out::Overflow || (k.b == 0 && *out == Out::DivZero);
                return judge::ok_if(judge::NOREP, ok, || {
                    format!("{}: the dividend does not fit the result type, got {out:?}", c.name)
                });
            }
        }
    }
    let (class, why) = judge::judge(&c.layout, &k2, out);
    (class, why.map(|w| format!("{}: {w}", c.name)))
}

fn within(v: i128, bits: u32) -> i128 {
    v.clamp(i128::MIN >> (128 - bits), i128::MAX >> (128 - bits))
}

pub fn case(r: &Rng) -> Case {
    let all = combos();
    let i = r.below(all.len() as u64) as usize;
    make(r, i)
}

fn make(r: &Rng, i: usize) -> Case {
    let c = &combos()[i];
    let k = gen::case(r, 0, &c.layout, c.like);
    let own = |bits: u32, v: i128| if r.bool() && bits < c.layout.bits { gen::value(r, &layout(bits, 0, true)) } else { within(v, bits) };
    let (a, b) = (own(c.lbits, k.a), own(c.rbits, k.b));
    Case::new(Op::Wrap, 0).a(a).b(b).m(k.mode).c(i as i32)
}

pub fn corpus(f: &mut dyn FnMut(Case)) {
    for (i, c) in combos().iter().enumerate() {
        let ex = |bits: u32| {
            let mut v = gen::extremes(&c.layout).into_iter().map(|x| within(x, bits)).collect::<Vec<_>>();
            v.extend(gen::extremes(&layout(bits, 0, true)));
            v.sort();
            v.dedup();
            v
        };
        let moded = matches!(c.like, Op::Rmul | Op::SatRmul | Op::RdivFF | Op::RdivFI | Op::RdivIF | Op::IntRdiv);
        let (l, r) = (ex(c.lbits), ex(c.rbits));
        for &a in &l {
            for &b in &r {
                for &m in if moded { &MODES[..] } else { &MODES[..1] } {
                    f(Case::new(Op::Wrap, 0).a(a).b(b).m(m).c(i as i32));
                }
            }
        }
    }
}

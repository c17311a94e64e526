//! The oracle: decides one observed event against exact arithmetic.
//! Quotients are never recomputed; an observed result is checked by multiplying back.
use crate::big::{pow10, Big};
use crate::case::*;
use crate::subj::Subj;
use std::cmp::Ordering;

pub const CLASSES: [&str; 20] = [
    "exact", "rounded_down", "rounded_up", "tie", "over_high", "over_low", "div_zero", "domain", "rejected",
    "accepted", "zero", "less", "equal", "greater", "not_representable", "long", "integral", "clamped", "absent", "other",
];
pub const EXACT: u8 = 0;
pub const DOWN: u8 = 1;
pub const UP: u8 = 2;
pub const TIE: u8 = 3;
pub const HIGH: u8 = 4;
pub const LOW: u8 = 5;
pub const DIV0: u8 = 6;
pub const DOMAIN: u8 = 7;
pub const REJ: u8 = 8;
pub const ACC: u8 = 9;
pub const ZERO: u8 = 10;
pub const LESS: u8 = 11;
pub const EQUAL: u8 = 12;
pub const GREATER: u8 = 13;
pub const NOREP: u8 = 14;
pub const LONG: u8 = 15;
pub const INTEGRAL: u8 = 16;
pub const CLAMPED: u8 = 17;
pub const ABSENT: u8 = 18;
pub const OTHER: u8 = 19;

/// Class of the case (a function of its operands only) and, if broken, why.
pub type Verdict = (u8, Option<String>);

pub fn ok_if(class: u8, ok: bool, why: impl FnOnce() -> String) -> Verdict {
    (class, if ok { None } else { Some(why()) })
}

/// Exact decimal of raw/10^prec, for reports.
pub fn dec(raw: Big, prec: u32) -> String {
    let (mut q, ten) = (raw.abs(), Big::u(10));
    let mut digits = Vec::new();
    while !q.is_zero() || digits.len() <= prec as usize {
        let (d, r) = q.div_floor(ten);
        digits.push(b'0' + r.to_i128().unwrap() as u8);
        q = d;
    }
    digits.reverse();
    let s = String::from_utf8(digits).unwrap();
    let (i, f) = s.split_at(s.len() - prec as usize);
    format!("{}{}{}{}", if raw.neg { "-" } else { "" }, i, if prec > 0 { "." } else { "" }, f)
}

/// Where the correctly rounded value of num/den lies relative to the range: -1, 0 or 1.
fn range(min: i128, max: i128, num: Big, den: Big, mode: Mode) -> i32 {
    let (lo, hi) = (Big::i(min), Big::i(max));
    let one = Big::u(1);
    let two = Big::u(2);
    let (high, low) = match mode {
        Mode::Floor => (num >= hi.add(one).mul(den), num < lo.mul(den)),
        Mode::Ceil => (num > hi.mul(den), num <= lo.sub(one).mul(den)),
        Mode::Nearest => (
            num.mul(two) >= hi.mul(two).add(one).mul(den),
            num.mul(two) <= lo.mul(two).sub(one).mul(den),
        ),
    };
    if high {
        1
    } else if low {
        -1
    } else {
        0
    }
}

/// Is r the correct rounding of num/den (den > 0)? Ties of Nearest go away from zero unless `any_tie`.
fn is_rounding(r: Big, num: Big, den: Big, mode: Mode, any_tie: bool) -> bool {
    let d = num.sub(r.mul(den));
    match mode {
        Mode::Floor => d >= Big::ZERO && d < den,
        Mode::Ceil => d <= Big::ZERO && d > den.neg(),
        Mode::Nearest => match d.abs().mul(Big::u(2)).cmp(&den) {
            Ordering::Less => true,
            Ordering::Equal => any_tie || r.mul(den).abs() > num.abs(),
            Ordering::Greater => false,
        },
    }
}

/// Classifies num/den by its position between representable values.
fn position(num: Big, den: Big) -> u8 {
    let (_, r) = num.div_floor(den);
    if r.is_zero() {
        return EXACT;
    }
    match r.mul(Big::u(2)).cmp(&den) {
        Ordering::Less => DOWN,
        Ordering::Equal => TIE,
        Ordering::Greater => UP,
    }
}

/// A cheap form of `position` for operands whose certificate is already known.
fn position_from(r: Big, num: Big, den: Big) -> u8 {
    let d = num.sub(r.mul(den));
    if d.is_zero() {
        return EXACT;
    }
    // Fraction above the floor: d if positive, d + den otherwise.
    let f = if d.sign() < 0 { d.add(den) } else { d };
    match f.mul(Big::u(2)).cmp(&den) {
        Ordering::Less => DOWN,
        Ordering::Equal => TIE,
        Ordering::Greater => UP,
    }
}

fn rounded(s: &Subj, out: &Out, num: Big, den: Big, mode: Mode) -> Verdict {
    let (num, den) = if den.neg { (num.neg(), den.neg()) } else { (num, den) };
    let side = range(s.min(), s.max(), num, den, mode);
    if side != 0 {
        let class = if side > 0 { HIGH } else { LOW };
        return ok_if(class, *out == Out::Overflow, || {
            format!("the rounded result does not fit the type, expected Err(Overflow), got {out:?}")
        });
    }
    match out {
        Out::Int(r) if is_rounding(Big::i(*r), num, den, mode, false) => (position_from(Big::i(*r), num, den), None),
        _ => {
            let (q, rem) = num.div_floor(den);
            (
                position(num, den),
                Some(format!(
                    "exact result is {}/{} = floor {} remainder {} (raw units); {:?} rounding gives another value than {out:?}",
                    dec(num, 0), dec(den, 0), dec(q, 0), dec(rem, 0), mode
                )),
            )
        }
    }
}

fn exact(s: &Subj, out: &Out, v: Big) -> Verdict {
    let (class, want) = match v.to_i128() {
        Some(x) if x >= s.min() && x <= s.max() => (EXACT, Out::Int(x)),
        _ => (if v.neg { LOW } else { HIGH }, Out::Overflow),
    };
    ok_if(class, *out == want, || format!("exact result is {} raw, expected {want:?}, got {out:?}", dec(v, 0)))
}

fn clamped(s: &Subj, out: &Out, v: Big) -> Verdict {
    let (class, want) = match v.to_i128() {
        Some(x) if x >= s.min() && x <= s.max() => (EXACT, x),
        _ if v.neg => (LOW, s.min()),
        _ => (HIGH, s.max()),
    };
    ok_if(class, *out == Out::Int(want), || format!("exact result is {} raw, expected {want}, got {out:?}", dec(v, 0)))
}

fn clamped_rounded(s: &Subj, out: &Out, num: Big, den: Big, mode: Mode) -> Verdict {
    match range(s.min(), s.max(), num, den, mode) {
        0 => rounded(s, out, num, den, mode),
        side => {
            let (class, want) = if side > 0 { (HIGH, s.max()) } else { (LOW, s.min()) };
            ok_if(class, *out == Out::Int(want), || format!("result is out of range, expected the bound {want}, got {out:?}"))
        }
    }
}

fn conv_exact(s: &Subj, out: &Out, v: Big) -> Verdict {
    match v.to_i128() {
        Some(x) if x >= s.min() && x <= s.max() => {
            ok_if(EXACT, *out == Out::Int(x), || format!("expected raw {x}, got {out:?}"))
        }
        _ => ok_if(if v.neg { LOW } else { HIGH }, out.is_err(), || {
            format!("value {} raw is not representable, expected an error, got {out:?}", dec(v, 0))
        }),
    }
}

/// Canonical text of a raw value.
pub fn canonical(raw: i128, prec: u32) -> String {
    let digits = format!("{:0width$}", raw.unsigned_abs(), width = prec as usize + 1);
    let (i, f) = digits.split_at(digits.len() - prec as usize);
    let f = f.trim_end_matches('0');
    format!("{}{}.{}", if raw < 0 { "-" } else { "" }, i, if f.is_empty() { "0" } else { f })
}

/// What a text means: None if it is not a decimal; else sign, integral digits, fractional digits.
fn decimal(text: &str) -> Option<(bool, String, String)> {
    let t = text.trim();
    let (neg, t) = match t.as_bytes().first() {
        Some(b'-') => (true, &t[1..]),
        Some(b'+') => (false, &t[1..]),
        _ => (false, t),
    };
    let (i, f) = match t.find('.') {
        Some(p) => (&t[..p], Some(&t[p + 1..])),
        None => (t, None),
    };
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    if !digits(i) || !f.map_or(true, digits) {
        return None;
    }
    Some((neg, i.to_owned(), f.unwrap_or("").to_owned()))
}

/// The value a text must parse to: None means it must be rejected.
pub fn parse_want(s: &Subj, text: &str, exact: bool) -> (u8, Option<i128>) {
    let Some((neg, i, f)) = decimal(text) else {
        return (REJ, None);
    };
    let p = s.prec as usize;
    if exact && f.len() > p {
        return (NOREP, None);
    }
    let i = i.trim_start_matches('0');
    if i.len() > 60 {
        return (LONG, None);
    }
    let mut kept: String = f.chars().take(p).collect();
    while kept.len() < p {
        kept.push('0');
    }
    let mut v = Big::ZERO;
    for d in i.bytes().chain(kept.bytes()) {
        v = v.mul(Big::u(10)).add(Big::u((d - b'0') as u128));
    }
    let rest = f.as_bytes().get(p..).unwrap_or(&[]);
    let mut class = if rest.iter().all(|&d| d == b'0') { EXACT } else { DOWN };
    if rest.first().is_some_and(|&d| d >= b'5') {
        v = v.add(Big::u(1));
        class = if rest[1..].iter().all(|&d| d == b'0') && rest[0] == b'5' { TIE } else { UP };
    }
    let v = if neg { v.neg() } else { v };
    match v.to_i128() {
        Some(x) if x >= s.min() && x <= s.max() => (class, Some(x)),
        _ => (if neg { LOW } else { HIGH }, None),
    }
}

fn parsed(s: &Subj, out: &Out, text: &str, exact: bool) -> Verdict {
    let (class, want) = parse_want(s, text, exact);
    match want {
        Some(x) => ok_if(class, *out == Out::Int(x), || format!("text {text:?} means raw {x}, got {out:?}")),
        None => ok_if(class, matches!(out, Out::Conv(_) | Out::Reject), || {
            format!("text {text:?} must be rejected, got {out:?}")
        }),
    }
}

/// mantissa and binary exponent of a finite float's magnitude
pub fn float_parts(bits: u64) -> (bool, u64, i32) {
    let e = (bits >> 52 & 0x7ff) as i32;
    let m = bits & ((1 << 52) - 1);
    let neg = bits >> 63 == 1;
    if e == 0 {
        (neg, m, -1074)
    } else {
        (neg, m | 1 << 52, e - 1075)
    }
}

/// Is `out` an acceptable conversion of the float with these bits?
pub fn from_float(s: &Subj, out: &Out, bits: u64) -> Verdict {
    let x = f64::from_bits(bits);
    if !x.is_finite() {
        return ok_if(REJ, out.is_err(), || format!("{x} must be rejected, got {out:?}"));
    }
    let (neg, m, e) = float_parts(bits);
    if m == 0 {
        return ok_if(ZERO, *out == Out::Int(0), || format!("zero converts to {out:?}"));
    }
    if e > 130 {
        return ok_if(if neg { LOW } else { HIGH }, out.is_err(), || format!("{x:e} is out of range, got {out:?}"));
    }
    if e < -200 {
        return ok_if(DOWN, *out == Out::Int(0), || format!("{x:e} is below half the smallest step, got {out:?}"));
    }
    let d = Big::u(1).shl((-e).max(0) as u32);
    let mut n = Big::u(m as u128).mul(pow10(s.prec)).shl(e.max(0) as u32);
    if neg {
        n = n.neg();
    }
    let k = Big::u(9_000_000_000_000_000_000);
    // tolerance * k * d
    let tol = d.mul(Big::u(5_000_000_000_000_000_000)).add(n.abs().mul(Big::u(11_250)));
    let integral = x.fract() == 0.0 && x.abs() <= (1u64 << 52) as f64;
    let limit = Big::i(if neg { s.min() } else { s.max() }).abs().mul(d);
    match out {
        Out::Int(r) => {
            let diff = Big::i(*r).mul(d).sub(n).abs();
            if integral {
                return ok_if(INTEGRAL, diff.is_zero(), || {
                    format!("integer float {x} converts inexactly: raw {r}, off by {} raw", dec(diff.div_floor(d).0, 0))
                });
            }
            let class = if diff.is_zero() { EXACT } else if diff.mul(k) <= d.mul(k) { UP } else { LONG };
            ok_if(class, diff.mul(k) <= tol, || {
                format!("{x:e} = {} raw converts to {r}, beyond the error bound", dec(n.div_floor(d).0, 0))
            })
        }
        Out::Conv(_) | Out::Reject => {
            let must = if integral {
                n.abs() <= limit
            } else {
                n.abs().mul(k).add(tol) <= limit.mul(k)
            };
            ok_if(if neg { LOW } else { HIGH }, !must, || format!("{x:e} is in range, got {out:?}"))
        }
        _ => (OTHER, Some(format!("converting {x:e} gave {out:?}"))),
    }
}

/// Is the float with these bits an acceptable image of raw value v?
pub fn to_float(s: &Subj, v: i128, bits: u64) -> Verdict {
    let f = f64::from_bits(bits);
    if v == 0 {
        return ok_if(ZERO, f == 0.0, || format!("zero converts to {f}"));
    }
    if !f.is_finite() {
        return (OTHER, Some(format!("raw {v} converts to {f}")));
    }
    let coef = s.coef();
    if v % coef == 0 && (v / coef).unsigned_abs() < 1 << 53 {
        return ok_if(INTEGRAL, f == (v / coef) as f64, || format!("integer {} converts to {f:?}", v / coef));
    }
    let (neg, m, e) = float_parts(bits);
    if neg != (v < 0) || e < -300 || e > 130 {
        return (OTHER, Some(format!("raw {v} converts to {f:e}")));
    }
    let num = Big::u(m as u128).mul(pow10(s.prec)).shl(e.max(0) as u32);
    let vd = Big::i(v).abs().shl((-e).max(0) as u32);
    let diff = num.sub(vd).abs();
    let class = if diff.is_zero() { EXACT } else { UP };
    ok_if(class, diff.shl(51) <= vd, || format!("{} converts to {f:e}, relative error above 2^-51", dec(Big::i(v), s.prec)))
}

pub fn int_value(kind: i32, a: i128) -> Big {
    match kind {
        0 => Big::i(a as i8 as i128),
        1 => Big::i(a as u8 as i128),
        2 => Big::i(a as i16 as i128),
        3 => Big::i(a as u16 as i128),
        4 => Big::i(a as i32 as i128),
        5 => Big::i(a as u32 as i128),
        6 | 10 => Big::i(a as i64 as i128),
        7 | 11 => Big::i(a as u64 as i128),
        8 => Big::i(a),
        _ => Big::u(a as u128),
    }
}

fn expect(class: u8, out: &Out, want: Out) -> Verdict {
    ok_if(class, *out == want, || format!("expected {want:?}, got {out:?}"))
}

fn sign_class(v: i128) -> u8 {
    match v.signum() {
        0 => EQUAL,
        1 => GREATER,
        _ => LESS,
    }
}

pub fn judge(s: &Subj, k: &Case, out: &Out) -> Verdict {
    let (a, b) = (Big::i(k.a), Big::i(k.b));
    let coef = Big::i(s.coef());
    match k.op {
        Op::Rmul => rounded(s, out, a.mul(b), coef, k.mode),
        Op::RdivFF | Op::RdivFI | Op::IntRdiv | Op::RdivIF | Op::Recip => {
            let (num, den) = match k.op {
                Op::RdivFF => (a.mul(coef), b),
                Op::RdivFI | Op::IntRdiv => (a, b),
                Op::Recip => (coef.mul(coef), a),
                _ => (a.mul(coef).mul(coef), b),
            };
            if k.op == Op::RdivIF {
                let lhs = a.mul(coef);
                if lhs > Big::i(s.max()) || lhs < Big::i(s.min()) {
                    // Either error is admissible if the divisor is zero as well.
                    return ok_if(NOREP, *out == Out::Overflow || (den.is_zero() && *out == Out::DivZero), || {
                        format!("the dividend does not fit the type, expected an error, got {out:?}")
                    });
                }
            }
            if den.is_zero() {
                return expect(DIV0, out, Out::DivZero);
            }
            rounded(s, out, num, den, k.mode)
        }
        Op::Cadd | Op::IntCadd => exact(s, out, a.add(b)),
        Op::Csub | Op::IntCsub => exact(s, out, a.sub(b)),
        Op::CmulFI | Op::CmulIF | Op::IntCmul => exact(s, out, a.mul(b)),
        Op::Cneg => exact(s, out, a.neg()),
        Op::Abs => exact(s, out, a.abs()),
        Op::SatAdd | Op::DefSatAdd | Op::IntSatAdd => clamped(s, out, a.add(b)),
        Op::SatSub | Op::DefSatSub | Op::IntSatSub => clamped(s, out, a.sub(b)),
        Op::SatMulFI | Op::SatMulIF | Op::DefSatMul | Op::IntSatMul => clamped(s, out, a.mul(b)),
        Op::SatRmul | Op::DefSatRmul => clamped_rounded(s, out, a.mul(b), coef, k.mode),
        Op::Rsqrt => {
            if k.a < 0 {
                return expect(DOMAIN, out, Out::Domain);
            }
            let sq = a.mul(coef);
            let one = Big::u(1);
            let Out::Int(r) = out else {
                return (OTHER, Some(format!("square root of a non-negative number gave {out:?}")));
            };
            let r = Big::i(*r);
            if r.sign() < 0 {
                return (OTHER, Some(format!("negative square root {out:?}")));
            }
            let (lo, hi) = (r.sub(one), r.add(one));
            let r2 = r.mul(r);
            let ok = match k.mode {
                Mode::Floor => r2 <= sq && hi.mul(hi) > sq,
                Mode::Ceil => r2 >= sq && (r.is_zero() || lo.mul(lo) < sq),
                // |r - sqrt| <= 1/2  <=>  (2r-1)^2 <= 4sq <= (2r+1)^2 ; no exact half is a square root
                Mode::Nearest => {
                    let (d, two, four) = (r.add(r), Big::u(1), sq.mul(Big::u(4)));
                    let (l, h) = (d.sub(two), d.add(two));
                    (l.sign() < 0 || l.mul(l) <= four) && h.mul(h) >= four
                }
            };
            let class = match r2.cmp(&sq) {
                Ordering::Equal => EXACT,
                Ordering::Less => DOWN,
                Ordering::Greater => UP,
            };
            ok_if(class, ok, || format!("raw root {out:?} is not the {:?} rounding of sqrt({})", k.mode, dec(sq, 0)))
        }
        Op::Integral => rounded(s, out, a, coef, k.mode),
        Op::Floor | Op::Ceil | Op::Round => {
            let mode = match k.op {
                Op::Floor => Mode::Floor,
                Op::Ceil => Mode::Ceil,
                _ => Mode::Nearest,
            };
            let (q, r) = a.div_floor(coef);
            let up = match mode {
                Mode::Floor => false,
                Mode::Ceil => !r.is_zero(),
                Mode::Nearest => match r.mul(Big::u(2)).cmp(&coef) {
                    Ordering::Less => false,
                    Ordering::Greater => true,
                    Ordering::Equal => k.a > 0,
                },
            };
            let n = if up { q.add(Big::u(1)) } else { q };
            let v = n.mul(coef);
            match v.to_i128() {
                Some(x) if x >= s.min() && x <= s.max() => {
                    let class = if r.is_zero() { EXACT } else if up { UP } else { DOWN };
                    expect(class, out, Out::Int(x))
                }
                _ => ok_if(NOREP, matches!(out, Out::Panic(_)), || {
                    format!("the integer {} is not representable, yet {out:?} was returned", dec(n, 0))
                }),
            }
        }
        Op::HalfSum => {
            let sum = a.add(b);
            let ok = matches!(out, Out::Int(r) if is_rounding(Big::i(*r), sum, Big::u(2), k.mode, true));
            let class = position(sum, Big::u(2));
            ok_if(class, ok, || format!("mean is {}/2 raw; {:?} rounding gives another value than {out:?}", dec(sum, 0), k.mode))
        }
        Op::NextPow => {
            let mut p = Big::u(1);
            while p < a.abs() {
                p = p.mul(Big::u(10));
            }
            let p = if k.a < 0 { p.neg() } else { p };
            let want = match p.to_i128() {
                Some(x) if x <= s.max() && x >= s.min() => Out::Int(x),
                _ => Out::Overflow,
            };
            let class = if want == Out::Overflow { if k.a < 0 { LOW } else { HIGH } } else if p == a { EXACT } else { UP };
            expect(class, out, want)
        }
        Op::RoundTz => {
            if k.b == 0 {
                return expect(ZERO, out, Out::Int(k.a));
            }
            let Out::Int(r) = out else {
                return (OTHER, Some(format!("expected a value, got {out:?}")));
            };
            let r = Big::i(*r);
            let ok = (r.is_zero() || r.sign() == a.sign())
                && r.abs() <= a.abs()
                && r.abs().div_floor(b.abs()).1.is_zero()
                && a.abs().sub(r.abs()) < b.abs();
            ok_if(if r == a { EXACT } else { DOWN }, ok, || {
                format!("{out:?} is not the multiple of {} closest to {} towards zero (raw)", k.b, k.a)
            })
        }
        Op::FromDec => {
            if k.c < -(s.prec as i32) || k.c > 10 {
                return ok_if(REJ, out.is_err(), || format!("exponent {} is unsupported, got {out:?}", k.c));
            }
            conv_exact(s, out, a.mul(pow10((k.c + s.prec as i32) as u32)))
        }
        Op::ToDec => {
            let low = -(s.prec as i64);
            let max = k.c as i64;
            if max < low {
                return ok_if(REJ, matches!(out, Out::Panic(_)), || format!("expected the documented panic, got {out:?}"));
            }
            let Out::Pair(m, e) = out else {
                return (OTHER, Some(format!("expected a pair, got {out:?}")));
            };
            if *e < low || *e > max {
                return (OTHER, Some(format!("exponent {e} is outside [{low}, {max}]")));
            }
            if k.a == 0 {
                return ok_if(ZERO, *m == 0 && *e == max.min(0), || format!("zero decomposes to {out:?}"));
            }
            let same = *e - low <= 40 && Big::i(*m).mul(pow10((*e - low) as u32)) == a;
            if !same {
                return (OTHER, Some(format!("{out:?} is not equal to {}", dec(a, s.prec))));
            }
            ok_if(if *e == max { EXACT } else { UP }, *e == max || *m % 10 != 0, || format!("{out:?}: the exponent is not maximal"))
        }
        Op::Show | Op::Debug => {
            let want = canonical(k.a, s.prec);
            let class = if k.a == 0 { ZERO } else if k.a % s.coef() == 0 { INTEGRAL } else { EXACT };
            expect(class, out, Out::Text(want))
        }
        Op::ShowNested => {
            let (a, b) = (canonical(k.a, s.prec), canonical(k.b, s.prec));
            let want = match k.c & 3 {
                0 => format!("{a}|{b}"),
                3 => format!("{b} {a}|{b}"),
                _ => b,
            };
            expect(if k.c & 3 == 0 { EXACT } else { OTHER }, out, Out::Text(want))
        }
        Op::ShowPadded => ok_if(ACC, matches!(out, Out::Text(_)), || format!("formatting gave {out:?}")),
        Op::ShowParse => expect(if k.a < 0 { LESS } else { EXACT }, out, Out::Int(k.a)),
        Op::ShowParseExact => {
            if s.prec == 0 {
                // The canonical text has one fractional digit, more than the exact parser admits.
                return ok_if(NOREP, out.is_err() || *out == Out::Int(k.a), || format!("parsed to {out:?}"));
            }
            expect(if k.a < 0 { LESS } else { EXACT }, out, Out::Int(k.a))
        }
        Op::Parse => parsed(s, out, &k.s, false),
        Op::ParseExact => parsed(s, out, &k.s, true),
        Op::FromF64 => from_float(s, out, k.a as u64),
        Op::FromF64Neg => {
            // [converted?, value] for x and for -x
            let Out::List(v) = out else {
                return (OTHER, Some(format!("converting gave {out:?}")));
            };
            let bits = k.a as u64;
            let as_out = |i: usize| if v[i] == 1 { Out::Int(v[i + 1]) } else { Out::Reject };
            let (p, n) = (as_out(0), as_out(2));
            let (class, why) = from_float(s, &p, bits);
            if why.is_some() {
                return (class, why);
            }
            let (_, why) = from_float(s, &n, bits ^ 1 << 63);
            if why.is_some() {
                return (class, why);
            }
            ok_if(class, v[0] != 1 || v[2] != 1 || v[1] == -v[3], || {
                format!("{:e} converts to {p:?} but its negation to {n:?}", f64::from_bits(bits))
            })
        }
        Op::F64Round => {
            if k.a.unsigned_abs() <= 100_000_000_000_000 {
                expect(sign_class(k.a), out, Out::Int(k.a))
            } else {
                match out {
                    Out::Int(r) => {
                        // 2^-51 relative going out, the stated bound coming back.
                        let diff = Big::i(*r).sub(a).abs().mul(Big::u(9_000_000_000_000_000_000));
                        let tol = Big::u(5_000_000_000_000_000_000).add(a.abs().mul(Big::u(11_250 + 3_997 + 100)));
                        ok_if(LONG, diff <= tol, || format!("raw {} comes back from a float as {out:?}", k.a))
                    }
                    Out::Conv(_) => {
                        let lim = Big::i(s.max()).mul(Big::u(999_999_999_999_990)).div_floor(Big::u(1_000_000_000_000_000)).0;
                        ok_if(HIGH, a.abs() > lim, || format!("raw {} is rejected coming back from a float", k.a))
                    }
                    _ => (OTHER, Some(format!("raw {} comes back from a float as {out:?}", k.a))),
                }
            }
        }
        Op::ToF64 => match out {
            Out::F64(f) => to_float(s, k.a, *f),
            _ => (OTHER, Some(format!("conversion gave {out:?}"))),
        },
        Op::ToF64Pair => {
            let Out::List(v) = out else {
                return (OTHER, Some(format!("conversion gave {out:?}")));
            };
            let (x, y) = (f64::from_bits(v[0] as u64), f64::from_bits(v[1] as u64));
            let class = match k.a.cmp(&k.b) {
                Ordering::Less => LESS,
                Ordering::Equal => EQUAL,
                Ordering::Greater => GREATER,
            };
            let ok = match k.a.cmp(&k.b) {
                Ordering::Less => x <= y,
                Ordering::Equal => x == y,
                Ordering::Greater => x >= y,
            } && (k.a != k.b.wrapping_neg() || k.a == i128::MIN || x == -y);
            ok_if(class, ok, || format!("raw {} and {} convert to {x:?} and {y:?}", k.a, k.b))
        }
        Op::FromInt => conv_exact(s, out, int_value(k.c, k.a).mul(coef)),
        Op::Cmp => {
            let o = k.a.cmp(&k.b);
            let lt = (o == Ordering::Less) as i128;
            let gt = (o == Ordering::Greater) as i128;
            let eq = (o == Ordering::Equal) as i128;
            let mut want = vec![lt, lt | eq, gt, gt | eq, eq, 1 - eq, o as i128, o as i128, eq, lt | eq, gt | eq];
            if let Out::List(v) = out {
                // Different values may collide in a hash; only equal ones must agree.
                if eq == 0 && v.len() == want.len() {
                    want[8] = v[8];
                }
            }
            expect(if lt == 1 { LESS } else if gt == 1 { GREATER } else { EQUAL }, out, Out::List(want))
        }
        Op::Consts => {
            let want = if s.int {
                vec![0, 1, s.min(), s.max()]
            } else {
                let c = s.coef();
                vec![0, c, s.min(), s.max(), 1, s.prec as i128, 0, k.a.signum(), k.a, k.a, s.bits as i128 / 8]
            };
            expect(sign_class(k.a), out, Out::List(want))
        }
        Op::Collect => {
            let want = crate::subj::collect_model(k.a as u64, k.c as usize, s.min());
            let ok = *out == want;
            ok_if(LONG, ok, || format!("a collection history of {} steps gave {out:?}, expected {want:?}", k.c))
        }
        #[cfg(feature = "wrap")]
        Op::Wrap => crate::wrap::judge(k, out),
        #[cfg(feature = "codec")]
        _ => crate::codec::judge(s, k, out),
        #[cfg(not(feature = "codec"))]
        op => panic!("monitor: no oracle for {}", op.name()),
    }
}

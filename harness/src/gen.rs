//! Workload: which calls are made. Hostile values (extremes, ties, overflow edges, table thresholds)
//! are constructed on purpose; the rest is random over bit lengths and digit patterns.
use crate::big::Big;
use crate::case::*;
use crate::subj::Subj;

#[derive(Clone)]
pub struct Rng(std::cell::Cell<u64>);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let r = Rng(std::cell::Cell::new(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def1));
        for _ in 0..4 {
            r.next();
        }
        r
    }
    // splitmix64
    pub fn next(&self) -> u64 {
        let mut z = self.0.get().wrapping_add(0x9e3779b97f4a7c15);
        self.0.set(z);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&self, n: u64) -> u64 {
        (((self.next() as u128) * (n as u128)) >> 64) as u64
    }
    pub fn i128(&self) -> i128 {
        ((self.next() as u128) << 64 | self.next() as u128) as i128
    }
    pub fn small(&self) -> i128 {
        let w = [2, 3, 5, 12, 100][self.below(5) as usize];
        self.below(2 * w + 1) as i128 - w as i128
    }
    pub fn bool(&self) -> bool {
        self.next() >> 63 == 1
    }
    pub fn pick<T: Copy>(&self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
    pub fn mode(&self) -> Mode {
        self.pick(&MODES)
    }
}

pub fn clamp(s: &Subj, v: i128) -> i128 {
    v.clamp(s.min(), s.max())
}

fn digits10(s: &Subj) -> u32 {
    [2, 4, 9, 18, 38][[8, 16, 32, 64, 128].iter().position(|&b| b == s.bits).unwrap()]
}

/// A value of the type, of a random kind.
pub fn value(r: &Rng, s: &Subj) -> i128 {
    let v = value_kind(r, s);
    if r.below(3) == 0 {
        v.checked_neg().map_or(v, |v| clamp(s, v))
    } else {
        v
    }
}

fn value_kind(r: &Rng, s: &Subj) -> i128 {
    let d = digits10(s);
    let p10 = |k: u32| 10i128.pow(k);
    match r.below(18) {
        0 | 1 => r.i128() >> (128 - s.bits),
        2 | 3 | 4 => {
            let n = 1 + r.below(s.bits as u64 - 1) as u32;
            ((r.i128() as u128) >> (128 - n)) as i128
        }
        5 => clamp(s, s.min().saturating_add(r.below(4) as i128)),
        6 => s.max() - r.below(4) as i128,
        7 => {
            let k = p10(r.below(d as u64 + 1) as u32);
            let lead = 1 + r.below(9) as i128;
            clamp(s, k.saturating_mul(lead).saturating_add(r.small()))
        }
        8 => clamp(s, (1i128 << r.below(s.bits as u64 - 1)) + r.small()),
        9 => clamp(s, r.small()),
        10 => {
            let limit = (s.max() / s.coef()) as u128;
            let k = if r.bool() { r.i128() as u128 % (limit + 1) } else { r.below(200) as u128 % (limit + 1) };
            clamp(s, (k as i128 * s.coef()).saturating_add(r.small()))
        }
        11 => {
            // half-way points of the integral grid
            let limit = (s.max() / s.coef()) as u128;
            let k = if r.bool() { r.i128() as u128 % (limit + 1) } else { r.below(50) as u128 % (limit + 1) };
            clamp(s, (k as i128 * s.coef()).saturating_add(s.coef() / 2).saturating_add(r.small()))
        }
        12 => {
            let k = p10(r.below(d as u64 + 1) as u32);
            clamp(s, (s.max() / k).saturating_add(r.small()))
        }
        13 => {
            // perfect squares of the raw root and their neighbours
            let x = root(r, s);
            let sq = Big::i(x).mul(Big::i(x));
            let on_grid = sq.div_floor(Big::i(s.coef())).0.to_i128().unwrap_or(0);
            clamp(s, (if r.bool() { sq.to_i128().unwrap_or(on_grid) } else { on_grid }).saturating_add(r.small()))
        }
        16 => {
            // where the root is half-way: (x + 1/2)^2 lies between x(x+1) and x(x+1)+1
            let x = root(r, s);
            let t = Big::i(x).mul(Big::i(x + 1)).div_floor(Big::i(s.coef())).0;
            clamp(s, t.to_i128().unwrap_or(0).saturating_add(r.below(4) as i128 - 1))
        }
        17 => limbs(r, s),
        14 => {
            // digit runs
            let n = 1 + r.below(d as u64 + 1) as u32;
            let mut v: i128 = 0;
            let mut dig = r.below(10) as i128;
            for _ in 0..n {
                if r.below(4) == 0 {
                    dig = [0, 9, 4, 5, r.below(10) as i128][r.below(5) as usize];
                }
                v = v.saturating_mul(10).saturating_add(dig);
            }
            clamp(s, v)
        }
        _ => {
            let k = p10(r.below(d as u64 + 1) as u32);
            clamp(s, (r.below(100_000) as i128).saturating_mul(k))
        }
    }
}

/// A raw square root of some value of the type.
fn root(r: &Rng, s: &Subj) -> i128 {
    // sqrt(raw * coef) has up to this many bits
    let most = (s.bits - 1 + Big::i(s.coef()).bits()) / 2;
    let n = (1 + if r.bool() { r.below(most as u64) } else { most as u64 - 1 - r.below(3.min(most as u64 - 1)) } as u32).min(126);
    let x = ((r.i128() as u128) >> (128 - n)) as i128;
    match r.below(4) {
        0 => x | ((1 << n) - 1) ^ r.below(1 << n.min(8)) as i128,
        1 => (1 << (n - 1)) + r.below(4) as i128,
        _ => x,
    }
}

/// Words that are all ones, zero, one bit or random: carries and borrows between them.
fn limbs(r: &Rng, s: &Subj) -> i128 {
    let w = if s.bits <= 16 { 8 } else if s.bits <= 64 && r.bool() { 16 } else { s.bits.min(128) / 2 };
    let mut v = 0u128;
    for _ in 0..s.bits / w {
        let m = (1u128 << w) - 1;
        let d = match r.below(9) {
            0 | 1 => 0,
            2 | 3 => m,
            4 => 1,
            5 => m - 1,
            6 => 1 << (w - 1),
            7 => (1 << (w - 1)) - 1,
            _ => r.i128() as u128 & m,
        };
        v = v << w | d;
    }
    (v << (128 - s.bits)) as i128 >> (128 - s.bits)
}

/// A divisor as two 64-bit words after normalisation, hard for quotient estimation, with its shift.
fn hard_divisor(r: &Rng) -> (u128, u32) {
    let v1 = (1u128 << 63) + ((r.next() >> (24 + r.below(39))) as u128);
    let v0 = u64::MAX as u128 - ((r.next() >> (24 + r.below(39))) as u128);
    let sh = r.pick(&[1, 1, 1, 2, 5, 20, 63]);
    ((v1 << 64 | v0) >> sh, sh)
}

/// The high part of a dividend (what is above one word of `w` bits), such that estimating the next digit of its quotient
/// by `d` from the leading words goes wrong, if `d` permits that at all.
fn hard_top(r: &Rng, d: u128) -> Big {
    let bits = 128 - d.leading_zeros();
    let (half, full) = if bits <= 64 { (32, 64) } else { (64, 128) };
    let sh = full - bits;
    let n = d << sh;
    let (v1, v0) = (n >> half, n & ((1 << half) - 1));
    let q = Big::u((r.next() >> r.below(64)) as u128).mul(Big::u(d));
    let rem = match r.below(3) {
        // as large a digit as there is, with a small remainder
        0 => ((1u128 << half) - 1 - r.below(1 << r.below(20)) as u128) * v1 + (r.next() >> (64 - 20)) as u128 % v1,
        // leading word equal to the divisor's
        1 => v1 << half | (r.next() as u128 % v0.saturating_sub(v1).max(1)),
        _ => (v1 << half).wrapping_sub(1 + r.below(4) as u128),
    };
    q.add(Big::u((rem >> sh).min(d - 1)))
}

fn nonzero(r: &Rng, s: &Subj) -> i128 {
    loop {
        let v = value(r, s);
        if v != 0 {
            return v;
        }
    }
}

/// x*y/z rounded to the type's range.
fn muldiv(s: &Subj, x: Big, y: Big, z: Big) -> i128 {
    let (n, z) = if z.sign() < 0 { (x.mul(y).neg(), z.neg()) } else { (x.mul(y), z) };
    let q = n.div_floor(z).0;
    q.to_i128().map_or(if q.neg { s.min() } else { s.max() }, |q| clamp(s, q))
}

fn edge(r: &Rng, s: &Subj) -> i128 {
    if r.bool() {
        s.max() - r.below(2) as i128
    } else {
        s.min() + r.below(2) as i128
    }
}

/// Splits a divisor of the coefficient: 2^i 5^j.
fn divisor(r: &Rng, s: &Subj, max2: u32, max5: u32) -> i128 {
    let _ = s;
    2i128.pow(r.below(max2 as u64 + 1) as u32) * 5i128.pow(r.below(max5 as u64 + 1) as u32)
}

fn odd(r: &Rng, max: i128) -> i128 {
    if max < 1 {
        return 1;
    }
    let n = 1 + r.below(126) as u32;
    let v = ((r.i128() as u128) >> (128 - n)) as i128 % max;
    v | 1
}

/// Factors whose exact product lies on, or next to, a rounding boundary or the overflow edge.
pub fn mul_pair(r: &Rng, s: &Subj) -> (i128, i128) {
    let c = Big::i(s.coef());
    match r.below(9) {
        0 | 1 | 2 => (value(r, s), value(r, s)),
        8 if s.bits == 128 && s.prec > 0 => {
            // products which are hard to divide by the coefficient
            let w = r.pick(&[32, 64]);
            let u = hard_top(r, s.coef() as u128).shl(w).add(Big::u(r.next() as u128 >> (64 - w)));
            let a = (1 + (r.next() >> (64 - w) >> r.below(w as u64 - 1) as u32)) as i128;
            let b = clamp(s, u.div_floor(Big::i(a)).0.to_i128().unwrap_or(s.max()).saturating_add(r.below(2) as i128));
            (if r.bool() { a } else { -a }, if r.bool() { b } else { -b })
        }
        3 | 4 => {
            // near the overflow edge
            let a = nonzero(r, s);
            let b = muldiv(s, Big::i(edge(r, s)), c, Big::i(a));
            (a, clamp(s, b.saturating_add(r.small())))
        }
        5 if s.prec > 0 => {
            // an exact tie: a*b = coef/2 * odd
            let d1 = divisor(r, s, s.prec - 1, s.prec);
            let d2 = s.coef() / 2 / gcd(d1, s.coef() / 2);
            let a = d1.saturating_mul(odd(r, (s.max() / d1).max(1)));
            let b = d2.saturating_mul(odd(r, (s.max() / d2).max(1)));
            let (a, b) = (clamp(s, a), clamp(s, b));
            let (a, b) = if r.bool() { (a, -b) } else { (a, b) };
            if r.bool() { (b, a) } else { (a, b) }
        }
        6 => {
            // product next to k*coef + coef/2
            let a = nonzero(r, s);
            let q = Big::i(value(r, s));
            let t = q.mul(c).add(Big::i(s.coef() / 2));
            let b = muldiv(s, t, Big::u(1), Big::i(a));
            (a, clamp(s, b.saturating_add(r.small())))
        }
        _ => {
            // square-ish magnitudes: product spans the double width
            let a = value(r, s);
            let b = muldiv(s, Big::i(value(r, s)), c, if a == 0 { Big::u(1) } else { Big::i(a) });
            (a, b)
        }
    }
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// Dividend and divisor for (a*scale)/b.
pub fn div_pair(r: &Rng, s: &Subj, scale: i128) -> (i128, i128) {
    let c = Big::i(scale);
    match r.below(11) {
        9 if s.bits == 128 => {
            // two-word divisors for which quotient digits are hard to estimate
            let (b, sh) = hard_divisor(r);
            let n = b << sh;
            let (v1, v0) = (n >> 64, n & u64::MAX as u128);
            let top = Big::u((r.next() >> r.below(64)) as u128).mul(Big::u(n)).add(Big::u(v1 << 64 | (r.next() as u128 % v0.saturating_sub(v1).max(1))));
            let u = top.shl(64).add(Big::u(r.next() as u128));
            let a = u.div_floor(Big::u(1).shl(sh)).0.div_floor(c).0.to_i128().unwrap_or(s.max());
            let a = clamp(s, a.saturating_add(r.below(2) as i128));
            (if r.bool() { a } else { -a }, if r.bool() { b as i128 } else { -(b as i128) })
        }
        10 if s.bits == 128 => {
            // one-word divisors of that kind
            let y = 0x8000_0000u64 << 32 | (0xffff_ffff - (r.next() >> (44 + r.below(20))));
            let b = (y >> r.below(32)) as i128;
            let a = if r.bool() { limbs(r, s) } else { value(r, s) };
            (a, if r.bool() { b } else { -b })
        }
        0 | 1 | 2 => (value(r, s), value(r, s)),
        3 => {
            // near the overflow edge
            let b = nonzero(r, s);
            let a = muldiv(s, Big::i(edge(r, s)), Big::i(b), c);
            (clamp(s, a.saturating_add(r.small())), b)
        }
        4 => {
            // an exact tie: divisor 2^(p+1)*u, dividend u*odd
            let mut two = 2i128;
            let mut c2 = scale;
            while c2 % 2 == 0 && two < s.max() / 2 {
                c2 /= 2;
                two *= 2;
            }
            let u = odd(r, (s.max() / two).max(1)).min(s.max() / two).max(1);
            let q = odd(r, (s.max() / u).max(1));
            let (a, b) = (clamp(s, u.saturating_mul(q)), clamp(s, two.saturating_mul(u)));
            (if r.bool() { -a } else { a }, if r.bool() { -b } else { b })
        }
        5 => {
            // quotient next to k + 1/2
            let b = nonzero(r, s);
            let q = Big::i(value(r, s));
            let t = q.mul(Big::i(b)).add(Big::i(b / 2));
            let a = muldiv(s, t, Big::u(1), c);
            (clamp(s, a.saturating_add(r.small())), b)
        }
        6 => {
            // divisors near the extremes
            let b = edge(r, s);
            (value(r, s), b)
        }
        7 => {
            let b = r.small();
            (if r.bool() { edge(r, s) } else { value(r, s) }, clamp(s, b))
        }
        _ => {
            // nearly equal, or nearly half of each other
            let b = nonzero(r, s);
            let a = if r.bool() { b } else { b / 2 };
            let a = clamp(s, a.saturating_add(r.small()));
            if r.bool() { (a, b) } else { (clamp(s, a.saturating_neg()), b) }
        }
    }
}

fn add_pair(r: &Rng, s: &Subj) -> (i128, i128) {
    let a = value(r, s);
    match r.below(4) {
        0 => (a, clamp(s, (edge(r, s)).saturating_sub(a).saturating_add(r.small()))),
        1 => (a, clamp(s, a.saturating_sub(edge(r, s)).saturating_add(r.small()))),
        _ => (a, value(r, s)),
    }
}

fn imul_pair(r: &Rng, s: &Subj) -> (i128, i128) {
    if r.below(3) == 0 {
        let b = nonzero(r, s);
        let a = muldiv(s, Big::i(edge(r, s)), Big::u(1), Big::i(b));
        (clamp(s, a.saturating_add(r.small())), b)
    } else {
        (value(r, s), value(r, s))
    }
}

/// Floats: random patterns, images of values, neighbours of interesting points.
pub fn float(r: &Rng, s: &Subj) -> u64 {
    let near = |r: &Rng, x: f64| -> u64 {
        let d = [0i64, 0, 1, -1, 2, -2, 5, -5][r.below(8) as usize];
        (x.to_bits() as i64).wrapping_add(d) as u64
    };
    match r.below(14) {
        0 => r.next(),
        1 | 2 => {
            // exponents around the useful range
            let e = 1023 - 140 + r.below(280);
            (r.next() & !(0x7ff << 52)) | e << 52
        }
        3 | 4 => {
            let x = value(r, s) as f64 / s.coef() as f64;
            near(r, x)
        }
        5 => {
            // half-way between two steps
            let x = (value(r, s) as f64 + 0.5) / s.coef() as f64;
            near(r, x)
        }
        6 => {
            let x = (if r.bool() { s.max() } else { s.min() }) as f64 / s.coef() as f64;
            near(r, x)
        }
        7 => {
            let x = 10f64.powi(r.below(80) as i32 - 40) * (1 + r.below(99)) as f64;
            near(r, if r.bool() { x } else { -x })
        }
        8 => {
            let x = 2f64.powi(r.below(300) as i32 - 150);
            near(r, if r.bool() { x } else { -x })
        }
        9 => {
            // integers
            let n = 1 + r.below(53) as u32;
            let x = (r.next() >> (64 - n)) as f64;
            (if r.bool() { x } else { -x }).to_bits()
        }
        10 => {
            // short decimals
            let m = r.below(10u64.pow(1 + r.below(17) as u32)) as f64;
            let x = m / 10f64.powi(r.below(20) as i32);
            (if r.bool() { x } else { -x }).to_bits()
        }
        11 => r.pick(&[
            0f64, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE,
            f64::EPSILON, 5e-324, -5e-324, 0.1, 0.5, 1.0, -1.0, 9007199254740992.0, 9007199254740993.0,
        ]).to_bits(),
        12 => {
            // few significant bits
            let k = r.below(53);
            (r.next() >> k << k & !(0x7ff << 52)) | (1023 - 70 + r.below(200)) << 52
        }
        _ => {
            // long runs of ones or zeros in the significand
            let k = r.below(52);
            let m = ((1u64 << k) - 1) << r.below(52 - k + 1);
            let e = 1023 - 80 + r.below(210);
            (m & ((1 << 52) - 1)) | e << 52 | (r.next() & 1 << 63)
        }
    }
}

fn digit_run(r: &Rng, n: u64, t: &mut String) {
    let kind = r.below(5);
    let d = r.below(10) as u8;
    for i in 0..n {
        let c = match kind {
            0 => d,
            1 => if i == 0 { 4 } else { 9 },
            2 => if i == 0 { 5 } else { 0 },
            3 => 9,
            _ => r.below(10) as u8,
        };
        t.push((b'0' + c) as char);
    }
}

/// Texts: canonical forms with extra digits, near-misses of the grammar, noise.
pub fn text(r: &Rng, s: &Subj) -> String {
    let v = value(r, s);
    let canon = crate::judge::canonical(v, s.prec);
    let mut t = String::new();
    match r.below(12) {
        0 => canon,
        1 | 2 => {
            // extend beyond the precision
            t.push_str(&canon);
            let f = canon.len() - 1 - canon.find('.').unwrap();
            for _ in f..s.prec as usize {
                t.push('0');
            }
            let head = r.pick(&["", "4", "5", "49", "50", "51", "499999999999999999999999999999999999999999", "500000000000000000000000000000000000000000001"]);
            t.push_str(head);
            if r.below(3) == 0 {
                let n = r.below(60);
                digit_run(r, n, &mut t);
            }
            t
        }
        3 => {
            // around the range edges, in every precision
            let e = edge(r, s);
            let m = Big::i(e).add(Big::i(r.small()));
            let d = crate::judge::dec(m, s.prec);
            t.push_str(&d);
            if !t.contains('.') && r.bool() {
                t.push('.');
                t.push_str(r.pick(&["0", "4", "5", "49999", "5000", "9"]));
            } else if t.contains('.') {
                t.push_str(r.pick(&["", "0", "4", "5", "49999", "5000", "9", "99999"]));
            }
            t
        }
        4 | 5 => {
            // random decimals
            if r.below(3) == 0 {
                t.push(r.pick(&['-', '+']));
            }
            let n = r.below(digits10(s) as u64 + 3);
            digit_run(r, n, &mut t);
            if r.below(4) > 0 {
                t.push('.');
                let n = r.below(s.prec as u64 + 4);
                digit_run(r, n, &mut t);
            }
            t
        }
        6 => {
            // decorations
            let mut c = canon;
            for _ in 0..1 + r.below(2) {
                let at = r.below(c.len() as u64 + 1) as usize;
                let at = (0..=at).rev().find(|&i| c.is_char_boundary(i)).unwrap();
                c.insert_str(at, r.pick(&[
                    "+", "-", ".", " ", "0", "00000000000000000000000000000000000000000000000", "_", ",", "e1", "E", "٣", "۵", "１", "½",
                    "\u{a0}", "\n", "\t", "\0", "−", "x", "’", "\u{2009}", "𝟗", "f", "nan", "inf", "5", "9",
                ]));
            }
            c
        }
        7 => {
            // dropped or swapped characters
            let mut b: Vec<char> = canon.chars().collect();
            for _ in 0..1 + r.below(2) {
                if !b.is_empty() {
                    let i = r.below(b.len() as u64) as usize;
                    if r.bool() {
                        b.remove(i);
                    } else {
                        let j = r.below(b.len() as u64) as usize;
                        b.swap(i, j);
                    }
                }
            }
            b.into_iter().collect()
        }
        8 => {
            // noise from a small alphabet
            let n = r.below(12);
            for _ in 0..n {
                t.push(r.pick(&['0', '1', '5', '9', '.', '-', '+', ' ', 'e', '_']));
            }
            t
        }
        9 => {
            for _ in 0..r.below(8) {
                let c = char::from_u32(r.below(0x11_0000) as u32).unwrap_or('7');
                t.push(if r.bool() { c } else { r.pick(&['0', '5', '.', '-']) });
            }
            t
        }
        10 => {
            // whitespace around, leading zeros
            t.push_str(r.pick(&[" ", "\t", "\n", "\u{2003}", "  \r\n"]));
            let neg = canon.starts_with('-');
            if neg {
                t.push('-');
            }
            for _ in 0..r.below(60) {
                t.push('0');
            }
            t.push_str(canon.trim_start_matches('-'));
            t.push_str(r.pick(&["", " ", "\n"]));
            t
        }
        _ => {
            // very long
            if r.bool() {
                t.push('-');
            }
            let n = r.below(if r.below(20) == 0 { 3000 } else { 90 });
            digit_run(r, n, &mut t);
            if r.bool() {
                t.push('.');
                let n = r.below(if r.below(20) == 0 { 3000 } else { 90 });
                digit_run(r, n, &mut t);
            }
            t
        }
    }
}

fn int_arg(r: &Rng, s: &Subj, kind: i32) -> i128 {
    let bits = [8, 8, 16, 16, 32, 32, 64, 64, 128, 128, 64, 64][kind as usize];
    let signed = kind % 2 == 0;
    let lim = s.max() / s.coef();
    let v = match r.below(6) {
        0 => r.i128(),
        1 => clamp(s, lim.saturating_add(r.small())),
        2 => clamp(s, (-lim).saturating_add(r.small())),
        3 => r.small(),
        4 => {
            let n = 1 + r.below(bits as u64) as u32;
            ((r.i128() as u128) >> (128 - n)) as i128
        }
        _ => r.pick(&[i128::MIN, i128::MAX, -1, 0, 1, u64::MAX as i128, i64::MIN as i128, 1 << 127 - 1, 128, 255, 32767, 32768, 65535, 65536]),
    };
    // The value as the type sees it, so that a case is what it says.
    match (bits, signed) {
        (128, _) => v,
        (_, true) => v << (128 - bits) >> (128 - bits),
        _ => (((v as u128) << (128 - bits)) >> (128 - bits)) as i128,
    }
}

/// The operations a property's monitor watches.
pub fn ops_of(prop: &str, s: &Subj) -> &'static [Op] {
    use Op::*;
    match (prop, s.int) {
        ("C01", false) => &[Rmul],
        ("C02", false) => &[RdivFF, RdivFF, RdivFI, RdivIF, Recip],
        ("C02", true) => &[IntRdiv],
        ("C03", false) => &[Cadd, Csub, CmulFI, CmulIF, Cneg, Abs],
        ("C03", true) => &[IntCadd, IntCsub, IntCmul],
        ("C04", false) => &[SatAdd, SatSub, SatMulFI, SatMulIF, SatRmul, DefSatAdd, DefSatSub, DefSatMul, DefSatRmul],
        ("C04", true) => &[IntSatAdd, IntSatSub, IntSatMul, DefSatAdd, DefSatSub, DefSatMul],
        ("C05", false) => &[Rsqrt],
        ("C06", false) => &[Integral, Floor, Ceil, Round],
        ("C07", false) => &[HalfSum],
        ("C08", false) => &[NextPow, RoundTz],
        ("C09", false) => &[FromDec, ToDec],
        ("C10", false) => &[Show, Debug, ShowParse, ShowParseExact, ShowPadded, ShowNested],
        ("C11", false) => &[Parse, ParseExact],
        ("C12", false) => &[FromF64, FromF64Neg, F64Round],
        ("C13", false) => &[ToF64, ToF64Pair, F64Round],
        ("C14", false) => &[FromInt],
        ("C22", false) => &[Cmp, Consts, Collect],
        ("C22", true) => &[Consts],
        _ => &[],
    }
}

/// Operands for one operation.
pub fn case(r: &Rng, si: u16, s: &Subj, op: Op) -> Case {
    use Op::*;
    let k = Case::new(op, si);
    match op {
        Rmul | SatRmul | DefSatRmul => {
            let (a, b) = mul_pair(r, s);
            k.a(a).b(b).m(r.mode())
        }
        RdivFF => {
            let (a, b) = div_pair(r, s, s.coef());
            k.a(a).b(b).m(r.mode())
        }
        RdivFI | IntRdiv => {
            let (a, b) = div_pair(r, s, 1);
            k.a(a).b(b).m(r.mode())
        }
        RdivIF => {
            let (a, b) = div_pair(r, s, s.coef());
            let a = match r.below(3) {
                0 => a,
                1 => a / s.coef(),
                _ => clamp(s, (s.max() / s.coef() * [1, -1][r.below(2) as usize]).saturating_add(r.small())),
            };
            k.a(a).b(b).m(r.mode())
        }
        Recip => {
            let a = match r.below(3) {
                0 => value(r, s),
                1 => div_pair(r, s, s.coef()).1,
                _ => muldiv(s, Big::i(s.coef()), Big::i(s.coef()), Big::i(nonzero(r, s))),
            };
            k.a(a).m(r.mode())
        }
        Cadd | Csub | IntCadd | IntCsub | SatAdd | SatSub | DefSatAdd | DefSatSub | IntSatAdd | IntSatSub => {
            let (a, b) = add_pair(r, s);
            k.a(a).b(b)
        }
        CmulFI | CmulIF | IntCmul | SatMulFI | SatMulIF | DefSatMul | IntSatMul => {
            let (a, b) = imul_pair(r, s);
            if r.bool() { k.a(a).b(b) } else { k.a(b).b(a) }
        }
        Rsqrt => {
            let v = value(r, s);
            let v = if r.below(20) == 0 { v } else { v.saturating_abs().min(s.max()) };
            k.a(v).m(r.mode())
        }
        Integral => k.a(value(r, s)).m(r.mode()),
        HalfSum => {
            let a = value(r, s);
            let b = match r.below(4) {
                0 => clamp(s, a.saturating_add(r.small())),
                1 => clamp(s, a.saturating_neg().saturating_add(r.small())),
                _ => value(r, s),
            };
            k.a(a).b(b).m(r.mode())
        }
        RoundTz => {
            let a = value(r, s);
            let b = match r.below(5) {
                0 => clamp(s, 10i128.pow(r.below(digits10(s) as u64 + 1) as u32)),
                1 => clamp(s, a.saturating_add(r.small())),
                2 => clamp(s, r.small()),
                _ => value(r, s),
            };
            k.a(a).b(b)
        }
        NextPow => {
            let a = if r.bool() {
                value(r, s)
            } else {
                let v = if r.bool() {
                    10i128.pow(r.below(digits10(s) as u64 + 1) as u32)
                } else {
                    1i128 << r.below(s.bits as u64 - 1)
                };
                clamp(s, (if r.bool() { v } else { -v }).saturating_add(r.below(3) as i128 - 1))
            };
            k.a(a)
        }
        FromDec => {
            let e = match r.below(8) {
                0 => r.next() as i32,
                1 => r.pick(&[i32::MIN, i32::MAX, 11, 10, 9, -(s.prec as i32), -(s.prec as i32) - 1, 0]),
                _ => r.below(s.prec as u64 + 11) as i32 - s.prec as i32,
            };
            let a = if r.bool() {
                value(r, s)
            } else {
                let up = (e.clamp(-(s.prec as i32), 10) + s.prec as i32) as u32;
                muldiv(s, Big::i(edge(r, s)), Big::u(1), crate::big::pow10(up)).saturating_add(r.small())
            };
            k.a(clamp(s, a)).c(e)
        }
        ToDec => {
            let low = -(s.prec as i32);
            let e = match r.below(8) {
                0 => r.pick(&[i32::MAX, 11, 10, 38, 39, 100]),
                1 => low.saturating_sub(r.below(3) as i32),
                _ => low + r.below(s.prec as u64 + 40) as i32,
            };
            k.a(value(r, s)).c(e)
        }
        Parse | ParseExact => k.s(text(r, s)),
        FromF64 | FromF64Neg => k.a(float(r, s) as i128),
        F64Round => {
            let v = value(r, s);
            let v = if r.bool() { v % 100_000_000_000_000 } else { v };
            k.a(v)
        }
        ToF64Pair => {
            let a = value(r, s);
            let b = match r.below(4) {
                0 => clamp(s, a.saturating_neg()),
                1 | 2 => clamp(s, a.saturating_add(r.small())),
                _ => value(r, s),
            };
            k.a(a).b(b)
        }
        FromInt => {
            let kind = r.below(12) as i32;
            k.c(kind).a(int_arg(r, s, kind))
        }
        Cmp => {
            let a = value(r, s);
            let b = match r.below(4) {
                0 => a,
                1 => clamp(s, a.saturating_add(r.small())),
                2 => clamp(s, a.saturating_neg()),
                _ => value(r, s),
            };
            k.a(a).b(b)
        }
        Collect => k.a(r.next() as i64 as i128).c(r.below(if r.below(20) == 0 { 300 } else { 40 }) as i32),
        ShowNested => k.a(value(r, s)).b(value(r, s)).c(r.below(64) as i32),
        ShowPadded => k.a(value(r, s)).c(r.below(4) as i32),
        _ => k.a(value(r, s)),
    }
}

/// A fixed list of extreme operands, all pairs of which are always tried.
pub fn extremes(s: &Subj) -> Vec<i128> {
    let c = s.coef();
    let (lo, hi) = (s.min(), s.max());
    let mut v = vec![
        0, 1, -1, 2, -2, 3, -3, 7, 10, -10, lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, lo / 2, hi / 2, hi / 2 + 1, lo / 2 - 1,
        c, -c, c.saturating_add(1), c - 1, -c - 1, 1 - c, c / 2, -(c / 2), c / 2 + 1, c / 2 - 1, c / 10, hi / 10, hi / c * c,
        -(hi / c * c), hi / c, lo / c, c.saturating_mul(5), c.saturating_mul(-5),
    ];
    let mut root = 1i128;
    while root < 1 << (s.bits / 2 - 1) {
        root <<= 1;
    }
    v.extend([root, root - 1, -root, root / 3 * 2]);
    v.iter_mut().for_each(|x| *x = clamp(s, *x));
    v.sort();
    v.dedup();
    v
}

/// Every systematic case of an operation for a type.
pub fn corpus(si: u16, s: &Subj, op: Op, f: &mut dyn FnMut(Case)) {
    use Op::*;
    let ex = extremes(s);
    let k = Case::new(op, si);
    match op {
        Rmul | SatRmul | DefSatRmul | RdivFF | RdivFI | RdivIF | IntRdiv | HalfSum => {
            for &a in &ex {
                for &b in &ex {
                    for m in MODES {
                        f(k.clone().a(a).b(b).m(m));
                    }
                }
            }
        }
        Cadd | Csub | IntCadd | IntCsub | SatAdd | SatSub | DefSatAdd | DefSatSub | IntSatAdd | IntSatSub | CmulFI
        | CmulIF | IntCmul | SatMulFI | SatMulIF | DefSatMul | IntSatMul | RoundTz | ToF64Pair | Cmp => {
            for &a in &ex {
                for &b in &ex {
                    f(k.clone().a(a).b(b));
                }
            }
        }
        Recip | Rsqrt | Integral => {
            for a in unary(s) {
                for m in MODES {
                    f(k.clone().a(a).m(m));
                }
            }
        }
        FromDec | ToDec => {
            for &a in &ex {
                for e in -(s.prec as i32) - 2..14 {
                    f(k.clone().a(a).c(e));
                }
                f(k.clone().a(a).c(i32::MAX));
                f(k.clone().a(a).c(i32::MIN));
                f(k.clone().a(a).c(40));
            }
            for a in unary(s) {
                f(k.clone().a(a).c(-(s.prec as i32)));
                f(k.clone().a(a).c(39));
                f(k.clone().a(a).c(0));
            }
        }
        Parse | ParseExact => {
            for &a in &ex {
                let canon = crate::judge::canonical(a, s.prec);
                let trimmed = canon.strip_suffix(".0").unwrap_or(&canon).to_owned();
                for t in [canon.clone(), trimmed, format!("+{canon}"), format!(" {canon} "), format!("{canon}."), format!("0{canon}")] {
                    f(k.clone().s(t));
                }
                // every rounding position
                let p = s.prec as usize;
                let full = crate::judge::dec(Big::i(a), s.prec);
                let full = if p == 0 { full + "." } else { full };
                for tail in ["0", "4", "5", "9", "49", "50", "51", "499", "5000000000000000000000000000000000000000001"] {
                    f(k.clone().s(format!("{full}{tail}")));
                }
            }
            for t in ["", " ", "+", "-", ".", "-.", "+.", "0", "-0", "+0", "0.0", "-0.0", "5.", ".5", "-.5", "+-1", "--1", "1.-5", "1.+5", "1..5",
                "1.5.5", "1e5", "1E5", "0x10", "1_000", "1,5", "nan", "inf", "٣.٣", "1.٣", "１.0", "1 .5", "1. 5", "1.5f", "\u{feff}1", "−1", "1.5\0"] {
                f(k.clone().s(t.to_owned()));
            }
        }
        FromF64 | FromF64Neg => {
            for e in 0..=0x7ffu64 {
                for m in [0u64, 1, 1 << 51, (1 << 52) - 1, 0x5555555555555, 0xAAAAAAAAAAAAA] {
                    f(k.clone().a((e << 52 | m) as i128));
                    f(k.clone().a((1 << 63 | e << 52 | m) as u64 as i128));
                }
            }
        }
        Collect => {
            for seed in 0..40 {
                f(k.clone().a(seed).c(60));
            }
        }
        FromInt => {
            for kind in 0..12 {
                for &a in &ex {
                    f(k.clone().c(kind).a(a));
                }
                for a in [i128::MIN, i128::MAX, -1, u64::MAX as i128, i64::MAX as i128, i64::MIN as i128, 127, 128, 255, 256] {
                    f(k.clone().c(kind).a(a));
                }
            }
        }
        _ => {
            for a in unary(s) {
                f(k.clone().a(a));
            }
        }
    }
}

/// Extremes, and every power of two and ten with its neighbours.
pub fn unary(s: &Subj) -> Vec<i128> {
    let mut v = extremes(s);
    for i in 0..s.bits - 1 {
        for d in -2..=2 {
            v.push((1i128 << i).saturating_add(d));
            v.push((-(1i128 << i)).saturating_add(d));
        }
    }
    let mut p = 1i128;
    while p <= s.max() / 10 {
        for d in -2..=2 {
            for n in [1, 2, 5, 9] {
                let x = (p * n).saturating_add(d);
                v.push(x);
                v.push(-x);
            }
        }
        p *= 10;
    }
    for d in -2..=2 {
        v.push(clamp(s, p.saturating_add(d)));
        v.push(clamp(s, (-p).saturating_add(d)));
    }
    for x in v.iter_mut() {
        *x = clamp(s, *x);
    }
    v.sort();
    v.dedup();
    v
}

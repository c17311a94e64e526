//! Exact signed integers of up to 512 bits: the arithmetic of every oracle.
//! Sign and magnitude; overflow of the 512 bits aborts the monitor (never reached by the cases).
use std::cmp::Ordering;

const N: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Big {
    pub neg: bool,
    m: [u64; N],
}

fn mcmp(a: &[u64; N], b: &[u64; N]) -> Ordering {
    for i in (0..N).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}

fn madd(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
    let mut r = [0; N];
    let mut c = 0u128;
    for i in 0..N {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    assert!(c == 0, "oracle integer overflow");
    r
}

fn msub(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
    let mut r = [0; N];
    let mut c = false;
    for i in 0..N {
        let (t, c1) = a[i].overflowing_sub(b[i]);
        let (t, c2) = t.overflowing_sub(c as u64);
        r[i] = t;
        c = c1 | c2;
    }
    debug_assert!(!c);
    r
}

impl Big {
    pub const ZERO: Big = Big { neg: false, m: [0; N] };

    pub fn u(x: u128) -> Big {
        let mut m = [0; N];
        m[0] = x as u64;
        m[1] = (x >> 64) as u64;
        Big { neg: false, m }
    }

    pub fn i(x: i128) -> Big {
        let mut r = Big::u(x.unsigned_abs());
        r.neg = x < 0;
        r
    }

    fn norm(mut self) -> Big {
        if self.m == [0; N] {
            self.neg = false;
        }
        self
    }

    pub fn is_zero(&self) -> bool {
        self.m == [0; N]
    }

    pub fn sign(&self) -> i32 {
        if self.is_zero() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }

    pub fn neg(self) -> Big {
        Big { neg: !self.neg, m: self.m }.norm()
    }

    pub fn abs(self) -> Big {
        Big { neg: false, m: self.m }
    }

    pub fn add(self, o: Big) -> Big {
        if self.neg == o.neg {
            return Big { neg: self.neg, m: madd(&self.m, &o.m) };
        }
        match mcmp(&self.m, &o.m) {
            Ordering::Less => Big { neg: o.neg, m: msub(&o.m, &self.m) },
            _ => Big { neg: self.neg, m: msub(&self.m, &o.m) }.norm(),
        }
    }

    pub fn sub(self, o: Big) -> Big {
        self.add(o.neg())
    }

    pub fn mul(self, o: Big) -> Big {
        let mut r = [0u64; N];
        for i in 0..N {
            if self.m[i] == 0 {
                continue;
            }
            let mut c = 0u128;
            for j in 0..N {
                if i + j >= N {
                    assert!(o.m[j] == 0 && c == 0, "oracle integer overflow");
                    continue;
                }
                let t = self.m[i] as u128 * o.m[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            assert!(c == 0, "oracle integer overflow");
        }
        Big { neg: self.neg != o.neg, m: r }.norm()
    }

    pub fn shl(self, n: u32) -> Big {
        let mut r = self;
        let mut n = n;
        while n > 0 {
            let s = n.min(100);
            r = r.mul(Big::u(1u128 << s));
            n -= s;
        }
        r
    }

    pub fn bits(&self) -> u32 {
        for i in (0..N).rev() {
            if self.m[i] != 0 {
                return (i as u32) * 64 + 64 - self.m[i].leading_zeros();
            }
        }
        0
    }

    fn bit(&self, i: u32) -> bool {
        self.m[(i / 64) as usize] >> (i % 64) & 1 == 1
    }

    /// Floor division by a positive divisor, by long division on bits: (quotient, remainder).
    pub fn div_floor(self, d: Big) -> (Big, Big) {
        assert!(d.sign() > 0);
        let mut q = [0u64; N];
        let mut r = Big::ZERO;
        for i in (0..self.bits()).rev() {
            r = r.add(r);
            if self.bit(i) {
                r.m[0] |= 1;
            }
            if mcmp(&r.m, &d.m) != Ordering::Less {
                r.m = msub(&r.m, &d.m);
                q[(i / 64) as usize] |= 1 << (i % 64);
            }
        }
        let q = Big { neg: self.neg, m: q }.norm();
        if self.neg && !r.is_zero() {
            (q.sub(Big::u(1)), d.sub(r))
        } else {
            (q, r)
        }
    }

    pub fn to_i128(self) -> Option<i128> {
        if self.m[2..].iter().any(|&x| x != 0) {
            return None;
        }
        let v = self.m[0] as u128 | (self.m[1] as u128) << 64;
        if self.neg {
            (v <= 1 << 127).then(|| (v as i128).wrapping_neg())
        } else {
            (v < 1 << 127).then_some(v as i128)
        }
    }
}

impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => mcmp(&self.m, &o.m),
            (true, true) => mcmp(&o.m, &self.m),
        }
    }
}

pub fn pow10(p: u32) -> Big {
    let mut r = Big::u(1);
    for _ in 0..p {
        r = r.mul(Big::u(10));
    }
    r
}

/// Self-test of the oracle arithmetic against identities and primitive arithmetic; run at start-up.
pub fn self_test() {
    let mut x = 0x9e3779b97f4a7c15u64;
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        let a = x;
        x = x.wrapping_mul(0xd1342543de82ef95).wrapping_add(1);
        ((a as u128) << 64 | x as u128) as i128 >> (a % 128)
    };
    for _ in 0..2000 {
        let (a, b, c) = (next(), next(), next());
        let (ba, bb, bc) = (Big::i(a), Big::i(b), Big::i(c));
        assert!(ba.add(bb).mul(bc) == ba.mul(bc).add(bb.mul(bc)));
        assert!(ba.sub(bb).add(bb) == ba);
        assert!(ba.to_i128() == Some(a));
        assert!(ba.cmp(&bb) == a.cmp(&b));
        let (s, t) = ((a >> 66) as i64 as i128, (b >> 70) as i64 as i128);
        assert!(Big::i(s).mul(Big::i(t)).to_i128() == Some(s * t));
        assert!(Big::i(s).sub(Big::i(t)).to_i128() == Some(s - t));
        if c != 0 {
            let d = bc.abs();
            let n = ba.mul(bb);
            let (q, r) = n.div_floor(d);
            assert!(q.mul(d).add(r) == n && r >= Big::ZERO && r < d);
        }
    }
}

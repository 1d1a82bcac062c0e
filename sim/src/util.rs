//! Deterministic randomness, hashing and exact arithmetic.
use cosmwasm_std::Uint512;
use std::fmt;

/// SplitMix64-seeded xoshiro256**.  The only source of randomness in the simulator.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)],
        }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn range128(&mut self, lo: u128, hi: u128) -> u128 {
        if hi <= lo {
            return lo;
        }
        let span = hi - lo;
        if span < u64::MAX as u128 {
            return lo + self.below(span as u64 + 1) as u128;
        }
        let r = ((self.next() as u128) << 64) | self.next() as u128;
        lo + if span == u128::MAX { r } else { r % (span + 1) }
    }
    /// log-uniform in lo..=hi
    pub fn log_range(&mut self, lo: u128, hi: u128) -> u128 {
        if hi <= lo {
            return lo;
        }
        let lb = 128 - lo.max(1).leading_zeros() as u64;
        let hb = 128 - hi.leading_zeros() as u64;
        let b = self.range(lb, hb);
        let l = (1u128 << (b - 1)).max(lo);
        let h = if b >= 128 { u128::MAX } else { (1u128 << b) - 1 }.min(hi);
        self.range128(l.min(h), h)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut r = self.below(t.max(1));
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= *x;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// FNV-1a, 64 bit: stable across processes.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Fnv {
    pub fn add(&mut self, b: &[u8]) {
        let mut h = self.0;
        for x in b {
            h ^= *x as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
        self.0 = h;
    }
    pub fn num(&mut self, n: u64) {
        self.add(&n.to_le_bytes())
    }
}
pub fn hash(b: &[u8]) -> u64 {
    let mut f = Fnv::default();
    f.add(b);
    f.0
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0x9E3779B97F4A7C15);
    splitmix(&mut x)
}

pub const ONE: u128 = 1_000_000_000_000_000_000;

/// floor(a*b/c) in 512 bits
/// a * b as (high, low)
fn wide(a: u128, b: u128) -> (u128, u128) {
    const M: u128 = (1 << 64) - 1;
    let (a1, a0, b1, b0) = (a >> 64, a & M, b >> 64, b & M);
    let ll = a0 * b0;
    let lh = a0 * b1;
    let hl = a1 * b0;
    let mid = (ll >> 64) + (lh & M) + (hl & M);
    (a1 * b1 + (lh >> 64) + (hl >> 64) + (mid >> 64), (mid << 64) | (ll & M))
}
/// quotient and remainder of a * b / c; panics when the quotient needs more than 128 bits
fn muldivrem(a: u128, b: u128, c: u128) -> (u128, u128) {
    if let Some(p) = a.checked_mul(b) {
        return (p / c, p % c);
    }
    let (mut r, lo) = wide(a, b);
    assert!(r < c, "quotient too large");
    let mut q = 0u128;
    for i in (0..128).rev() {
        let top = r >> 127;
        r = (r << 1) | ((lo >> i) & 1);
        q <<= 1;
        if top == 1 || r >= c {
            r = r.wrapping_sub(c);
            q |= 1;
        }
    }
    (q, r)
}
pub fn muldiv(a: u128, b: u128, c: u128) -> u128 {
    muldivrem(a, b, c).0
}
pub fn muldiv_ceil(a: u128, b: u128, c: u128) -> u128 {
    let (q, r) = muldivrem(a, b, c);
    q + (r > 0) as u128
}
pub fn to128(r: Uint512) -> u128 {
    let b = r.to_be_bytes();
    let mut o = [0u8; 16];
    o.copy_from_slice(&b[48..]);
    if b[..48].iter().any(|x| *x != 0) {
        u128::MAX
    } else {
        u128::from_be_bytes(o)
    }
}

/// 18-decimal fixed point number, as atomics.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
pub struct Dec(pub u128);
impl Dec {
    pub fn one() -> Self {
        Dec(ONE)
    }
    pub fn parse(s: &str) -> Option<Dec> {
        let (i, f) = match s.split_once('.') {
            Some((i, f)) => (i, f),
            None => (s, ""),
        };
        if f.len() > 18 {
            return None;
        }
        let i: u128 = i.parse().ok()?;
        let mut fs = f.to_string();
        while fs.len() < 18 {
            fs.push('0');
        }
        let f: u128 = fs.parse().ok()?;
        Some(Dec(i.checked_mul(ONE)?.checked_add(f)?))
    }
    /// floor(self * n)
    pub fn of(self, n: u128) -> u128 {
        muldiv(n, self.0, ONE)
    }
    /// floor18(a/b)
    pub fn ratio(a: u128, b: u128) -> Dec {
        Dec(muldiv(a, ONE, b))
    }
    pub fn ratio_up(a: u128, b: u128) -> Dec {
        Dec(muldiv_ceil(a, ONE, b))
    }
    pub fn is_zero(self) -> bool {
        self.0 == 0
    }
}
impl fmt::Display for Dec {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let i = self.0 / ONE;
        let r = self.0 % ONE;
        if r == 0 {
            write!(f, "{i}")
        } else {
            let s = format!("{r:018}");
            write!(f, "{i}.{}", s.trim_end_matches('0'))
        }
    }
}
impl fmt::Debug for Dec {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self}")
    }
}
impl serde::Serialize for Dec {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.to_string())
    }
}
impl<'de> serde::Deserialize<'de> for Dec {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Dec::parse(&s).ok_or_else(|| serde::de::Error::custom("dec"))
    }
}

/// (1+rate)^n - 1 with 36 decimals, rounded down; None when it exceeds ~1e20.
pub fn pow_minus_one_36(rate: Dec, n: u64) -> Option<Uint512> {
    let s36 = Uint512::from(ONE) * Uint512::from(ONE);
    let cap = s36 * Uint512::from(1_000_000_000_000_000_000u128) * Uint512::from(100u128);
    let mut base = s36 + Uint512::from(rate.0) * Uint512::from(ONE);
    let mut acc = s36;
    let mut e = n;
    while e > 0 {
        if e & 1 == 1 {
            acc = acc * base / s36;
            if acc > cap {
                return None;
            }
        }
        e >>= 1;
        if e > 0 {
            base = base * base / s36;
            if base > cap {
                return None;
            }
        }
    }
    Some(acc - s36)
}

/// u128 as a JSON string (serde_json's Value cannot hold large integers)
pub mod u128s {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(n: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&n.to_string())
    }
    pub fn deserialize<'a, D: Deserializer<'a>>(d: D) -> Result<u128, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}

//! Reference arithmetic: plain integers modulo a prime, chord-and-tangent, dense matrices.
use super::fungible::{burn, e20, mint};
use crate::abi::*;
use crate::c::algebra::{decode, key, params, Ins, REGS};
use crate::core::*;
use crate::model::*;
use alloy_primitives::{Address, Uint, U256, U512};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;

type Big = Uint<1024, 16>;
pub fn wide(lo: U256, hi: U256) -> U512 {
    let (a, b) = (lo.as_limbs(), hi.as_limbs());
    U512::from_limbs([a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]])
}
pub fn halves(x: U512) -> [U256; 2] {
    let l = x.as_limbs();
    [U256::from_limbs([l[0], l[1], l[2], l[3]]), U256::from_limbs([l[4], l[5], l[6], l[7]])]
}
fn hex(s: &str) -> U512 {
    U512::from_str_radix(s, 16).unwrap()
}
fn low(w: &[U256; 2]) -> u128 {
    let l = w[0].as_limbs();
    l[0] as u128 | (l[1] as u128) << 64
}
fn bits(v: &[bool]) -> U256 {
    U256::from(v.iter().enumerate().map(|(i, x)| (*x as u64) << i).sum::<u64>())
}

// ---------------------------------------------------------------- integers
pub const INTS: [usize; 5] = [1, 2, 4, 6, 7];
fn big(x: U512) -> Big {
    Big::from(x)
}
fn ints(n: usize, r: &mut [U512; REGS], prog: &[Ins], out: &mut Vec<U256>) -> Option<()> {
    let w = 64 * n;
    let m: U512 = (U512::from(1) << w) - U512::from(1);
    let cut = |x: Big| -> U512 { U512::from_limbs_slice(&(x & big(m)).as_limbs()[..8]) };
    for i in prog {
        let (a, b) = (r[i.a], r[i.b]);
        match i.op {
            0 => r[i.d] = wide(i.w[0], i.w[1]) & m,
            1 => {
                let s = big(a) + big(b);
                out.push(U256::from((s > big(m)) as u64));
                r[i.d] = cut(s);
            }
            2 => {
                out.push(U256::from((a < b) as u64));
                r[i.d] = cut(big(a) + big(m) + Big::from(1) - big(b));
            }
            3 => {
                let s = big(a) * big(b);
                out.extend(halves(cut(s >> w)));
                r[i.d] = cut(s);
            }
            4 => {
                let s = if i.how % 2 == 0 { big(a) * big(b) } else { big(a) + big(b) };
                if s > big(m) {
                    return None;
                }
                r[i.d] = cut(s);
            }
            5 => {
                let s = big(a) * Big::from(2);
                out.push(U256::from((s > big(m)) as u64));
                r[i.d] = cut(s);
            }
            6 => r[i.d] = a >> 1,
            7 => out.push(bits(&[a >= b, a > b, a <= b, a < b, a == b, a != b, a == b, a < b, a > b])),
            8 => {
                out.push(U256::from(a.bit_len()));
                let at = (low(&i.w) % 700) as usize;
                let odd = a.bit(0);
                out.push(bits(&[at < 512 && a.bit(at), odd, !odd, a.is_zero(), a.is_zero()]));
            }
            9 => {
                r[i.d] = match i.how % 8 {
                    0 | 1 => a & b,
                    2 | 3 => a | b,
                    4 | 5 => a ^ b,
                    6 => m ^ a,
                    // ((a ^ b) | b) & a
                    _ => (a | b) & a,
                }
            }
            10 => {
                out.push(U256::from(if i.how % 2 == 0 { a.bit_len() } else { w }));
                r[i.d] = a;
            }
            11 => {
                if b.is_zero() {
                    return None;
                }
                r[i.d] = cut((big(a) + (big(r[i.d]) << w)) % big(b));
            }
            12 => {
                let x = low(&i.w);
                r[i.d] = U512::from(match i.how % 6 {
                    0 => x as u8 as u128,
                    1 => x as u16 as u128,
                    2 => x as u32 as u128,
                    3 | 4 => x as u64 as u128,
                    _ if n == 1 => x as u64 as u128,
                    _ => x,
                });
            }
            13 => {
                r[i.d] = if i.how % 2 == 0 {
                    a
                } else if n >= 4 {
                    wide(i.w[0], U256::ZERO)
                } else {
                    U512::from(i.w[0].as_limbs()[0])
                }
            }
            _ => out.extend(halves(a)),
        }
    }
    Some(())
}

// ------------------------------------------------------------------ fields
/// modulus and number of limbs of each field
pub fn fields() -> &'static Vec<(U512, usize)> {
    static S: OnceLock<Vec<(U512, usize)>> = OnceLock::new();
    S.get_or_init(|| {
        let d = |s: &str| U512::from_str_radix(s, 10).unwrap();
        vec![
            (d("21888242871839275222246405745257275088548364400416034343698204186575808495617"), 4),
            (d("28948022309329048855892746252171976963363056481941560715954676764349967630337"), 4),
            (d("28948022309329048855892746252171976963363056481941647379679742748393362948097"), 4),
            (d("52435875175126190479447740508185965837690552500527637822603658699938581184513"), 4),
            (d("18446744069414584321"), 1),
            (d("2013265921"), 1),
            (d("17"), 1),
            (d("251"), 1),
            (hex("7FFFFFFFFFFFFFE7"), 1),
            (hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFF61"), 2),
            (hex("7FFFFFFFFFFFFFFEFFFFFFFFFFFFFFDF"), 2),
            (hex("7FFFFFFFFFFFFFFFFFFFFFFEFFFFFFFFFFFFFFFFFFFFFF19"), 3),
            (hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F"), 4),
            (hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"), 4),
            (hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF3B"), 5),
            (hex("1A0111EA397FE69A4B1BA7B6434BACD764774B84F38512BF6730D2A0F6B0F6241EABFFFEB153FFFFB9FEFFFFFFFFAAAB"), 6),
            (hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF35"), 7),
        ]
    })
}
fn signed(x: i128, p: U512) -> U512 {
    let v = U512::from(x.unsigned_abs()) % p;
    if x < 0 && !v.is_zero() {
        p - v
    } else {
        v
    }
}
fn field(p: U512, limbs: usize, r: &mut [U512; REGS], prog: &[Ins], out: &mut Vec<U256>) -> Option<()> {
    let mask = (U512::from(1) << (64 * limbs)) - U512::from(1);
    let neg = |x: U512| if x.is_zero() { x } else { p - x };
    for i in prog {
        let (a, b) = (r[i.a], r[i.b]);
        match i.op {
            0 => r[i.d] = (wide(i.w[0], i.w[1]) & mask) % p,
            1 => r[i.d] = a.add_mod(b, p),
            2 => r[i.d] = a.add_mod(neg(b), p),
            3 => r[i.d] = a.mul_mod(b, p),
            4 => r[i.d] = a.mul_mod(b.inv_mod(p)?, p),
            5 => r[i.d] = neg(a),
            6 => r[i.d] = a.add_mod(a, p),
            7 => r[i.d] = a.mul_mod(a, p),
            8 => r[i.d] = a.inv_mod(p)?,
            9 => {
                let e = match i.how % 4 {
                    0 => U512::from(low(&i.w) as u8),
                    1 => U512::from(low(&i.w) as u64),
                    2 => U512::from(low(&i.w)),
                    _ => wide(i.w[0], U256::ZERO),
                };
                r[i.d] = a.pow_mod(e, p);
            }
            10 => out.push(bits(&[a == b, a < b, a > b, a >= b, a <= b])),
            11 => {
                let (z, o) = (a.is_zero(), a == U512::from(1));
                out.push(bits(&[z, o, z, o]));
            }
            12 => {
                let x = low(&i.w);
                r[i.d] = match i.how % 11 {
                    0 => U512::from(x as u8) % p,
                    1 => U512::from(x as u16) % p,
                    2 => U512::from(x as u32) % p,
                    3 => U512::from(x as u64) % p,
                    4 => U512::from(if limbs > 1 { x } else { x as u64 as u128 }) % p,
                    5 => signed(x as i8 as i128, p),
                    6 => signed(x as i16 as i128, p),
                    7 => signed(x as i32 as i128, p),
                    8 => signed(x as i64 as i128, p),
                    9 => signed(if limbs > 1 { x as i128 } else { x as i64 as i128 }, p),
                    _ => U512::from(x & 1),
                }
            }
            13 => {
                for x in r.iter_mut() {
                    if !x.is_zero() {
                        *x = x.inv_mod(p)?;
                    }
                }
            }
            14 => r[i.d] = (0..3).fold(U512::ZERO, |s, j| s.add_mod(r[j].mul_mod(r[j + 3], p), p)),
            _ => out.extend(halves(a)),
        }
    }
    Some(())
}

// ------------------------------------------------------------------ curves
pub struct Cv {
    pub p: U256,
    pub a: U256,
    pub b: U256,
    /// order of the subgroup
    pub n: U256,
    pub h: u64,
    pub g: (U256, U256),
    pub limbs: usize,
    pub rlimbs: usize,
}
pub type Pt = Option<(U256, U256)>;
impl Cv {
    fn mul(&self, x: U256, y: U256) -> U256 {
        x.mul_mod(y, self.p)
    }
    fn sub(&self, x: U256, y: U256) -> U256 {
        x.add_mod(if y.is_zero() { y } else { self.p - y }, self.p)
    }
    pub fn on(&self, x: U256, y: U256) -> bool {
        let r = self.mul(self.mul(x, x), x).add_mod(self.mul(self.a, x), self.p).add_mod(self.b, self.p);
        self.mul(y, y) == r
    }
    pub fn neg(&self, q: Pt) -> Pt {
        q.map(|(x, y)| (x, self.sub(U256::ZERO, y)))
    }
    pub fn add(&self, q: Pt, t: Pt) -> Pt {
        let ((x1, y1), (x2, y2)) = match (q, t) {
            (None, t) => return t,
            (q, None) => return q,
            (Some(q), Some(t)) => (q, t),
        };
        let (num, den) = if x1 == x2 {
            if y1 != y2 || y1.is_zero() {
                return None;
            }
            let s = self.mul(x1, x1);
            (s.add_mod(s, self.p).add_mod(s, self.p).add_mod(self.a, self.p), y1.add_mod(y1, self.p))
        } else {
            (self.sub(y2, y1), self.sub(x2, x1))
        };
        let l = self.mul(num, den.inv_mod(self.p).expect("prime"));
        let x = self.sub(self.sub(self.mul(l, l), x1), x2);
        Some((x, self.sub(self.mul(l, self.sub(x1, x)), y1)))
    }
    pub fn times(&self, k: U256, q: Pt) -> Pt {
        let mut r = None;
        for i in (0..k.bit_len()).rev() {
            r = self.add(r, r);
            if k.bit(i) {
                r = self.add(r, q);
            }
        }
        r
    }
    fn member(&self, q: Pt) -> bool {
        self.times(self.n, q).is_none()
    }
}
pub fn curves() -> &'static Vec<Cv> {
    static S: OnceLock<Vec<Cv>> = OnceLock::new();
    S.get_or_init(|| {
        let h = |s: &str| U256::from_str_radix(s, 16).unwrap();
        let u = |x: u64| U256::from(x);
        let tiny = |p, a, b, n, hh, x, y| Cv { p: u(p), a: u(a), b: u(b), n: u(n), h: hh, g: (u(x), u(y)), limbs: 1, rlimbs: 1 };
        let f = fields();
        let lo = |i: usize| halves(f[i].0)[0];
        let p256 = h("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF");
        vec![
            Cv {
                p: lo(12),
                a: u(0),
                b: u(7),
                n: lo(13),
                h: 1,
                g: (h("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"), h("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")),
                limbs: 4,
                rlimbs: 4,
            },
            Cv {
                p: p256,
                a: p256 - u(3),
                b: h("5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B"),
                n: h("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551"),
                h: 1,
                g: (h("6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296"), h("4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5")),
                limbs: 4,
                rlimbs: 4,
            },
            Cv { p: lo(1), a: u(0), b: u(5), n: lo(2), h: 1, g: (lo(1) - u(1), u(2)), limbs: 4, rlimbs: 4 },
            tiny(251, 1, 51, 59, 4, 6, 111),
            tiny(103, 0, 3, 31, 4, 72, 44),
            tiny(241, 1, 5, 131, 2, 229, 117),
            tiny(241, 0, 13, 211, 1, 3, 47),
            tiny(10007, 1, 17, 829, 12, 5370, 7380),
        ]
    })
}
fn cutw(x: U256, limbs: usize) -> U256 {
    if limbs >= 4 {
        x
    } else {
        x & ((U256::from(1) << (64 * limbs)) - U256::from(1))
    }
}
fn curve(c: &Cv, r: &mut [Pt; REGS], prog: &[Ins], out: &mut Vec<U256>) -> Option<()> {
    let el = |x: U256| cutw(x, c.limbs) % c.p;
    for i in prog {
        let (a, b) = (r[i.a], r[i.b]);
        match i.op {
            0 => r[i.d] = Some(c.g),
            1 => r[i.d] = c.add(a, b),
            2 => r[i.d] = c.add(a, c.neg(b)),
            3 => r[i.d] = c.add(a, a),
            4 => r[i.d] = c.neg(a),
            5 => {
                let k = cutw(i.w[0], c.rlimbs) % c.n;
                let k = match i.how % 7 {
                    0 | 1 | 6 => k,
                    2 | 3 => i.w[0],
                    4 => U256::from(low(&i.w) as u64),
                    _ => U256::from(low(&i.w)),
                };
                r[i.d] = c.times(k, a);
            }
            6 => {
                let e = a == b;
                out.push(bits(&[e, e, e, e, true]));
            }
            7 => {
                let z = a.is_none();
                out.push(bits(&[z, z, z, z, z, z]));
            }
            8 => {}
            9 => r[i.d] = None,
            10 => {
                if !el(i.w[0]).is_zero() && a.is_some() {
                    r[i.d] = a;
                }
            }
            11 => {
                let (x, y) = (el(i.w[0]), el(i.w[1]));
                if !c.on(x, y) || !c.member(Some((x, y))) {
                    return None;
                }
                r[i.d] = Some((x, y));
            }
            12 => {
                let (x, y) = (el(i.w[0]), el(i.w[1]));
                let on = c.on(x, y);
                out.push(U256::from(on as u64));
                if on {
                    out.push(U256::from(c.member(Some((x, y))) as u64));
                    r[i.d] = Some((x, y));
                }
            }
            13 => {
                let k = U256::from(c.h);
                r[i.d] = c.times(if i.how % 4 == 3 { k.inv_mod(c.n)? } else { k }, a);
            }
            _ => match a {
                None => out.extend([U256::ZERO; 3]),
                Some((x, y)) => out.extend([x, y, U256::from(1)]),
            },
        }
    }
    Some(())
}

// ------------------------------------------------------------------ sponge
pub struct Dom {
    pub p: U256,
    limbs: usize,
    pub t: usize,
    pub cap: usize,
    d: u64,
    rf: usize,
    rp: usize,
    rc: Vec<Vec<U256>>,
    ext: Vec<Vec<U256>>,
    int: Vec<Vec<U256>>,
}
impl Dom {
    fn dot(&self, m: &[Vec<U256>], s: &[U256]) -> Vec<U256> {
        m.iter().map(|r| r.iter().zip(s).fold(U256::ZERO, |x, (a, b)| x.add_mod(a.mul_mod(*b, self.p), self.p))).collect()
    }
    fn sbox(&self, x: U256) -> U256 {
        x.pow_mod(U256::from(self.d), self.p)
    }
    fn permute(&self, s: &mut Vec<U256>) {
        *s = self.dot(&self.ext, s);
        for k in 0..self.rf + self.rp {
            let full = k < self.rf / 2 || k >= self.rf / 2 + self.rp;
            if full {
                for (x, c) in s.iter_mut().zip(&self.rc[k]) {
                    *x = self.sbox(x.add_mod(*c, self.p));
                }
                *s = self.dot(&self.ext, s);
            } else {
                s[0] = self.sbox(s[0].add_mod(self.rc[k][0], self.p));
                *s = self.dot(&self.int, s);
            }
        }
    }
}
pub const DOMS: usize = 14;
pub fn doms() -> &'static Vec<Dom> {
    static S: OnceLock<Vec<Dom>> = OnceLock::new();
    S.get_or_init(|| {
        // field, width, capacity, degree, rounds
        let spec: [(usize, usize, usize, u64, usize, usize); DOMS] = [
            (0, 3, 1, 5, 8, 56),
            (1, 3, 1, 5, 8, 56),
            (2, 3, 1, 5, 8, 56),
            (3, 2, 1, 5, 8, 56),
            (3, 3, 1, 5, 8, 56),
            (3, 4, 1, 5, 8, 56),
            (4, 12, 4, 7, 8, 22),
            (5, 24, 4, 7, 8, 21),
            (5, 2, 1, 7, 4, 3),
            (5, 3, 2, 7, 4, 3),
            (5, 4, 2, 7, 4, 3),
            (5, 8, 3, 7, 4, 3),
            (5, 16, 8, 7, 4, 3),
            (5, 20, 5, 7, 4, 3),
        ];
        spec.iter()
            .enumerate()
            .map(|(i, (f, t, cap, d, rf, rp))| {
                let (diag, rc) = params(i);
                let (p, limbs) = fields()[*f];
                let u = |x: u64| U256::from(x);
                const M4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
                let ext = (0..*t)
                    .map(|r| {
                        (0..*t)
                            .map(|c| match t {
                                2 | 3 => u(1 + (r == c) as u64),
                                4 => u(M4[r][c]),
                                _ => u(M4[r % 4][c % 4] * (1 + (r / 4 == c / 4) as u64)),
                            })
                            .collect()
                    })
                    .collect();
                let int = (0..*t)
                    .map(|r| {
                        (0..*t)
                            .map(|c| {
                                if r != c {
                                    return u(1);
                                }
                                match t {
                                    2 | 3 => u(if r == t - 1 { 3 } else { 2 }),
                                    _ => diag[r] + u(1),
                                }
                            })
                            .collect()
                    })
                    .collect();
                Dom { p: halves(p)[0], limbs, t: *t, cap: *cap, d: *d, rf: *rf, rp: *rp, rc, ext, int }
            })
            .collect()
    })
}
/// Input is added to the rate part, which is mixed whenever it is full; output is read from it,
/// mixed again whenever it is used up; no input after output.
fn sponge(d: &Dom, prog: &[Ins]) -> Option<Vec<U256>> {
    let rate = d.t - d.cap;
    let (mut inp, mut out, mut n) = (vec![], vec![], 0usize);
    for i in prog {
        let mut feed = vec![];
        match i.op {
            0 => feed.push(i.w[0]),
            1 => feed.extend((0..i.how).map(|k| i.w[0].wrapping_add(i.w[1].wrapping_mul(U256::from(k))))),
            2 => n += 1,
            3 => n += i.how as usize % 40,
            _ => {}
        }
        if n > 0 && !feed.is_empty() {
            return None;
        }
        inp.extend(feed.into_iter().map(|x| cutw(x, d.limbs) % d.p));
    }
    let mut s = vec![U256::ZERO; d.t];
    for (k, block) in inp.chunks(rate).enumerate() {
        if k > 0 {
            d.permute(&mut s);
        }
        for (x, y) in s[d.cap..].iter_mut().zip(block) {
            *x = x.add_mod(*y, d.p);
        }
    }
    for k in 0..n {
        if k % rate == 0 {
            d.permute(&mut s);
        }
        out.push(s[d.cap + k % rate]);
    }
    Some(out)
}
thread_local! {
    static SEEN: RefCell<HashMap<(usize, Vec<U256>), U256>> = RefCell::new(HashMap::new());
}
pub fn digest(d: usize, v: &[U256]) -> U256 {
    let k = (d, v.to_vec());
    if let Some(x) = SEEN.with(|m| m.borrow().get(&k).copied()) {
        return x;
    }
    let x = digest_of(d, v);
    SEEN.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 4000 {
            m.clear();
        }
        m.insert(k, x);
    });
    x
}
fn digest_of(d: usize, v: &[U256]) -> U256 {
    let mk = |op, w| Ins { op, d: 0, a: 0, b: 0, how: 0, w: [w, U256::ZERO] };
    let p: Vec<Ins> = v.iter().map(|x| mk(0, *x)).chain([mk(2, U256::ZERO)]).collect();
    sponge(&doms()[d], &p).unwrap()[0]
}
pub fn note(d: usize, v: U256, secret: U256, to: Address) -> U256 {
    let mut w = vec![secret];
    for x in [v, U256::from_be_slice(to.as_slice())] {
        for i in 0..11 {
            w.push((x >> (24 * i)) & U256::from(0xff_ffff));
        }
    }
    digest(d, &w)
}

// --------------------------------------------------------------- contracts
pub const ALG_SIGS: &[Sig] = &["reg(uint256)", "integer(uint256,uint256[])", "field(uint256,uint256[])", "curve(uint256,uint256[])"];
fn load(w: &MW, c: Address, k: u64, id: u64, r: usize, p: usize) -> U256 {
    w.s(c).regs.get(&key(k, id, r, p)).copied().unwrap_or_default()
}
fn save(w: &mut MW, c: Address, k: u64, id: u64, r: usize, v: &[U256]) {
    for (p, x) in v.iter().enumerate() {
        let at = key(k, id, r, p);
        if x.is_zero() {
            w.m(c).regs.remove(&at);
        } else {
            w.m(c).regs.insert(at, *x);
        }
    }
}
pub fn points(w: &MW, c: Address, id: u64) -> [Pt; REGS] {
    std::array::from_fn(|i| {
        if load(w, c, 3, id, i, 2).is_zero() {
            None
        } else {
            Some((load(w, c, 3, id, i, 0), load(w, c, 3, id, i, 1)))
        }
    })
}
pub fn numbers(w: &MW, c: Address, k: u64, id: u64) -> [U512; REGS] {
    std::array::from_fn(|i| wide(load(w, c, k, id, i, 0), load(w, c, k, id, i, 1)))
}
pub fn alg(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    if f == "reg(uint256)" {
        return ret(n(w.s(c).regs.get(&x[0].n()).copied().unwrap_or_default()));
    }
    let id = u64::try_from(x[0].n()).unwrap_or(u64::MAX);
    let Some(prog) = decode(&x[1].ns()) else { return fail() };
    let mut out = vec![];
    match f {
        "curve(uint256,uint256[])" => {
            let Some(cv) = curves().get(id as usize) else { return fail() };
            let mut r = points(w, c, id);
            if curve(cv, &mut r, &prog, &mut out).is_none() {
                return fail();
            }
            for (i, p) in r.iter().enumerate() {
                let v = p.map_or([U256::ZERO; 3], |(x, y)| [x, y, U256::from(1)]);
                save(w, c, 3, id, i, &v);
            }
        }
        _ => {
            let is_field = f == "field(uint256,uint256[])";
            let k = if is_field { 2 } else { 1 };
            let mut r = numbers(w, c, k, id);
            let done = if is_field {
                match fields().get(id as usize) {
                    Some((p, l)) => field(*p, *l, &mut r, &prog, &mut out),
                    None => None,
                }
            } else {
                match INTS.get(id as usize) {
                    Some(l) => ints(*l, &mut r, &prog, &mut out),
                    None => None,
                }
            };
            if done.is_none() {
                return fail();
            }
            for (i, v) in r.iter().enumerate() {
                save(w, c, k, id, i, &halves(*v));
            }
        }
    }
    Ok(enc("uint256[]", &[ln(&out)]))
}
pub const NOTE_SIGS: &[Sig] = &[
    "totalSupply()",
    "balanceOf(address)",
    "allowance(address,address)",
    "transfer(address,uint256)",
    "approve(address,uint256)",
    "transferFrom(address,address,uint256)",
    "mint(address,uint256)",
    "noteOf(uint256,uint256,uint256,address)",
    "isOpen(uint256,uint256)",
    "chain(uint256)",
    "lock(uint256,uint256,uint256,address)",
    "unlock(uint256,uint256,uint256,address)",
    "transcript(uint256,uint256[])",
];
pub fn notes(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    let dom = |v: &V| u64::try_from(v.n()).ok().filter(|d| (*d as usize) < DOMS).map(|d| d as usize);
    match f {
        "mint(address,uint256)" => {
            mint(w, c, x[0].addr(), x[1].n())?;
            ret0()
        }
        "isOpen(uint256,uint256)" => ret(n(w.s(c).notes.contains(&(x[0].n(), x[1].n())))),
        "chain(uint256)" => ret(n(w.s(c).regs.get(&x[0].n()).copied().unwrap_or_default())),
        "transcript(uint256,uint256[])" => {
            let (Some(d), Some(p)) = (dom(&x[0]), decode(&x[1].ns())) else { return fail() };
            match sponge(&doms()[d], &p) {
                Some(o) => Ok(enc("uint256[]", &[ln(&o)])),
                None => fail(),
            }
        }
        "noteOf(uint256,uint256,uint256,address)" => match dom(&x[0]) {
            Some(d) => ret(n(note(d, x[1].n(), x[2].n(), x[3].addr()))),
            None => fail(),
        },
        "lock(uint256,uint256,uint256,address)" => {
            let Some(d) = dom(&x[0]) else { return fail() };
            let t = note(d, x[1].n(), x[2].n(), x[3].addr());
            if !w.m(c).notes.insert((x[0].n(), t)) {
                return fail();
            }
            burn(w, c, m.from, x[1].n())?;
            let old = w.s(c).regs.get(&x[0].n()).copied().unwrap_or_default();
            w.m(c).regs.insert(x[0].n(), digest(d, &[old, t]));
            ret(n(t))
        }
        "unlock(uint256,uint256,uint256,address)" => {
            let Some(d) = dom(&x[0]) else { return fail() };
            let t = note(d, x[1].n(), x[2].n(), x[3].addr());
            if !w.m(c).notes.remove(&(x[0].n(), t)) {
                return fail();
            }
            mint(w, c, x[3].addr(), x[1].n())?;
            ret0()
        }
        _ => e20(w, m, f, x).unwrap_or(fail()),
    }
}

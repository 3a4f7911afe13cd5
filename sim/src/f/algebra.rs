//! Simulated registers of numbers, field elements and curve points, and a pool of hidden notes.
use super::fungible::{gen20, ledger_inv, q20};
use super::*;
use crate::abi::*;
use crate::c::algebra as k;
use crate::c::algebra::{key, REGS};
use crate::core::*;
use crate::m::algebra::*;
use crate::model::*;
use crate::rng::Rng;
use alloy_primitives::{Address, U256, U512};
use std::sync::OnceLock;

fn ins(op: u64, d: u64, a: u64, b: u64, how: u64, w: [U256; 2]) -> [U256; 3] {
    [U256::from(op | d << 8 | a << 16 | b << 24 | how << 32), w[0], w[1]]
}
/// Numbers arithmetic goes wrong on: next to nothing, next to the modulus, full or empty limbs.
fn pattern(g: &mut Gx, limbs: usize) -> U512 {
    let mut v = [0u64; 8];
    for x in v.iter_mut().take(limbs.min(8)) {
        *x = match g.below(8) {
            0 | 1 => 0,
            2 | 3 => u64::MAX,
            4 => 1 << g.below(64),
            5 => u64::MAX << g.below(64),
            6 => u64::MAX - g.below(3),
            _ => g.r.u(),
        };
    }
    U512::from_limbs(v)
}
fn literal(g: &mut Gx, limbs: usize, p: U512, near: &[U512]) -> [U256; 2] {
    let s = U512::from(g.below(4));
    let x = match g.below(16) {
        0 => s,
        1 => p.wrapping_sub(s),
        2 => p.wrapping_add(s),
        3 => p.wrapping_shr(1).wrapping_add(s),
        4 => p.wrapping_shl(1).wrapping_sub(s),
        5 => U512::from(1).wrapping_shl(g.below(64 * limbs as u64) as usize).wrapping_sub(s),
        6 => U512::from(1).wrapping_shl(g.below(64 * limbs as u64) as usize).wrapping_add(s),
        7 | 8 => pattern(g, limbs),
        9..=11 => {
            // a number whose Montgomery form is a pattern
            let m = pattern(g, limbs) % p;
            let r = U512::from(2).pow_mod(U512::from(64 * limbs as u64), p);
            match r.inv_mod(p) {
                Some(i) => m.mul_mod(i, p),
                None => m,
            }
        }
        12 => near[g.below(near.len() as u64) as usize],
        13 => p.wrapping_sub(near[g.below(near.len() as u64) as usize]),
        _ => U512::from_limbs(std::array::from_fn(|_| g.r.u())),
    };
    halves(x)
}
fn len(g: &mut Gx) -> u64 {
    match g.below(10) {
        0..=5 => g.r.range(1, 4),
        6..=8 => g.r.range(3, 10),
        _ => g.r.range(8, 30),
    }
}
fn ints(g: &mut Gx, id: u64) -> Tx {
    let limbs = INTS[id as usize];
    let top = (U512::from(1) << (64 * limbs)) - U512::from(1);
    let mut p = vec![];
    let regs = numbers(g.v, C0, 1, id);
    for _ in 0..len(g) {
        let op = if g.pct(25) { 0 } else { g.below(15) };
        // checked operations fail the whole program when they overflow
        let op = if op == 4 && g.pct(50) { 3 } else { op };
        let w = literal(g, limbs, top, &regs);
        let r: Vec<u64> = (0..3).map(|_| g.below(REGS as u64)).collect();
        p.extend(ins(op, r[0], r[1], if g.pct(5) { r[1] } else { r[2] }, g.below(256), w));
    }
    let f = g.actor();
    g.tx(f, op("integer(uint256,uint256[])", vec![n(id), ln(&p)]))
}
fn elems(g: &mut Gx, id: u64) -> Tx {
    let (m, limbs) = fields()[id as usize];
    let regs = numbers(g.v, C0, 2, id);
    let mut p = vec![];
    for _ in 0..len(g) {
        let op = match g.below(100) {
            0..=29 => 0,
            30..=39 => 1,
            40..=49 => 2,
            50..=64 => 3,
            65..=68 => 4,
            69..=72 => 5,
            73..=77 => 6,
            78..=82 => 7,
            83..=85 => 8,
            86..=88 => 9,
            89..=91 => 10,
            92 => 11,
            93..=95 => 12,
            96 => 13,
            97 => 14,
            _ => 15,
        };
        let w = literal(g, limbs, m, &regs);
        let r: Vec<u64> = (0..3).map(|_| g.below(REGS as u64)).collect();
        // zero has no inverse: mostly pick something that may have one
        let (mut x, mut y) = (r[1], r[2]);
        if g.pct(90) {
            let full = |k: u64| !regs[k as usize].is_zero();
            if op == 8 && !full(x) {
                x = (0..6).find(|k| full(*k)).unwrap_or(x);
            }
            if op == 4 && !full(y) {
                y = (0..6).find(|k| full(*k)).unwrap_or(y);
            }
        }
        p.extend(ins(op, r[0], x, if g.pct(8) { x } else { y }, g.below(256), w));
    }
    let f = g.actor();
    g.tx(f, op("field(uint256,uint256[])", vec![n(id), ln(&p)]))
}
/// every point of the small curves
fn all_points(id: u64) -> &'static [(U256, U256)] {
    static S: OnceLock<Vec<Vec<(U256, U256)>>> = OnceLock::new();
    &S.get_or_init(|| {
        curves()
            .iter()
            .map(|c| {
                let Ok(p) = u64::try_from(c.p) else { return vec![] };
                if p > 20_000 {
                    return vec![];
                }
                let (a, b) = (c.a.as_limbs()[0], c.b.as_limbs()[0]);
                let mut root = vec![vec![]; p as usize];
                for y in 0..p {
                    root[(y * y % p) as usize].push(y);
                }
                let mut v = vec![];
                for x in 0..p {
                    let r = ((x * x % p) * x + a * x + b) % p;
                    v.extend(root[r as usize].iter().map(|y| (U256::from(x), U256::from(*y))));
                }
                v
            })
            .collect()
    })[id as usize]
}
fn some_point(g: &mut Gx, id: u64, regs: &[Pt]) -> (U256, U256) {
    let c = &curves()[id as usize];
    let all = all_points(id);
    let one = U256::from(1);
    let (mut x, mut y) = match g.below(10) {
        0..=4 if !all.is_empty() => *g.r.pick(all),
        5 if !all.is_empty() => {
            // points of order two, and with a zero coordinate
            let v: Vec<_> = all.iter().filter(|(x, y)| x.is_zero() || y.is_zero()).collect();
            v.first().map_or(c.g, |_| **g.r.pick(&v))
        }
        0..=4 if c.p.bit(0) && c.p.bit(1) => {
            // an extreme abscissa
            let mut x = if g.pct(50) { U256::from(g.below(50)) } else { c.p - U256::from(g.below(50) + 1) };
            let mut r = (U256::ZERO, one);
            for _ in 0..8 {
                let q = x.mul_mod(x, c.p).mul_mod(x, c.p).add_mod(c.a.mul_mod(x, c.p), c.p).add_mod(c.b, c.p);
                let y = q.pow_mod(c.p.wrapping_shr(2) + one, c.p);
                r = (x, y);
                if c.on(x, y) {
                    break;
                }
                x = (x + one) % c.p;
            }
            r
        }
        6 => c.times(U256::from(g.below(20) + 1), Some(c.g)).unwrap_or(c.g),
        7 => c.times(c.n - U256::from(g.below(4) + 1), Some(c.g)).unwrap_or(c.g),
        8 => {
            let q = *g.r.pick(regs);
            q.unwrap_or(c.g)
        }
        _ => c.g,
    };
    match g.below(20) {
        0 => x = x.add_mod(one, c.p),
        1 => y = y.add_mod(one, c.p),
        2 => y = if y.is_zero() { y } else { c.p - y },
        3 => (x, y) = (y, x),
        // another name of the same number
        4 if c.limbs == 1 => x += c.p,
        5 if c.limbs == 1 => y += c.p * U256::from(g.below(100)),
        6 => (x, y) = (U256::ZERO, U256::ZERO),
        _ => {}
    }
    (x, y)
}
fn spots(g: &mut Gx, id: u64) -> Tx {
    let c = &curves()[id as usize];
    let small = c.limbs == 1;
    let regs = points(g.v, C0, id);
    let mut p = vec![];
    let k = if small { len(g) } else { g.r.range(1, 4) };
    for _ in 0..k {
        let op = match g.below(100) {
            0..=6 => 0,
            7..=29 => 1,
            30..=41 => 2,
            42..=49 => 3,
            50..=54 => 4,
            55..=63 => 5,
            64..=69 => 6,
            70..=71 => 7,
            72..=74 => 8,
            75 => 9,
            76..=84 => 10,
            85..=87 => 11,
            88..=94 => 12,
            95..=96 => 13,
            _ => 14,
        };
        let r: Vec<u64> = (0..3).map(|_| g.below(REGS as u64)).collect();
        let y = if g.pct(20) { r[1] } else { r[2] };
        let z = U256::ZERO;
        let w = match op {
            5 => {
                let e = U256::from(g.below(4));
                let v = match g.below(8) {
                    0 => e,
                    1 => c.n.wrapping_sub(e),
                    2 => c.n.wrapping_add(e),
                    3 => U256::from(1) << g.below(256) as usize,
                    4 => U256::from(1).wrapping_shl(g.below(256) as usize) - U256::from(1),
                    5 => c.n * U256::from(g.below(15)) + e,
                    _ => g.word(),
                };
                [v, g.word()]
            }
            10 => [if g.pct(10) { c.p - U256::from(1) } else { g.word() }, z],
            11 | 12 => {
                let (x, y) = some_point(g, id, &regs);
                [x, y]
            }
            _ => [z, z],
        };
        // the same point in other coordinates, before it is used
        if (op == 1 || op == 2 || op == 3 || op == 6) && g.pct(35) {
            p.extend(ins(10, r[1], y, y, 0, [g.word(), z]));
            if op != 3 && g.pct(30) {
                p.extend(ins(4, r[1], r[1], r[1], g.below(256), [z, z]));
            }
        }
        p.extend(ins(op, r[0], r[1], y, g.below(256), w));
    }
    let f = g.actor();
    g.tx(f, op("curve(uint256,uint256[])", vec![n(id), ln(&p)]))
}
pub const ALGEBRA: Fam = Fam {
    name: "algebra-registers",
    knobs: |r, c| {
        let nf = fields().len() as u64;
        c.set("f0", r.below(nf));
        c.set("f1", r.below(nf));
        c.set("c0", if r.pct(25) { r.below(3) } else { 3 + r.below(5) });
        c.set("c1", 3 + r.below(5));
        c.set("i0", r.below(5));
    },
    setup: |_c, s| {
        s.deploy(C0, k::Algebra::entry, alg, ALG_SIGS, S::default());
    },
    gen: |g| {
        let two = |g: &mut Gx, a: &str, b: &str| if g.pct(60) { g.c.g(a) } else { g.c.g(b) };
        match g.below(100) {
            0..=19 => {
                let id = g.c.g("i0");
                ints(g, id)
            }
            20..=59 => {
                let id = two(g, "f0", "f1");
                elems(g, id)
            }
            60..=97 => {
                let id = two(g, "c0", "c1");
                spots(g, id)
            }
            _ => {
                // no such machine, or not a program
                let f = g.actor();
                let s = *g.r.pick(&["integer(uint256,uint256[])", "field(uint256,uint256[])", "curve(uint256,uint256[])"]);
                let l = g.below(8);
                let id = if g.pct(50) { U256::from(g.below(3)) } else { g.num(&[U256::from(17)]) };
                let v: Vec<U256> = (0..l).map(|_| U256::from(0x0e)).collect();
                g.tx(f, op(s, vec![n(id), ln(&v)]))
            }
        }
    },
    queries: |_w, c| {
        let mut q = vec![];
        let mut add = |k: u64, id: u64, parts: usize| {
            for r in 0..REGS {
                for p in 0..parts {
                    q.push((C0, op("reg(uint256)", vec![n(key(k, id, r, p))])));
                }
            }
        };
        add(1, c.g("i0"), 2);
        add(2, c.g("f0"), 2);
        add(2, c.g("f1"), 2);
        add(3, c.g("c0"), 3);
        add(3, c.g("c1"), 3);
        q
    },
    inv: |s| {
        // no register ever holds a number outside its field or a point off its curve
        let c = s.cfg.clone();
        let mut get = |k: u64, id: u64, r: usize, p: usize| -> U256 {
            s.w.query(eoa(0), C0, &op("reg(uint256)", vec![n(key(k, id, r, p))])).map(|d| U256::from_be_slice(&d)).unwrap_or(U256::MAX)
        };
        for id in [c.g("f0"), c.g("f1")] {
            for r in 0..REGS {
                let v = wide(get(2, id, r, 0), get(2, id, r, 1));
                if v >= fields()[id as usize].0 {
                    return Err(format!("algebra: register {r} of field {id} holds {v}, not below the modulus"));
                }
            }
        }
        for id in [c.g("c0"), c.g("c1")] {
            for r in 0..REGS {
                if !get(3, id, r, 2).is_zero() && !curves()[id as usize].on(get(3, id, r, 0), get(3, id, r, 1)) {
                    return Err(format!("algebra: register {r} of curve {id} holds a point that is not on it"));
                }
            }
        }
        Ok(())
    },
};

// -------------------------------------------------------------------- notes
type Terms = (U256, U256, Address);
/// The `i`-th secret the parties agreed on, for domain `d`.
fn terms(c: &Cfg, d: u64, i: u64) -> Terms {
    let mut r = Rng::new(c.g("secrets").wrapping_add(d << 8 | i));
    let v = match r.below(8) {
        0 => U256::ZERO,
        1 => U256::from(1) << r.below(250) as usize,
        2 => U256::from(0xff_ffff),
        _ => U256::from(r.below(400) + 1),
    };
    let s = match r.below(6) {
        0 => U256::ZERO,
        1 => U256::MAX,
        _ => U256::from_limbs([r.u(), r.u(), r.u(), r.u()]),
    };
    (v, s, eoa(r.below(c.g("actors").max(1)) as usize))
}
fn domain(g: &mut Gx) -> u64 {
    match g.below(10) {
        0..=5 => g.c.g("d0"),
        6..=8 => g.c.g("d1"),
        _ => 8 + g.below(6),
    }
}
fn script(g: &mut Gx) -> Tx {
    let d = domain(g);
    let dom = &doms()[d as usize];
    let rate = (dom.t - dom.cap) as u64;
    let z = U256::ZERO;
    let mut p = vec![];
    // how much goes in: nothing, about one rate, several
    let total = match g.below(6) {
        0 => 0,
        1 | 2 => (rate + g.below(3)).saturating_sub(1),
        3 => (2 * rate + g.below(3)).saturating_sub(1),
        4 => rate * g.below(4),
        _ => g.below(3 * rate + 2),
    };
    let mut left = total;
    while left > 0 {
        let w = match g.below(5) {
            0 => U256::from(g.below(3)),
            1 => dom.p.wrapping_add(U256::from(g.below(4))).wrapping_sub(U256::from(2)),
            2 => U256::MAX,
            _ => g.word(),
        };
        if g.pct(50) {
            let k = g.below(left.min(200)) + 1;
            p.extend(ins(1, 0, 0, 0, k, [w, if g.pct(30) { z } else { g.word() }]));
            left -= k;
        } else {
            p.extend(ins(0, 0, 0, 0, 0, [w, z]));
            left -= 1;
        }
        if g.pct(8) {
            p.extend(ins(if g.pct(50) { 4 } else { 1 }, 0, 0, 0, 0, [z, z]));
        }
    }
    let mut out = match g.below(5) {
        0 => 1,
        1 => rate,
        2 => rate + 1,
        3 => 2 * rate + 1,
        _ => g.below(30),
    };
    while out > 0 {
        if g.pct(60) {
            p.extend(ins(2, 0, 0, 0, 0, [z, z]));
            out -= 1;
        } else {
            let k = g.below(out.min(39) + 1);
            p.extend(ins(3, 0, 0, 0, k, [z, z]));
            out -= k;
        }
        if g.pct(2) {
            p.extend(ins(4, 0, 0, 0, 0, [z, z]));
        }
    }
    if g.pct(6) {
        // too late
        let how = g.below(3);
        p.extend(ins(g.below(2), 0, 0, 0, how, [g.word(), z]));
        p.extend(ins(2, 0, 0, 0, 0, [z, z]));
    }
    p.truncate(300);
    let f = g.actor();
    g.tx(f, op("transcript(uint256,uint256[])", vec![n(d), ln(&p)]))
}
pub const NOTES: Fam = Fam {
    name: "poseidon-notes",
    knobs: |r, c| {
        c.set("rich", r.below(2));
        c.set("secrets", r.u() >> 8);
        c.set("d0", r.below(DOMS as u64));
        c.set("d1", r.below(DOMS as u64));
    },
    setup: |_c, s| {
        s.deploy(C0, k::Notes::entry, notes, NOTE_SIGS, S::default());
    },
    gen: |g| match g.below(100) {
        0..=14 => gen20(g, C0, true, false, false),
        15..=44 => script(g),
        x => {
            let d = domain(g);
            let i = g.below(6);
            let (mut v, mut s, mut to) = terms(g.c, d, i);
            let open = |g: &Gx, d: u64, t: &Terms| g.v.s(C0).notes.contains(&(U256::from(d), note(d as usize, t.0, t.1, t.2)));
            let lock = x < 70;
            if g.pct(80) {
                // one that can go through
                if let Some(j) = (0..6).map(|j| (i + j) % 6).find(|j| {
                    let t = terms(g.c, d, *j);
                    open(g, d, &t) != lock
                }) {
                    (v, s, to) = terms(g.c, d, j);
                }
            }
            let mut dd = d;
            if g.pct(20) {
                match g.below(7) {
                    0 => v = g.num(&[v]),
                    1 => s ^= U256::from(1) << g.below(256) as usize,
                    2 => to = g.actor(),
                    3 => dd = g.below(DOMS as u64 + 1),
                    4 => v = U256::from(g.below(5)),
                    // another name of the same secret
                    5 => s = s.wrapping_add(doms()[d as usize].p),
                    _ => to = g.addr(),
                }
            }
            let f = if lock && g.pct(85) {
                let hs: Vec<Address> = g.v.s(C0).bal.iter().filter(|(_, b)| **b >= v && !v.is_zero()).map(|(h, _)| *h).collect();
                hs.first().copied().unwrap_or_else(|| g.actor())
            } else {
                g.actor()
            };
            let sig = if lock { "lock(uint256,uint256,uint256,address)" } else { "unlock(uint256,uint256,uint256,address)" };
            g.tx(f, op(sig, vec![n(dd), n(v), n(s), a(to)]))
        }
    },
    queries: |w, c| {
        let mut q = vec![];
        q20(C0, c, &mut q);
        for (d, x) in &w.s(C0).notes {
            q.push((C0, op("isOpen(uint256,uint256)", vec![n(*d), n(*x)])));
        }
        for d in [c.g("d0"), c.g("d1")] {
            q.push((C0, op("chain(uint256)", vec![n(d)])));
            for i in 0..2 {
                let (v, s, to) = terms(c, d, i);
                q.push((C0, op("noteOf(uint256,uint256,uint256,address)", vec![n(d), n(v), n(s), a(to)])));
                q.push((C0, op("isOpen(uint256,uint256)", vec![n(d), n(note(d as usize, v, s, to))])));
            }
        }
        q
    },
    inv: |s| ledger_inv(s, C0),
};

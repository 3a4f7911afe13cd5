//! Simulated deployments of access control and the storage structures.
use super::fungible::actors;
use super::nft::{id_knobs, ids};
use super::*;
use crate::abi::*;
use crate::c::access as k;
use crate::core::*;
use crate::m::access::*;
use crate::model::*;
use alloy_primitives::{Address, U256};

fn q(fs: &[Sig]) -> Vec<(Address, Op)> {
    fs.iter().map(|f| (C0, op(f, vec![]))).collect()
}
fn addr_word(x: Address) -> U256 {
    U256::from_be_bytes(word(&a(x)))
}
fn someone(g: &mut Gx, who: &[Address], pct: u64) -> Address {
    let v: Vec<Address> = who.iter().copied().filter(|x| !x.is_zero() && *x != C0).collect();
    if !v.is_empty() && g.pct(pct) {
        *g.r.pick(&v)
    } else {
        g.actor()
    }
}

// ------------------------------------------------------------------- C22, C23
pub const OWNABLE: Fam = Fam {
    name: "ownable",
    knobs: |r, c| c.set("renounce", r.below(8)),
    setup: |_c, s| {
        s.raw(C0, 0, addr_word(eoa(0)));
        s.deploy(C0, k::Own::entry, own, OWN_SIGS, S { owner: eoa(0), ..Default::default() });
    },
    gen: |g| {
        let o = g.v.s(C0).owner;
        let f = someone(g, &[o], 60);
        let r = g.c.g("renounce");
        if g.pct(r) {
            return g.tx(f, op("renounceOwnership()", vec![]));
        }
        if g.pct(50) {
            let to = if g.pct(75) { g.actor() } else { g.addr() };
            return g.tx(f, op("transferOwnership(address)", vec![a(to)]));
        }
        g.tx(f, op("guarded()", vec![]))
    },
    queries: |_w, _c| q(&["owner()", "count()"]),
    inv: no_inv,
};
pub const OWNABLE2: Fam = Fam {
    name: "ownable2step",
    knobs: |r, c| c.set("renounce", r.below(8)),
    setup: |_c, s| {
        s.raw(C0, 0, addr_word(eoa(0)));
        s.deploy(C0, k::Own2::entry, own2, OWN2_SIGS, S { owner: eoa(0), ..Default::default() });
    },
    gen: |g| {
        let (o, p) = (g.v.s(C0).owner, g.v.s(C0).pending);
        let r = g.c.g("renounce");
        if g.pct(r) {
            let f = someone(g, &[o, p], 70);
            return g.tx(f, op("renounceOwnership()", vec![]));
        }
        match g.below(10) {
            0..=3 => {
                let f = someone(g, &[o, o, o, p], 75);
                let to = if g.pct(75) { g.actor() } else { g.addr() };
                g.tx(f, op("transferOwnership(address)", vec![a(to)]))
            }
            4..=6 => {
                let f = someone(g, &[p, p, p, o], 75);
                g.tx(f, op("acceptOwnership()", vec![]))
            }
            _ => {
                let f = someone(g, &[o, o, p], 75);
                g.tx(f, op("guarded()", vec![]))
            }
        }
    },
    queries: |_w, _c| q(&["owner()", "pendingOwner()", "count()"]),
    inv: no_inv,
};

// ------------------------------------------------------------------------ C24
fn role(i: u64) -> [u8; 32] {
    match i {
        0 => [0; 32],
        1 => keccak(b"MINTER"),
        2 => keccak(b"PAUSER"),
        3 => {
            let mut r = [0; 32];
            r[31] = 1;
            r
        }
        _ => {
            let mut r = [0; 32];
            r[0] = 1;
            r
        }
    }
}
const NROLES: u64 = 5;
pub const ACL: Fam = Fam {
    name: "access-control",
    knobs: no_knobs,
    setup: |_c, s| s.deploy(C0, k::Acl::entry, acl, ACL_SIGS, S::default()),
    gen: |g| {
        let s = g.v.s(C0);
        let r = role(g.r.below(NROLES));
        let ad = s.admins.get(&r).copied().unwrap_or_default();
        let admins: Vec<Address> = s.roles.iter().filter(|x| x.0 == ad).map(|x| x.1).collect();
        let holders: Vec<Address> = s.roles.iter().filter(|x| x.0 == r).map(|x| x.1).collect();
        let none = s.roles.is_empty();
        let rv = by(&r);
        if (none && g.pct(60)) || g.pct(4) {
            let (f, to) = (g.actor(), g.addr());
            let r0 = if g.pct(60) { role(0) } else { r };
            return g.tx(f, op("rawGrant(bytes32,address)", vec![by(&r0), a(to)]));
        }
        match g.below(100) {
            0..=29 => {
                let f = someone(g, &admins, 70);
                let to = g.addr();
                g.tx(f, op("grantRole(bytes32,address)", vec![rv, a(to)]))
            }
            30..=49 => {
                let f = someone(g, &admins, 70);
                let to = if g.pct(75) { someone(g, &holders, 90) } else { g.addr() };
                g.tx(f, op("revokeRole(bytes32,address)", vec![rv, a(to)]))
            }
            50..=59 => {
                let f = someone(g, &holders, 75);
                let to = if g.pct(80) { f } else { g.addr() };
                g.tx(f, op("renounceRole(bytes32,address)", vec![rv, a(to)]))
            }
            60..=67 => {
                let f = g.actor();
                let r2 = role(g.r.below(NROLES));
                g.tx(f, op("setRoleAdmin(bytes32,bytes32)", vec![rv, by(&r2)]))
            }
            68..=71 => {
                let (f, to) = (g.actor(), someone(g, &holders, 80));
                g.tx(f, op("rawRevoke(bytes32,address)", vec![rv, a(to)]))
            }
            72..=79 => {
                let f = someone(g, &holders, 60);
                g.tx(f, op("onlyRole(bytes32)", vec![rv]))
            }
            _ => {
                let f = someone(g, &holders, 60);
                g.tx(f, op("guarded(bytes32)", vec![rv]))
            }
        }
    },
    queries: |_w, c| {
        let mut o = q(&["count()", "defaultAdmin()"]);
        let mut v = actors(c);
        v.push(C0);
        v.push(Address::ZERO);
        for i in 0..NROLES {
            let r = by(&role(i));
            o.push((C0, op("getRoleAdmin(bytes32)", vec![r.clone()])));
            for x in &v {
                o.push((C0, op("hasRole(bytes32,address)", vec![r.clone(), a(*x)])));
                if i < 2 {
                    o.push((C0, op("checkRole(bytes32,address)", vec![r.clone(), a(*x)])));
                }
            }
        }
        o
    },
    inv: no_inv,
};

// ------------------------------------------------------------------------ C25
fn mask(bits: u64) -> U256 {
    (U256::from(1) << bits as usize) - U256::from(1)
}
fn gen_trace(g: &mut Gx) -> Tx {
    let one = U256::from(1);
    let (km, vm) = (mask(g.c.g("kbits")), mask(g.c.g("vbits")));
    let last = g.v.s(C0).cps.last().map(|x| x.0);
    let base = last.unwrap_or_default();
    let f = g.actor();
    let v = match g.below(4) {
        0 => U256::from(g.below(10)),
        1 => vm,
        _ => g.word() & vm,
    };
    if g.pct(12) && g.v.s(C0).cps.len() < 400 {
        let count = U256::from(g.below(60) + 1);
        let gap = match g.below(3) {
            0 => one,
            1 => U256::from(g.below(5)),
            _ => U256::from(g.below(1000)),
        };
        let key = base.saturating_add(U256::from(g.below(3)));
        let v = v >> 1;
        if key + gap * count <= km && v + count <= vm {
            return g.tx(f, op("pushMany(uint256,uint256,uint256,uint256)", vec![n(key), n(gap), n(v), n(count)]));
        }
    }
    let key = match g.below(20) {
        0..=3 => base,
        4..=8 => base.saturating_add(one),
        9..=13 => base.saturating_add(U256::from(g.below(50))),
        14 => base.saturating_sub(one),
        15 => g.upto(base),
        16 if g.c.on("far") => g.word() & km,
        17 if g.c.on("far") => km - U256::from(g.below(3)),
        18 => g.num(&[base]) & U256::from(u16::MAX),
        _ => base.saturating_add(U256::from(g.below(5))),
    };
    g.tx(f, op("push(uint256,uint256)", vec![n(key.min(km)), n(v)]))
}
fn q_trace(w: &MW, c: &Cfg) -> Vec<(Address, Op)> {
    let one = U256::from(1);
    let km = mask(c.g("kbits"));
    let s = w.s(C0);
    let mut o = q(&["latest()", "latestCheckpoint()", "length()"]);
    let k = s.cps.len();
    let mut pos: Vec<usize> = vec![];
    if k > 0 {
        for i in [0, 1, k / 4, k / 2, k - k.min(6), k - k.min(3), k - k.min(2), k - 1, (k * 7 + 13) % k] {
            if i < k && !pos.contains(&i) {
                pos.push(i);
            }
        }
        // around the square-root split
        let r = (k as f64).sqrt() as usize;
        for i in [k - r, (k - r).saturating_sub(1), (k + 1 - r).min(k - 1)] {
            if i < k && !pos.contains(&i) {
                pos.push(i);
            }
        }
    }
    let mut keys = vec![U256::ZERO, km];
    for i in &pos {
        let x = s.cps[*i].0;
        for y in [x.saturating_sub(one), x, x.saturating_add(one).min(km)] {
            if !keys.contains(&y) {
                keys.push(y);
            }
        }
        o.push((C0, op("at(uint32)", vec![n(*i as u64)])));
    }
    o.push((C0, op("at(uint32)", vec![n(k as u64)])));
    for y in keys {
        for f in ["lowerLookup(uint256)", "upperLookup(uint256)", "upperLookupRecent(uint256)"] {
            o.push((C0, op(f, vec![n(y)])));
        }
    }
    o
}
macro_rules! tracefam {
    ($id:ident, $name:expr, $t:ident, $kb:expr, $vb:expr) => {
        pub const $id: Fam = Fam {
            name: $name,
            knobs: |r, c| {
                c.set("kbits", $kb);
                c.set("vbits", $vb);
                c.set("far", r.pct(15) as u64);
            },
            setup: |_c, s| s.deploy(C0, k::$t::entry, trace, TRACE_SIGS, S::default()),
            gen: gen_trace,
            queries: q_trace,
            inv: no_inv,
        };
    };
}
tracefam!(TRACE160, "checkpoints160", Tr160, 96, 160);
tracefam!(TRACE224, "checkpoints224", Tr224, 32, 224);
tracefam!(TRACE208, "checkpoints208", Tr208, 48, 208);

// ------------------------------------------------------------------------ C26
fn bit(g: &mut Gx) -> U256 {
    let v = ids(g.c);
    let x = *g.r.pick(&v);
    match g.below(8) {
        0 => x ^ (U256::from(1) << g.r.below(9) as usize),
        1 => x.wrapping_add(U256::from(256)),
        2 => x ^ (U256::from(1) << g.r.below(256) as usize),
        3 => g.num(&[]),
        _ => x,
    }
}
pub const BITMAP: Fam = Fam {
    name: "bitmap",
    knobs: |r, c| {
        id_knobs(r, c, 3, 10);
        if r.pct(15) {
            // few, crowded buckets
            c.set("dense", 1);
            let x = c.n("id0");
            for i in 1..c.g("ids") {
                c.setn(&format!("id{i}"), (x >> 8 << 8) | U256::from(r.below(256)));
            }
            c.setn("id1", x | U256::from(255));
        }
    },
    setup: |_c, s| s.deploy(C0, k::Bits::entry, bits, BITS_SIGS, S::default()),
    gen: |g| {
        let f = g.actor();
        let s = g.v.s(C0);
        let on: Vec<U256> = s.bits.iter().copied().collect();
        let x = if !on.is_empty() && g.pct(35) { *g.r.pick(&on) } else { bit(g) };
        let on = g.pct(60);
        if g.c.on("dense") && g.pct(15) {
            // fill or clear most of a bucket
            let one = U256::from(1);
            let m = match g.below(8) {
                0 | 1 => U256::MAX,
                2 => U256::MAX >> 1,
                3 => U256::MAX << 1,
                4 => !(one << g.r.below(256) as usize),
                5 => U256::MAX >> g.r.below(256) as usize,
                6 => U256::MAX << g.r.below(256) as usize,
                _ => U256::from_limbs([g.r.u(), g.r.u(), g.r.u(), g.r.u()]),
            };
            return g.tx(f, op("fill(uint256,uint256,bool)", vec![n(x >> 8), n(m), n(on)]));
        }
        match g.below(10) {
            0..=3 => g.tx(f, op("set(uint256)", vec![n(x)])),
            4 | 5 => g.tx(f, op("unset(uint256)", vec![n(x)])),
            6 => g.tx(f, op("setTo(uint256,bool)", vec![n(x), n(on)])),
            7 => g.tx(f, op("set2(uint256,bool)", vec![n(x), n(on)])),
            _ => {
                let p: Vec<U256> = (0..g.below(5)).map(|_| bit(g)).collect();
                let m: Vec<U256> = (0..g.below(4)).map(|_| bit(g)).collect();
                g.tx(f, op("write(uint256[],uint256[])", vec![ln(&p), ln(&m)]))
            }
        }
    },
    queries: |w, c| {
        let mut v = vec![];
        let mut add = |x: U256| {
            if !v.contains(&x) && v.len() < 90 {
                v.push(x);
            }
        };
        let one = U256::from(1);
        for x in ids(c).into_iter().chain(w.s(C0).bits.iter().rev().take(10).copied()) {
            for y in [x, x.wrapping_add(one), x.wrapping_sub(one), x ^ U256::from(128), x.wrapping_add(U256::from(256)), x ^ (one << 255)] {
                add(y);
            }
        }
        for i in w.s(C0).bits.iter().chain(w.s(C0).owner_of.keys()) {
            add(*i);
        }
        let mut o = vec![];
        // whole buckets
        let mut b = vec![];
        for x in ids(c).into_iter().chain(w.s(C0).bits.iter().copied()).chain([U256::MAX]) {
            if !b.contains(&(x >> 8)) && b.len() < 2 && c.on("dense") {
                b.push(x >> 8);
            }
        }
        for x in b {
            o.push((C0, op("word(uint256)", vec![n(x)])));
        }
        for x in v {
            o.push((C0, op("get(uint256)", vec![n(x)])));
            o.push((C0, op("get2(uint256)", vec![n(x)])));
        }
        o
    },
    inv: no_inv,
};

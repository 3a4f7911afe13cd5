//! Simulated deployments of the non-fungible and multi-token components.
use super::fungible::{actors, as_act, rev, view_act};
use super::*;
use crate::abi::*;
use crate::c::nft as k;
use crate::core::*;
use crate::host::Code;
use crate::m::nft::*;
use crate::model::*;
use crate::rng::Rng;
use alloy_primitives::{Address, U256};

// ------------------------------------------------------------------ token ids
fn special_id(r: &mut Rng) -> U256 {
    let one = U256::from(1);
    match r.below(10) {
        0 => U256::MAX,
        1 => U256::MAX - one,
        2 => one << 96,
        3 => (one << 96) - one,
        4 => U256::from(255 + r.below(3)),
        5 => one << r.below(256) as usize,
        6 | 7 => *r.pick(&dict().n),
        8 => U256::from_limbs([r.u(), r.u(), r.u(), r.u()]),
        _ => U256::from(r.below(1 << 20)),
    }
}
/// The token ids this simulated collection deals in.
pub fn id_knobs(r: &mut Rng, c: &mut Cfg, lo: u64, hi: u64) {
    let k = if r.pct(3) { r.range(24, 40) } else { r.range(lo, hi) };
    c.set("ids", k);
    let base = r.below(2);
    for i in 0..k {
        let v = if r.pct(70) { U256::from(base + i) } else { special_id(r) };
        c.setn(&format!("id{i}"), v);
    }
}
pub fn ids(c: &Cfg) -> Vec<U256> {
    let mut v: Vec<U256> = (0..c.g("ids")).map(|i| c.n(&format!("id{i}"))).collect();
    v.sort();
    v.dedup();
    v
}
fn tid(g: &mut Gx) -> U256 {
    let v = ids(g.c);
    if g.pct(4) {
        let mut r = g.r.clone();
        let x = special_id(&mut r);
        *g.r = r;
        return x;
    }
    *g.r.pick(&v)
}
/// tokens that exist: (id, owner)
fn live(g: &Gx, at: Address) -> Vec<(U256, Address)> {
    g.v.s(at).owner_of.iter().filter(|(_, o)| !o.is_zero()).map(|(i, o)| (*i, *o)).collect()
}
fn some_token(g: &mut Gx, at: Address) -> (U256, Address) {
    let mut l = live(g, at);
    for (f, last, o) in batches(g.v.s(at)) {
        let one = U256::from(1);
        for x in [f, last, f + ((last - f) >> 1), (f + one).min(last)] {
            if !g.v.s(at).owner_of.contains_key(&x) {
                l.push((x, o));
            }
        }
    }
    if l.is_empty() || g.pct(6) {
        (tid(g), g.addr())
    } else {
        *g.r.pick(&l)
    }
}
/// someone entitled to move the token (mostly)
fn mover(g: &mut Gx, at: Address, id: U256, o: Address) -> Address {
    if g.pct(15) {
        return g.actor();
    }
    let s = g.v.s(at);
    let mut v = vec![o];
    if let Some(x) = s.tok_app.get(&id) {
        v.push(*x);
        v.push(*x);
    }
    for (p, q) in s.oper.iter() {
        if *p == o {
            v.push(*q);
        }
    }
    let x = *g.r.pick(&v);
    if x.is_zero() || x == C0 {
        g.actor()
    } else {
        x
    }
}
pub struct Kind {
    mint: bool,
    safe_mint: bool,
    burn: bool,
    admin: bool,
}
const FULL: Kind = Kind { mint: true, safe_mint: true, burn: true, admin: true };
/// A transaction on an ERC-721 (mostly valid); `safe`: share of receiver-checked variants.
/// Rarely, one account collects more tokens than fit a byte.
fn bulk721(g: &mut Gx) -> Option<Tx> {
    if !g.c.on("bulk") || !g.pct(12) || g.v.s(C0).owner_of.len() > 300 {
        return None;
    }
    let (f, to) = (g.actor(), g.actor());
    let first = U256::from(1000 * (1 + g.below(3)) + g.below(3));
    let k = 240 + g.below(24);
    Some(g.tx(f, op("mintMany(address,uint256,uint256)", vec![a(to), n(first), n(k)])))
}
pub fn gen721(g: &mut Gx, at: Address, kd: &Kind, safe: u64) -> Tx {
    let sf = g.pct(safe);
    let mut t = match g.below(100) {
        0..=21 if kd.mint => {
            let fresh: Vec<U256> = ids(g.c).into_iter().filter(|i| own_s(g.v.s(at), *i).is_zero()).collect();
            let id = if fresh.is_empty() || g.pct(8) { tid(g) } else { *g.r.pick(&fresh) };
            let to = if g.pct(88) { g.actor() } else { g.addr() };
            let f = g.actor();
            if sf && kd.safe_mint {
                let d = g.bytes();
                g.tx(f, op("safeMint(address,uint256,bytes)", vec![a(to), n(id), by(&d)]))
            } else {
                g.tx(f, op("mint(address,uint256)", vec![a(to), n(id)]))
            }
        }
        0..=54 => {
            let (id, o) = some_token(g, at);
            let f = mover(g, at, id, o);
            let from = if g.pct(93) { o } else { g.addr() };
            let to = if g.pct(8) { from } else if g.pct(85) { g.actor() } else { g.addr() };
            if sf {
                if g.pct(35) {
                    g.tx(f, op("safeTransferFrom(address,address,uint256)", vec![a(from), a(to), n(id)]))
                } else {
                    let d = g.bytes();
                    g.tx(f, op("safeTransferFrom(address,address,uint256,bytes)", vec![a(from), a(to), n(id), by(&d)]))
                }
            } else {
                g.tx(f, op("transferFrom(address,address,uint256)", vec![a(from), a(to), n(id)]))
            }
        }
        55..=71 => {
            let (id, o) = some_token(g, at);
            let f = mover(g, at, id, o);
            let to = if g.pct(8) { o } else { g.addr() };
            g.tx(f, op("approve(address,uint256)", vec![a(to), n(id)]))
        }
        72..=81 => {
            let f = if g.pct(60) { some_token(g, at).1 } else { g.actor() };
            let f = if f.is_zero() || f == C0 { g.actor() } else { f };
            let (o, on) = (g.addr(), g.pct(65));
            g.tx(f, op("setApprovalForAll(address,bool)", vec![a(o), n(on)]))
        }
        82..=91 if kd.burn => {
            let (id, o) = some_token(g, at);
            let f = mover(g, at, id, o);
            g.tx(f, op("burn(uint256)", vec![n(id)]))
        }
        92..=99 if kd.admin => {
            let (id, o) = some_token(g, at);
            let f = g.actor();
            match g.below(7) {
                4 => {
                    let to = if g.pct(75) { g.actor() } else { g.addr() };
                    let auth = if kd.mint && g.pct(20) { Address::ZERO } else { mover(g, at, id, o) };
                    g.tx(f, op("updateAs(address,uint256,address)", vec![a(to), n(id), a(auth)]))
                }
                5 => {
                    let auth = if g.pct(20) { Address::ZERO } else { mover(g, at, id, o) };
                    let (to, on) = (g.addr(), g.pct(40));
                    g.tx(f, op("approveAs(address,uint256,address,bool)", vec![a(to), n(id), a(auth), n(on)]))
                }
                6 if g.v.has_sig(at, "setApprovalAs(address,address,bool)") => {
                    let (x, y, on) = (g.addr(), g.addr(), g.pct(65));
                    g.tx(f, op("setApprovalAs(address,address,bool)", vec![a(x), a(y), n(on)]))
                }
                0 => g.tx(f, op("adminBurn(uint256)", vec![n(id)])),
                1 => {
                    let (from, to) = (if g.pct(85) { o } else { g.addr() }, g.addr());
                    g.tx(f, op("adminTransfer(address,address,uint256)", vec![a(from), a(to), n(id)]))
                }
                2 => {
                    let (from, to) = (if g.pct(85) { o } else { g.addr() }, g.addr());
                    let d = g.bytes();
                    g.tx(f, op("adminSafeTransfer(address,address,uint256,bytes)", vec![a(from), a(to), n(id), by(&d)]))
                }
                _ => {
                    let to = g.addr();
                    g.tx(f, op("adminApprove(address,uint256)", vec![a(to), n(id)]))
                }
            }
        }
        _ => {
            let (id, o) = some_token(g, at);
            let f = mover(g, at, id, o);
            let to = g.actor();
            g.tx(f, op("transferFrom(address,address,uint256)", vec![a(o), a(to), n(id)]))
        }
    };
    t.to = at;
    t
}
pub fn q721_with(at: Address, c: &Cfg, id: &[U256], q: &mut Vec<(Address, Op)>) {
    for i in id {
        q.push((at, op("ownerOf(uint256)", vec![n(*i)])));
        q.push((at, op("getApproved(uint256)", vec![n(*i)])));
    }
    let mut v = actors(c);
    for x in v.iter().chain(&[C0, TK, Address::ZERO]) {
        q.push((at, op("balanceOf(address)", vec![a(*x)])));
    }
    v.truncate(5);
    for x in &v {
        for y in &v {
            q.push((at, op("isApprovedForAll(address,address)", vec![a(*x), a(*y)])));
        }
    }
}
fn touched(w: &MW, at: Address, c: &Cfg) -> Vec<U256> {
    let mut v = ids(c);
    for i in w.s(at).owner_of.keys().take(24) {
        if !v.contains(i) {
            v.push(*i);
        }
    }
    v
}
fn q_t721(w: &MW, c: &Cfg) -> Vec<(Address, Op)> {
    let mut q = vec![];
    q721_with(C0, c, &touched(w, C0, c), &mut q);
    let v = actors(c);
    for (k, i) in touched(w, C0, c).iter().enumerate() {
        q.push((C0, op("ownerOrZero(uint256)", vec![n(*i)])));
        q.push((C0, op("approvedOrZero(uint256)", vec![n(*i)])));
        let (x, y) = (v[k % v.len()], v[(k / v.len()) % v.len()]);
        q.push((C0, op("isAuthorized(address,address,uint256)", vec![a(x), a(y), n(*i)])));
    }
    q
}
/// What a receiver does when it is asked: nothing, look around, or act on the contract.
fn hook_out(g: &mut Gx, magic: Sig) -> Out {
    match g.below(14) {
        0 => Out::Trap,
        1 => Out::Revert(vec![]),
        2 | 3 => rev(g),
        4 => Out::Ret(vec![]),
        5 if g.pct(70) => Out::Ret(vec![0; 32]),
        5 => {
            // things a careless peer might answer
            let mut v = match g.below(6) {
                0 => vec![0xff; 32],
                1 => vec![0xff, 0xff, 0xff, 0xff],
                2 => vec![0x01, 0xff, 0xc9, 0xa7],
                3 => vec![0x80, 0xac, 0x58, 0xcd],
                4 => vec![0x4e, 0x23, 0x12, 0xe0],
                _ => vec![0xd9, 0xb6, 0x7a, 0x26],
            };
            v.resize(32, 0);
            Out::Ret(v)
        }
        6 => {
            let o = *g.r.pick(&[ON721, ON1155, ON1155B]);
            Out::Ret(magic4(o))
        }
        7 => {
            let k = g.below(32) as usize;
            Out::Ret(magic4(magic)[..k].to_vec())
        }
        8 => {
            // the right value in the wrong place
            let mut v = vec![0; 32];
            v[28..].copy_from_slice(&selector(magic));
            Out::Ret(v)
        }
        9 => {
            let mut v = magic4(magic);
            v[g.r.below(4) as usize] ^= 1 << g.r.below(8);
            Out::Ret(v)
        }
        _ => Out::Ret(magic4(magic)),
    }
}
fn hook721(g: &mut Gx, t: &mut Tx, kd: &Kind, at: Address, qs: &[(Address, Op)]) {
    let i = g.below(2) as usize;
    // the token the hook is about, to act on it again
    let id = match t.op.f {
        "safeMint(address,uint256,bytes)" => Some(t.op.a[1].n()),
        x if x.contains("afeTransfer") => Some(t.op.a[2].n()),
        _ => None,
    };
    let who = match t.op.f {
        "safeMint(address,uint256,bytes)" => t.op.a[0].addr(),
        x if x.contains("afeTransfer") => t.op.a[1].addr(),
        _ => stub(i),
    };
    let who = if who == stub(0) || who == stub(1) { who } else { stub(i) };
    let mut acts = vec![];
    for _ in 0..g.below(4) {
        if g.pct(35) {
            acts.push(view_act(g, qs));
        } else if let (Some(id), true) = (id, g.pct(60)) {
            let to = g.addr();
            let o = match g.below(7) {
                0 => op("approve(address,uint256)", vec![a(to), n(id)]),
                1 if kd.burn => op("burn(uint256)", vec![n(id)]),
                2 => op("setApprovalForAll(address,bool)", vec![a(to), n(g.pct(70))]),
                3 => op("safeTransferFrom(address,address,uint256)", vec![a(who), a(to), n(id)]),
                4 => op("ownerOf(uint256)", vec![n(id)]),
                5 => op("getApproved(uint256)", vec![n(id)]),
                _ => op("transferFrom(address,address,uint256)", vec![a(who), a(to), n(id)]),
            };
            let bubble = g.pct(15);
            acts.push(Act { to: at, value: U256::ZERO, op: o, st: false, bubble });
        } else {
            let x = gen721(g, at, kd, 40);
            acts.push(as_act(g, x));
        }
    }
    let out = hook_out(g, ON721);
    t.plans.push(Plan { at: who, sel: selector(ON721), acts, post: false, out });
    if g.pct(25) {
        let j = g.below(2) as usize;
        let out = hook_out(g, ON721);
        t.plans.push(Plan { at: stub(j), sel: selector(ON721), acts: vec![], post: false, out });
    }
}
/// balances are the number of tokens owned, read from the real contract
fn owned_inv(s: &mut Sim, at: Address) -> Result<(), String> {
    let mut all = ids(&s.cfg);
    all.extend(s.m.s(at).owner_of.keys());
    all.sort();
    all.dedup();
    let mut n_of: std::collections::BTreeMap<Address, u64> = Default::default();
    for i in all {
        if let Ok(d) = s.w.query(eoa(0), at, &op("ownerOf(uint256)", vec![n(i)])) {
            let o = Address::from_slice(&d[12..]);
            if o.is_zero() {
                return Err(format!("ownership: token {i} exists without an owner"));
            }
            *n_of.entry(o).or_insert(0) += 1;
        }
    }
    for x in s.who.clone() {
        let Ok(d) = s.w.query(eoa(0), at, &op("balanceOf(address)", vec![a(x)])) else {
            return Err("ownership: balanceOf failed".into());
        };
        let have = n_of.get(&x).copied().unwrap_or(0);
        if U256::from_be_slice(&d) != U256::from(have) {
            return Err(format!("ownership: {x} owns {have} tokens but its balance is {}", U256::from_be_slice(&d)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C12, C13
fn setup_t721(_c: &Cfg, s: &mut Sim) {
    s.deploy(C0, k::T721::entry, t721, T721_SIGS, S::default());
}
pub const ERC721: Fam = Fam {
    name: "erc721",
    knobs: |r, c| {
        id_knobs(r, c, 3, 9);
        c.set("bulk", r.pct(3) as u64);
    },
    setup: setup_t721,
    gen: |g| bulk721(g).unwrap_or_else(|| gen721(g, C0, &FULL, 15)),
    queries: q_t721,
    inv: |s| owned_inv(s, C0),
};
pub const ERC721_RECV: Fam = Fam {
    name: "erc721-receiver",
    knobs: |r, c| {
        id_knobs(r, c, 3, 7);
        c.set("reent", r.pct(75) as u64);
        c.set("plans", r.range(30, 95));
    },
    setup: setup_t721,
    gen: |g| {
        let mut t = gen721(g, C0, &FULL, 75);
        if g.pct(50) {
            // aim at a contract
            let i = g.below(2) as usize;
            match t.op.f {
                "safeMint(address,uint256,bytes)" => t.op.a[0] = a(stub(i)),
                x if x.contains("afeTransfer") => t.op.a[1] = a(stub(i)),
                _ => {}
            }
        }
        if g.pct(g.c.g("plans")) {
            let qs = q_t721(g.v, g.c);
            hook721(g, &mut t, &FULL, C0, &qs);
        }
        t
    },
    queries: q_t721,
    inv: |s| owned_inv(s, C0),
};

// ------------------------------------------------------------------------ C14
pub const TOKEN_ZERO: &str = "C14-token-zero";
/// The index lists are exactly the existing tokens, in any order.
fn enum_inv(s: &mut Sim) -> Result<(), String> {
    let toks: Vec<(U256, Address)> =
        s.m.s(C0).owner_of.iter().filter(|(_, o)| !o.is_zero()).map(|(i, o)| (*i, *o)).collect();
    let num = |r: &Res| -> Option<U256> {
        match r {
            Ok(d) if d.len() == 32 => Some(U256::from_be_slice(d)),
            _ => None,
        }
    };
    let total = num(&s.w.query(eoa(0), C0, &op("totalSupply()", vec![])));
    if total != Some(U256::from(toks.len())) {
        return Err(format!("enumeration: totalSupply is {total:?}, {} tokens exist", toks.len()));
    }
    let mut seen = vec![];
    for i in 0..toks.len() {
        let r = s.w.query(eoa(0), C0, &op("tokenByIndex(uint256)", vec![n(i as u64)]));
        match num(&r) {
            Some(x) => seen.push(x),
            None => return Err(format!("enumeration: tokenByIndex({i}) fails with {} tokens", toks.len())),
        }
    }
    seen.sort();
    let mut want: Vec<U256> = toks.iter().map(|t| t.0).collect();
    want.sort();
    if seen != want {
        return Err(format!("enumeration: the global list is {seen:?}, existing tokens are {want:?}"));
    }
    let oob = |o: Address, i: U256| encf("ERC721OutOfBoundsIndex(address,uint256)", &[a(o), n(i)]);
    for i in [U256::from(toks.len()), U256::from(toks.len() + 1), U256::MAX] {
        let r = s.w.query(eoa(0), C0, &op("tokenByIndex(uint256)", vec![n(i)]));
        if r != failx(oob(Address::ZERO, i)) {
            return Err(format!("enumeration: tokenByIndex({i}) past the end does not fail out of bounds"));
        }
    }
    for x in s.who.clone() {
        let mut want: Vec<U256> = toks.iter().filter(|t| t.1 == x).map(|t| t.0).collect();
        want.sort();
        let mut got = vec![];
        let mut missing = 0;
        for i in 0..want.len() {
            let i = U256::from(i);
            let r = s.w.query(eoa(0), C0, &op("tokenOfOwnerByIndex(address,uint256)", vec![a(x), n(i)]));
            match num(&r) {
                Some(t) => got.push(t),
                None if r == failx(oob(x, i)) => missing += 1,
                None => return Err(format!("enumeration: tokenOfOwnerByIndex({x},{i}) fails")),
            }
        }
        got.sort();
        if got != want {
            // listed finding: only token 0 is absent and its position reads as out of bounds
            let rest: Vec<U256> = want.iter().copied().filter(|t| !t.is_zero()).collect();
            if missing == 1 && want.len() == rest.len() + 1 && got == rest && known(TOKEN_ZERO) {
                s.known(TOKEN_ZERO);
            } else {
                return Err(format!("enumeration: {x} owns {want:?} but its list is {got:?} ({missing} unreadable)"));
            }
        }
        for i in [U256::from(want.len()), U256::from(want.len() + 1), U256::MAX] {
            let r = s.w.query(eoa(0), C0, &op("tokenOfOwnerByIndex(address,uint256)", vec![a(x), n(i)]));
            if r != failx(oob(x, i)) {
                return Err(format!("enumeration: tokenOfOwnerByIndex({x},{i}) past the end does not fail out of bounds"));
            }
        }
    }
    Ok(())
}
const ENUMK: Kind = Kind { mint: true, safe_mint: true, burn: true, admin: false };
fn q_e721(w: &MW, c: &Cfg) -> Vec<(Address, Op)> {
    let mut q = vec![];
    q721_with(C0, c, &touched(w, C0, c), &mut q);
    q.push((C0, op("totalSupply()", vec![])));
    q
}
pub const ENUM721: Fam = Fam {
    name: "erc721-enumerable",
    knobs: |r, c| {
        id_knobs(r, c, 3, 14);
        c.set("bulk", r.pct(3) as u64);
        if r.pct(70) {
            // most collections number from one
            for i in 0..c.g("ids") {
                if c.n(&format!("id{i}")).is_zero() {
                    c.set(&format!("id{i}"), 100 + i);
                }
            }
        }
        c.set("actors", r.range(1, 4));
        c.set("plans", if r.pct(50) { r.range(10, 50) } else { 0 });
    },
    setup: |_c, s| s.deploy(C0, k::E721::entry, e721x, E721_SIGS, S::default()),
    gen: |g| {
        if g.pct(2) {
            let f = g.actor();
            let v = if g.pct(40) { U256::ZERO } else { g.num(&[]) & U256::from(u128::MAX) };
            return g.tx(f, op("increaseBalance(uint128)", vec![n(v)]));
        }
        if let Some(t) = bulk721(g) {
            return t;
        }
        let mut t = gen721(g, C0, &ENUMK, 35);
        if g.pct(g.c.g("plans")) {
            let qs = q_e721(g.v, g.c);
            hook721(g, &mut t, &ENUMK, C0, &qs);
        }
        t
    },
    queries: q_e721,
    inv: enum_inv,
};

// ------------------------------------------------------------------------ C15
fn q_k721(w: &MW, c: &Cfg) -> Vec<(Address, Op)> {
    let one = U256::from(1);
    let s = w.s(C0);
    let mut v = touched(w, C0, c);
    let mut add = |x: U256| {
        if !v.contains(&x) && v.len() < 40 {
            v.push(x);
        }
    };
    add(s.first);
    add(s.first.wrapping_sub(one));
    let bs = batches(s);
    let k = bs.len();
    for (i, (f, l, _)) in bs.into_iter().enumerate() {
        if i + 3 >= k || i < 2 {
            for x in [f, f + one, f + ((l - f) >> 1), l.wrapping_sub(one), l, l + one] {
                add(x);
            }
        }
    }
    add(max96());
    add(max96() + one);
    let mut q = vec![];
    q721_with(C0, c, &v, &mut q);
    for i in v.iter().take(12) {
        q.push((C0, op("ownerOrZero(uint256)", vec![n(*i)])));
    }
    q
}
pub const CONS721: Fam = Fam {
    name: "erc721-consecutive",
    knobs: |r, c| {
        let one = U256::from(1);
        let first = match r.below(8) {
            0..=2 => U256::ZERO,
            3 => one,
            4 => U256::from(r.below(1000)),
            5 => U256::from(r.u()),
            6 => max96() - U256::from(r.below(40)),
            _ => max96() - U256::from(r.below(3)),
        };
        c.setn("first", first);
        let mb = match r.below(6) {
            0 => U256::from(1 + r.below(4)),
            1 | 2 => U256::from(10),
            3 => U256::from(5000),
            4 => max96(),
            _ => U256::from(r.below(300)),
        };
        c.setn("maxbatch", mb);
        id_knobs(r, c, 3, 7);
        // ids around the batch range
        for i in 0..c.g("ids") {
            if r.pct(60) {
                let d = U256::from(r.below(30));
                let x = match r.below(8) {
                    0 => first.saturating_sub(d),
                    1 => max96() + U256::from(r.below(3)) - one,
                    _ => first + d,
                };
                c.setn(&format!("id{i}"), x);
            }
        }
        c.set("plans", if r.pct(30) { r.range(10, 50) } else { 0 });
        c.set("batchy", r.range(5, 40));
    },
    setup: |c, s| {
        s.raw(C0, 6, c.n("first") | (c.n("maxbatch") << 96));
        s.raw(C0, 7, c.n("first"));
        let st = S { first: c.n("first"), max_batch: c.n("maxbatch"), ..Default::default() };
        s.deploy(C0, k::K721::entry, k721, K721_SIGS, st);
    },
    gen: |g| {
        let s = g.v.s(C0);
        let sealed = ahead(s);
        let one = U256::from(1);
        let next = next_batch(s);
        let room = (max96() + one).saturating_sub(next);
        let mbs = s.max_batch;
        let p = if sealed { 2 } else { g.c.g("batchy") };
        if g.pct(p) || (!sealed && s.cps.is_empty() && g.pct(70)) {
            let f = g.actor();
            let to = if g.pct(90) { g.actor() } else { g.addr() };
            let k = match g.below(10) {
                0..=4 => U256::from(g.below(6) + 1),
                5 => mbs,
                6 => g.upto(mbs),
                7 => mbs + one,
                8 => room,
                _ => g.num(&[mbs, room]),
            };
            let mut k = k & max96();
            if k.is_zero() && room.is_zero() {
                k = one;
            }
            return g.tx(f, op("mintConsecutive(address,uint96)", vec![a(to), n(k)]));
        }
        // single mints ahead of the batches block further ones, so they are rarer early on
        let kd = if sealed || g.pct(12) {
            Kind { mint: true, safe_mint: true, burn: true, admin: true }
        } else {
            Kind { mint: false, safe_mint: false, burn: true, admin: true }
        };
        let mut t = gen721(g, C0, &kd, 15);
        if g.pct(g.c.g("plans")) {
            let qs = q_k721(g.v, g.c);
            hook721(g, &mut t, &kd, C0, &qs);
        }
        t
    },
    queries: q_k721,
    inv: no_inv,
};

// ------------------------------------------------------------------------ C16
const NOMINT: Kind = Kind { mint: false, safe_mint: false, burn: false, admin: false };
const UNDER: Kind = Kind { mint: true, safe_mint: false, burn: false, admin: false };
fn q_w721(w: &MW, c: &Cfg) -> Vec<(Address, Op)> {
    let mut q = vec![(C0, op("underlying()", vec![]))];
    q721_with(C0, c, &touched(w, C0, c), &mut q);
    if !c.on("ustub") {
        for i in touched(w, TK, c) {
            q.push((TK, op("ownerOf(uint256)", vec![n(i)])));
        }
        for x in actors(c).iter().chain(&[C0]) {
            q.push((TK, op("balanceOf(address)", vec![a(*x)])));
        }
    }
    q
}
fn gen_w721(g: &mut Gx) -> Tx {
    let us = g.c.on("ustub");
    match g.below(100) {
        0..=34 if !us => {
            // the underlying collection's own life
            let mut t = match g.below(10) {
                0..=3 => {
                    let id = tid(g);
                    let (f, to) = (g.actor(), g.actor());
                    g.tx(f, op("mint(address,uint256)", vec![a(to), n(id)]))
                }
                4 | 5 => {
                    let f = g.actor();
                    let on = g.pct(85);
                    g.tx(f, op("setApprovalForAll(address,bool)", vec![a(C0), n(on)]))
                }
                6 | 7 => {
                    let (id, o) = some_token(g, TK);
                    let f = if o == C0 { g.actor() } else { mover(g, TK, id, o) };
                    let d = g.bytes();
                    if g.pct(15) {
                        g.tx(f, op("transferFrom(address,address,uint256)", vec![a(o), a(C0), n(id)]))
                    } else {
                        g.tx(f, op("safeTransferFrom(address,address,uint256,bytes)", vec![a(o), a(C0), n(id), by(&d)]))
                    }
                }
                _ => gen721(g, TK, &UNDER, 30),
            };
            t.to = TK;
            t
        }
        0..=59 => {
            let f = g.actor();
            let mine: Vec<U256> = live(g, TK).into_iter().filter(|t| t.1 == f).map(|t| t.0).collect();
            let mut v = vec![];
            for _ in 0..(if g.pct(5) { 0 } else if g.pct(4) { 4 + g.below(30) } else { 1 + g.below(3) }) {
                let x = if mine.is_empty() || us || g.pct(10) { tid(g) } else { *g.r.pick(&mine) };
                if !v.contains(&x) || g.pct(10) {
                    v.push(x);
                }
            }
            let to = if g.pct(85) { g.actor() } else { g.addr() };
            g.tx(f, op("depositFor(address,uint256[])", vec![a(to), ln(&v)]))
        }
        60..=82 => {
            let (id, o) = some_token(g, C0);
            let f = mover(g, C0, id, o);
            let mine: Vec<U256> = live(g, C0).into_iter().filter(|t| t.1 == o).map(|t| t.0).collect();
            let mut v = vec![id];
            for _ in 0..(if g.pct(4) { 3 + g.below(30) } else { g.below(3) }) {
                let x = if mine.is_empty() || g.pct(10) { tid(g) } else { *g.r.pick(&mine) };
                if !v.contains(&x) || g.pct(10) {
                    v.push(x);
                }
            }
            let to = if g.pct(80) { g.actor() } else { g.addr() };
            g.tx(f, op("withdrawTo(address,uint256[])", vec![a(to), ln(&v)]))
        }
        83..=86 => {
            // someone pretends to be the collection
            let (f, x, y) = (g.actor(), g.addr(), g.addr());
            let id = tid(g);
            let d = g.bytes();
            g.tx(f, op("onERC721Received(address,address,uint256,bytes)", vec![a(x), a(y), n(id), by(&d)]))
        }
        87..=90 if cfg!(vsim) => {
            let f = g.actor();
            let held: Vec<U256> = live(g, TK).into_iter().filter(|t| t.1 == C0).map(|t| t.0).collect();
            let id = if held.is_empty() || us || g.pct(35) { tid(g) } else { *g.r.pick(&held) };
            let to = if g.pct(85) { g.actor() } else { g.addr() };
            g.tx(f, op("recover(address,uint256)", vec![a(to), n(id)]))
        }
        _ => gen721(g, C0, &NOMINT, 25),
    }
}
pub const WRAP721: Fam = Fam {
    name: "erc721-wrapper",
    knobs: |r, c| {
        id_knobs(r, c, 3, 8);
        c.set("ustub", r.pct(20) as u64);
        c.set("plans", if r.pct(60) { r.range(10, 60) } else { 0 });
        c.set("reent", r.pct(60) as u64);
    },
    setup: |c, s| {
        let mut w = [0u8; 32];
        w[12..].copy_from_slice(TK.as_slice());
        s.raw(C0, 4, U256::from_be_bytes(w));
        s.deploy(C0, k::W721::entry, w721, W721_SIGS, S { asset: TK, ..Default::default() });
        if c.on("ustub") {
            s.w.code.insert(TK, Code::Stub);
            s.m.code.insert(TK, MCode::Stub);
            s.m.st.s.insert(TK, Default::default());
            s.who.push(TK);
        } else {
            s.deploy(TK, k::T721::entry, t721, T721_SIGS, S::default());
        }
    },
    gen: |g| {
        let mut t = gen_w721(g);
        if g.c.on("ustub") {
            if g.pct(8) {
                t = gen_w721(g);
                t.from = TK;
            }
            let sel: Sig = if t.op.f.starts_with("withdraw") {
                "safeTransferFrom(address,address,uint256,bytes)"
            } else {
                "transferFrom(address,address,uint256)"
            };
            for _ in 0..3 {
                let mut acts = vec![];
                if g.pct(g.c.g("plans")) {
                    for _ in 0..g.below(3) {
                        if g.pct(30) {
                            let qs = q_w721(g.v, g.c);
                            acts.push(view_act(g, &qs));
                        } else {
                            let x = gen_w721(g);
                            if x.to != TK {
                                acts.push(as_act(g, x));
                            }
                        }
                    }
                }
                let out = match g.below(14) {
                    0 => Out::Revert(vec![]),
                    1 => Out::Trap,
                    2 => rev(g),
                    _ => Out::Ret(vec![]),
                };
                t.plans.push(Plan { at: TK, sel: selector(sel), acts, post: false, out });
            }
            if t.op.f.starts_with("recover") {
                let out = match g.below(8) {
                    0 => rev(g),
                    1 => Out::Trap,
                    2 => Out::Ret(vec![]),
                    3 => Out::Ret(word(&a(g.addr())).to_vec()),
                    _ => Out::Ret(word(&a(C0)).to_vec()),
                };
                t.plans.push(Plan { at: TK, sel: selector("ownerOf(uint256)"), acts: vec![], post: false, out });
            }
        }
        if g.pct(g.c.g("plans")) {
            let i = g.below(2) as usize;
            let mut acts = vec![];
            for _ in 0..g.below(3) {
                if g.pct(35) {
                    let qs = q_w721(g.v, g.c);
                    acts.push(view_act(g, &qs));
                } else {
                    let x = gen_w721(g);
                    acts.push(as_act(g, x));
                }
            }
            let out = hook_out(g, ON721);
            t.plans.push(Plan { at: stub(i), sel: selector(ON721), acts, post: false, out });
        }
        t
    },
    queries: q_w721,
    inv: |s| {
        owned_inv(s, C0)?;
        if s.cfg.on("ustub") {
            return Ok(());
        }
        for i in touched(&s.m, C0, &s.cfg) {
            if s.w.query(eoa(0), C0, &op("ownerOf(uint256)", vec![n(i)])).is_ok() {
                let r = s.w.query(eoa(0), TK, &op("ownerOf(uint256)", vec![n(i)]));
                if r != Ok(word(&a(C0)).to_vec()) {
                    return Err(format!("backing: wrapped token {i} exists but the original is not held"));
                }
            }
        }
        Ok(())
    },
};

// ------------------------------------------------------------------------ C17
fn text(g: &mut Gx) -> V {
    let k = match g.below(10) {
        0 => 0,
        1 => g.below(8),
        2 => 31,
        3 => 32,
        4 => 33,
        5 => 63 + g.below(3),
        6 => g.below(32),
        7 if g.pct(15) => 250 + g.below(350),
        _ => g.below(100),
    };
    if g.pct(50) {
        let b: Vec<u8> = (0..k).map(|_| b'a' + g.r.below(26) as u8).collect();
        return V::B(b);
    }
    // real URIs, and what is easily mangled on the way
    let bits = [
        "/", " ", ".json", "{id}", "ipfs://", "https://", "%20", "?id=", "#", "\"", "\\", "\n", "\0", "b", "é", "漢", "🦀",
        "0", "00", "0x", "A", "Z", "..", "//", "\u{feff}", "-", "_",
    ];
    let mut s = String::new();
    while (s.len() as u64) < k {
        let b = *g.r.pick(&bits);
        let c = (b'a' + g.r.below(26) as u8) as char;
        let r = if g.r.pct(10) { k as usize } else { 1 + g.r.below(12) as usize };
        if g.r.pct(60) {
            s.push_str(b);
        } else {
            for _ in 0..r.min(k as usize - s.len()) {
                s.push(c);
            }
        }
    }
    V::B(s.into_bytes())
}
fn fixed_text(r: &mut Rng) -> u64 {
    let style = if r.pct(50) { 0 } else { r.below(7) };
    style << 16 | match r.below(6) {
        0 | 1 => 0,
        2 => 31,
        3 => 32,
        4 => r.below(100),
        _ => r.below(31) + 1,
    }
}
fn txt(c: char, k: u64) -> String {
    let (n, style) = ((k & 0xffff) as usize, k >> 16);
    if n == 0 {
        return String::new();
    }
    let (head, tail) = match style {
        1 => ("ipfs://", "/"),
        2 => ("", "/"),
        3 => ("", " "),
        4 => ("https://x.y/{id}", ".json"),
        5 => ("é", "🦀"),
        6 => ("\0", "\0"),
        _ => ("", ""),
    };
    if head.len() + tail.len() > n {
        return std::iter::repeat(c).take(n).collect();
    }
    let fill: String = std::iter::repeat(c).take(n - head.len() - tail.len()).collect();
    format!("{head}{fill}{tail}")
}
fn q_m721(w: &MW, c: &Cfg) -> Vec<(Address, Op)> {
    let mut q = vec![];
    for f in ["name()", "symbol()", "baseURI()"] {
        q.push((C0, op(f, vec![])));
    }
    for i in touched(w, C0, c) {
        q.push((C0, op("tokenURI(uint256)", vec![n(i)])));
        q.push((C0, op("plainURI(uint256)", vec![n(i)])));
        q.push((C0, op("ownerOf(uint256)", vec![n(i)])));
    }
    q
}
pub const URI721: Fam = Fam {
    name: "erc721-uri",
    knobs: |r, c| {
        id_knobs(r, c, 3, 7);
        c.set("name", fixed_text(r));
        c.set("sym", fixed_text(r));
        c.set("base", fixed_text(r));
    },
    setup: |c, s| {
        let (nm, sy, ba) = (txt('n', c.g("name")), txt('s', c.g("sym")), txt('b', c.g("base")));
        s.raw_str(C0, 4, &nm);
        s.raw_str(C0, 5, &sy);
        s.raw_str(C0, 6, &ba);
        let st = S { name: nm, symbol: sy, base: ba, ..Default::default() };
        s.deploy(C0, k::M721::entry, m721, M721_SIGS, st);
    },
    gen: |g| {
        if g.pct(55) {
            let id = if g.pct(70) { some_token(g, C0).0 } else { tid(g) };
            let f = g.actor();
            let u = text(g);
            return g.tx(f, op("setTokenURI(uint256,string)", vec![n(id), u]));
        }
        gen721(g, C0, &Kind { mint: true, safe_mint: false, burn: true, admin: false }, 0)
    },
    queries: q_m721,
    inv: no_inv,
};
pub const URI1155: Fam = Fam {
    name: "erc1155-uri",
    knobs: |r, c| {
        id_knobs(r, c, 2, 6);
        c.set("contract", fixed_text(r));
        c.set("base", fixed_text(r));
    },
    setup: |c, s| {
        let (ct, ba) = (txt('c', c.g("contract")), txt('b', c.g("base")));
        s.raw_str(C0, 2, &ct);
        s.raw_str(C0, 3, &ba);
        let st = S { base: ba, base2: ct, ..Default::default() };
        s.deploy(C0, k::U1155::entry, u1155, U1155_SIGS, st);
    },
    gen: |g| {
        let f = g.actor();
        let u = text(g);
        if g.pct(25) {
            return g.tx(f, op("setBaseURI(string)", vec![u]));
        }
        let id = tid(g);
        g.tx(f, op("setTokenURI(uint256,string)", vec![n(id), u]))
    },
    queries: |w, c| {
        let mut v = ids(c);
        for i in w.s(C0).uri.keys() {
            if !v.contains(i) {
                v.push(*i);
            }
        }
        let mut q = vec![];
        for i in v {
            q.push((C0, op("uri(uint256)", vec![n(i)])));
            q.push((C0, op("contractURI(uint256)", vec![n(i)])));
        }
        q
    },
    inv: no_inv,
};

// -------------------------------------------------------------- C18, C19, C20
fn q1155(w: &MW, c: &Cfg) -> Vec<(Address, Op)> {
    let mut q = vec![];
    let mut id = ids(c);
    for (_, i) in w.s(C0).mb.keys() {
        if !id.contains(i) && id.len() < 14 {
            id.push(*i);
        }
    }
    let mut v = actors(c);
    v.push(C0);
    for x in &v {
        for i in &id {
            q.push((C0, op("balanceOf(address,uint256)", vec![a(*x), n(*i)])));
        }
    }
    let l = |x: &[Address]| V::L(x.iter().map(|y| a(*y)).collect());
    let k = id.len().min(v.len());
    q.push((C0, op("balanceOfBatch(address[],uint256[])", vec![l(&v[..k]), ln(&id[..k])])));
    if id.len() > 6 {
        // everyone's everything at once
        let (mut who, mut what) = (vec![], vec![]);
        for x in &v {
            for i in &id {
                who.push(*x);
                what.push(*i);
            }
        }
        q.push((C0, op("balanceOfBatch(address[],uint256[])", vec![l(&who), ln(&what)])));
    }
    q.push((C0, op("balanceOfBatch(address[],uint256[])", vec![l(&[v[0], v[0], v[1]]), ln(&[id[0], id[0], id[k - 1]])])));
    q.push((C0, op("balanceOfBatch(address[],uint256[])", vec![l(&v[..k]), ln(&id[..k - 1])])));
    q.push((C0, op("balanceOfBatch(address[],uint256[])", vec![l(&[]), ln(&[])])));
    v.truncate(5);
    for x in &v {
        for y in &v {
            q.push((C0, op("isApprovedForAll(address,address)", vec![a(*x), a(*y)])));
        }
    }
    q
}
fn amount(g: &mut Gx) -> U256 {
    match g.c.g("rich") {
        0 => U256::from(g.below(100)),
        1 => g.upto(U256::from(10).pow(U256::from(24))),
        2 => U256::MAX >> g.below(4) as usize,
        _ => g.num(&[]),
    }
}
/// Length of a batch that is longer than anyone expects.
fn long(g: &mut Gx) -> u64 {
    if g.pct(25) {
        45 + g.below(250)
    } else {
        6 + g.below(39)
    }
}
/// Tokens of a holder: ids (some repeated) with amounts it can afford (mostly).
fn basket(g: &mut Gx, o: Address, valid: bool) -> (Vec<U256>, Vec<U256>) {
    let have: Vec<(U256, U256)> =
        g.v.s(C0).mb.iter().filter(|(k, v)| k.0 == o && !v.is_zero()).map(|(k, v)| (k.1, *v)).collect();
    let mut left: std::collections::BTreeMap<U256, U256> = have.iter().copied().collect();
    let (mut i, mut v) = (vec![], vec![]);
    let k = match g.below(10) {
        0 => 0,
        1..=3 => 1,
        4 if g.pct(6) => long(g),
        _ => 1 + g.below(5),
    };
    for _ in 0..k {
        let id = if have.is_empty() || g.pct(8) { tid(g) } else { g.r.pick(&have).0 };
        let l = left.get(&id).copied().unwrap_or_default();
        // a long batch keeps something for its last entries
        let cap = if k > 8 && g.pct(90) { l >> 3 } else { l };
        let x = if valid { g.upto(cap) } else { g.num(&[cap]) };
        left.insert(id, l.saturating_sub(x));
        i.push(id);
        v.push(x);
    }
    if !valid && g.pct(30) {
        if g.pct(50) {
            v.pop();
        } else {
            v.push(U256::from(1));
        }
    }
    (i, v)
}
fn gen1155(g: &mut Gx, burns: bool) -> Tx {
    let hs: Vec<Address> = {
        let mut v: Vec<Address> =
            g.v.s(C0).mb.iter().filter(|(_, v)| !v.is_zero()).map(|(k, _)| k.0).filter(|x| *x != C0).collect();
        v.dedup();
        v
    };
    let holder = |g: &mut Gx| if hs.is_empty() || g.pct(8) { g.actor() } else { *g.r.pick(&hs) };
    let mover = |g: &mut Gx, o: Address| {
        let ops: Vec<Address> = g.v.s(C0).oper.iter().filter(|p| p.0 == o && p.1 != C0).map(|p| p.1).collect();
        if g.pct(12) {
            g.actor()
        } else if ops.is_empty() || g.pct(60) {
            o
        } else {
            *g.r.pick(&ops)
        }
    };
    let valid = g.pct(80);
    match g.below(100) {
        0..=15 => {
            let to = if g.pct(90) { g.actor() } else { g.addr() };
            let (f, id) = (g.actor(), tid(g));
            let have = mbal(g.v.s(C0), to, id);
            let tot = supply(g.v.s(C0)).unwrap_or(U256::MAX);
            let v = if g.pct(75) { amount(g) } else { g.num(&[U256::MAX - have, U256::MAX - tot]) };
            let d = g.bytes();
            g.tx(f, op("mint(address,uint256,uint256,bytes)", vec![a(to), n(id), n(v), by(&d)]))
        }
        16..=28 => {
            let to = if g.pct(90) { g.actor() } else { g.addr() };
            let f = g.actor();
            let (mut i, mut v) = (vec![], vec![]);
            let k = if g.pct(1) { long(g) } else { g.below(5) };
            for _ in 0..k {
                i.push(tid(g));
                let id = *i.last().unwrap();
                let have = mbal(g.v.s(C0), to, id);
                let tot = supply(g.v.s(C0)).unwrap_or(U256::MAX);
                v.push(if k > 5 { U256::from(g.below(9)) } else if g.pct(85) { amount(g) } else { g.num(&[U256::MAX - have, U256::MAX - tot]) });
            }
            if g.pct(6) {
                v.push(U256::from(1));
            }
            let d = g.bytes();
            g.tx(f, op("mintBatch(address,uint256[],uint256[],bytes)", vec![a(to), ln(&i), ln(&v), by(&d)]))
        }
        29..=48 => {
            let o = holder(g);
            let f = mover(g, o);
            let (i, v) = basket(g, o, valid);
            let (i, v) = (i.first().copied().unwrap_or_default(), v.first().copied().unwrap_or_default());
            let to = if g.pct(10) { o } else if g.pct(85) { g.actor() } else { g.addr() };
            let d = g.bytes();
            g.tx(f, op("safeTransferFrom(address,address,uint256,uint256,bytes)", vec![a(o), a(to), n(i), n(v), by(&d)]))
        }
        49..=72 => {
            let o = if g.pct(97) { holder(g) } else { Address::ZERO };
            let f = if o.is_zero() { g.actor() } else { mover(g, o) };
            let (i, v) = basket(g, o, valid);
            let to = if g.pct(10) { o } else if g.pct(85) { g.actor() } else { g.addr() };
            let d = g.bytes();
            g.tx(
                f,
                op(
                    "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
                    vec![a(o), a(to), ln(&i), ln(&v), by(&d)],
                ),
            )
        }
        73..=82 => {
            let f = if g.pct(70) { holder(g) } else { g.actor() };
            let (o, on) = (g.addr(), g.pct(70));
            g.tx(f, op("setApprovalForAll(address,bool)", vec![a(o), n(on)]))
        }
        _ => {
            let o = if g.pct(97) { holder(g) } else { Address::ZERO };
            let (i, v) = basket(g, o, valid);
            let single = g.pct(40);
            let own = burns && g.pct(70);
            let f = if o.is_zero() || !own { g.actor() } else { mover(g, o) };
            if single {
                let (i, v) = (i.first().copied().unwrap_or_default(), v.first().copied().unwrap_or_default());
                let s = if own { "burn(address,uint256,uint256)" } else { "adminBurn(address,uint256,uint256)" };
                g.tx(f, op(s, vec![a(o), n(i), n(v)]))
            } else {
                let s = if own {
                    "burnBatch(address,uint256[],uint256[])"
                } else {
                    "adminBurnBatch(address,uint256[],uint256[])"
                };
                g.tx(f, op(s, vec![a(o), ln(&i), ln(&v)]))
            }
        }
    }
}
fn hook1155(g: &mut Gx, t: &mut Tx, burns: bool, qs: &[(Address, Op)]) {
    let batch = t.op.f.contains("atch");
    let single = t.op.a.get(2).map(|v| v.l().len() == 1).unwrap_or(false) && t.op.f.starts_with("safeBatch")
        || t.op.a.get(1).map(|v| v.l().len() == 1).unwrap_or(false) && t.op.f.starts_with("mintBatch");
    let sel = if (batch && !single) ^ g.pct(5) { ON1155B } else { ON1155 };
    let to = if t.op.f.starts_with("mint") { t.op.a[0].addr() } else { t.op.a.get(1).map(|x| x.addr()).unwrap_or_default() };
    let who = if to == stub(0) || to == stub(1) { to } else { stub(g.below(2) as usize) };
    let mut acts = vec![];
    for _ in 0..g.below(3) {
        if g.pct(35) {
            acts.push(view_act(g, qs));
        } else {
            let mut x = gen1155(g, burns);
            // the receiver acts for itself
            if x.op.f.starts_with("safe") && g.pct(60) {
                x.op.a[0] = a(who);
                if let (Some(v), false) = (t.op.a.get(2), x.op.f.contains("Batch")) {
                    if matches!(v, V::N(_)) && g.pct(70) {
                        x.op.a[2] = if t.op.f.starts_with("mint(") { t.op.a[1].clone() } else { v.clone() };
                    }
                }
            }
            acts.push(as_act(g, x));
        }
    }
    let out = hook_out(g, sel);
    t.plans.push(Plan { at: who, sel: selector(sel), acts, post: false, out });
}
fn knobs1155(r: &mut Rng, c: &mut Cfg) {
    id_knobs(r, c, 2, 5);
    c.set("rich", r.below(4));
    c.set("actors", r.range(1, 4));
}
pub const ERC1155: Fam = Fam {
    name: "erc1155",
    knobs: knobs1155,
    setup: |_c, s| s.deploy(C0, k::T1155::entry, t1155, T1155_SIGS, S::default()),
    gen: |g| gen1155(g, true),
    queries: q1155,
    inv: no_inv,
};
pub const ERC1155_RECV: Fam = Fam {
    name: "erc1155-receiver",
    knobs: |r, c| {
        knobs1155(r, c);
        c.set("reent", r.pct(75) as u64);
        c.set("plans", r.range(30, 95));
    },
    setup: |_c, s| s.deploy(C0, k::T1155::entry, t1155, T1155_SIGS, S::default()),
    gen: |g| {
        let mut t = gen1155(g, true);
        if g.pct(50) {
            let i = g.below(2) as usize;
            if t.op.f.starts_with("mint") {
                t.op.a[0] = a(stub(i));
            } else if t.op.f.starts_with("safe") {
                t.op.a[1] = a(stub(i));
            }
        }
        if g.pct(g.c.g("plans")) {
            let qs = q1155(g.v, g.c);
            hook1155(g, &mut t, true, &qs);
        }
        t
    },
    queries: q1155,
    inv: no_inv,
};
fn q_s1155(w: &MW, c: &Cfg) -> Vec<(Address, Op)> {
    let mut q = q1155(w, c);
    q.push((C0, op("totalSupply()", vec![])));
    let mut id = ids(c);
    for (_, i) in w.s(C0).mb.keys() {
        if !id.contains(i) && id.len() < 14 {
            id.push(*i);
        }
    }
    for i in id {
        q.push((C0, op("totalSupply(uint256)", vec![n(i)])));
        q.push((C0, op("exists(uint256)", vec![n(i)])));
    }
    q
}
pub const SUPPLY1155: Fam = Fam {
    name: "erc1155-supply",
    knobs: |r, c| {
        knobs1155(r, c);
        c.set("plans", if r.pct(50) { r.range(10, 60) } else { 0 });
    },
    setup: |_c, s| s.deploy(C0, k::S1155::entry, s1155, S1155_SIGS, S::default()),
    gen: |g| {
        let mut t = gen1155(g, false);
        if g.pct(g.c.g("plans")) {
            let qs = q_s1155(g.v, g.c);
            hook1155(g, &mut t, false, &qs);
        }
        t
    },
    queries: q_s1155,
    inv: no_inv,
};

// ------------------------------------------------------------------------ C21
pub const ROYALTY: Fam = Fam {
    name: "erc2981",
    knobs: |r, c| {
        id_knobs(r, c, 2, 6);
        let d = match r.below(10) {
            0..=4 => U256::from(10_000),
            5 => U256::from(1),
            6 => U256::from(r.below(1_000_000)),
            7 => max96(),
            8 => U256::from(r.u()),
            _ => U256::ZERO,
        };
        c.setn("denom", d);
        for i in 0..4 {
            let p = match r.below(6) {
                0 => U256::from(r.below(20_000)),
                1 => U256::from(10).pow(U256::from(18 + r.below(4))) + U256::from(r.below(1000)),
                2 => U256::MAX,
                3 => U256::MAX / d.max(U256::from(1)),
                4 => *r.pick(&dict().n),
                _ => U256::from_limbs([r.u(), r.u(), r.u(), r.u()]) >> r.below(256) as usize,
            };
            c.setn(&format!("p{i}"), p);
        }
    },
    setup: |c, s| {
        s.raw(C0, 2, c.n("denom"));
        s.deploy(C0, k::R2981::entry, r2981, R2981_SIGS, S { fee: c.n("denom"), ..Default::default() });
    },
    gen: |g| {
        let f = g.actor();
        let d = g.v.s(C0).fee;
        let fee = if g.pct(75) { g.upto(d) } else { g.num(&[d]) } & max96();
        let to = if g.pct(85) { g.actor() } else { g.addr() };
        let id = tid(g);
        match g.below(10) {
            0..=2 => g.tx(f, op("setDefault(address,uint96)", vec![a(to), n(fee)])),
            3 => g.tx(f, op("deleteDefault()", vec![])),
            4..=7 => g.tx(f, op("setToken(uint256,address,uint96)", vec![n(id), a(to), n(fee)])),
            _ => g.tx(f, op("resetToken(uint256)", vec![n(id)])),
        }
    },
    queries: |w, c| {
        let mut v = ids(c);
        for i in w.s(C0).troy.keys() {
            if !v.contains(i) {
                v.push(*i);
            }
        }
        let mut q = vec![];
        for i in v {
            for p in 0..4 {
                q.push((C0, op("royaltyInfo(uint256,uint256)", vec![n(i), n(c.n(&format!("p{p}")))])));
            }
        }
        q
    },
    inv: |s| {
        for i in ids(&s.cfg) {
            for p in 0..4 {
                let p = s.cfg.n(&format!("p{p}"));
                if let Ok(d) = s.w.query(eoa(0), C0, &op("royaltyInfo(uint256,uint256)", vec![n(i), n(p)])) {
                    if U256::from_be_slice(&d[32..]) > p {
                        return Err("royalty: larger than the price".into());
                    }
                }
            }
        }
        Ok(())
    },
};

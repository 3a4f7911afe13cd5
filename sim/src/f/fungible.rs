//! Simulated deployments of the fungible-token components.
use super::*;
use crate::abi::*;
use crate::c::fungible as k;
use crate::core::*;
use crate::m::fungible::{self as mf, *};
use crate::model::*;
use crate::rng::Rng;
use alloy_primitives::{Address, U256};

pub fn actors(c: &Cfg) -> Vec<Address> {
    let mut v: Vec<Address> = (0..c.g("actors") as usize).map(eoa).collect();
    v.push(stub(0));
    v.push(stub(1));
    v
}
/// getters of an ERC-20 ledger
pub fn q20(at: Address, c: &Cfg, q: &mut Vec<(Address, Op)>) {
    q.push((at, op("totalSupply()", vec![])));
    let mut v = actors(c);
    v.push(C0);
    v.push(TK);
    v.push(Address::ZERO);
    for x in &v {
        q.push((at, op("balanceOf(address)", vec![a(*x)])));
    }
    let k = v.len() - 2;
    for x in &v[..k] {
        for y in &v[..k] {
            q.push((at, op("allowance(address,address)", vec![a(*x), a(*y)])));
        }
    }
}
fn holders(g: &Gx, at: Address) -> Vec<(Address, U256)> {
    g.v.s(at).bal.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (*k, *v)).collect()
}
fn grants(g: &Gx, at: Address) -> Vec<(Address, Address, U256)> {
    g.v.s(at).alw.iter().filter(|(_, v)| !v.is_zero()).map(|((o, s), v)| (*o, *s, *v)).collect()
}
/// A transaction on the standard ERC-20 functions (mostly valid). `extra` adds mint/burn.
pub fn gen20(g: &mut Gx, at: Address, mints: bool, burns: bool, burn_from: bool) -> Tx {
    let hs = holders(g, at);
    let gs = grants(g, at);
    let sup = g.v.s(at).supply;
    let valid = g.pct(75);
    let room = U256::MAX - sup;
    let mut t = match g.below(100) {
        0..=19 if mints => {
            let to = if valid { g.actor() } else { g.addr() };
            let v = if g.pct(60) {
                let rich = g.c.g("rich");
                match rich {
                    0 => U256::from(g.below(1000)),
                    1 => g.upto(U256::from(10).pow(U256::from(24))),
                    _ => g.upto(room),
                }
            } else {
                g.num(&[room, sup])
            };
            let f = g.actor();
            g.tx(f, op("mint(address,uint256)", vec![a(to), n(v)]))
        }
        0..=44 => {
            let (f, b) = if hs.is_empty() || !valid { (g.actor(), sup) } else { *g.r.pick(&hs) };
            let to = if g.pct(15) { f } else { g.addr() };
            let v = if valid { g.upto(b) } else { g.num(&[b, sup]) };
            g.tx(f, op("transfer(address,uint256)", vec![a(to), n(v)]))
        }
        45..=64 => {
            let (f, b) = if hs.is_empty() || g.pct(20) { (g.actor(), sup) } else { *g.r.pick(&hs) };
            let sp = if g.pct(15) { f } else { g.addr() };
            let v = if g.pct(25) { U256::MAX } else { g.num(&[b, b]) };
            g.tx(f, op("approve(address,uint256)", vec![a(sp), n(v)]))
        }
        65..=86 => {
            let (o, s, al) = if gs.is_empty() || g.pct(15) { (g.addr(), g.actor(), sup) } else { *g.r.pick(&gs) };
            let b = g.v.s(at).bal.get(&o).copied().unwrap_or_default();
            let to = g.addr();
            let v = if valid { g.upto(al.min(b)) } else { g.num(&[al, b]) };
            let s = if g.pct(5) { o } else { s };
            if burn_from && g.pct(35) {
                g.tx(s, op("burnFrom(address,uint256)", vec![a(o), n(v)]))
            } else {
                g.tx(s, op("transferFrom(address,address,uint256)", vec![a(o), a(to), n(v)]))
            }
        }
        _ if burns => {
            let (f, b) = if hs.is_empty() || g.pct(15) { (g.actor(), sup) } else { *g.r.pick(&hs) };
            let v = if valid { g.upto(b) } else { g.num(&[b, sup]) };
            g.tx(f, op("burn(uint256)", vec![n(v)]))
        }
        _ => {
            let (f, b) = if hs.is_empty() { (g.actor(), sup) } else { *g.r.pick(&hs) };
            let to = g.actor();
            let v = g.upto(b);
            g.tx(f, op("transfer(address,uint256)", vec![a(to), n(v)]))
        }
    };
    t.to = at;
    t
}

/// sum of balances = supply, read from the real contract over every account that may hold
pub fn ledger_inv(s: &mut Sim, at: Address) -> Result<(), String> {
    let mut sum = U256::ZERO;
    let mut hs: Vec<Address> = s.m.s(at).bal.keys().copied().collect();
    for x in s.who.clone() {
        if !hs.contains(&x) {
            hs.push(x);
        }
    }
    for h in hs {
        let r = s.w.query(eoa(0), at, &op("balanceOf(address)", vec![a(h)]));
        let Ok(d) = r else { return Err("ledger: balanceOf failed".into()) };
        sum = match sum.checked_add(U256::from_be_slice(&d)) {
            Some(x) => x,
            None => return Err("ledger: balances overflow".into()),
        };
    }
    let Ok(d) = s.w.query(eoa(0), at, &op("totalSupply()", vec![])) else {
        return Err("ledger: totalSupply failed".into());
    };
    if sum != U256::from_be_slice(&d) {
        return Err(format!("ledger: balances sum to {sum}, supply is {}", U256::from_be_slice(&d)));
    }
    Ok(())
}

// ------------------------------------------------------------------------ C01
pub const ERC20: Fam = Fam {
    name: "erc20",
    knobs: |r, c| {
        c.set("rich", r.below(3));
    },
    setup: |_c, s| {
        s.raw_str(C0, 3, "Name");
        s.raw_str(C0, 4, "SYM");
        let st = S { name: "Name".into(), symbol: "SYM".into(), ..Default::default() };
        s.deploy(C0, k::T20::entry, t20, T20_SIGS, st);
    },
    gen: |g| {
        if g.pct(4) {
            let (f, t) = (g.addr(), g.addr());
            let b = g.v.s(C0).bal.get(&f).copied().unwrap_or_default();
            let sup = g.v.s(C0).supply;
            let v = if g.pct(70) { g.upto(b) } else { g.num(&[b, sup, U256::MAX - sup]) };
            let x = g.actor();
            return g.tx(x, op("update(address,address,uint256)", vec![a(f), a(t), n(v)]));
        }
        if g.pct(4) {
            let x = g.actor();
            let gs = grants(g, C0);
            if g.pct(40) || gs.is_empty() {
                let f = g.addr();
                let b = g.v.s(C0).bal.get(&f).copied().unwrap_or_default();
                let v = if g.pct(70) { g.upto(b) } else { g.num(&[b]) };
                return g.tx(x, op("adminBurn(address,uint256)", vec![a(f), n(v)]));
            }
            let (o, s, al) = if g.pct(15) { (g.addr(), g.addr(), U256::ZERO) } else { *g.r.pick(&gs) };
            let v = if g.pct(70) { g.upto(al) } else { g.num(&[al]) };
            return g.tx(x, op("spendAllowance(address,address,uint256)", vec![a(o), a(s), n(v)]));
        }
        gen20(g, C0, true, true, true)
    },
    queries: |_w, c| {
        let mut q = vec![];
        q20(C0, c, &mut q);
        q.push((C0, op("name()", vec![])));
        q.push((C0, op("symbol()", vec![])));
        q.push((C0, op("decimals()", vec![])));
        q
    },
    inv: |s| ledger_inv(s, C0),
};

// ------------------------------------------------------------------------ C02
pub const PAUSE: Fam = Fam {
    name: "pausable",
    knobs: |r, c| {
        c.set("rich", r.below(2));
        let cap = match r.below(4) {
            0 => U256::from(r.below(2000) + 1),
            1 => U256::from(10).pow(U256::from(20)),
            2 => U256::MAX,
            _ => U256::from(1) << r.below(256) as usize,
        };
        c.setn("cap", cap);
    },
    setup: |c, s| {
        s.raw_str(C0, 3, "Pausable token with a name longer than one slot");
        s.raw_str(C0, 4, "P");
        s.raw(C0, 5, c.n("cap"));
        let st = S {
            name: "Pausable token with a name longer than one slot".into(),
            symbol: "P".into(),
            cap: c.n("cap"),
            ..Default::default()
        };
        s.deploy(C0, k::P20::entry, p20, P20_SIGS, st);
    },
    gen: |g| {
        let p = g.v.s(C0).paused;
        match g.below(100) {
            0..=7 => {
                let f = g.actor();
                let flip = g.pct(20);
                g.tx(f, op(if p ^ flip { "unpause()" } else { "pause()" }, vec![]))
            }
            8..=11 => {
                let f = g.actor();
                g.tx(f, op("pause()", vec![]))
            }
            12..=19 => {
                let f = g.actor();
                g.tx(f, op("unpause()", vec![]))
            }
            20..=26 => {
                let f = g.actor();
                g.tx(f, op("emergency()", vec![]))
            }
            27..=34 => {
                let (cap, sup) = (g.v.s(C0).cap, g.v.s(C0).supply);
                let f = g.actor();
                let to = g.actor();
                let v = g.num(&[cap.saturating_sub(sup), cap]);
                g.tx(f, op("mint(address,uint256)", vec![a(to), n(v)]))
            }
            _ => gen20(g, C0, true, true, true),
        }
    },
    queries: |_w, c| {
        let mut q = vec![];
        q20(C0, c, &mut q);
        for f in ["paused()", "cap()", "name()", "symbol()", "decimals()"] {
            q.push((C0, op(f, vec![])));
        }
        q
    },
    inv: |s| ledger_inv(s, C0),
};

// ------------------------------------------------------------ C03, C04, C05
pub fn sign(h: &[u8; 32], key: usize) -> (u8, [u8; 32], [u8; 32]) {
    let (sig, rid) = keys().sk[key].sign_prehash_recoverable(h).unwrap();
    let b = sig.to_bytes();
    let (mut r, mut s) = ([0u8; 32], [0u8; 32]);
    r.copy_from_slice(&b[..32]);
    s.copy_from_slice(&b[32..]);
    (27 + rid.to_byte(), r, s)
}
fn order() -> U256 {
    half_n() * U256::from(2) + U256::from(1)
}
/// Damage a signature in a realistic way.
fn mangle(g: &mut Gx, v: &mut u8, r: &mut [u8; 32], s: &mut [u8; 32]) {
    match g.below(12) {
        0 | 1 => {
            // the other valid-looking form of the same signature
            *s = (order() - U256::from_be_bytes(*s)).to_be_bytes::<32>();
            *v = if *v == 27 { 28 } else { 27 };
        }
        2 => *v = if *v == 27 { 28 } else { 27 },
        3 => *v -= 27,
        4 => *v = *g.r.pick(&[0u8, 1, 2, 26, 29, 30, 35, 36, 255]),
        5 => *r = [0; 32],
        6 => *s = [0; 32],
        7 => *r = order().to_be_bytes::<32>(),
        8 => {
            let x = g.r.below(32) as usize;
            r[x] ^= 1 << g.r.below(8);
        }
        9 => {
            let x = g.r.below(32) as usize;
            s[x] ^= 1 << g.r.below(8);
        }
        10 => *s = half_n().wrapping_add(U256::from(g.r.below(3))).wrapping_sub(U256::from(1)).to_be_bytes::<32>(),
        _ => {
            *s = (order() - U256::from_be_bytes(*s)).to_be_bytes::<32>();
        }
    }
}
fn ec_plan(g: &mut Gx, t: &mut Tx) {
    if g.pct(g.c.g("ecfail")) {
        let out = match g.below(6) {
            0 | 1 => Out::Trap,
            2 => Out::Revert(vec![]),
            3 => rev(g),
            4 => Out::Ret(vec![]),
            _ => Out::Ret(vec![0; 32]),
        };
        t.plans.push(Plan { at: EC, sel: [0; 4], acts: vec![], post: false, out });
    }
}
fn gen_permit(g: &mut Gx) -> Tx {
    let at = if g.pct(75) { C0 } else { C1 };
    let n_act = g.c.g("actors");
    let oi = g.below(n_act) as usize;
    let owner = eoa(oi);
    let sp = if g.pct(90) { g.actor() } else { g.addr() };
    let v = if g.pct(15) { U256::MAX } else { g.num(&[]) };
    let now = g.v.now;
    let dl = match g.below(10) {
        0 => U256::from(now),
        1 => U256::from(now).wrapping_sub(U256::from(1)),
        2 => U256::from(now) + U256::from(g.below(60)),
        3 => U256::MAX,
        4 => U256::from(now) + U256::from(1),
        5 => g.num(&[U256::from(now)]),
        6 => U256::from(now).wrapping_sub(U256::from(g.below(9))) | (U256::from(1) << (32 + g.below(224)) as usize),
        _ => U256::from(now) + U256::from(3600 * 24),
    };
    let cur = g.v.s(at).nonce.get(&owner).copied().unwrap_or_default();
    // what is signed may differ from what is submitted
    let (mut so, mut ss, mut sv, mut sd, mut sn, mut sc, mut sch, mut key) =
        (owner, sp, v, dl, cur, at, g.v.chain, oi);
    if g.pct(35) {
        match g.below(9) {
            0 => sn = if g.pct(50) { cur + U256::from(1) } else { cur.saturating_sub(U256::from(1)) },
            1 => sc = if at == C0 { C1 } else { C0 },
            2 => sch = *g.r.pick(&[1u64, 42161, 421614, 10]),
            3 => key = g.below(n_act) as usize,
            4 => so = g.actor(),
            5 => ss = g.actor(),
            6 => sv = g.num(&[v]),
            7 => sd = g.num(&[dl]),
            _ => sn = g.num(&[cur]),
        }
    }
    let h = mf::permit_digest(&mf::domain(sch, sc), so, ss, sv, sn, sd);
    let (mut vv, mut r, mut s) = sign(&h, key);
    if g.pct(12) {
        mangle(g, &mut vv, &mut r, &mut s);
    }
    let o2 = if g.pct(4) { g.addr() } else { owner };
    let f = g.actor();
    let mut t = g.tx(
        f,
        op(
            "permit(address,address,uint256,uint256,uint8,bytes32,bytes32)",
            vec![a(o2), a(sp), n(v), n(dl), n(vv as u64), by(&r), by(&s)],
        ),
    );
    t.to = at;
    ec_plan(g, &mut t);
    t
}
/// some accounts have used very many nonces already
fn age_knobs(r: &mut Rng, c: &mut Cfg, p: u64) {
    if !r.pct(p) {
        return;
    }
    for i in 0..c.g("actors") + 2 {
        if r.pct(50) {
            let bits = *r.pick(&[8u64, 16, 31, 32, 63, 64, 96, 127, 128, 160, 255, 256]);
            let top = if bits == 256 { U256::MAX } else { (U256::from(1) << bits as usize) - U256::from(1) };
            c.setn(&format!("age{i}"), top - U256::from(r.below(4)));
        }
    }
}
fn setup_perm(c: &Cfg, s: &mut Sim) {
    s.deploy(C0, k::Perm::entry, perm, PERM_SIGS, S::default());
    s.deploy(C1, k::Perm::entry, perm, PERM_SIGS, S::default());
    for (i, x) in actors(c).into_iter().enumerate() {
        let v = c.n(&format!("age{i}"));
        if !v.is_zero() && s.age(C0, op("useNonce(address)", vec![a(x)]), v) {
            s.m.m(C0).nonce.insert(x, v);
        }
    }
}
fn q_perm(c: &Cfg) -> Vec<(Address, Op)> {
    let mut q = vec![];
    for at in [C0, C1] {
        q.push((at, op("DOMAIN_SEPARATOR()", vec![])));
        q.push((at, op("eip712Domain()", vec![])));
        let v = actors(c);
        for x in &v {
            q.push((at, op("nonces(address)", vec![a(*x)])));
            for y in &v {
                q.push((at, op("allowance(address,address)", vec![a(*x), a(*y)])));
            }
        }
        q.push((at, op("nonces(address)", vec![a(Address::ZERO)])));
    }
    q
}
pub const PERMIT: Fam = Fam {
    name: "permit",
    knobs: |r, c| {
        c.set("rich", r.below(2));
        c.set("forks", r.pct(40) as u64);
        c.set("steps", r.range(6, 24));
        c.set("dup", r.range(5, 40));
        c.set("reorder", r.range(0, 70));
        c.set("ecfail", if r.pct(25) { 10 } else { 0 });
        age_knobs(r, c, 12);
    },
    setup: setup_perm,
    gen: |g| match g.below(100) {
        0..=69 => gen_permit(g),
        70..=74 => {
            let (f, x) = (g.actor(), g.eoa());
            let mut t = g.tx(f, op("useNonce(address)", vec![a(x)]));
            if g.pct(30) {
                t.to = C1;
            }
            t
        }
        75..=79 => {
            let (f, x) = (g.actor(), g.eoa());
            let cur = g.v.s(C0).nonce.get(&x).copied().unwrap_or_default();
            let v = g.num(&[cur, cur, cur]);
            g.tx(f, op("useCheckedNonce(address,uint256)", vec![a(x), n(v)]))
        }
        _ => gen20(g, C0, true, false, false),
    },
    queries: |_w, c| q_perm(c),
    inv: no_inv,
};
pub const NONCES: Fam = Fam {
    name: "nonces",
    knobs: |r, c| {
        c.set("dup", r.range(5, 40));
        c.set("reorder", r.range(0, 70));
        c.set("stale", r.range(0, 50));
        c.set("ecfail", 0);
        age_knobs(r, c, 40);
    },
    setup: setup_perm,
    gen: |g| {
        let at = if g.pct(85) { C0 } else { C1 };
        let f = g.actor();
        let x = if g.pct(85) { g.actor() } else { g.addr() };
        let cur = g.v.s(at).nonce.get(&x).copied().unwrap_or_default();
        let mut t = match g.below(100) {
            0..=3 => {
                let k = match g.below(200) {
                    0 => 65_535 + g.below(3),
                    1..=60 => 254 + g.below(4),
                    _ => 1 + g.below(40),
                };
                g.tx(f, op("useMany(address,uint256)", vec![a(x), n(k)]))
            }
            4..=39 => g.tx(f, op("useNonce(address)", vec![a(x)])),
            40..=94 => {
                let v = if g.pct(60) { cur } else { g.num(&[cur]) };
                g.tx(f, op("useCheckedNonce(address,uint256)", vec![a(x), n(v)]))
            }
            _ => return gen_permit(g),
        };
        t.to = at;
        t
    },
    queries: |_w, c| {
        let mut q = vec![];
        for at in [C0, C1] {
            for x in actors(c).iter().chain([C0, TK, NOCODE, Address::ZERO].iter()) {
                q.push((at, op("nonces(address)", vec![a(*x)])));
            }
        }
        q
    },
    inv: no_inv,
};
pub const ECDSA: Fam = Fam {
    name: "ecdsa",
    knobs: |r, c| {
        c.set("steps", r.range(4, 12));
        c.set("ecfail", if r.pct(40) { 15 } else { 0 });
        c.set("actors", r.range(2, 5));
    },
    setup: setup_perm,
    gen: |g| {
        let key = g.below(NKEYS as u64) as usize;
        let h = match g.below(6) {
            0 => [0u8; 32],
            1 => [0xff; 32],
            _ => g.word().to_be_bytes::<32>(),
        };
        let (mut v, mut r, mut s) = sign(&h, key);
        if g.pct(55) {
            mangle(g, &mut v, &mut r, &mut s);
        }
        if g.pct(5) {
            r = g.word().to_be_bytes::<32>();
        }
        if g.pct(5) {
            s = g.num(&[half_n(), order()]).to_be_bytes::<32>();
        }
        let mut h2 = h;
        if g.pct(5) {
            h2[g.r.below(32) as usize] ^= 1;
        }
        let f = g.actor();
        let mut t =
            g.tx(f, op("recover(bytes32,uint8,bytes32,bytes32)", vec![by(&h2), n(v as u64), by(&r), by(&s)]));
        ec_plan(g, &mut t);
        t
    },
    queries: |_w, _c| vec![],
    inv: no_inv,
};

// ---------------------------------------------------------------- C06, C07
/// Asset tokens an account starts with; in a few runs one holds every token there can be.
fn start_bal(c: &Cfg, x: Address) -> U256 {
    match (c.on("maxed"), x == eoa(0)) {
        (true, true) => U256::MAX,
        (true, false) => U256::ZERO,
        _ => c.n("start") >> 4,
    }
}
fn setup_vault(c: &Cfg, s: &mut Sim) {
    let tc = TokCfg {
        no_ret: c.on("noret"),
        soft: c.on("soft"),
        usdt: false,
        no_dec: false,
        dec: c.g("dec") as u8,
    };
    s.raw_str(C0, 3, "Vault");
    s.raw_str(C0, 4, "V");
    let asset = if c.on("noasset") { NOCODE } else { TK };
    let mut w = [0u8; 32];
    w[12..].copy_from_slice(asset.as_slice());
    w[11] = c.g("dec") as u8;
    w[10] = c.g("off") as u8;
    s.raw(C0, 5, U256::from_be_bytes(w));
    let st = S {
        name: "Vault".into(),
        symbol: "V".into(),
        asset,
        dec: c.g("dec") as u8,
        off: c.g("off") as u8,
        ..Default::default()
    };
    s.deploy(C0, k::Vault::entry, vault, VAULT_SIGS, st);
    if c.on("realasset") {
        // the library's own ERC-20 as the asset
        let mut st = S::default();
        for x in actors(c) {
            let b = start_bal(c, x);
            st.bal.insert(x, b);
            st.supply += b;
            let slot = keccak(&enc("address,uint256", &[a(x), n(0u64)]));
            s.w.sstore_raw(TK, U256::from_be_bytes(slot), b);
        }
        s.raw(TK, 2, st.supply);
        s.deploy(TK, k::T20::entry, t20, T20_SIGS, st);
    } else {
        s.tok(TK, tc);
        let mut sup = U256::ZERO;
        for x in actors(c) {
            let b = start_bal(c, x);
            s.kv0(kbal(TK, x), b);
            if c.on("preapp") {
                s.kv0(kall(TK, x, C0), U256::MAX);
            }
            sup += b;
        }
        s.kv0(ksup(TK), sup);
    }
}
pub fn abal(g: &Gx, x: Address) -> U256 {
    if g.v.st.s.contains_key(&TK) {
        g.v.s(TK).bal.get(&x).copied().unwrap_or_default()
    } else {
        g.v.kvv(kbal(TK, x))
    }
}
fn aalw(g: &Gx, o: Address, s: Address) -> U256 {
    if g.v.st.s.contains_key(&TK) {
        g.v.s(TK).alw.get(&(o, s)).copied().unwrap_or_default()
    } else {
        g.v.kvv(kall(TK, o, s))
    }
}
/// A call to the asset token: approval of the consumer, donation, transfer, mint.
pub fn gen_asset(g: &mut Gx, consumer: Address) -> Tx {
    let x = g.actor();
    let b = abal(g, x);
    let mut t = match g.below(10) {
        0..=4 => {
            let v = if g.pct(50) { U256::MAX } else { g.num(&[b]) };
            g.tx(x, op("approve(address,uint256)", vec![a(consumer), n(v)]))
        }
        5 | 6 => {
            let v = g.upto(b >> 2);
            g.tx(x, op("transfer(address,uint256)", vec![a(consumer), n(v)]))
        }
        7 | 8 => {
            let (y, v) = (g.actor(), g.upto(b));
            g.tx(x, op("transfer(address,uint256)", vec![a(y), n(v)]))
        }
        _ => {
            let y = g.actor();
            let v = if g.pct(70) { U256::from(g.below(1_000_000)) } else { g.num(&[b]) };
            g.tx(x, op("mint(address,uint256)", vec![a(y), n(v)]))
        }
    };
    t.to = TK;
    t
}
fn ten_to(k: u64) -> U256 {
    U256::from(10).checked_pow(U256::from(k)).unwrap_or(U256::MAX)
}
pub fn gen_vault_op(g: &mut Gx, from: Option<Address>) -> Tx {
    let hs = holders(g, C0);
    let sup = g.v.s(C0).supply;
    let valid = g.pct(80);
    match g.below(100) {
        0..=24 => {
            let f = from.unwrap_or_else(|| g.actor());
            let b = abal(g, f).min(aalw(g, f, C0));
            let v = if valid { g.upto(b) } else { g.num(&[b]) };
            let rcv = if valid { g.actor() } else { g.addr() };
            g.tx(f, op("deposit(uint256,address)", vec![n(v), a(rcv)]))
        }
        25..=44 => {
            let f = from.unwrap_or_else(|| g.actor());
            let b = abal(g, f).min(aalw(g, f, C0));
            let v = if valid {
                // shares worth about b
                let tot = abal(g, C0) + U256::from(1);
                let s1 = sup.saturating_add(ten_to(g.c.g("off")));
                let x = mul_div(b, s1, tot, false).unwrap_or_default();
                g.upto(x)
            } else {
                g.num(&[b, sup])
            };
            let rcv = if valid { g.actor() } else { g.addr() };
            g.tx(f, op("mint(uint256,address)", vec![n(v), a(rcv)]))
        }
        45..=79 => {
            let (o, b) = if hs.is_empty() || g.pct(10) { (g.addr(), sup) } else { *g.r.pick(&hs) };
            let caller = match from {
                Some(f) => f,
                None => {
                    if g.pct(60) {
                        o
                    } else {
                        g.actor()
                    }
                }
            };
            let rcv = if valid { g.actor() } else { g.addr() };
            if g.pct(50) {
                let v = if valid { g.upto(b) } else { g.num(&[b, sup]) };
                g.tx(caller, op("redeem(uint256,address,address)", vec![n(v), a(rcv), a(o)]))
            } else {
                let tot = abal(g, C0) + U256::from(1);
                let s1 = sup.saturating_add(ten_to(g.c.g("off")));
                let m = mul_div(b, tot, s1, false).unwrap_or_default();
                let v = if valid { g.upto(m) } else { g.num(&[m, m]) };
                g.tx(caller, op("withdraw(uint256,address,address)", vec![n(v), a(rcv), a(o)]))
            }
        }
        _ => {
            let mut t = gen20(g, C0, false, false, false);
            if let Some(f) = from {
                t.from = f;
            }
            t
        }
    }
}
fn q_vault(w: &MW, c: &Cfg) -> Vec<(Address, Op)> {
    let mut q = vec![];
    q20(C0, c, &mut q);
    for f in ["asset()", "totalAssets()", "decimals()", "name()", "symbol()"] {
        q.push((C0, op(f, vec![])));
    }
    let sup = w.s(C0).supply;
    let t = w.kvv(kbal(TK, C0));
    for v in [U256::from(1), U256::from(999), sup, t, U256::from(10).pow(U256::from(18)) + U256::from(7), U256::MAX] {
        for f in [
            "convertToShares(uint256)",
            "convertToAssets(uint256)",
            "previewDeposit(uint256)",
            "previewMint(uint256)",
            "previewWithdraw(uint256)",
            "previewRedeem(uint256)",
        ] {
            q.push((C0, op(f, vec![n(v)])));
        }
    }
    for x in actors(c) {
        for f in ["maxDeposit(address)", "maxMint(address)", "maxWithdraw(address)", "maxRedeem(address)"] {
            q.push((C0, op(f, vec![a(x)])));
        }
        q.push((TK, op("balanceOf(address)", vec![a(x)])));
    }
    q
}
fn vault_knobs(r: &mut Rng, c: &mut Cfg) {
    c.set("rich", r.below(2));
    c.set("dec", *r.pick(&[0, 6, 8, 18, 18, 18, 77]));
    c.set("off", *r.pick(&[0, 0, 0, 1, 3, 6, 9, 12, 18]));
    if r.pct(5) {
        c.set("dec", *r.pick(&[0, 18, 127, 128, 200, 237, 249, 254, 255]));
        c.set("off", *r.pick(&[0, 1, 6, 18, 38, 60, 76, 77, 78, 128, 255]));
    }
    let s = match r.below(4) {
        0 => U256::from(1000),
        1 => U256::from(10).pow(U256::from(24)),
        2 => U256::from(10).pow(U256::from(40)),
        _ => U256::from(1) << 200,
    };
    c.setn("start", s);
    c.set("realasset", r.pct(25) as u64);
    c.set("preapp", r.pct(80) as u64);
    c.set("noret", 0);
    c.set("soft", 0);
    c.set("plans", 0);
}
pub const VAULT: Fam = Fam {
    name: "erc4626",
    knobs: |r, c| {
        vault_knobs(r, c);
        c.set("reent", 0);
        c.set("maxed", r.pct(3) as u64);
    },
    setup: setup_vault,
    gen: |g| {
        if g.pct(22) {
            gen_asset(g, C0)
        } else {
            gen_vault_op(g, None)
        }
    },
    queries: q_vault,
    inv: |s| {
        ledger_inv(s, C0)?;
        // the price of a share never falls
        let get = |s: &mut Sim, f: Sig| s.w.query(eoa(0), C0, &op(f, vec![])).ok().map(|d| U256::from_be_slice(&d));
        if let (Some(t), Some(sup)) = (get(s, "totalAssets()"), get(s, "totalSupply()")) {
            let o = ten_to(s.cfg.g("off"));
            let (t1, s1) = (U512::from(t) + U512::from(1), U512::from(sup) + U512::from(o));
            if let (Some(pt), Some(ps)) = (s.memo.get("t"), s.memo.get("s")) {
                let (pt, ps) = (U512::from(*pt) + U512::from(1), U512::from(*ps) + U512::from(o));
                if !s.cfg.on("reorgs") && t1 * ps < pt * s1 {
                    return Err(format!("price: a share lost value: assets {t} supply {sup}"));
                }
            }
            s.memo.insert("t".into(), t);
            s.memo.insert("s".into(), sup);
        }
        Ok(())
    },
};
/// Return data a hostile token may give.
pub fn odd_ret(g: &mut Gx) -> Vec<u8> {
    match g.below(9) {
        0 => vec![0; 32],
        1 => vec![],
        2 => {
            let mut v = vec![0; 32];
            v[31] = 2;
            v
        }
        3 => {
            let mut v = vec![0; 32];
            v[0] = 1;
            v
        }
        4 => vec![0xff; 32],
        5 => {
            let mut v = vec![0; 64];
            v[31] = 1;
            v
        }
        6 => {
            // "true" with one stray bit anywhere
            let mut v = vec![0; 32];
            v[31] = 1;
            let k = g.below(256) as usize;
            v[k / 8] ^= 1 << (k % 8);
            v
        }
        7 => {
            let mut v = vec![0; 32];
            v[31] = 1;
            v
        }
        _ => {
            let mut v = vec![0; g.below(31) as usize + 1];
            if g.pct(50) {
                let k = v.len();
                v[k - 1] = 1;
            }
            v
        }
    }
}
pub fn odd_out(g: &mut Gx, nomove: bool) -> Out {
    match g.below(10) {
        0 => Out::Trap,
        1 | 2 => rev(g),
        3..=5 => Out::Ret(odd_ret(g)),
        6 if nomove => Out::NoMove(odd_ret(g)),
        _ => Out::Default,
    }
}
/// What a failing peer leaves behind: nothing, noise, a standard error, or the very bytes that would
/// have meant success had they been returned.
pub fn rev(g: &mut Gx) -> Out {
    let one = U256::from(1).to_be_bytes::<32>().to_vec();
    Out::Revert(match g.below(10) {
        0 | 1 => vec![],
        2 => g.bytes(),
        3 => vec![g.below(256) as u8; 1 + g.below(5) as usize],
        4 => one,
        5 => flash_magic(),
        6 => {
            let s = *g.r.pick(&["onERC721Received(address,address,uint256,bytes)", "onERC1155Received(address,address,uint256,uint256,bytes)", "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)"]);
            let mut v = selector(s).to_vec();
            if g.pct(70) {
                v.resize(32, 0);
            }
            v
        }
        7 => {
            // Panic(uint256)
            let mut v = vec![0x4e, 0x48, 0x7b, 0x71];
            v.extend_from_slice(&U256::from(0x11).to_be_bytes::<32>());
            v
        }
        8 => {
            // Error(string), possibly without the string
            let mut v = vec![0x08, 0xc3, 0x79, 0xa0];
            if g.pct(70) {
                v.extend_from_slice(&U256::from(32).to_be_bytes::<32>());
                v.extend_from_slice(&U256::from(2).to_be_bytes::<32>());
                v.extend_from_slice(&[b'n'; 32]);
            }
            v
        }
        _ => g.num(&[]).to_be_bytes::<32>().to_vec(),
    })
}
/// Turn a generated transaction into something a peer does while it is called.
pub fn as_act(g: &mut Gx, t: Tx) -> Act {
    let bubble = g.pct(15);
    Act { to: t.to, value: t.value, op: t.op, st: false, bubble }
}
pub fn view_act(g: &mut Gx, qs: &[(Address, Op)]) -> Act {
    let (to, o) = g.r.pick(qs).clone();
    let st = g.pct(80);
    Act { to, value: U256::ZERO, op: o, st, bubble: false }
}
fn vault_plans(g: &mut Gx, t: &mut Tx) {
    let asset = TK;
    if g.pct(g.c.g("plans")) {
        let sel = if g.pct(50) { "transferFrom(address,address,uint256)" } else { "transfer(address,uint256)" };
        let sel = match t.op.f.split('(').next().unwrap_or("") {
            "deposit" | "mint" => "transferFrom(address,address,uint256)",
            "withdraw" | "redeem" => "transfer(address,uint256)",
            _ => sel,
        };
        let mut acts = vec![];
        for _ in 0..g.below(3) {
            if g.pct(30) {
                let qs = q_vault(g.v, g.c);
                acts.push(view_act(g, &qs));
            } else {
                // the token itself is the caller of the nested operation
                let mut x = gen_vault_op(g, Some(asset));
                x.from = asset;
                acts.push(as_act(g, x));
            }
        }
        let out = if g.pct(45) { odd_out(g, true) } else { Out::Default };
        let post = g.pct(50);
        t.plans.push(Plan { at: asset, sel: selector(sel), acts, post, out });
    }
    if g.pct(g.c.g("plans") / 8) {
        let out = match g.below(4) {
            0 => Out::Trap,
            1 => rev(g),
            2 => Out::Ret(vec![]),
            _ => Out::Ret(g.num(&[]).to_be_bytes::<32>().to_vec()),
        };
        t.plans.push(Plan { at: asset, sel: selector("balanceOf(address)"), acts: vec![], post: false, out });
    }
}
pub const VAULT_HOSTILE: Fam = Fam {
    name: "erc4626-hostile",
    knobs: |r, c| {
        vault_knobs(r, c);
        c.set("realasset", r.pct(10) as u64);
        c.set("plans", r.range(15, 70));
        c.set("noret", r.pct(20) as u64);
        c.set("soft", r.pct(20) as u64);
        c.set("noasset", r.pct(4) as u64);
        c.set("reent", r.pct(75) as u64);
        c.set("tokacts", 1);
    },
    setup: |c, s| {
        setup_vault(c, s);
        if !c.on("realasset") {
            // the token contract may itself hold assets and shares
            let b = c.n("start") >> 5;
            s.kv0(kbal(TK, TK), b);
            s.kv0(kall(TK, TK, C0), U256::MAX);
        }
    },
    gen: |g| {
        if g.pct(15) {
            return gen_asset(g, C0);
        }
        let mut t = if g.pct(8) { gen_vault_op(g, Some(TK)) } else { gen_vault_op(g, None) };
        vault_plans(g, &mut t);
        t
    },
    queries: q_vault,
    inv: |s| ledger_inv(s, C0),
};

// ------------------------------------------------------------------------ C08
fn q_flash(w: &MW, c: &Cfg) -> Vec<(Address, Op)> {
    let mut q = vec![];
    q20(C0, c, &mut q);
    let _ = w;
    for x in [C0, TK, Address::ZERO] {
        q.push((C0, op("maxFlashLoan(address)", vec![a(x)])));
        q.push((C0, op("flashFee(address,uint256)", vec![a(x), n(77u64)])));
    }
    q
}
fn gen_loan(g: &mut Gx, depth: u32) -> Tx {
    let sup = g.v.s(C0).supply;
    let fee = g.v.s(C0).fee;
    let max = U256::MAX - sup;
    let valid = g.pct(80);
    let rcv = if valid { stub(g.below(2) as usize) } else { g.addr() };
    let tok = if g.pct(93) { C0 } else { g.addr() };
    let v = if valid {
        match g.below(4) {
            0 => g.upto(max),
            _ => U256::from(g.below(10_000)),
        }
    } else {
        g.num(&[max, max, sup])
    };
    let f = g.actor();
    let data = g.bytes();
    let mut t = g.tx(f, op("flashLoan(address,address,uint256,bytes)", vec![a(rcv), a(tok), n(v), by(&data)]));
    // borrower script
    if g.pct(85) {
        let mut acts = vec![];
        let k = g.below(4);
        for _ in 0..k {
            match g.below(10) {
                0..=1 => {
                    let qs = q_flash(g.v, g.c);
                    acts.push(view_act(g, &qs));
                }
                2 if depth < 2 => {
                    let x = gen_loan(g, depth + 1);
                    t.plans.extend(x.plans.clone());
                    acts.push(as_act(g, x));
                }
                3 => {
                    let to = g.actor();
                    let w = g.upto(v);
                    acts.push(Act {
                        to: C0,
                        value: U256::ZERO,
                        op: op("transfer(address,uint256)", vec![a(to), n(w)]),
                        st: false,
                        bubble: false,
                    });
                }
                4 => {
                    let w = g.upto(v);
                    acts.push(Act {
                        to: C0,
                        value: U256::ZERO,
                        op: op("burn(uint256)", vec![n(w)]),
                        st: false,
                        bubble: false,
                    });
                }
                5 => {
                    // earn the fee from somewhere
                    acts.push(Act {
                        to: C0,
                        value: U256::ZERO,
                        op: op("mint(address,uint256)", vec![a(rcv), n(fee)]),
                        st: false,
                        bubble: false,
                    });
                }
                _ => {
                    let w = match g.below(4) {
                        0 => U256::MAX,
                        1 => v.saturating_add(fee).saturating_sub(U256::from(g.below(2))),
                        _ => v.saturating_add(fee),
                    };
                    acts.push(Act {
                        to: C0,
                        value: U256::ZERO,
                        op: op("approve(address,uint256)", vec![a(C0), n(w)]),
                        st: false,
                        bubble: false,
                    });
                }
            }
        }
        let out = match g.below(12) {
            0 => Out::Ret(vec![0; 32]),
            1 => Out::Ret(vec![]),
            2 => rev(g),
            3 => Out::Trap,
            4 => {
                let mut m = flash_magic();
                let k = g.below(256) as usize;
                m[k / 8] ^= 1 << (k % 8);
                Out::Ret(m)
            }
            _ => Out::Default,
        };
        t.plans.insert(0, Plan { at: rcv, sel: selector(ONFLASH), acts, post: false, out });
        t.plans.truncate(6);
    }
    t
}
pub const FLASH: Fam = Fam {
    name: "flash-mint",
    knobs: |r, c| {
        c.set("rich", r.below(3));
        c.set("reent", r.pct(75) as u64);
        let fee = match r.below(6) {
            0 | 1 => U256::ZERO,
            2 => U256::from(1),
            3 => U256::MAX - U256::from(r.below(5)),
            4 => U256::from(1) << r.below(256) as usize,
            _ => U256::from(r.below(500)),
        };
        c.setn("fee", fee);
        c.set("feeto", r.below(5));
    },
    setup: |c, s| {
        let ft = match c.g("feeto") {
            0 | 1 => Address::ZERO,
            2 => eoa(0),
            3 => stub(0),
            _ => C0,
        };
        s.raw(C0, 3, c.n("fee"));
        s.raw(C0, 4, U256::from_be_slice(ft.as_slice()));
        let st = S { fee: c.n("fee"), fee_to: ft, ..Default::default() };
        s.deploy(C0, k::Flash::entry, flash, FLASH_SIGS, st);
    },
    gen: |g| match g.below(100) {
        0..=54 => gen_loan(g, 0),
        55..=69 => {
            // a borrower prepares its repayment allowance
            let f = stub(g.below(2) as usize);
            let v = if g.pct(60) { U256::MAX } else { g.num(&[g.v.s(C0).fee]) };
            g.tx(f, op("approve(address,uint256)", vec![a(C0), n(v)]))
        }
        70..=77 => {
            let f = g.actor();
            let to = stub(g.below(2) as usize);
            let v = g.v.s(C0).fee.min(U256::from(1000));
            g.tx(f, op("mint(address,uint256)", vec![a(to), n(v)]))
        }
        _ => gen20(g, C0, true, true, false),
    },
    queries: q_flash,
    inv: |s| ledger_inv(s, C0),
};

// ------------------------------------------------------------------------ C09
fn q_wrap(_w: &MW, c: &Cfg) -> Vec<(Address, Op)> {
    let mut q = vec![];
    q20(C0, c, &mut q);
    q.push((C0, op("underlying()", vec![])));
    q.push((C0, op("decimals()", vec![])));
    for x in actors(c) {
        q.push((TK, op("balanceOf(address)", vec![a(x)])));
    }
    q.push((TK, op("balanceOf(address)", vec![a(C0)])));
    q
}
fn gen_wrap_op(g: &mut Gx, from: Option<Address>) -> Tx {
    let hs = holders(g, C0);
    let valid = g.pct(80);
    match g.below(100) {
        0..=39 => {
            let f = from.unwrap_or_else(|| g.actor());
            let b = abal(g, f).min(aalw(g, f, C0));
            let v = if valid { g.upto(b) } else { g.num(&[b]) };
            let to = if valid { g.actor() } else { g.addr() };
            let f = if !valid && g.pct(15) { C0 } else { f };
            g.tx(f, op("depositFor(address,uint256)", vec![a(to), n(v)]))
        }
        40..=74 => {
            let (o, b) = if hs.is_empty() || g.pct(10) { (g.actor(), U256::from(5)) } else { *g.r.pick(&hs) };
            let o = from.unwrap_or(o);
            let v = if valid { g.upto(b) } else { g.num(&[b]) };
            let to = if valid { g.actor() } else { g.addr() };
            g.tx(o, op("withdrawTo(address,uint256)", vec![a(to), n(v)]))
        }
        75..=80 if from.is_none() => {
            let (f, to) = (g.actor(), if valid { g.actor() } else { g.addr() });
            g.tx(f, op("recover(address)", vec![a(to)]))
        }
        _ => {
            let mut t = gen20(g, C0, false, false, false);
            if let Some(f) = from {
                t.from = f;
            }
            t
        }
    }
}
pub const WRAP20: Fam = Fam {
    name: "erc20-wrapper",
    knobs: |r, c| {
        vault_knobs(r, c);
        c.set("plans", if r.pct(60) { r.range(10, 60) } else { 0 });
        c.set("noret", r.pct(20) as u64);
        c.set("soft", r.pct(20) as u64);
        c.set("noasset", r.pct(4) as u64);
        c.set("reent", r.pct(60) as u64);
    },
    setup: |c, s| {
        setup_vault(c, s);
        // same asset, but the contract under test is a wrapper
        s.w.storage.retain(|k, _| k.0 != C0);
        s.who.retain(|x| *x != C0);
        let asset = if c.on("noasset") { NOCODE } else { TK };
        let mut w = [0u8; 32];
        w[12..].copy_from_slice(asset.as_slice());
        w[11] = c.g("dec") as u8;
        s.raw(C0, 3, U256::from_be_bytes(w));
        let st = S { asset, dec: c.g("dec") as u8, ..Default::default() };
        s.deploy(C0, k::Wrap20::entry, wrap20, WRAP_SIGS, st);
        if !c.on("realasset") {
            s.kv0(kbal(TK, TK), c.n("start") >> 5);
            s.kv0(kall(TK, TK, C0), U256::MAX);
        }
    },
    gen: |g| {
        if g.pct(18) {
            return gen_asset(g, C0);
        }
        let mut t = if g.pct(6) && !g.c.on("realasset") { gen_wrap_op(g, Some(TK)) } else { gen_wrap_op(g, None) };
        if g.pct(g.c.g("plans")) {
            let sel = if t.op.f.starts_with("deposit") {
                "transferFrom(address,address,uint256)"
            } else {
                "transfer(address,uint256)"
            };
            let mut acts = vec![];
            for _ in 0..g.below(3) {
                if g.pct(25) {
                    let qs = q_wrap(g.v, g.c);
                    acts.push(view_act(g, &qs));
                } else {
                    let x = gen_wrap_op(g, Some(TK));
                    acts.push(as_act(g, x));
                }
            }
            let out = if g.pct(45) { odd_out(g, true) } else { Out::Default };
            if matches!(out, Out::NoMove(_)) {
                // no longer a token that does what it reports
            }
            let post = g.pct(50);
            t.plans.push(Plan { at: TK, sel: selector(sel), acts, post, out });
        }
        if g.pct(g.c.g("plans") / 10) {
            let out = match g.below(3) {
                0 => Out::Trap,
                1 => rev(g),
                _ => Out::Ret(vec![]),
            };
            t.plans.push(Plan { at: TK, sel: selector("balanceOf(address)"), acts: vec![], post: false, out });
        }
        t
    },
    queries: q_wrap,
    inv: |s| {
        ledger_inv(s, C0)?;
        // fully backed, as long as the token moves what it reports to move
        if s.cfg.g("plans") == 0 && !s.cfg.on("noasset") && !s.cfg.on("soft") {
            let Ok(b) = s.w.query(eoa(0), TK, &op("balanceOf(address)", vec![a(C0)])) else { return Ok(()) };
            let Ok(t) = s.w.query(eoa(0), C0, &op("totalSupply()", vec![])) else { return Ok(()) };
            if U256::from_be_slice(&t) > U256::from_be_slice(&b) {
                return Err("backing: wrapped supply exceeds the held underlying".into());
            }
        }
        Ok(())
    },
};

// ------------------------------------------------------------------------ C10
pub const SAFE: Fam = Fam {
    name: "safe-erc20",
    knobs: |r, c| {
        c.set("noret", r.pct(30) as u64);
        c.set("soft", r.pct(30) as u64);
        c.set("usdt", r.pct(40) as u64);
        c.set("plans", if r.pct(70) { r.range(10, 60) } else { 0 });
        c.set("steps", r.range(6, 30));
        let s = if r.pct(50) { U256::from(10_000) } else { U256::from(1) << 250 };
        c.setn("start", s);
        c.set("realtok", r.pct(20) as u64);
    },
    setup: |c, s| {
        s.deploy(C0, k::Safe::entry, safe, SAFE_SIGS, S::default());
        if c.on("realtok") {
            let mut st = S::default();
            for x in actors(c).into_iter().chain([C0]) {
                let b = c.n("start") >> 5;
                st.bal.insert(x, b);
                st.supply += b;
                let slot = keccak(&enc("address,uint256", &[a(x), n(0u64)]));
                s.w.sstore_raw(TK, U256::from_be_bytes(slot), b);
            }
            s.raw(TK, 2, st.supply);
            s.deploy(TK, k::T20::entry, t20, T20_SIGS, st);
        } else {
            s.tok(TK, TokCfg { no_ret: c.on("noret"), soft: c.on("soft"), usdt: c.on("usdt"), no_dec: false, dec: 6 });
            for x in actors(c).into_iter().chain([C0]) {
                s.kv0(kbal(TK, x), c.n("start") >> 5);
                s.kv0(kall(TK, x, C0), if x == eoa(0) { U256::MAX } else { U256::from(500) });
            }
        }
    },
    gen: |g| {
        let f = g.actor();
        let tok = if g.pct(92) { TK } else { g.addr() };
        let x = if g.pct(85) { g.actor() } else { g.addr() };
        let y = if g.pct(85) { g.actor() } else { g.addr() };
        let b = abal(g, C0);
        let al = aalw(g, C0, x);
        let mut t = match g.below(100) {
            0..=19 => {
                let v = if g.pct(75) { g.upto(b) } else { g.num(&[b]) };
                g.tx(f, op("safeTransfer(address,address,uint256)", vec![a(tok), a(x), n(v)]))
            }
            20..=37 => {
                let q = abal(g, x).min(aalw(g, x, C0));
                let v = if g.pct(75) { g.upto(q) } else { g.num(&[q]) };
                g.tx(f, op("safeTransferFrom(address,address,address,uint256)", vec![a(tok), a(x), a(y), n(v)]))
            }
            38..=55 => {
                let v = if g.pct(70) { U256::from(g.below(1000)) } else { g.num(&[al, U256::MAX - al]) };
                g.tx(f, op("safeIncreaseAllowance(address,address,uint256)", vec![a(tok), a(x), n(v)]))
            }
            56..=73 => {
                let v = if g.pct(70) { g.upto(al) } else { g.num(&[al]) };
                g.tx(f, op("safeDecreaseAllowance(address,address,uint256)", vec![a(tok), a(x), n(v)]))
            }
            74..=91 => {
                let v = g.num(&[al]);
                g.tx(f, op("forceApprove(address,address,uint256)", vec![a(tok), a(x), n(v)]))
            }
            _ => gen_asset(g, C0),
        };
        if g.pct(g.c.g("plans")) {
            for _ in 0..1 + g.below(2) {
                let sel = match t.op.f.split('(').next().unwrap_or("") {
                    "safeTransfer" => "transfer(address,uint256)",
                    "safeTransferFrom" => "transferFrom(address,address,uint256)",
                    _ => {
                        if g.pct(75) {
                            "approve(address,uint256)"
                        } else {
                            "allowance(address,address)"
                        }
                    }
                };
                let mut out = odd_out(g, true);
                if sel.starts_with("allowance") {
                    out = match g.below(6) {
                        0 => Out::Trap,
                        1 => rev(g),
                        2 => Out::Ret(vec![]),
                        3 => Out::Ret(vec![1; 1 + g.below(31) as usize]),
                        4 => Out::Ret(U256::MAX.to_be_bytes::<32>().to_vec()),
                        _ => Out::Ret(g.num(&[]).to_be_bytes::<32>().to_vec()),
                    };
                }
                // scripted accounts answer like tokens when asked
                let at = if tok == stub(0) || tok == stub(1) { tok } else { TK };
                t.plans.push(Plan { at, sel: selector(sel), acts: vec![], post: false, out });
            }
        }
        t
    },
    queries: |_w, c| {
        let mut q = vec![];
        for x in actors(c).iter().chain([C0].iter()) {
            q.push((TK, op("balanceOf(address)", vec![a(*x)])));
            q.push((TK, op("allowance(address,address)", vec![a(C0), a(*x)])));
        }
        q
    },
    inv: no_inv,
};

// ------------------------------------------------------------------------ C11
fn q_vest(w: &MW, c: &Cfg) -> Vec<(Address, Op)> {
    let mut q = vec![];
    for f in ["owner()", "start()", "duration()", "end()", "released()", "releasable()"] {
        q.push((C0, op(f, vec![])));
    }
    let (s, d) = (w.s(C0).start, w.s(C0).dur);
    for t in [0, s.saturating_sub(1), s, s.saturating_add(d / 3), s.saturating_add(d).saturating_sub(1), s.saturating_add(d), w.now, u64::MAX] {
        q.push((C0, op("vestedAmount(uint64)", vec![n(t)])));
        q.push((C0, op("vestedAmount(address,uint64)", vec![a(TK), n(t)])));
    }
    for t in [TK, TK2] {
        q.push((C0, op("released(address)", vec![a(t)])));
        q.push((C0, op("releasable(address)", vec![a(t)])));
        for x in actors(c) {
            q.push((t, op("balanceOf(address)", vec![a(x)])));
        }
    }
    q.push((C0, op("releasable(address)", vec![a(NOCODE)])));
    q.push((C0, op("released(address)", vec![a(NOCODE)])));
    q
}
fn gen_vest(g: &mut Gx, inner: bool) -> Tx {
    let owner = g.v.s(C0).owner;
    match g.below(100) {
        0..=29 => {
            let f = g.actor();
            g.tx(f, op("release()", vec![]))
        }
        30..=54 => {
            let f = g.actor();
            let tk = match g.below(10) {
                0..=5 => TK,
                6..=8 => TK2,
                _ => g.addr(),
            };
            g.tx(f, op("release(address)", vec![a(tk)]))
        }
        55..=69 if !inner => {
            let f = g.actor();
            let mut t = g.tx(f, op("", vec![]));
            t.value = match g.below(4) {
                0 => U256::from(g.below(100)),
                1 => U256::from(g.below(1 << 40)),
                2 => g.upto(g.v.eth(f)),
                _ => U256::from(10).pow(U256::from(18)),
            };
            t
        }
        70..=82 if !inner => {
            let f = g.actor();
            let tk = if g.pct(65) { TK } else { TK2 };
            let b = g.v.kvv(kbal(tk, f));
            let v = g.upto(b);
            let mut t = g.tx(f, op("transfer(address,uint256)", vec![a(C0), n(v)]));
            t.to = tk;
            t
        }
        83..=96 => {
            let f = if g.pct(75) { owner } else { g.actor() };
            let x = if g.pct(85) { g.actor() } else { g.addr() };
            g.tx(f, op("transferOwnership(address)", vec![a(x)]))
        }
        97 => {
            let f = if g.pct(50) { owner } else { g.actor() };
            g.tx(f, op("renounceOwnership()", vec![]))
        }
        _ => {
            let f = g.actor();
            g.tx(f, op("release()", vec![]))
        }
    }
}
pub const VEST: Fam = Fam {
    name: "vesting",
    knobs: |r, c| {
        c.set("timed", 1);
        let base = if c.on("now") { c.g("now") } else { 1_700_000_000 };
        let start = match r.below(5) {
            0 => 0,
            1 => base,
            2 => base.saturating_add(r.below(86_400 * 30)),
            3 => base.saturating_sub(r.below(86_400 * 30)),
            _ => base.saturating_add(r.below(3600)),
        };
        let dur = match r.below(7) {
            0 => 0,
            1 => 1,
            2 => r.below(3600),
            3 => r.below(86_400 * 365),
            4 => r.below(86_400 * 30),
            5 => u64::MAX,
            _ => 86_400 * 365 * 4,
        };
        c.set("start", start);
        c.set("dur", dur);
        c.set("plans", if r.pct(60) { r.range(10, 60) } else { 0 });
        c.set("reent", r.pct(70) as u64);
        c.set("noret", r.pct(25) as u64);
        c.set("soft", r.pct(15) as u64);
        c.set("warp", r.range(20, 70));
        c.set("steps", r.range(8, 40));
        c.set("owner", r.below(3));
        c.set("huge", r.pct(10) as u64);
    },
    setup: |c, s| {
        let owner = if c.g("owner") == 0 { eoa(0) } else { stub(0) };
        s.raw(C0, 0, U256::from_be_slice(owner.as_slice()));
        s.raw(C0, 3, U256::from(c.g("start")) | (U256::from(c.g("dur")) << 64));
        let st = S { owner, start: c.g("start"), dur: c.g("dur"), ..Default::default() };
        s.deploy(C0, k::Vest::entry, vest, VEST_SIGS, st);
        let tc = TokCfg { no_ret: c.on("noret"), soft: c.on("soft"), usdt: false, no_dec: false, dec: 6 };
        s.tok(TK, tc);
        s.tok(TK2, STD);
        let b = if c.on("huge") { U256::from(1) << 251 } else { U256::from(10).pow(U256::from(22)) };
        for x in actors(c) {
            s.kv0(kbal(TK, x), b);
            s.kv0(kbal(TK2, x), U256::from(1_000_003));
        }
        s.kv0(kbal(TK, TK), U256::from(1_000_000_007));
        s.kv0(kbal(TK2, TK), U256::from(1_000_000_009));
        s.fund(C0, U256::ZERO);
        if c.on("huge") {
            for x in actors(c) {
                s.fund(x, U256::from(1) << 200);
            }
        }
        s.fund(TK, U256::from(10).pow(U256::from(12)));
    },
    gen: |g| {
        let mut t = gen_vest(g, false);
        if g.pct(g.c.g("plans")) {
            let owner = g.v.s(C0).owner;
            let mut acts = vec![];
            for _ in 0..g.below(3) {
                if g.pct(30) {
                    let qs = q_vest(g.v, g.c);
                    acts.push(view_act(g, &qs));
                } else if g.pct(35) {
                    // funds arrive in the middle of a release, which then starts over
                    let peer = if t.op.f == "release(address)" { TK } else { owner };
                    let tk = match g.below(5) {
                        0 | 1 => Some(TK),
                        2 => Some(TK2),
                        _ => None,
                    };
                    let tk = if g.pct(70) { if peer == TK { Some(TK) } else { None } } else { tk };
                    let (pay, rel) = match tk {
                        None => {
                            let v = if g.pct(50) { U256::from(1 + g.below(1 << 30)) } else { g.upto(g.v.eth(peer)) };
                            (Act { to: C0, value: v, op: op("", vec![]), st: false, bubble: false }, op("release()", vec![]))
                        }
                        Some(tk) => {
                            let v = g.upto(g.v.kvv(kbal(tk, peer)));
                            let o = op("transfer(address,uint256)", vec![a(C0), n(v)]);
                            (Act { to: tk, value: U256::ZERO, op: o, st: false, bubble: false }, op("release(address)", vec![a(tk)]))
                        }
                    };
                    acts.push(pay);
                    acts.push(Act { to: C0, value: U256::ZERO, op: rel, st: false, bubble: g.pct(15) });
                } else {
                    let x = gen_vest(g, true);
                    acts.push(as_act(g, x));
                }
            }
            if t.op.f == "release(address)" {
                // the token may misbehave, and may call back once it has moved the funds
                let out = if g.pct(50) { odd_out(g, false) } else { Out::Default };
                t.plans.push(Plan { at: TK, sel: selector("transfer(address,uint256)"), acts, post: true, out });
                if g.pct(15) {
                    let out = match g.below(3) {
                        0 => Out::Trap,
                        1 => rev(g),
                        _ => Out::Ret(vec![]),
                    };
                    t.plans.push(Plan { at: TK, sel: selector("balanceOf(address)"), acts: vec![], post: false, out });
                }
            } else {
                let out = match g.below(6) {
                    0 => rev(g),
                    1 => Out::Trap,
                    2 => Out::Ret(vec![1; 40]),
                    _ => Out::Default,
                };
                t.plans.push(Plan { at: owner, sel: [0; 4], acts, post: false, out });
            }
        }
        t
    },
    queries: q_vest,
    inv: no_inv,
};

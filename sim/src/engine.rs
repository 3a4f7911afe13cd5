//! Seed -> configuration -> scheduled steps -> comparison with the reference world.
use crate::abi::*;
use crate::core::*;
use crate::host::{Code, Entry, Snap, Stats, World};
use crate::idx::{Index, Says};
use crate::json::{self, J};
use crate::model::{MCode, MState, Mfn, MW, S};
use crate::rng::{mix, Rng};
use alloy_primitives::{Address, U256};
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;
use std::sync::OnceLock;

// ------------------------------------------------------------------ addresses
pub const NKEYS: usize = 6;
pub struct Keys {
    pub sk: Vec<k256::ecdsa::SigningKey>,
    pub ad: Vec<Address>,
}
pub fn keys() -> &'static Keys {
    static K: OnceLock<Keys> = OnceLock::new();
    K.get_or_init(|| {
        let mut sk = vec![];
        let mut ad = vec![];
        for i in 0..NKEYS {
            let k = k256::ecdsa::SigningKey::from_slice(&keccak(format!("key{i}").as_bytes())).unwrap();
            let p = k.verifying_key().to_encoded_point(false);
            ad.push(Address::from_slice(&keccak(&p.as_bytes()[1..])[12..]));
            sk.push(k);
        }
        Keys { sk, ad }
    })
}
/// externally owned account i
pub fn eoa(i: usize) -> Address {
    keys().ad[i]
}
/// scripted contract account i
pub fn stub(i: usize) -> Address {
    Address::from_slice(&keccak(format!("stub{i}").as_bytes())[..20])
}
pub const fn fixed(t: u8) -> Address {
    let mut b = [t; 20];
    b[19] = 1;
    Address::new(b)
}
/// the contract under test, its second instance, tokens
pub const C0: Address = fixed(0xC0);
pub const C1: Address = fixed(0xC1);
pub const TK: Address = fixed(0x70);
pub const TK2: Address = fixed(0x72);
pub const EC: Address = {
    let mut b = [0; 20];
    b[19] = 1;
    Address::new(b)
};
pub const NOCODE: Address = fixed(0xDD);

// ------------------------------------------------------------------ dictionary
/// Integer and address literals of the code under test.
pub struct Dict {
    pub n: Vec<U256>,
    pub a: Vec<Address>,
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = vec![];
        fn walk(p: &std::path::Path, o: &mut Vec<std::path::PathBuf>) {
            if let Ok(rd) = std::fs::read_dir(p) {
                let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
                v.sort();
                for e in v {
                    if e.is_dir() {
                        walk(&e, o)
                    } else if e.extension().map(|x| x == "rs").unwrap_or(false) {
                        o.push(e)
                    }
                }
            }
        }
        walk(&std::path::Path::new(&root).join("contracts/src"), &mut files);
        let mut ns = std::collections::BTreeSet::new();
        let mut ads = std::collections::BTreeSet::new();
        for f in files {
            let Ok(t) = std::fs::read_to_string(&f) else { continue };
            for line in t.lines() {
                let l = line.trim_start();
                if l.starts_with("#[cfg(all(test") || l.starts_with("#[cfg(test)") {
                    break;
                }
                if l.starts_with("//") {
                    continue;
                }
                let b = l.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                        let st = i;
                        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                            i += 1;
                        }
                        let tok = l[st..i].replace('_', "");
                        let cut = if tok.starts_with("0x") {
                            tok.find(['U', 'u', 'i']).map(|k| &tok[..k]).unwrap_or(&tok)
                        } else {
                            tok.find(|c: char| !c.is_ascii_digit()).map(|k| &tok[..k]).unwrap_or(&tok)
                        };
                        let v = match cut.strip_prefix("0x") {
                            Some(h) => U256::from_str_radix(h, 16),
                            None => U256::from_str_radix(cut, 10),
                        };
                        if let Ok(v) = v {
                            ns.insert(v);
                        }
                    } else {
                        i += 1;
                    }
                }
                for q in l.split('"').skip(1).step_by(2) {
                    let h = q.strip_prefix("0x").unwrap_or(q);
                    if h.len() == 40 && h.bytes().all(|c| c.is_ascii_hexdigit()) {
                        if let Ok(v) = U256::from_str_radix(h, 16) {
                            ads.insert(Address::from_slice(&v.to_be_bytes::<32>()[12..]));
                        }
                    }
                }
            }
        }
        Dict { n: ns.into_iter().collect(), a: ads.into_iter().collect() }
    })
}

// ------------------------------------------------------------------ configuration
#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub fam: String,
    pub k: BTreeMap<String, U256>,
}
impl Cfg {
    pub fn g(&self, k: &str) -> u64 {
        self.n(k).saturating_to::<u64>()
    }
    pub fn n(&self, k: &str) -> U256 {
        self.k.get(k).copied().unwrap_or_default()
    }
    pub fn on(&self, k: &str) -> bool {
        !self.n(k).is_zero()
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.k.insert(k.into(), U256::from(v));
    }
    pub fn setn(&mut self, k: &str, v: U256) {
        self.k.insert(k.into(), v);
    }
}

/// What the exploration is for.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Plain,
    /// every transaction is also run with a fault at (a sample of) each host call
    Faults,
    /// every query is also repeated, and run outside a read-only context
    ReadOnly,
    /// the logs are also folded into a state of their own and compared with the queries
    Logs,
    /// from the states reached, everybody leaves
    Exit,
}
pub struct Fam {
    pub name: &'static str,
    pub knobs: fn(&mut Rng, &mut Cfg),
    pub setup: fn(&Cfg, &mut Sim),
    pub gen: fn(&mut Gx) -> Tx,
    /// getters compared after every successful transaction
    pub queries: fn(&MW, &Cfg) -> Vec<(Address, Op)>,
    /// extra invariant over the two worlds
    pub inv: fn(&mut Sim) -> Result<(), String>,
}

pub struct Sim {
    pub w: World,
    pub m: MW,
    pub cfg: Cfg,
    pub who: Vec<Address>,
    hist: Vec<(Snap, MState, Index)>,
    idx: Option<Index>,
    pub mode: Mode,
    pub memo: BTreeMap<String, U256>,
    /// hash of the last transaction; decides which queries are asked after it
    last: u64,
    /// ask every query at the next comparison
    full: bool,
    known: Vec<&'static str>,
    /// the model no longer describes the contract; only absolute statements count (Mode::Exit)
    diverged: bool,
}
/// Keys of the findings recorded as known (never added to at run time).
pub fn known_list() -> &'static Vec<(String, String)> {
    static K: OnceLock<Vec<(String, String)>> = OnceLock::new();
    K.get_or_init(|| {
        let p = std::env::var("VERIF_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
        let t = std::fs::read_to_string(p).unwrap_or_default();
        t.lines()
            .filter_map(|l| l.strip_prefix("known: "))
            .filter_map(|l| l.split_once(' '))
            .map(|(k, d)| (k.to_string(), d.to_string()))
            .collect()
    })
}
pub fn known(key: &str) -> bool {
    known_list().iter().any(|k| k.0 == key)
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
    pub step: usize,
}
fn hx(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
fn show(r: &Res) -> String {
    match r {
        Ok(d) => format!("success({})", hx(d)),
        Err(E::Any) => "failure".into(),
        Err(E::X(v)) => format!("failure({})", v.iter().map(|b| hx(b)).collect::<Vec<_>>().join("|")),
    }
}
fn res_eq(real: &Res, model: &Res) -> bool {
    match (real, model) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(E::Any)) => true,
        (Err(E::X(x)), Err(E::X(y))) => x.iter().all(|p| y.contains(p)),
        (Err(E::Any), Err(_)) => true,
        _ => false,
    }
}

impl Sim {
    pub fn new(cfg: &Cfg, fam: &Fam, mode: Mode) -> Sim {
        let mut s = Sim {
            w: World::new(),
            m: MW::new(),
            cfg: cfg.clone(),
            who: vec![],
            hist: vec![],
            idx: None,
            mode,
            memo: BTreeMap::new(),
            last: 0,
            full: true,
            known: vec![],
            diverged: false,
        };
        if cfg.on("now") {
            s.w.now = cfg.g("now");
            s.m.now = s.w.now;
        }
        for i in 0..NKEYS {
            s.who.push(eoa(i));
            s.fund(eoa(i), U256::from(10u64).pow(U256::from(24)));
        }
        for i in 0..2 {
            s.who.push(stub(i));
            s.fund(stub(i), U256::from(10u64).pow(U256::from(24)));
            s.w.code.insert(stub(i), Code::Stub);
            s.m.code.insert(stub(i), MCode::Stub);
        }
        s.w.code.insert(EC, Code::Ec);
        s.m.code.insert(EC, MCode::Ec);
        (fam.setup)(cfg, &mut s);
        s
    }
    /// A listed finding showed itself.
    pub fn known(&mut self, key: &'static str) {
        self.known.push(key);
    }
    pub fn fund(&mut self, x: Address, v: U256) {
        self.w.bal.insert(x, v);
        self.m.set_eth(x, v);
    }
    pub fn deploy(&mut self, at: Address, entry: Entry, f: Mfn, sigs: &'static [Sig], st: S) {
        let reentrant = self.cfg.on("reent");
        self.w.code.insert(at, Code::Contract { entry, reentrant });
        self.m.code.insert(at, MCode::Contract { f, sigs, reentrant });
        self.m.st.s.insert(at, Rc::new(st));
        self.who.push(at);
    }
    pub fn tok(&mut self, at: Address, c: TokCfg) {
        self.w.code.insert(at, Code::Tok(c));
        self.m.code.insert(at, MCode::Tok(c));
        self.who.push(at);
    }
    pub fn kv0(&mut self, k: Kv, v: U256) {
        self.w.kv.insert(k, v);
        Rc::make_mut(&mut self.m.st.kv).insert(k, v);
    }
    pub fn raw(&mut self, at: Address, slot: u64, v: U256) {
        self.w.sstore_raw(at, U256::from(slot), v);
    }
    /// Give a counter a long past: find the slot one use moves from 0 to 1, and set it.
    pub fn age(&mut self, at: Address, o: Op, v: U256) -> bool {
        let old = self.w.snap();
        let t = Tx { from: eoa(0), to: at, value: U256::ZERO, op: o, plans: vec![], oog: vec![] };
        let ok = self.w.exec(&t, false).is_ok();
        let slots = self.w.changed(&old);
        self.w.restore(&old);
        self.w.logs.clear();
        self.w.trace.clear();
        match slots[..] {
            [(x, slot, val)] if ok && x == at && val == U256::from(1) => {
                self.w.sstore_raw(at, slot, v);
                true
            }
            _ => false,
        }
    }
    /// Solidity storage string.
    pub fn raw_str(&mut self, at: Address, slot: u64, s: &str) {
        let b = s.as_bytes();
        if b.len() < 32 {
            let mut w = [0u8; 32];
            w[..b.len()].copy_from_slice(b);
            w[31] = (b.len() * 2) as u8;
            self.raw(at, slot, U256::from_be_bytes(w));
        } else {
            self.raw(at, slot, U256::from(b.len() * 2 + 1));
            let base = U256::from_be_bytes(keccak(&U256::from(slot).to_be_bytes::<32>()));
            for (i, c) in b.chunks(32).enumerate() {
                let mut w = [0u8; 32];
                w[..c.len()].copy_from_slice(c);
                self.w.sstore_raw(at, base.wrapping_add(U256::from(i)), U256::from_be_bytes(w));
            }
        }
    }

    pub fn step(&mut self, st: &Step, fam: &Fam, stats: &mut Stats, states: &mut HashSet<u64>, dig: &mut u64) -> Result<(), (String, String)> {
        match st {
            Step::Warp(d) => {
                self.w.now = self.w.now.saturating_add(*d);
                self.w.number += 1 + d / 12;
                self.m.now = self.w.now;
                self.m.number = self.w.number;
                stats.add("sim_seconds", *d);
                stats.add("clock_advances", 1);
                if *d > 86_400 {
                    stats.add("fault.clock_jump", 1);
                }
                // time passing alone may change what time-dependent queries report
                if self.cfg.on("timed") {
                    return self.check(fam, stats, states, dig);
                }
            }
            Step::Fork(c) => {
                self.w.chain = *c;
                self.m.chain = *c;
                stats.add("fault.chain_fork", 1);
                return self.check(fam, stats, states, dig);
            }
            Step::Code(x, on) => {
                self.w.code.insert(*x, if *on { Code::Stub } else { Code::None });
                self.m.code.insert(*x, if *on { MCode::Stub } else { MCode::None });
                stats.add("fault.code_change", 1);
            }
            Step::Reorg(k) => {
                let mut k = *k as usize;
                let mut got = None;
                while k > 0 {
                    match self.hist.pop() {
                        Some(h) => got = Some(h),
                        None => break,
                    }
                    k -= 1;
                }
                if let Some((a, b, c)) = got {
                    self.w.restore(&a);
                    self.m.st = b;
                    if self.idx.is_some() {
                        self.idx = Some(c);
                    }
                    stats.add("fault.reorg", 1);
                    return self.check(fam, stats, states, dig);
                }
            }
            Step::Tx(tx) if self.mode == Mode::Exit => {
                let d = self.diverged;
                let r = self.tx(tx, fam, stats, states, dig);
                if let Err((c, d2)) = r {
                    if c.starts_with("stuck:") {
                        return Err((c, d2));
                    }
                    let f = c.split_once(':').map(|x| x.1).unwrap_or("");
                    let clean = tx.plans.is_empty() && tx.oog.is_empty();
                    if !d && clean && (c.starts_with("unexpected-failure:") || c.starts_with("runaway:")) {
                        return Err((format!("stuck:{f}"), format!("{}: {d2}", show_op(&tx.op))));
                    }
                    self.diverged = true;
                    stats.add("diverged", 1);
                }
                if self.last % 8 == 0 {
                    return self.exit(stats);
                }
            }
            Step::Tx(tx) => return self.tx(tx, fam, stats, states, dig),
        }
        Ok(())
    }

    fn tx(&mut self, tx: &Tx, fam: &Fam, stats: &mut Stats, states: &mut HashSet<u64>, dig: &mut u64) -> Result<(), (String, String)> {
        let f = if tx.op.f.is_empty() { "()" } else { tx.op.f };
        if self.cfg.on("reorgs") {
            if self.hist.len() > 3 {
                self.hist.remove(0);
            }
            self.hist.push((self.w.snap(), self.m.st.clone(), self.idx.clone().unwrap_or_default()));
        }
        self.last = txhash(tx);
        self.full = self.last % 4 == 0;
        stats.add("txs", 1);
        let (p0, r0) = (self.w.plan_hits, self.w.reentries);
        let undo = if self.cfg.g("feeto") > 1 { Some((self.w.snap(), self.idx.clone())) } else { None };
        let real = self.w.exec(tx, false);
        stats.add("host_calls", self.w.ticks as u64);
        stats.add("contract_panics", std::mem::take(&mut self.w.panics));
        stats.add("peer_plans_fired", self.w.plan_hits - p0);
        stats.add("fault.reentry", self.w.reentries - r0);
        if self.w.plan_hits > p0 {
            for p in &tx.plans {
                stats.add(
                    match p.out {
                        Out::Default => "plan.default",
                        Out::Ret(_) => "fault.peer_bad_return",
                        Out::NoMove(_) => "fault.peer_no_effect",
                        Out::Revert(_) => "fault.peer_revert",
                        Out::Trap => "fault.peer_trap",
                    },
                    1,
                );
            }
        }
        *dig = mix(*dig ^ self.w.ticks as u64 ^ if real.is_ok() { 1 << 40 } else { 0 });
        if let Ok(d) = &real {
            for c in d.chunks(8) {
                let mut x = [0u8; 8];
                x[..c.len()].copy_from_slice(c);
                *dig = mix(*dig ^ u64::from_le_bytes(x));
            }
        }
        if let (Some(ix), Ok(_)) = (&mut self.idx, &real) {
            for l in &self.w.logs {
                ix.log(l);
            }
            stats.add("logs_folded", self.w.logs.len() as u64);
        }
        let kills = self.w.kills.clone();
        stats.add("fault.out_of_gas", kills.len() as u64);
        if kills.contains(&1) {
            stats.add("fault.out_of_gas_top", 1);
            if self.w.over_budget {
                return Err((format!("runaway:{f}"), "the call did not finish within the host-call budget".into()));
            }
            if real.is_ok() {
                return Err((format!("killed-ok:{f}"), "an out-of-gas call reported success".into()));
            }
            return Ok(());
        }
        if !kills.is_empty() {
            stats.add("fault.out_of_gas_nested", 1);
        }
        let pre = self.m.st.clone();
        let model = self.m.exec(tx, &kills, false);
        if self.m.vague {
            // not judged: both worlds go on as if it had not been sent
            if let Some((w, ix)) = undo {
                stats.add("unspecified_undone", 1);
                self.w.restore(&w);
                self.idx = ix;
                self.m.st = pre;
                return Ok(());
            }
        }
        match (&real, &model) {
            (Ok(_), Ok(_)) => {
                stats.add("txs_ok", 1);
                if !res_eq(&real, &model) {
                    return Err((format!("result:{f}"), format!("returned {} but the model {}", show(&real), show(&model))));
                }
            }
            (Ok(_), Err(_)) => {
                return Err((format!("unexpected-success:{f}"), format!("{} where the model fails", show(&real))));
            }
            (Err(_), Ok(_)) => {
                if !kills.is_empty() && self.m.kills_hit < kills.len() {
                    self.m.st = pre;
                    return Ok(());
                }
                return Err((format!("unexpected-failure:{f}"), format!("{} where the model gives {}", show(&real), show(&model))));
            }
            (Err(_), Err(_)) => {
                stats.add("txs_failed", 1);
                if !res_eq(&real, &model) {
                    return Err((format!("error:{f}"), format!("{} but expected {}", show(&real), show(&model))));
                }
                return Ok(());
            }
        }
        // logs as a multiset: their order is not part of any property
        let key = |l: &Log| (l.at, l.topics.clone(), l.data.clone());
        let mut x: Vec<&Log> = self.w.logs.iter().collect();
        let mut y: Vec<&Log> = self.m.st.logs.iter().collect();
        x.sort_by_key(|l| key(l));
        y.sort_by_key(|l| key(l));
        if x != y {
            return Err((format!("events:{f}"), format!("emitted {:?} expected {:?}", brief(&x), brief(&y))));
        }
        stats.add("events_compared", x.len() as u64);
        // what the peers saw
        let tr = &self.w.trace;
        let tm = &self.m.st.trace;
        let same = tr.len() == tm.len()
            && tr.iter().zip(tm).all(|(p, q)| match (p, q) {
                (Tr::Act { at: a1, r: r1, .. }, Tr::Act { at: a2, r: r2, .. }) => a1 == a2 && res_eq(r1, r2),
                (p, q) => p == q,
            });
        if !same {
            let i = tr
                .iter()
                .zip(tm)
                .position(|(p, q)| match (p, q) {
                    (Tr::Act { at: a1, r: r1, .. }, Tr::Act { at: a2, r: r2, .. }) => !(a1 == a2 && res_eq(r1, r2)),
                    (p, q) => p != q,
                }).unwrap_or(tr.len().min(tm.len()));
            let kind = match (tr.get(i), tm.get(i)) {
                (Some(Tr::Act { q: true, .. }), Some(Tr::Act { q: true, .. })) => "callback-query",
                _ => "peer-calls",
            };
            return Err((
                format!("{kind}:{f}"),
                format!("interaction {} differs: got {} expected {}", i, show_tr(tr.get(i)), show_tr(tm.get(i))),
            ));
        }
        stats.add("peer_calls_compared", tr.len() as u64);
        self.check(fam, stats, states, dig)
    }

    /// Everybody leaves (in a copy of the world).
    fn exit(&mut self, stats: &mut Stats) -> Result<(), (String, String)> {
        let (s, now) = (self.w.snap(), self.w.now);
        let seed = self.last ^ 0xe817;
        let mut e = crate::exit::Exit::new(self, seed);
        let r = e.run();
        let (t, m) = (e.txs, e.moved);
        self.w.restore(&s);
        self.w.now = now;
        stats.add("exits", 1);
        stats.add("exit_transactions", t);
        stats.add("exit_positions", m);
        r
    }
    /// The same query again, and again in an ordinary transaction: same answer, no effect.
    fn read_only(&mut self, to: Address, q: &Op, first: &Res) -> Result<(), (String, String)> {
        let s = self.w.snap();
        let again = self.w.query(eoa(1), to, q);
        if again != *first {
            return Err((format!("query-unstable:{}", q.f), format!("{} answers {} then {}", show_op(q), show(first), show(&again))));
        }
        let live = self.w.exec(&Tx { from: eoa(0), to, value: U256::ZERO, op: q.clone(), plans: vec![], oog: vec![] }, false);
        if live != *first {
            return Err((
                format!("query-context:{}", q.f),
                format!("{} answers {} in a read-only context but {} in a transaction", show_op(q), show(first), show(&live)),
            ));
        }
        if !self.w.logs.is_empty() {
            return Err((format!("query-logs:{}", q.f), format!("{} emitted an event", show_op(q))));
        }
        if !self.w.same(&s) {
            return Err((format!("query-effect:{}", q.f), format!("{} changed state", show_op(q))));
        }
        Ok(())
    }
    /// A few of the listed queries with unusual arguments: zero and unrelated accounts, ids that
    /// differ from a used one in a single bit, boundary values; asked by different accounts.
    fn odd_queries(&self, qs: &[(Address, Address, Op)]) -> Vec<(Address, Address, Op)> {
        let mut out = vec![];
        let with: Vec<usize> = (0..qs.len()).filter(|i| !qs[*i].2.a.is_empty()).collect();
        if with.is_empty() {
            return out;
        }
        let mut r = Rng::new(self.last ^ 0x0dd);
        for _ in 0..if self.mode == Mode::ReadOnly { 8 } else { 4 } {
            let (_, to, q) = &qs[*r.pick(&with)];
            let mut q = q.clone();
            let tys: Vec<&str> = q.f[q.f.find('(').unwrap() + 1..q.f.len() - 1].split(',').collect();
            if tys.len() != q.a.len() {
                continue;
            }
            for (t, v) in tys.iter().zip(q.a.iter_mut()) {
                if r.pct(60) {
                    odd_arg(&mut r, t, v, &self.who, self.cfg.g("kbits") as usize);
                }
            }
            let by = match r.below(4) {
                0 => eoa(0),
                1 => eoa(1),
                2 => stub(0),
                _ => *r.pick(&self.who),
            };
            out.push((by, *to, q));
        }
        out
    }
    /// What the logs announced so far must be what the queries report.
    fn fold_check(&mut self, qs: &[(Address, Address, Op)], seen: &[Res], stats: &mut Stats) -> Result<(), (String, String)> {
        let Some(ix) = &mut self.idx else { return Ok(()) };
        for ((_, to, q), r) in qs.iter().zip(seen) {
            if !self.m.has_sig(*to, q.f) {
                continue;
            }
            let num = match r {
                Ok(d) if d.len() == 32 => Some(U256::from_be_slice(d)),
                _ => None,
            };
            let bad = match ix.says(*to, q, r) {
                None => continue,
                // a query may refuse an argument (the zero account); a value must be the announced one
                Some(Says::Is(v)) => (num.is_some() && num != Some(v)).then(|| format!("{v:#x}")),
                Some(Says::AtMost(v)) => (num > Some(v)).then(|| format!("at most {v:#x}")),
                Some(Says::Fails) => r.is_ok().then(|| "no such token".to_string()),
                Some(Says::Same(ok)) => (!ok).then(|| "no change".to_string()),
            };
            stats.add("answers_compared_with_logs", 1);
            if let Some(b) = bad {
                return Err((format!("log-fold:{}", q.f), format!("{} reports {} but the logs so far say {b}", show_op(q), show(r))));
            }
            if q.f == "totalSupply()" && self.m.has_sig(*to, "previewDeposit(uint256)") && num.is_some() && num != Some(ix.shares(*to)) {
                return Err((
                    "log-fold:shares".into(),
                    format!("the share supply is {} but deposits and withdrawals announced {:#x}", show(r), ix.shares(*to)),
                ));
            }
        }
        Ok(())
    }
    /// Compare getters (all of them on every fourth step and at the end, a sample otherwise),
    /// ether balances and peer ledgers.
    pub fn check(&mut self, fam: &Fam, stats: &mut Stats, states: &mut HashSet<u64>, dig: &mut u64) -> Result<(), (String, String)> {
        if self.mode != Mode::Exit {
            return self.compare(fam, stats, states, dig);
        }
        if !self.diverged && self.compare(fam, stats, states, dig).is_err() {
            self.diverged = true;
            stats.add("diverged", 1);
        }
        Ok(())
    }
    fn last_check(&mut self, fam: &Fam, stats: &mut Stats, states: &mut HashSet<u64>, dig: &mut u64) -> Result<(), (String, String)> {
        if self.mode == Mode::Exit {
            return self.exit(stats);
        }
        self.check(fam, stats, states, dig)
    }
    fn compare(&mut self, fam: &Fam, stats: &mut Stats, states: &mut HashSet<u64>, dig: &mut u64) -> Result<(), (String, String)> {
        let mut h = 0u64;
        let full = std::mem::replace(&mut self.full, true);
        let mut qs: Vec<(Address, Address, Op)> =
            (fam.queries)(&self.m, &self.cfg).into_iter().map(|(to, q)| (eoa(0), to, q)).collect();
        let mut extra = self.odd_queries(&qs);
        if self.mode == Mode::Faults {
            // what happens without any fault is for the other properties
            extra.clear();
            qs.retain(|q| !q.2.a.contains(&crate::abi::a(NOCODE)));
        }
        if !full {
            let mut r = Rng::new(self.last ^ 0x5a);
            let k = if self.mode == Mode::ReadOnly { 8 } else { 14 };
            while qs.len() > k {
                let i = r.below(qs.len() as u64) as usize;
                qs.swap_remove(i);
            }
        }
        qs.extend(extra);
        let mut seen: Vec<Res> = vec![];
        let datas: Vec<Vec<u8>> = qs.iter().map(|q| q.2.data()).collect();
        for ((by, to, q), data) in qs.iter().zip(&datas) {
            let before = self.w.static_traps;
            let a1 = self.w.query_data(*by, *to, data);
            if self.w.static_traps != before {
                return Err((format!("query-writes:{}", q.f), format!("read-only call {} tried to write", show_op(q))));
            }
            self.w.panics = 0;
            if self.mode == Mode::ReadOnly {
                self.read_only(*to, q, &a1)?;
            }
            if let Ok(d) = &a1 {
                for c in d.chunks(8) {
                    let mut x = [0u8; 8];
                    x[..c.len()].copy_from_slice(c);
                    h = mix(h ^ u64::from_le_bytes(x));
                }
            }
            h = mix(h);
            seen.push(a1);
        }
        if self.mode == Mode::ReadOnly && full {
            let l: Vec<(Address, Op, Res)> =
                qs.iter().zip(&seen).map(|((_, to, q), r)| (*to, q.clone(), r.clone())).collect();
            let (k, r) = crate::agree::agree(self, &l);
            stats.add("query_relations_checked", k);
            if let Err((rule, d)) = r {
                return Err((format!("query-agree:{rule}"), d));
            }
        }
        if self.mode == Mode::Logs {
            if self.idx.is_none() {
                let mut ix = Index::default();
                for ((_, to, q), r) in qs.iter().zip(&seen) {
                    ix.start(*to, q, r);
                }
                self.idx = Some(ix);
            }
            self.fold_check(&qs, &seen, stats)?;
        }
        for (((by, to, q), a1), data) in qs.iter().zip(&seen).zip(&datas) {
            let b1 = self.m.query_data(*by, *to, data);
            if !res_eq(a1, &b1) {
                return Err((format!("state:{}", q.f), format!("{} reports {} expected {}", show_op(q), show(a1), show(&b1))));
            }
            stats.add("queries_compared", 1);
        }
        for x in &self.who {
            let a1 = self.w.bal.get(x).copied().unwrap_or_default();
            let b1 = self.m.eth(*x);
            if a1 != b1 {
                return Err(("ether".into(), format!("{x} holds {a1} wei, expected {b1}")));
            }
        }
        for (k, v) in self.m.st.kv.iter() {
            let a1 = self.w.kv.get(k).copied().unwrap_or_default();
            if a1 != *v {
                return Err(("peer-ledger".into(), format!("token {} entry {:?} is {a1}, expected {v}", k.0, k)));
            }
        }
        for (k, v) in self.w.kv.iter() {
            if !v.is_zero() && self.m.kvv(*k) != *v {
                return Err(("peer-ledger".into(), format!("token {} entry {:?} is {v}, expected {}", k.0, k, self.m.kvv(*k))));
            }
        }
        *dig = mix(*dig ^ h);
        if !full {
            return Ok(());
        }
        states.insert(h);
        let r = (fam.inv)(self);
        for k in std::mem::take(&mut self.known) {
            stats.add(k, 1);
        }
        if let Err(e) = r {
            return Err((format!("invariant:{}", e.split(':').next().unwrap_or("")), e));
        }
        Ok(())
    }
}
fn odd_arg(r: &mut Rng, t: &str, v: &mut V, who: &[Address], cap: usize) {
    match v {
        V::A(x) => {
            *x = match r.below(5) {
                0 | 1 => Address::ZERO,
                2 => *r.pick(&[C0, TK, NOCODE]),
                3 => alias(r, *x),
                _ => *r.pick(who),
            }
        }
        V::N(x) => {
            let bits: usize = match t {
                "bool" => return,
                "bytes32" => 256,
                t => match t.strip_prefix("uint").and_then(|b| b.parse().ok()) {
                    Some(b) => b,
                    None => return,
                },
            };
            let bits = if cap > 0 { bits.min(cap) } else { bits };
            let one = U256::from(1);
            let y = match r.below(8) {
                0 => U256::ZERO,
                1 => U256::MAX,
                2 => one << r.below(256) as usize,
                3 => (one << r.below(256) as usize) - one,
                4 => *r.pick(&dict().n),
                _ => *x ^ (one << r.below(bits as u64) as usize),
            };
            *x = if bits < 256 { y & ((one << bits) - one) } else { y };
        }
        V::L(l) => {
            let t = t.trim_end_matches("[]");
            if let Some(i) = (!l.is_empty()).then(|| r.below(l.len() as u64) as usize) {
                match r.below(4) {
                    0 => {
                        l.remove(i);
                    }
                    1 => {
                        let x = l[i].clone();
                        l.push(x);
                    }
                    _ => odd_arg(r, t, &mut l[i], who, cap),
                }
            }
        }
        V::B(b) => match t {
            "bytes" | "string" => {
                // stays valid text
                match r.below(4) {
                    0 => b.clear(),
                    1 => {
                        b.pop();
                    }
                    2 => b.push(b'z'),
                    _ => *b = vec![b'q'; *r.pick(&[1, 4, 31, 32, 33, 64, 255, 256, 1000, 4097])],
                }
                if t == "string" && std::str::from_utf8(b).is_err() {
                    b.clear();
                }
            }
            _ if !b.is_empty() => {
                let k = r.below(b.len() as u64 * 8) as usize;
                match r.below(4) {
                    0 => b.fill(0),
                    _ => b[k / 8] ^= 1 << (k % 8),
                }
            }
            _ => {}
        },
    }
}
/// Change one argument of a generated call.
fn odd_tx(r: &mut Rng, t: &mut Tx, who: &[Address], cap: usize) {
    if t.op.a.is_empty() || NO_ODD.iter().any(|x| t.op.f.starts_with(x)) {
        return;
    }
    let tys: Vec<&str> = t.op.f[t.op.f.find('(').unwrap() + 1..t.op.f.len() - 1].split(',').collect();
    if tys.len() != t.op.a.len() {
        return;
    }
    let i = r.below(tys.len() as u64) as usize;
    odd_arg(r, tys[i], &mut t.op.a[i], who, cap);
}
/// harness loops, and batch sizes whose meaning the generator controls
const NO_ODD: &[&str] = &["pushMany(", "useMany(", "mintConsecutive(", "mintMany("];
/// an address that agrees with `x` in most of its bytes
fn alias(r: &mut Rng, x: Address) -> Address {
    let mut b = x.into_array();
    match r.below(3) {
        0 => b[0] ^= 1 << r.below(8),
        1 => b[19] ^= 1 << r.below(8),
        _ => b[r.below(20) as usize] ^= 1 << r.below(8),
    }
    Address::new(b)
}
fn txhash(t: &Tx) -> u64 {
    let mut h = 0xa5u64;
    let s = format!("{}{}{}{}", t.from, t.to, show_op(&t.op), t.value);
    for b in s.bytes() {
        h = mix(h ^ b as u64);
    }
    h
}
fn brief(l: &[&Log]) -> Vec<String> {
    l.iter()
        .map(|l| {
            format!(
                "{}@{}[{}|{}]",
                hx(&l.topics.first().map(|t| t[..4].to_vec()).unwrap_or_default()),
                &l.at.to_string()[..6],
                l.topics.iter().skip(1).map(|t| hx(t)).collect::<Vec<_>>().join(","),
                hx(&l.data)
            )
        })
        .collect()
}
fn show_tr(t: Option<&Tr>) -> String {
    match t {
        None => "nothing".into(),
        Some(Tr::Recv { at, from, value, data }) => format!("call to {at} from {from} value {value} data {}", hx(data)),
        Some(Tr::Act { at, r, .. }) => format!("{at} observes {}", show(r)),
    }
}
pub fn show_op(o: &Op) -> String {
    let n = o.f.split('(').next().unwrap_or("");
    format!("{n}({})", o.a.iter().map(show_v).collect::<Vec<_>>().join(","))
}
fn show_v(v: &V) -> String {
    match v {
        V::A(a) => a.to_string(),
        V::N(n) => n.to_string(),
        V::B(b) => hx(b),
        V::L(l) => format!("[{}]", l.iter().map(show_v).collect::<Vec<_>>().join(",")),
    }
}

// ------------------------------------------------------------------ generation
pub struct Gx<'a> {
    pub r: &'a mut Rng,
    pub v: &'a MW,
    pub c: &'a Cfg,
    pub who: &'a [Address],
}
impl<'a> Gx<'a> {
    pub fn pct(&mut self, p: u64) -> bool {
        self.r.pct(p)
    }
    pub fn below(&mut self, k: u64) -> u64 {
        self.r.below(k)
    }
    /// an account that can act
    pub fn actor(&mut self) -> Address {
        let n = self.c.g("actors").max(1);
        let k = self.r.below(n + 2);
        if k < n {
            eoa(k as usize)
        } else {
            stub((k - n) as usize)
        }
    }
    pub fn eoa(&mut self) -> Address {
        let n = self.c.g("actors").max(1);
        eoa(self.r.below(n) as usize)
    }
    /// any interesting address
    pub fn addr(&mut self) -> Address {
        match self.r.below(100) {
            0..=69 => self.actor(),
            70..=77 => Address::ZERO,
            78..=85 => C0,
            86..=89 => TK,
            90..=92 => NOCODE,
            93..=94 => *self.r.pick(self.who),
            95 => {
                let x = self.actor();
                alias(self.r, x)
            }
            _ => {
                let d = &dict().a;
                if d.is_empty() {
                    NOCODE
                } else {
                    *self.r.pick(d)
                }
            }
        }
    }
    pub fn pick_addr(&mut self, v: &[Address]) -> Address {
        if v.is_empty() || self.r.pct(10) {
            self.addr()
        } else {
            *self.r.pick(v)
        }
    }
    pub fn num(&mut self, hints: &[U256]) -> U256 {
        let one = U256::from(1);
        let base = match self.r.below(100) {
            0..=39 if !hints.is_empty() => {
                let h = *self.r.pick(hints);
                return match self.r.below(9) {
                    0..=3 => h,
                    4 => h.wrapping_add(one),
                    5 => h.wrapping_sub(one),
                    6 => h >> 1,
                    7 => h ^ (one << self.r.below(256) as usize),
                    _ => self.upto(h),
                };
            }
            0..=64 => return U256::from(self.r.below(6)),
            65..=79 => *self.r.pick(&dict().n),
            80..=88 => one << (self.r.below(256) as usize),
            89..=93 => {
                let h = if hints.is_empty() { one } else { *self.r.pick(hints) };
                U256::MAX - h
            }
            94..=96 => U256::from(self.r.u()),
            _ => return self.word(),
        };
        match self.r.below(4) {
            0 => base.wrapping_add(one),
            1 => base.wrapping_sub(one),
            _ => base,
        }
    }
    pub fn word(&mut self) -> U256 {
        U256::from_limbs([self.r.u(), self.r.u(), self.r.u(), self.r.u()])
    }
    /// 0..=b, favouring edges
    pub fn upto(&mut self, b: U256) -> U256 {
        match self.r.below(10) {
            0 => U256::ZERO,
            1 => U256::from(1).min(b),
            2 | 3 => b,
            4 => b >> 1,
            5 => {
                let d = *self.r.pick(&dict().n);
                if d <= b {
                    d
                } else {
                    b >> 2
                }
            }
            _ => {
                if b == U256::MAX {
                    self.word()
                } else {
                    let m = b + U256::from(1);
                    self.word() % m
                }
            }
        }
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = match self.r.below(6) {
            0 | 1 => 0,
            2 => self.r.below(8),
            3 => 32,
            4 => self.r.below(70),
            5 if self.r.pct(6) => 1000 + self.r.below(2000),
            _ => self.r.below(300),
        };
        (0..n).map(|_| self.r.u() as u8).collect()
    }
    pub fn tx(&mut self, from: Address, op: Op) -> Tx {
        Tx { from, to: C0, value: U256::ZERO, op, plans: vec![], oog: vec![] }
    }
}

pub fn base_cfg(fam: &Fam, r: &mut Rng) -> Cfg {
    let mut c = Cfg { fam: fam.name.into(), k: BTreeMap::new() };
    c.set("actors", r.range(2, 5));
    let n = match r.below(100) {
        0..=79 => r.range(8, 40),
        80..=97 => r.range(40, 120),
        _ => r.range(120, 400),
    };
    c.set("steps", n);
    c.set("reent", r.pct(50) as u64);
    c.set("reorder", if r.pct(50) { r.range(0, 60) } else { 0 });
    c.set("stale", if r.pct(50) { r.range(5, 50) } else { 0 });
    c.set("dup", if r.pct(40) { r.range(2, 20) } else { 0 });
    c.set("drop", if r.pct(30) { r.range(2, 15) } else { 0 });
    c.set("oog", if r.pct(40) { r.range(3, 25) } else { 0 });
    c.set("warp", r.range(5, 40));
    c.set("reorgs", r.pct(15) as u64);
    c.set("codes", if r.pct(25) { 4 } else { 0 });
    c.set("oddargs", if r.pct(60) { r.range(1, 10) } else { 0 });
    if r.pct(12) {
        // some chains live in another age
        let b = *r.pick(&[8u64, 31, 32, 32, 33, 40, 48, 53, 63, 64]);
        let t = if b == 64 { u64::MAX - 86_400 * 365 } else { (1u64 << b) - 1 };
        let span = 86_400 * *r.pick(&[1, 30, 400]);
        c.set("now", t.saturating_sub(r.below(span)).max(1));
    }
    (fam.knobs)(r, &mut c);
    c
}

pub struct Run {
    pub cfg: Cfg,
    pub steps: Vec<Step>,
    pub viol: Option<Viol>,
    pub digest: u64,
}

/// Host calls needed by the transaction in the current state (state is restored).
fn count_ticks(sim: &mut Sim, tx: &Tx) -> u32 {
    let s = sim.w.snap();
    let mut t = tx.clone();
    t.oog.clear();
    let _ = sim.w.exec(&t, false);
    let k = sim.w.ticks;
    sim.w.restore(&s);
    sim.w.panics = 0;
    k
}

/// One simulated execution: everything follows from `seed`.
pub fn explore(fam: &Fam, seed: u64, mode: Mode, stats: &mut Stats, states: &mut HashSet<u64>) -> Run {
    let mut r = Rng::new(seed);
    let cfg = base_cfg(fam, &mut r);
    let mut sim = Sim::new(&cfg, fam, mode);
    let mut steps: Vec<Step> = vec![];
    let mut dig = seed;
    let mut viol = None;
    let mut pool: Vec<Tx> = vec![];
    let mut olds: Vec<MState> = vec![];
    macro_rules! go {
        ($st:expr) => {{
            let st: Step = $st;
            let i = steps.len();
            steps.push(st);
            let res = sim.step(&steps[i], fam, stats, states, &mut dig);
            if let Err((class, detail)) = res {
                viol = Some(Viol { class, detail, step: i });
            }
            viol.is_some()
        }};
    }
    let n = cfg.g("steps");
    let mut it = 0;
    if let Err((class, detail)) = sim.check(fam, stats, states, &mut dig) {
        viol = Some(Viol { class, detail, step: 0 });
    }
    'outer: while it < n && viol.is_none() {
        it += 1;
        if r.pct(cfg.g("warp")) {
            let d = match r.below(8) {
                0..=3 => r.below(60),
                4 | 5 => r.below(7200),
                6 => r.below(30 * 86_400),
                _ => {
                    if cfg.on("timed") {
                        r.below(600) * 86_400
                    } else {
                        r.below(3 * 365 * 86_400)
                    }
                }
            };
            if go!(Step::Warp(d)) {
                break;
            }
        }
        if cfg.on("forks") && r.pct(2) {
            let c = *r.pick(&[1u64, 42161, 421614, 10, 0, 255, 65_537, (1 << 32) + 42161, 1 << 63, u64::MAX]);
            if go!(Step::Fork(c)) {
                break;
            }
        }
        if r.pct(cfg.g("codes")) {
            let i = r.below(2) as usize;
            let st = if r.pct(50) { Step::Code(stub(i), r.pct(60)) } else { Step::Code(eoa(r.below(cfg.g("actors")) as usize), r.pct(50)) };
            if go!(st) {
                break;
            }
        }
        if cfg.on("reorgs") && r.pct(6) {
            let k = r.range(1, 3) as u32;
            if go!(Step::Reorg(k)) {
                break;
            }
        }
        // a client submits a transaction, possibly from an old view of the chain
        let stale = !olds.is_empty() && r.pct(cfg.g("stale"));
        let mut tx = if stale {
            stats.add("fault.stale_view", 1);
            let k = r.below(olds.len() as u64) as usize;
            let cur = std::mem::replace(&mut sim.m.st, olds[k].clone());
            let t = (fam.gen)(&mut Gx { r: &mut r, v: &sim.m, c: &cfg, who: &sim.who });
            sim.m.st = cur;
            t
        } else {
            (fam.gen)(&mut Gx { r: &mut r, v: &sim.m, c: &cfg, who: &sim.who })
        };
        if r.pct(cfg.g("oddargs")) {
            odd_tx(&mut r, &mut tx, &sim.who, cfg.g("kbits") as usize);
            stats.add("odd_arguments", 1);
        }
        if mode == Mode::Logs {
            // whoever asks for an unannounced change cannot expect it to be announced
            announce(&mut tx.op);
            for p in tx.plans.iter_mut() {
                for x in p.acts.iter_mut() {
                    announce(&mut x.op);
                }
            }
        }
        if r.pct(cfg.g("drop")) {
            stats.add("fault.tx_dropped", 1);
            continue;
        }
        if r.pct(cfg.g("reorder")) {
            pool.push(tx.clone());
            stats.add("fault.tx_delayed", 1);
            let k = r.below(pool.len() as u64 + 1) as usize;
            if k == pool.len() {
                continue;
            }
            if k + 1 != pool.len() {
                stats.add("fault.tx_reordered", 1);
            }
            tx = pool.remove(k);
        }
        if r.pct(cfg.g("dup")) {
            stats.add("fault.tx_duplicated", 1);
            pool.push(tx.clone());
        }
        if mode == Mode::Faults {
            let t = count_ticks(&mut sim, &tx);
            let k = if t <= 12 { t } else { 12 };
            for i in 0..k {
                let at = if t <= 12 { i } else { r.below(t as u64) as u32 };
                let mut x = tx.clone();
                x.oog = vec![at];
                if go!(Step::Tx(x)) {
                    break 'outer;
                }
            }
        } else if r.pct(cfg.g("oog")) {
            let t = count_ticks(&mut sim, &tx);
            let mut x = tx.clone();
            x.oog = vec![r.below(t as u64 + 1) as u32];
            if go!(Step::Tx(x)) {
                break;
            }
        }
        if olds.len() > 4 {
            olds.remove(0);
        }
        olds.push(sim.m.st.clone());
        if go!(Step::Tx(tx)) {
            break;
        }
    }
    if viol.is_none() {
        if let Err((class, detail)) = sim.last_check(fam, stats, states, &mut dig) {
            viol = Some(Viol { class, detail, step: steps.len().saturating_sub(1) });
        }
    }
    Run { cfg, steps, viol, digest: dig }
}

fn announce(o: &mut Op) {
    if o.f == "approveAs(address,uint256,address,bool)" {
        o.a[3] = V::N(U256::from(1));
    }
}

pub fn replay(fam: &Fam, cfg: &Cfg, steps: &[Step], mode: Mode) -> (Option<Viol>, u64) {
    let mut st = Stats::default();
    let mut hs = HashSet::new();
    let mut dig = 7u64;
    let mut sim = Sim::new(cfg, fam, mode);
    if let Err((class, detail)) = sim.check(fam, &mut st, &mut hs, &mut dig) {
        return (Some(Viol { class, detail, step: 0 }), dig);
    }
    for (i, s) in steps.iter().enumerate() {
        if let Err((class, detail)) = sim.step(s, fam, &mut st, &mut hs, &mut dig) {
            return (Some(Viol { class, detail, step: i }), dig);
        }
    }
    if let Err((class, detail)) = sim.last_check(fam, &mut st, &mut hs, &mut dig) {
        return (Some(Viol { class, detail, step: steps.len().saturating_sub(1) }), dig);
    }
    (None, dig)
}

/// The same schedule without host-call faults and peer failures.
pub fn without_faults(steps: &[Step]) -> Vec<Step> {
    let mut o = vec![];
    for s in steps {
        match s {
            Step::Tx(t) => {
                if !t.oog.is_empty() {
                    continue;
                }
                let mut t = t.clone();
                for p in t.plans.iter_mut() {
                    if p.out != Out::Default {
                        p.out = Out::Default;
                    }
                }
                o.push(Step::Tx(t));
            }
            s => o.push(s.clone()),
        }
    }
    o
}

// ------------------------------------------------------------------ minimisation
pub fn shrink(fam: &Fam, cfg: &Cfg, steps: &[Step], class: &str, mode: Mode, keep: &dyn Fn(&[Step]) -> bool) -> Vec<Step> {
    let t0 = std::time::Instant::now();
    let secs = std::env::var("VERIF_SHRINK").ok().and_then(|x| x.parse().ok()).unwrap_or(20);
    let budget = std::time::Duration::from_secs(secs);
    let fails = |s: &[Step]| -> bool { matches!(replay(fam, cfg, s, mode).0, Some(v) if v.class == class) && keep(s) };
    let mut cur = steps.to_vec();
    if let (Some(v), _) = replay(fam, cfg, &cur, mode) {
        if v.class == class {
            cur.truncate(v.step + 1);
        }
    }
    if !fails(&cur) {
        return steps.to_vec();
    }
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() && t0.elapsed() < budget {
            let mut c = cur.clone();
            c.drain(i..(i + chunk).min(c.len()));
            if fails(&c) {
                cur = c;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        if t0.elapsed() >= budget {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    // simplify the remaining steps
    let mut changed = true;
    while changed && t0.elapsed() < budget {
        changed = false;
        for i in 0..cur.len() {
            for cand in simpler(&cur[i]) {
                let mut c = cur.clone();
                c[i] = cand;
                if fails(&c) {
                    cur = c;
                    changed = true;
                    break;
                }
            }
        }
    }
    cur
}
fn simpler(s: &Step) -> Vec<Step> {
    let mut o = vec![];
    match s {
        Step::Warp(d) if *d > 1 => o.push(Step::Warp(d / 2)),
        Step::Tx(t) => {
            if !t.oog.is_empty() {
                let mut x = t.clone();
                x.oog.clear();
                o.push(Step::Tx(x));
            }
            for i in 0..t.plans.len() {
                let mut x = t.clone();
                x.plans.remove(i);
                o.push(Step::Tx(x));
                for j in 0..t.plans[i].acts.len() {
                    let mut x = t.clone();
                    x.plans[i].acts.remove(j);
                    o.push(Step::Tx(x));
                    for a2 in simpler_args(&t.plans[i].acts[j].op.a) {
                        let mut x = t.clone();
                        x.plans[i].acts[j].op.a = a2;
                        o.push(Step::Tx(x));
                    }
                }
            }
            for a2 in simpler_args(&t.op.a) {
                let mut x = t.clone();
                x.op.a = a2;
                o.push(Step::Tx(x));
            }
        }
        _ => {}
    }
    o
}
fn simpler_args(a: &[V]) -> Vec<Vec<V>> {
    let mut o = vec![];
    for i in 0..a.len() {
        let c: Vec<V> = match &a[i] {
            V::N(x) if !x.is_zero() => {
                let mut v = vec![V::N(U256::ZERO), V::N(U256::from(1)), V::N(*x >> 1)];
                v.push(V::N(*x - U256::from(1)));
                v.retain(|y| y.n() < *x);
                v
            }
            V::B(b) if !b.is_empty() => vec![V::B(vec![]), V::B(b[..b.len() / 2].to_vec())],
            V::L(l) if l.len() > 1 => (0..l.len())
                .map(|k| {
                    let mut m = l.clone();
                    m.remove(k);
                    V::L(m)
                })
                .collect(),
            _ => vec![],
        };
        for x in c {
            let mut m = a.to_vec();
            m[i] = x;
            o.push(m);
        }
    }
    o
}

// ------------------------------------------------------------------ replay files
fn jv(v: &V) -> J {
    match v {
        V::A(x) => json::s(format!("a:{}", hx(x.as_slice()))),
        V::N(x) => json::s(format!("n:{x:#x}")),
        V::B(b) => json::s(format!("b:{}", hx(b))),
        V::L(l) => J::Arr(l.iter().map(jv).collect()),
    }
}
fn unhex(s: &str) -> Vec<u8> {
    let h = s.strip_prefix("0x").unwrap_or(s);
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
fn pn(s: &str) -> U256 {
    U256::from_str_radix(s.strip_prefix("0x").unwrap_or(s), 16).unwrap_or_default()
}
fn pa(s: &str) -> Address {
    Address::from_slice(&unhex(s))
}
fn vj(j: &J) -> V {
    match j {
        J::Arr(a) => V::L(a.iter().map(vj).collect()),
        J::Str(s) => match &s[..2] {
            "a:" => V::A(pa(&s[2..])),
            "n:" => V::N(pn(&s[2..])),
            _ => V::B(unhex(&s[2..])),
        },
        _ => V::N(U256::ZERO),
    }
}
fn jop(o: &Op) -> Vec<(String, J)> {
    vec![("f".into(), json::s(o.f)), ("a".into(), J::Arr(o.a.iter().map(jv).collect()))]
}
fn opj(j: &J) -> Op {
    Op { f: Box::leak(j.get("f").str().to_string().into_boxed_str()), a: j.get("a").arr().iter().map(vj).collect() }
}
fn jout(o: &Out) -> J {
    json::s(match o {
        Out::Default => "default".to_string(),
        Out::Ret(b) => format!("ret:{}", hx(b)),
        Out::NoMove(b) => format!("nomove:{}", hx(b)),
        Out::Revert(b) => format!("revert:{}", hx(b)),
        Out::Trap => "trap".into(),
    })
}
fn outj(j: &J) -> Out {
    let s = j.str();
    match s.split_once(':') {
        Some(("ret", h)) => Out::Ret(unhex(h)),
        Some(("nomove", h)) => Out::NoMove(unhex(h)),
        Some(("revert", h)) => Out::Revert(unhex(h)),
        _ if s == "trap" => Out::Trap,
        _ => Out::Default,
    }
}
pub fn jstep(s: &Step) -> J {
    match s {
        Step::Warp(d) => J::Obj(vec![("warp".into(), json::s(d.to_string()))]),
        Step::Fork(c) => J::Obj(vec![("fork".into(), json::s(c.to_string()))]),
        Step::Code(x, on) => J::Obj(vec![("code".into(), json::s(hx(x.as_slice()))), ("on".into(), J::Bool(*on))]),
        Step::Reorg(k) => J::Obj(vec![("reorg".into(), json::s(k.to_string()))]),
        Step::Tx(t) => {
            let mut o = vec![
                ("from".into(), json::s(hx(t.from.as_slice()))),
                ("to".into(), json::s(hx(t.to.as_slice()))),
            ];
            o.extend(jop(&t.op));
            if !t.value.is_zero() {
                o.push(("value".into(), json::s(format!("{:#x}", t.value))));
            }
            if !t.oog.is_empty() {
                o.push(("oog".into(), J::Arr(t.oog.iter().map(|x| json::num(*x as u64)).collect())));
            }
            if !t.plans.is_empty() {
                o.push((
                    "plans".into(),
                    J::Arr(
                        t.plans
                            .iter()
                            .map(|p| {
                                J::Obj(vec![
                                    ("at".into(), json::s(hx(p.at.as_slice()))),
                                    ("sel".into(), json::s(hx(&p.sel))),
                                    ("post".into(), J::Bool(p.post)),
                                    ("out".into(), jout(&p.out)),
                                    (
                                        "acts".into(),
                                        J::Arr(
                                            p.acts
                                                .iter()
                                                .map(|x| {
                                                    let mut v = vec![
                                                        ("to".into(), json::s(hx(x.to.as_slice()))),
                                                        ("value".into(), json::s(format!("{:#x}", x.value))),
                                                        ("st".into(), J::Bool(x.st)),
                                                        ("bubble".into(), J::Bool(x.bubble)),
                                                    ];
                                                    v.extend(jop(&x.op));
                                                    J::Obj(v)
                                                })
                                                .collect(),
                                        ),
                                    ),
                                ])
                            })
                            .collect(),
                    ),
                ));
            }
            J::Obj(o)
        }
    }
}
pub fn stepj(j: &J) -> Step {
    let num = |k: &str| j.get(k).str().parse::<u64>().unwrap_or(0);
    if *j.get("warp") != J::Null {
        return Step::Warp(num("warp"));
    }
    if *j.get("fork") != J::Null {
        return Step::Fork(num("fork"));
    }
    if *j.get("reorg") != J::Null {
        return Step::Reorg(num("reorg") as u32);
    }
    if *j.get("code") != J::Null {
        return Step::Code(pa(j.get("code").str()), j.get("on").b());
    }
    Step::Tx(Tx {
        from: pa(j.get("from").str()),
        to: pa(j.get("to").str()),
        value: pn(j.get("value").str()),
        op: opj(j),
        oog: j.get("oog").arr().iter().map(|x| x.u() as u32).collect(),
        plans: j
            .get("plans")
            .arr()
            .iter()
            .map(|p| {
                let s = unhex(p.get("sel").str());
                Plan {
                    at: pa(p.get("at").str()),
                    sel: [s[0], s[1], s[2], s[3]],
                    post: p.get("post").b(),
                    out: outj(p.get("out")),
                    acts: p
                        .get("acts")
                        .arr()
                        .iter()
                        .map(|x| Act {
                            to: pa(x.get("to").str()),
                            value: pn(x.get("value").str()),
                            st: x.get("st").b(),
                            bubble: x.get("bubble").b(),
                            op: opj(x),
                        })
                        .collect(),
                }
            })
            .collect(),
    })
}
pub fn jcfg(c: &Cfg) -> J {
    J::Obj(c.k.iter().map(|(k, v)| (k.clone(), json::s(format!("{v:#x}")))).collect())
}
pub fn cfgj(fam: &str, j: &J) -> Cfg {
    let mut c = Cfg { fam: fam.into(), k: BTreeMap::new() };
    if let J::Obj(o) = j {
        for (k, v) in o {
            c.k.insert(k.clone(), pn(v.str()));
        }
    }
    c
}

//! The reference world: same call semantics, but every contract is a small typed model.
use crate::abi::*;
use crate::core::*;
use crate::host::frame_path;
use alloy_primitives::{Address, U256};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type Mfn = fn(&mut MW, &Msg, Sig, &[V]) -> Res;

#[derive(Clone, Copy)]
pub enum MCode {
    None,
    Contract { f: Mfn, sigs: &'static [Sig], reentrant: bool },
    Stub,
    Tok(TokCfg),
    Ec,
}

/// Union of the state of all modelled components; each contract uses what it needs.
#[derive(Clone, Default, Debug, PartialEq)]
pub struct S {
    // fungible ledger
    pub bal: BTreeMap<Address, U256>,
    pub alw: BTreeMap<(Address, Address), U256>,
    pub supply: U256,
    pub name: String,
    pub symbol: String,
    pub cap: U256,
    pub paused: bool,
    pub nonce: BTreeMap<Address, U256>,
    pub counter: U256,
    // erc4626 / wrappers / flash
    pub asset: Address,
    pub dec: u8,
    pub off: u8,
    pub fee: U256,
    pub fee_to: Address,
    // erc721
    pub owner_of: BTreeMap<U256, Address>,
    pub tok_app: BTreeMap<U256, Address>,
    pub oper: BTreeSet<(Address, Address)>,
    pub uri: BTreeMap<U256, String>,
    pub base: String,
    pub base2: String,
    pub first: U256,
    pub max_batch: U256,
    pub next: U256,
    // erc1155
    pub mb: BTreeMap<(Address, U256), U256>,
    pub msup: BTreeMap<U256, U256>,
    pub all_sup: U256,
    // access
    pub owner: Address,
    pub pending: Address,
    pub roles: BTreeSet<([u8; 32], Address)>,
    pub admins: BTreeMap<[u8; 32], [u8; 32]>,
    // vesting
    pub start: u64,
    pub dur: u64,
    pub released: U256,
    pub tok_released: BTreeMap<Address, U256>,
    // royalties
    pub roy: Option<(Address, U256)>,
    pub troy: BTreeMap<U256, (Address, U256)>,
    // checkpoints, bitmap
    pub cps: Vec<(U256, U256)>,
    pub bits: BTreeSet<U256>,
    // registers, notes
    pub regs: BTreeMap<U256, U256>,
    pub notes: BTreeSet<(U256, U256)>,
}

pub struct MFrame {
    pub addr: Address,
    pub path: u64,
    pub real: bool,
    pub occ: Vec<((Address, [u8; 4]), u32)>,
}

/// Rolled back when a frame fails.
#[derive(Clone, Default)]
pub struct MState {
    pub s: BTreeMap<Address, Rc<S>>,
    pub bal: Rc<BTreeMap<Address, U256>>,
    pub kv: Rc<BTreeMap<Kv, U256>>,
    pub logs: Vec<Log>,
    pub trace: Vec<Tr>,
    pub used: u32,
}
pub struct MW {
    pub st: MState,
    pub code: BTreeMap<Address, MCode>,
    pub now: u64,
    pub number: u64,
    pub chain: u64,
    pub frames: Vec<MFrame>,
    pub plans: Vec<Plan>,
    pub kills: Vec<u64>,
    pub kills_hit: usize,
    /// the last call met a case nothing specifies; its outcome is not judged
    pub vague: bool,
}

impl MW {
    pub fn new() -> Self {
        MW {
            st: MState::default(),
            code: BTreeMap::new(),
            now: 1_700_000_000,
            number: 1_000,
            chain: 42161,
            frames: vec![],
            plans: vec![],
            kills: vec![],
            kills_hit: 0,
            vague: false,
        }
    }
    pub fn s(&self, x: Address) -> &S {
        self.st.s.get(&x).expect("modelled contract")
    }
    pub fn m(&mut self, x: Address) -> &mut S {
        Rc::make_mut(self.st.s.get_mut(&x).expect("modelled contract"))
    }
    pub fn eth(&self, x: Address) -> U256 {
        self.st.bal.get(&x).copied().unwrap_or_default()
    }
    pub fn set_eth(&mut self, x: Address, v: U256) {
        Rc::make_mut(&mut self.st.bal).insert(x, v);
    }
    pub fn has_sig(&self, x: Address, f: Sig) -> bool {
        matches!(self.code.get(&x), Some(MCode::Contract { sigs, .. }) if sigs.contains(&f))
    }
    pub fn kvv(&self, k: Kv) -> U256 {
        self.st.kv.get(&k).copied().unwrap_or_default()
    }
    pub fn has_code(&self, x: Address) -> bool {
        !matches!(self.code.get(&x), None | Some(MCode::None) | Some(MCode::Ec))
    }
    /// Emit an event; bit i of `ix` set: i-th parameter is indexed.
    pub fn ev(&mut self, at: Address, sig: Sig, ix: u8, args: &[V]) {
        let mut topics = vec![sighash(sig)];
        let ts = types(sig);
        let mut rt = vec![];
        let mut rv = vec![];
        for (i, v) in args.iter().enumerate() {
            if ix >> i & 1 == 1 {
                topics.push(word(v));
            } else {
                rt.push(ts[i]);
                rv.push(v.clone());
            }
        }
        let data = enc(&rt.join(","), &rv);
        self.st.logs.push(Log { at, topics, data });
    }
    pub fn exec(&mut self, tx: &Tx, kills: &[u64], st: bool) -> Res {
        self.plans = tx.plans.clone();
        self.exec_data(tx.from, tx.to, tx.value, &tx.op.data(), kills, st)
    }
    pub fn exec_data(&mut self, from: Address, to: Address, value: U256, data: &[u8], kills: &[u64], st: bool) -> Res {
        self.st.logs.clear();
        self.st.trace.clear();
        self.st.used = 0;
        self.frames.clear();
        self.kills = kills.to_vec();
        self.kills_hit = 0;
        self.vague = false;
        let r = self.call_frame(from, to, value, data, st);
        if r.is_err() {
            self.st.logs.clear();
            self.st.trace.clear();
        }
        r
    }
    pub fn query(&mut self, from: Address, to: Address, o: &Op) -> Res {
        self.query_data(from, to, &o.data())
    }
    pub fn query_data(&mut self, from: Address, to: Address, data: &[u8]) -> Res {
        self.plans.clear();
        self.exec_data(from, to, U256::ZERO, data, &[], true)
    }
    fn call_frame(&mut self, from: Address, to: Address, value: U256, data: &[u8], st: bool) -> Res {
        if self.frames.len() > 24 {
            return fail();
        }
        let s = sel_key(data);
        let path = match self.frames.last_mut() {
            None => 1,
            Some(f) => {
                let occ = match f.occ.iter_mut().find(|(k, _)| *k == (to, s)) {
                    Some((_, c)) => {
                        *c += 1;
                        *c
                    }
                    None => {
                        f.occ.push(((to, s), 0));
                        0
                    }
                };
                frame_path(f.path, to, s, occ)
            }
        };
        if self.kills.contains(&path) {
            self.kills_hit += 1;
            return fail();
        }
        let snap = self.st.clone();
        if !value.is_zero() {
            let fb = self.eth(from);
            if fb < value || st {
                return fail();
            }
            self.set_eth(from, fb - value);
            let tb = self.eth(to);
            self.set_eth(to, tb + value);
        }
        let code = self.code.get(&to).copied().unwrap_or(MCode::None);
        let real = matches!(code, MCode::Contract { .. });
        let reentry = real && self.frames.iter().any(|f| f.real && f.addr == to);
        self.frames.push(MFrame { addr: to, path, real, occ: vec![] });
        let m = Msg { me: to, from, value, st };
        let r = match code {
            MCode::None => Ok(vec![]),
            MCode::Ec => match self.take_plan(to, [0; 4], st).map(|p| p.out) {
                Some(Out::Revert(_)) | Some(Out::Trap) => fail(),
                Some(Out::Ret(d)) | Some(Out::NoMove(d)) => Ok(d),
                _ => Ok(ecrecover(data)),
            },
            MCode::Stub => stub_exec(self, &m, data),
            MCode::Tok(c) => tok_exec(self, &c, &m, data),
            MCode::Contract { f, sigs, reentrant } => {
                if reentry && !reentrant {
                    fail()
                } else if data.is_empty() {
                    f(self, &m, "", &[])
                } else if !value.is_zero() {
                    fail()
                } else {
                    match sigs.iter().find(|x| selector(x) == s) {
                        None => fail(),
                        Some(sig) => match dec(&types(sig), &data[4..]) {
                            None => fail(),
                            Some(args) => {
                                let l0 = self.st.logs.len();
                                let before = if st { Some(self.st.s.clone()) } else { None };
                                let r = f(self, &m, sig, &args);
                                if let Some(b) = before {
                                    // a modelled change in a read-only frame is a failure
                                    if self.st.logs.len() != l0
                                        || b.iter().any(|(k, v)| {
                                            !Rc::ptr_eq(v, &self.st.s[k]) && **v != *self.st.s[k]
                                        })
                                    {
                                        fail()
                                    } else {
                                        r
                                    }
                                } else {
                                    r
                                }
                            }
                        },
                    }
                }
            }
        };
        self.frames.pop();
        if r.is_err() {
            self.st = snap;
        }
        r
    }
    /// Call from a modelled contract.
    pub fn ext(&mut self, m: &Msg, to: Address, value: U256, data: &[u8]) -> Res {
        self.call_frame(m.me, to, value, data, m.st)
    }
    pub fn ext_static(&mut self, m: &Msg, to: Address, data: &[u8]) -> Res {
        self.call_frame(m.me, to, U256::ZERO, data, true)
    }
}

impl Backend for MW {
    fn kv(&self, k: Kv) -> U256 {
        self.kvv(k)
    }
    fn kv_set(&mut self, k: Kv, v: U256) {
        Rc::make_mut(&mut self.st.kv).insert(k, v);
    }
    fn take_plan(&mut self, at: Address, sel: [u8; 4], st: bool) -> Option<Plan> {
        let used = self.st.used;
        let i = self.plans.iter().enumerate().position(|(i, p)| used >> i & 1 == 0 && p.at == at && p.sel == sel)?;
        if !st {
            self.st.used |= 1 << i;
        }
        Some(self.plans[i].clone())
    }
    fn trace(&mut self, t: Tr) {
        self.st.trace.push(t);
    }
    fn call(&mut self, from: Address, to: Address, value: U256, data: &[u8], st: bool) -> Res {
        self.call_frame(from, to, value, data, st)
    }
    fn log(&mut self, l: Log) {
        self.st.logs.push(l);
    }
}

// ------------------------------------------------------------ result helpers
pub fn ret(v: V) -> Res {
    Ok(word(&v).to_vec())
}
pub fn ret_s(s: &str) -> Res {
    Ok(enc("string", &[by(s.as_bytes())]))
}
pub fn ret0() -> Res {
    Ok(vec![])
}
pub fn ret_true() -> Res {
    ret(n(1u64))
}

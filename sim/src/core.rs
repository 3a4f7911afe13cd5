//! Vocabulary shared by the real world (host.rs) and the model world (model.rs):
//! calls, plans for scripted peers, traces, and the scripted peers themselves.
use crate::abi::*;
use alloy_primitives::{Address, U256};

/// Failure payload. `Any`: the model does not predict the bytes.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
    Any,
    /// one of these payloads
    X(Vec<Vec<u8>>),
}
pub type Res = Result<Vec<u8>, E>;
pub fn fail<T>() -> Result<T, E> {
    Err(E::Any)
}
pub fn failx<T>(b: Vec<u8>) -> Result<T, E> {
    Err(E::X(vec![b]))
}

#[derive(Clone, Copy, Debug)]
pub struct Msg {
    pub me: Address,
    pub from: Address,
    pub value: U256,
    pub st: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Log {
    pub at: Address,
    pub topics: Vec<[u8; 32]>,
    pub data: Vec<u8>,
}

/// Something a scripted peer does while it is being called.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Act {
    pub to: Address,
    pub value: U256,
    pub op: Op,
    pub st: bool,
    /// revert with the callee's failure if it fails
    pub bubble: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Default,
    /// default effect, other return data
    Ret(Vec<u8>),
    /// no effect, this return data
    NoMove(Vec<u8>),
    Revert(Vec<u8>),
    Trap,
}
/// Behaviour of the scripted account `at` the next time it is called with `sel`
/// (every time in this transaction if the call is static).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Plan {
    pub at: Address,
    pub sel: [u8; 4],
    pub acts: Vec<Act>,
    /// run acts after the default effect instead of before
    pub post: bool,
    pub out: Out,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tx {
    pub from: Address,
    pub to: Address,
    pub value: U256,
    pub op: Op,
    pub plans: Vec<Plan>,
    /// host-call numbers at which the running frame is out of gas
    pub oog: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Step {
    Tx(Tx),
    /// advance clock (seconds) and block number
    Warp(u64),
    /// chain id changes (hard fork)
    Fork(u64),
    /// account gains (true) or loses scripted code
    Code(Address, bool),
    /// chain reorganisation: undo the last k steps' effects
    Reorg(u32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tr {
    Recv { at: Address, from: Address, value: U256, data: Vec<u8> },
    /// what an action of a scripted peer observed; q: it was made as a read-only call
    Act { at: Address, r: Res, q: bool },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TokCfg {
    /// transfer/transferFrom/approve return no data
    pub no_ret: bool,
    /// failures return false instead of reverting
    pub soft: bool,
    /// approve non-zero over non-zero is refused
    pub usdt: bool,
    /// no decimals() function
    pub no_dec: bool,
    pub dec: u8,
}
pub const STD: TokCfg = TokCfg { no_ret: false, soft: false, usdt: false, no_dec: false, dec: 18 };

pub type Kv = (Address, u8, Address, Address);

/// What the scripted peers need from the world they live in.
pub trait Backend {
    fn kv(&self, k: Kv) -> U256;
    fn kv_set(&mut self, k: Kv, v: U256);
    fn take_plan(&mut self, at: Address, sel: [u8; 4], st: bool) -> Option<Plan>;
    fn trace(&mut self, t: Tr);
    fn call(&mut self, from: Address, to: Address, value: U256, data: &[u8], st: bool) -> Res;
    fn log(&mut self, l: Log);
}

fn sel_of(data: &[u8]) -> [u8; 4] {
    let mut s = [0u8; 4];
    if data.len() >= 4 {
        s.copy_from_slice(&data[..4]);
    }
    s
}
/// Standard ERC-20 queries: answered the same way however often and however they are called.
pub fn is_view(s: [u8; 4]) -> bool {
    ["balanceOf(address)", "allowance(address,address)", "totalSupply()", "decimals()", "ownerOf(uint256)"]
        .iter()
        .any(|f| selector(f) == s)
}
pub fn sel_key(data: &[u8]) -> [u8; 4] {
    sel_of(data)
}

fn run_acts<B: Backend>(b: &mut B, m: &Msg, acts: &[Act]) -> Result<(), E> {
    for a in acts {
        let st = a.st || m.st;
        let v = if st { U256::ZERO } else { a.value };
        let r = b.call(m.me, a.to, v, &a.op.data(), st);
        b.trace(Tr::Act { at: m.me, r: r.clone(), q: a.st });
        if let Err(e) = r {
            if a.bubble {
                return Err(e);
            }
        }
    }
    Ok(())
}

pub const ON721: Sig = "onERC721Received(address,address,uint256,bytes)";
pub const ON1155: Sig = "onERC1155Received(address,address,uint256,uint256,bytes)";
pub const ON1155B: Sig = "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)";
pub const ONFLASH: Sig = "onFlashLoan(address,address,uint256,uint256,bytes)";

pub fn magic4(s: Sig) -> Vec<u8> {
    let mut o = vec![0u8; 32];
    o[..4].copy_from_slice(&selector(s));
    o
}
pub fn flash_magic() -> Vec<u8> {
    keccak(b"ERC3156FlashBorrower.onFlashLoan").to_vec()
}

/// Scripted contract account.
pub fn stub_exec<B: Backend>(b: &mut B, m: &Msg, data: &[u8]) -> Res {
    let s = sel_of(data);
    let view = m.st || is_view(s);
    if !view {
        b.trace(Tr::Recv { at: m.me, from: m.from, value: m.value, data: data.to_vec() });
    }
    let plan = b.take_plan(m.me, s, view);
    if let Some(p) = plan {
        run_acts(b, m, &p.acts)?;
        match p.out {
            Out::Default => {}
            Out::Ret(d) | Out::NoMove(d) => return Ok(d),
            Out::Revert(d) => return failx(d),
            Out::Trap => return failx(vec![]),
        }
    }
    if data.is_empty() {
        return Ok(vec![]);
    }
    for k in [ON721, ON1155, ON1155B] {
        if s == selector(k) {
            return Ok(magic4(k));
        }
    }
    if s == selector(ONFLASH) {
        return Ok(flash_magic());
    }
    failx(vec![])
}

/// Scripted ERC-20 token ("standard token" unless flags or a plan say otherwise).
pub fn tok_exec<B: Backend>(b: &mut B, c: &TokCfg, m: &Msg, data: &[u8]) -> Res {
    let s = sel_of(data);
    let view = m.st || is_view(s);
    if !view {
        b.trace(Tr::Recv { at: m.me, from: m.from, value: m.value, data: data.to_vec() });
    }
    let plan = b.take_plan(m.me, s, view);
    let mut post: Option<Plan> = None;
    let mut over: Option<Vec<u8>> = None;
    if let Some(p) = plan {
        if p.post {
            post = Some(p.clone());
        } else {
            run_acts(b, m, &p.acts)?;
        }
        match p.out {
            Out::Default => {}
            Out::Ret(d) => over = Some(d),
            Out::NoMove(d) => {
                if let Some(p) = post {
                    run_acts(b, m, &p.acts)?;
                }
                return Ok(d);
            }
            Out::Revert(d) => return failx(d),
            Out::Trap => return failx(vec![]),
        }
    }
    if !m.value.is_zero() {
        return failx(vec![]);
    }
    let r = tok_default(b, c, m, data);
    let r = match r {
        Ok(d) => d,
        Err(e) => {
            if c.soft {
                return Ok(vec![0; 32]);
            }
            return Err(e);
        }
    };
    if let Some(p) = post {
        run_acts(b, m, &p.acts)?;
    }
    Ok(over.unwrap_or(r))
}
pub fn kbal(t: Address, x: Address) -> Kv {
    (t, 1, x, Address::ZERO)
}
pub fn kall(t: Address, o: Address, s: Address) -> Kv {
    (t, 2, o, s)
}
pub fn ksup(t: Address) -> Kv {
    (t, 3, Address::ZERO, Address::ZERO)
}
fn truth(c: &TokCfg) -> Vec<u8> {
    if c.no_ret {
        vec![]
    } else {
        let mut o = vec![0; 32];
        o[31] = 1;
        o
    }
}
fn tok_move<B: Backend>(b: &mut B, t: Address, f: Address, to: Address, v: U256) -> Result<(), E> {
    let fb = b.kv(kbal(t, f));
    if fb < v || to.is_zero() {
        return failx(vec![]);
    }
    b.kv_set(kbal(t, f), fb - v);
    let tb = b.kv(kbal(t, to));
    b.kv_set(kbal(t, to), tb + v);
    b.log(Log {
        at: t,
        topics: vec![sighash("Transfer(address,address,uint256)"), word(&a(f)), word(&a(to))],
        data: word(&n(v)).to_vec(),
    });
    Ok(())
}
fn tok_default<B: Backend>(b: &mut B, c: &TokCfg, m: &Msg, data: &[u8]) -> Res {
    let s = sel_of(data);
    let body = data.get(4..).unwrap_or(&[]);
    let t = m.me;
    let args = |sig: Sig| -> Option<Vec<V>> {
        if s == selector(sig) {
            dec(&types(sig), body)
        } else {
            None
        }
    };
    if let Some(x) = args("balanceOf(address)") {
        return Ok(word(&n(b.kv(kbal(t, x[0].addr())))).to_vec());
    }
    if let Some(x) = args("allowance(address,address)") {
        return Ok(word(&n(b.kv(kall(t, x[0].addr(), x[1].addr())))).to_vec());
    }
    if s == selector("totalSupply()") {
        return Ok(word(&n(b.kv(ksup(t)))).to_vec());
    }
    if s == selector("decimals()") && !c.no_dec {
        return Ok(word(&n(c.dec as u64)).to_vec());
    }
    if m.st {
        return failx(vec![]);
    }
    if let Some(x) = args("transfer(address,uint256)") {
        tok_move(b, t, m.from, x[0].addr(), x[1].n())?;
        return Ok(truth(c));
    }
    if let Some(x) = args("transferFrom(address,address,uint256)") {
        let (o, v) = (x[0].addr(), x[2].n());
        let al = b.kv(kall(t, o, m.from));
        if al < v {
            return failx(vec![]);
        }
        tok_move(b, t, o, x[1].addr(), v)?;
        if al != U256::MAX {
            b.kv_set(kall(t, o, m.from), al - v);
        }
        return Ok(truth(c));
    }
    if let Some(x) = args("approve(address,uint256)") {
        let (sp, v) = (x[0].addr(), x[1].n());
        let cur = b.kv(kall(t, m.from, sp));
        if c.usdt && !cur.is_zero() && !v.is_zero() {
            return failx(vec![]);
        }
        b.kv_set(kall(t, m.from, sp), v);
        b.log(Log {
            at: t,
            topics: vec![sighash("Approval(address,address,uint256)"), word(&a(m.from)), word(&a(sp))],
            data: word(&n(v)).to_vec(),
        });
        return Ok(truth(c));
    }
    if let Some(x) = args("mint(address,uint256)") {
        let sup = b.kv(ksup(t));
        let Some(ns) = sup.checked_add(x[1].n()) else { return failx(vec![]) };
        b.kv_set(ksup(t), ns);
        let tb = b.kv(kbal(t, x[0].addr()));
        b.kv_set(kbal(t, x[0].addr()), tb + x[1].n());
        return Ok(vec![]);
    }
    failx(vec![])
}

/// The ecrecover precompile, from k256.
pub fn ecrecover(data: &[u8]) -> Vec<u8> {
    use k256::ecdsa::{RecoveryId, Signature, VerifyingKey};
    let mut d = [0u8; 128];
    let k = data.len().min(128);
    d[..k].copy_from_slice(&data[..k]);
    if d[32..63].iter().any(|x| *x != 0) || (d[63] != 27 && d[63] != 28) {
        return vec![];
    }
    let Ok(sig) = Signature::from_slice(&d[64..128]) else { return vec![] };
    let mut rid = d[63] - 27;
    let sig = match sig.normalize_s() {
        Some(s) => {
            rid ^= 1;
            s
        }
        None => sig,
    };
    let Ok(vk) = VerifyingKey::recover_from_prehash(&d[..32], &sig, RecoveryId::from_byte(rid).unwrap()) else {
        return vec![];
    };
    let p = vk.to_encoded_point(false);
    let h = keccak(&p.as_bytes()[1..]);
    let mut o = vec![0u8; 32];
    o[12..].copy_from_slice(&h[12..]);
    o
}

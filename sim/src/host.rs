//! The simulated chain the contracts under test run on: it implements every Stylus host
//! call, journaled state, call frames, out-of-gas faults and scripted peers.
use crate::abi::*;
use crate::core::*;
use crate::rng::mix;
use alloy_primitives::{Address, U256};
use std::cell::Cell;
use std::collections::HashMap;

pub type B32 = [u8; 32];
pub type Entry = fn(Vec<u8>) -> Result<Vec<u8>, Vec<u8>>;

#[derive(Clone, Copy)]
pub enum Code {
    None,
    Contract { entry: Entry, reentrant: bool },
    Stub,
    Tok(TokCfg),
    Ec,
}

enum Undo {
    St((Address, B32), Option<B32>),
    Bal(Address, Option<U256>),
    Kv(Kv, Option<U256>),
    Plan(usize),
}

struct Frame {
    addr: Address,
    from: Address,
    value: U256,
    st: bool,
    real: bool,
    rdata: Vec<u8>,
    result: Vec<u8>,
    cache: HashMap<B32, (Option<B32>, B32), BuildIdent>,
    path: u64,
    occ: Vec<((Address, [u8; 4]), u32)>,
    jmp: *mut u64,
}

/// Fixed hasher: map iteration order never depends on process randomness.
#[derive(Clone, Default)]
pub struct BuildIdent;
impl std::hash::BuildHasher for BuildIdent {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(x)).wrapping_mul(0x517cc1b727220a95);
        }
    }
}
type FM<K, X> = HashMap<K, X, BuildIdent>;

#[derive(Clone, Default)]
pub struct Stats {
    pub c: std::collections::BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.c.entry(k).or_insert(0) += v;
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.c {
            self.add(k, *v);
        }
    }
}

pub struct World {
    pub storage: FM<(Address, B32), B32>,
    pub bal: FM<Address, U256>,
    pub kv: FM<Kv, U256>,
    pub code: FM<Address, Code>,
    undo: Vec<Undo>,
    pub logs: Vec<Log>,
    pub trace: Vec<Tr>,
    frames: Vec<Frame>,
    pub now: u64,
    pub number: u64,
    pub chain: u64,
    origin: Address,
    plans: Vec<(Plan, bool)>,
    pub ticks: u32,
    oog: Vec<u32>,
    pub kills: Vec<u64>,
    pub static_traps: u64,
    pub panics: u64,
    pub plan_hits: u64,
    pub reentries: u64,
    pub over_budget: bool,
}
/// Durable state only (what survives between transactions).
#[derive(Clone)]
pub struct Snap {
    storage: FM<(Address, B32), B32>,
    bal: FM<Address, U256>,
    kv: FM<Kv, U256>,
}

pub const BUDGET: u32 = 400_000;

thread_local! {
    static W: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
    pub static IN_CONTRACT: Cell<bool> = const { Cell::new(false) };
}

std::arch::global_asm!(
    ".global sim_try",
    "sim_try:",
    "push rbx",
    "push rbp",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "sub rsp, 8",
    "mov [rdx], rsp",
    "mov rax, rdi",
    "mov rdi, rsi",
    "call rax",
    "xor eax, eax",
    "2:",
    "add rsp, 8",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbp",
    "pop rbx",
    "ret",
    ".global sim_throw",
    "sim_throw:",
    "mov rsp, rdi",
    "mov eax, 1",
    "jmp 2b",
);
extern "C" {
    fn sim_try(f: extern "C" fn(*mut Job), arg: *mut Job, slot: *mut u64) -> u32;
    fn sim_throw(slot: u64) -> !;
}
struct Job {
    entry: Entry,
    data: Vec<u8>,
    out: Option<Result<Vec<u8>, Vec<u8>>>,
    panicked: bool,
}
extern "C" fn tramp(j: *mut Job) {
    unsafe {
        let e = (*j).entry;
        let d = std::mem::take(&mut (*j).data);
        match std::panic::catch_unwind(move || e(d)) {
            Ok(r) => (*j).out = Some(r),
            Err(_) => {
                (*j).panicked = true;
                (*j).out = Some(Err(vec![]));
            }
        }
    }
}

impl World {
    pub fn new() -> Self {
        World {
            storage: FM::default(),
            bal: FM::default(),
            kv: FM::default(),
            code: FM::default(),
            undo: vec![],
            logs: vec![],
            trace: vec![],
            frames: vec![],
            now: 1_700_000_000,
            number: 1_000,
            chain: 42161,
            origin: Address::ZERO,
            plans: vec![],
            ticks: 0,
            oog: vec![],
            kills: vec![],
            static_traps: 0,
            panics: 0,
            plan_hits: 0,
            reentries: 0,
            over_budget: false,
        }
    }
    pub fn snap(&self) -> Snap {
        Snap { storage: self.storage.clone(), bal: self.bal.clone(), kv: self.kv.clone() }
    }
    pub fn same(&self, s: &Snap) -> bool {
        fn eq<K: std::hash::Hash + Eq, V: PartialEq + Default>(x: &FM<K, V>, y: &FM<K, V>) -> bool {
            let z = V::default();
            x.iter().all(|(k, v)| y.get(k).unwrap_or(&z) == v) && y.iter().all(|(k, v)| x.get(k).unwrap_or(&z) == v)
        }
        eq(&self.storage, &s.storage) && eq(&self.bal, &s.bal) && eq(&self.kv, &s.kv)
    }
    /// storage words that differ from the snapshot
    pub fn changed(&self, s: &Snap) -> Vec<(Address, U256, U256)> {
        let z = B32::default();
        let mut v: Vec<_> = self
            .storage
            .iter()
            .filter(|(k, v)| s.storage.get(*k).unwrap_or(&z) != *v)
            .map(|(k, v)| (k.0, U256::from_be_bytes(k.1), U256::from_be_bytes(*v)))
            .collect();
        v.sort();
        v
    }
    pub fn restore(&mut self, s: &Snap) {
        self.storage = s.storage.clone();
        self.bal = s.bal.clone();
        self.kv = s.kv.clone();
    }
    pub fn sstore_raw(&mut self, at: Address, slot: U256, val: U256) {
        self.storage.insert((at, slot.to_be_bytes::<32>()), val.to_be_bytes::<32>());
    }
    fn code_of(&self, x: &Address) -> Code {
        self.code.get(x).copied().unwrap_or(Code::None)
    }
    fn set_bal(&mut self, x: Address, v: U256) {
        let old = self.bal.insert(x, v);
        self.undo.push(Undo::Bal(x, old));
    }
    fn sstore(&mut self, k: (Address, B32), v: B32) {
        let old = self.storage.insert(k, v);
        self.undo.push(Undo::St(k, old));
    }
    fn rollback(&mut self, to: usize) {
        while self.undo.len() > to {
            match self.undo.pop().unwrap() {
                Undo::St(k, o) => {
                    match o {
                        Some(v) => self.storage.insert(k, v),
                        None => self.storage.remove(&k),
                    };
                }
                Undo::Bal(k, o) => {
                    match o {
                        Some(v) => self.bal.insert(k, v),
                        None => self.bal.remove(&k),
                    };
                }
                Undo::Kv(k, o) => {
                    match o {
                        Some(v) => self.kv.insert(k, v),
                        None => self.kv.remove(&k),
                    };
                }
                Undo::Plan(i) => self.plans[i].1 = false,
            }
        }
    }

    /// Run a top-level call. `st`: as a read-only call.
    pub fn exec(&mut self, tx: &Tx, st: bool) -> Res {
        self.oog = tx.oog.clone();
        self.plans = tx.plans.iter().map(|p| (p.clone(), false)).collect();
        self.exec_data(tx.from, tx.to, tx.value, &tx.op.data(), st)
    }
    fn exec_data(&mut self, from: Address, to: Address, value: U256, data: &[u8], st: bool) -> Res {
        self.undo.clear();
        self.logs.clear();
        self.trace.clear();
        self.kills.clear();
        self.frames.clear();
        self.ticks = 0;
        self.over_budget = false;
        // a contract never starts a transaction: someone else did
        self.origin = match self.code_of(&from) {
            Code::None => from,
            _ => crate::engine::eoa(from.as_slice()[0] as usize % crate::engine::NKEYS),
        };
        let me: *mut World = self;
        W.with(|w| w.set(me));
        let r = call_frame(me, from, to, value, data, st);
        W.with(|w| w.set(std::ptr::null_mut()));
        if r.is_err() {
            self.logs.clear();
            self.trace.clear();
        }
        r
    }
    pub fn query(&mut self, from: Address, to: Address, o: &Op) -> Res {
        self.query_data(from, to, &o.data())
    }
    pub fn query_data(&mut self, from: Address, to: Address, data: &[u8]) -> Res {
        self.oog.clear();
        self.plans.clear();
        self.exec_data(from, to, U256::ZERO, data, true)
    }
}

fn call_frame(wp: *mut World, from: Address, to: Address, value: U256, data: &[u8], st: bool) -> Res {
    let w = unsafe { &mut *wp };
    let (u0, l0, t0) = (w.undo.len(), w.logs.len(), w.trace.len());
    if w.frames.len() > 24 {
        return failx(vec![]);
    }
    let s = sel_key(data);
    let path = match w.frames.last_mut() {
        None => 1,
        Some(f) => {
            let occ = match f.occ.iter_mut().find(|(k, _)| *k == (to, s)) {
                Some((_, c)) => {
                    *c += 1;
                    *c
                }
                None => {
                    f.occ.push(((to, s), 0));
                    0
                }
            };
            frame_path(f.path, to, s, occ)
        }
    };
    if !value.is_zero() {
        let fb = w.bal.get(&from).copied().unwrap_or_default();
        if fb < value || st {
            return failx(vec![]);
        }
        w.set_bal(from, fb - value);
        let tb = w.bal.get(&to).copied().unwrap_or_default();
        w.set_bal(to, tb + value);
    }
    let code = w.code_of(&to);
    let mut slot = 0u64;
    let real = matches!(code, Code::Contract { .. });
    let reentry = real && w.frames.iter().any(|f| f.real && f.addr == to);
    if reentry {
        w.reentries += 1;
    }
    w.frames.push(Frame {
        addr: to,
        from,
        value,
        st,
        real,
        rdata: vec![],
        result: vec![],
        cache: HashMap::default(),
        path,
        occ: vec![],
        jmp: &mut slot,
    });
    let depth = w.frames.len();
    let m = Msg { me: to, from, value, st };
    let r: Res = match code {
        Code::None => Ok(vec![]),
        Code::Ec => {
            let p = w.take_plan(to, [0; 4], st);
            match p.map(|p| p.out) {
                Some(Out::Revert(d)) => failx(d),
                Some(Out::Trap) => failx(vec![]),
                Some(Out::Ret(d)) | Some(Out::NoMove(d)) => Ok(d),
                _ => Ok(ecrecover(data)),
            }
        }
        Code::Stub => stub_exec(w, &m, data),
        Code::Tok(c) => tok_exec(w, &c, &m, data),
        Code::Contract { entry, reentrant } => {
            if reentry && !reentrant {
                failx(vec![])
            } else {
                let mut j = Job { entry, data: data.to_vec(), out: None, panicked: false };
                let was = IN_CONTRACT.with(|c| c.replace(true));
                let k = unsafe { sim_try(tramp, &mut j, &mut slot) };
                IN_CONTRACT.with(|c| c.set(was));
                let w = unsafe { &mut *wp };
                if j.panicked {
                    w.panics += 1;
                }
                w.frames.truncate(depth);
                if k != 0 {
                    std::mem::forget(j);
                    failx(vec![])
                } else {
                    match j.out {
                        Some(Ok(d)) => Ok(d),
                        Some(Err(d)) => failx(d),
                        None => failx(vec![]),
                    }
                }
            }
        }
    };
    let w = unsafe { &mut *wp };
    w.frames.truncate(depth);
    w.frames.pop();
    if r.is_err() {
        w.rollback(u0);
        w.logs.truncate(l0);
        w.trace.truncate(t0);
    }
    r
}
pub fn frame_path(parent: u64, to: Address, s: [u8; 4], occ: u32) -> u64 {
    let mut h = parent;
    for c in to.as_slice().chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(x));
    }
    mix(h ^ ((u32::from_le_bytes(s) as u64) << 32) ^ occ as u64)
}

impl Backend for World {
    fn kv(&self, k: Kv) -> U256 {
        self.kv.get(&k).copied().unwrap_or_default()
    }
    fn kv_set(&mut self, k: Kv, v: U256) {
        let old = self.kv.insert(k, v);
        self.undo.push(Undo::Kv(k, old));
    }
    fn take_plan(&mut self, at: Address, sel: [u8; 4], st: bool) -> Option<Plan> {
        let i = self.plans.iter().position(|(p, used)| !used && p.at == at && p.sel == sel)?;
        self.plan_hits += 1;
        if !st {
            self.plans[i].1 = true;
            self.undo.push(Undo::Plan(i));
        }
        Some(self.plans[i].0.clone())
    }
    fn trace(&mut self, t: Tr) {
        self.trace.push(t);
    }
    fn call(&mut self, from: Address, to: Address, value: U256, data: &[u8], st: bool) -> Res {
        call_frame(self, from, to, value, data, st)
    }
    fn log(&mut self, l: Log) {
        self.logs.push(l);
    }
}

// ---------------------------------------------------------------- host calls

fn w() -> *mut World {
    W.with(|w| w.get())
}
fn die(w: *mut World) -> ! {
    unsafe {
        let f = (*w).frames.last().unwrap();
        sim_throw(*f.jmp)
    }
}
/// Counts a host call; the scheduled one kills the running frame.
fn tick() -> *mut World {
    let p = w();
    if p.is_null() {
        panic!("host call outside a simulated frame");
    }
    unsafe {
        let t = (*p).ticks;
        (*p).ticks = t + 1;
        if t >= BUDGET {
            (*p).over_budget = true;
        }
        if t >= BUDGET || (!(*p).oog.is_empty() && (*p).oog.contains(&t)) {
            let path = (&(*p).frames).last().unwrap().path;
            (&mut (*p).kills).push(path);
            die(p);
        }
    }
    p
}
fn top(p: *mut World) -> &'static mut Frame {
    unsafe { (&mut (*p).frames).last_mut().unwrap() }
}
unsafe fn rd<const N: usize>(p: *const u8) -> [u8; N] {
    let mut o = [0u8; N];
    std::ptr::copy_nonoverlapping(p, o.as_mut_ptr(), N);
    o
}
unsafe fn wr(p: *mut u8, b: &[u8]) {
    std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
}
pub const EMPTY_CODE: [u8; 32] = [
    0xc5, 0xd2, 0x46, 0x01, 0x86, 0xf7, 0x23, 0x3c, 0x92, 0x7e, 0x7d, 0xb2, 0xdc, 0xc7, 0x03, 0xc0, 0xe5, 0x00, 0xb6,
    0x53, 0xca, 0x82, 0x27, 0x3b, 0x7b, 0xfa, 0xd8, 0x04, 0x5d, 0x85, 0xa4, 0x70,
];

#[no_mangle]
unsafe extern "C" fn account_balance(addr: *const u8, dest: *mut u8) {
    let p = tick();
    let b = (&(*p).bal).get(&Address::from(rd::<20>(addr))).copied().unwrap_or_default();
    wr(dest, &b.to_be_bytes::<32>());
}
#[no_mangle]
unsafe extern "C" fn account_code(addr: *const u8, off: usize, size: usize, dest: *mut u8) -> usize {
    let p = tick();
    let has = !matches!((*p).code_of(&Address::from(rd::<20>(addr))), Code::None | Code::Ec);
    if has && off == 0 && size > 0 {
        *dest = 0xfe;
        1
    } else {
        0
    }
}
#[no_mangle]
unsafe extern "C" fn account_code_size(addr: *const u8) -> usize {
    let p = tick();
    !matches!((*p).code_of(&Address::from(rd::<20>(addr))), Code::None | Code::Ec) as usize
}
#[no_mangle]
unsafe extern "C" fn account_codehash(addr: *const u8, dest: *mut u8) {
    let p = tick();
    let a = Address::from(rd::<20>(addr));
    match (*p).code_of(&a) {
        Code::None | Code::Ec => {
            // an account that exists without code has the empty hash, a missing one has zero
            if (&(*p).bal).get(&a).map(|b| !b.is_zero()).unwrap_or(false) {
                wr(dest, &EMPTY_CODE)
            } else {
                wr(dest, &[0; 32])
            }
        }
        _ => wr(dest, &[0xAB; 32]),
    }
}
#[no_mangle]
unsafe extern "C" fn storage_load_bytes32(key: *const u8, dest: *mut u8) {
    let p = tick();
    let k = rd::<32>(key);
    let f = top(p);
    if let Some((_, v)) = f.cache.get(&k) {
        wr(dest, v);
        return;
    }
    let v = (&(*p).storage).get(&(f.addr, k)).copied().unwrap_or_default();
    f.cache.insert(k, (Some(v), v));
    wr(dest, &v);
}
#[no_mangle]
unsafe extern "C" fn storage_cache_bytes32(key: *const u8, value: *const u8) {
    let p = tick();
    let (k, v) = (rd::<32>(key), rd::<32>(value));
    let f = top(p);
    match f.cache.get_mut(&k) {
        Some(e) => e.1 = v,
        None => {
            f.cache.insert(k, (None, v));
        }
    }
}
#[no_mangle]
unsafe extern "C" fn storage_flush_cache(clear: bool) {
    let p = tick();
    let f = top(p);
    let mut dirty: Vec<(B32, B32)> = vec![];
    for (k, e) in f.cache.iter_mut() {
        if e.0 != Some(e.1) {
            dirty.push((*k, e.1));
            e.0 = Some(e.1);
        }
    }
    if clear {
        f.cache.clear();
    }
    if !dirty.is_empty() {
        if f.st {
            (*p).static_traps += 1;
            drop(dirty);
            die(p);
        }
        dirty.sort();
        for (k, v) in dirty {
            (*p).sstore((f.addr, k), v);
        }
    }
}
#[no_mangle]
unsafe extern "C" fn block_basefee(d: *mut u8) {
    tick();
    wr(d, &U256::from(100_000_000u64).to_be_bytes::<32>());
}
#[no_mangle]
unsafe extern "C" fn chainid() -> u64 {
    (*tick()).chain
}
#[no_mangle]
unsafe extern "C" fn block_coinbase(d: *mut u8) {
    tick();
    wr(d, &[0xC0; 20]);
}
#[no_mangle]
unsafe extern "C" fn block_gas_limit() -> u64 {
    tick();
    1 << 50
}
#[no_mangle]
unsafe extern "C" fn block_number() -> u64 {
    (*tick()).number
}
#[no_mangle]
unsafe extern "C" fn block_timestamp() -> u64 {
    (*tick()).now
}
unsafe fn do_call(contract: *const u8, cd: *const u8, len: usize, value: U256, st: bool, ret_len: *mut usize) -> u8 {
    let p = tick();
    let to = Address::from(rd::<20>(contract));
    let data = std::slice::from_raw_parts(cd, len).to_vec();
    let (from, fst) = {
        let f = top(p);
        (f.addr, f.st)
    };
    let r = call_frame(p, from, to, value, &data, st || fst);
    drop(data);
    let (ok, out) = match r {
        Ok(d) => (0u8, d),
        Err(E::X(mut v)) => (1u8, v.pop().unwrap_or_default()),
        Err(E::Any) => (1u8, vec![]),
    };
    *ret_len = out.len();
    top(p).rdata = out;
    ok
}
#[no_mangle]
unsafe extern "C" fn call_contract(
    contract: *const u8,
    cd: *const u8,
    len: usize,
    value: *const u8,
    _gas: u64,
    ret_len: *mut usize,
) -> u8 {
    do_call(contract, cd, len, U256::from_be_bytes(rd::<32>(value)), false, ret_len)
}
#[no_mangle]
unsafe extern "C" fn static_call_contract(
    contract: *const u8,
    cd: *const u8,
    len: usize,
    _gas: u64,
    ret_len: *mut usize,
) -> u8 {
    do_call(contract, cd, len, U256::ZERO, true, ret_len)
}
#[no_mangle]
unsafe extern "C" fn delegate_call_contract(
    _c: *const u8,
    _d: *const u8,
    _l: usize,
    _gas: u64,
    ret_len: *mut usize,
) -> u8 {
    let p = tick();
    top(p).rdata = vec![];
    *ret_len = 0;
    1
}
#[no_mangle]
unsafe extern "C" fn contract_address(d: *mut u8) {
    let p = tick();
    wr(d, top(p).addr.as_slice());
}
#[no_mangle]
unsafe extern "C" fn create1(_c: *const u8, _l: usize, _e: *const u8, contract: *mut u8, rl: *mut usize) {
    tick();
    wr(contract, &[0; 20]);
    *rl = 0;
}
#[no_mangle]
unsafe extern "C" fn create2(_c: *const u8, _l: usize, _e: *const u8, _s: *const u8, contract: *mut u8, rl: *mut usize) {
    tick();
    wr(contract, &[0; 20]);
    *rl = 0;
}
#[no_mangle]
unsafe extern "C" fn emit_log(data: *const u8, len: usize, topics: usize) {
    let p = tick();
    let f = top(p);
    if f.st {
        (*p).static_traps += 1;
        die(p);
    }
    let d = std::slice::from_raw_parts(data, len);
    let ts = (0..topics)
        .map(|i| {
            let mut o = [0u8; 32];
            o.copy_from_slice(&d[i * 32..i * 32 + 32]);
            o
        })
        .collect();
    (&mut (*p).logs).push(Log { at: f.addr, topics: ts, data: d[topics * 32..].to_vec() });
}
#[no_mangle]
unsafe extern "C" fn evm_gas_left() -> u64 {
    tick();
    1 << 40
}
#[no_mangle]
unsafe extern "C" fn evm_ink_left() -> u64 {
    tick();
    1 << 50
}
#[no_mangle]
unsafe extern "C" fn pay_for_memory_grow(_p: u16) {
    if !w().is_null() {
        tick();
    }
}
#[no_mangle]
unsafe extern "C" fn msg_reentrant() -> bool {
    let p = tick();
    let fs = &(*p).frames;
    let me = fs.last().unwrap().addr;
    fs[..fs.len() - 1].iter().any(|f| f.addr == me)
}
#[no_mangle]
unsafe extern "C" fn msg_sender(d: *mut u8) {
    let p = tick();
    wr(d, top(p).from.as_slice());
}
#[no_mangle]
unsafe extern "C" fn msg_value(d: *mut u8) {
    let p = tick();
    wr(d, &top(p).value.to_be_bytes::<32>());
}
#[no_mangle]
unsafe extern "C" fn native_keccak256(b: *const u8, len: usize, out: *mut u8) {
    // not a fault point: hashing alone changes nothing
    wr(out, &keccak(std::slice::from_raw_parts(b, len)));
}
#[no_mangle]
unsafe extern "C" fn read_args(_d: *mut u8) {
    tick();
}
#[no_mangle]
unsafe extern "C" fn read_return_data(dest: *mut u8, off: usize, size: usize) -> usize {
    let p = tick();
    let r = &top(p).rdata;
    let e = off.saturating_add(size).min(r.len());
    if off >= e {
        return 0;
    }
    wr(dest, &r[off..e]);
    e - off
}
#[no_mangle]
unsafe extern "C" fn write_result(d: *const u8, len: usize) {
    let p = tick();
    top(p).result = std::slice::from_raw_parts(d, len).to_vec();
}
#[no_mangle]
unsafe extern "C" fn return_data_size() -> usize {
    let p = tick();
    top(p).rdata.len()
}
#[no_mangle]
unsafe extern "C" fn tx_gas_price(d: *mut u8) {
    tick();
    wr(d, &U256::from(100_000_000u64).to_be_bytes::<32>());
}
#[no_mangle]
unsafe extern "C" fn tx_ink_price() -> u32 {
    tick();
    10_000
}
#[no_mangle]
unsafe extern "C" fn tx_origin(d: *mut u8) {
    let p = tick();
    wr(d, (*p).origin.as_slice());
}
#[no_mangle]
extern "C" fn log_f32(_v: f32) {}
#[no_mangle]
extern "C" fn log_f64(_v: f64) {}
#[no_mangle]
extern "C" fn log_i32(_v: i32) {}
#[no_mangle]
extern "C" fn log_i64(_v: i64) {}
#[no_mangle]
extern "C" fn log_txt(_t: *const u8, _l: usize) {}

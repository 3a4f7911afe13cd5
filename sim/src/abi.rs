//! Values, calls and an ABI encoder that is independent of the code under test.
use alloy_primitives::{Address, U256};
use std::cell::RefCell;
use std::collections::HashMap;
use tiny_keccak::{Hasher, Keccak};

/// Dynamic call argument.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    A(Address),
    N(U256),
    B(Vec<u8>),
    L(Vec<V>),
}
pub type Sig = &'static str;

/// A call: Solidity signature and arguments.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
    pub f: Sig,
    pub a: Vec<V>,
}

pub fn keccak(d: &[u8]) -> [u8; 32] {
    if d.len() != 64 {
        return keccak_raw(d);
    }
    // storage-slot hashing repeats the same inputs over and over
    let mut x = [0u8; 64];
    x.copy_from_slice(d);
    let mut h = 0u64;
    for c in x.chunks(8) {
        h = (h.rotate_left(23) ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9e3779b97f4a7c15);
    }
    let i = (h >> 50) as usize;
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if m.is_empty() {
            m.resize(1 << 14, ([0; 64], None));
        }
        let e = &mut m[i];
        match e {
            (k, Some(v)) if *k == x => *v,
            _ => {
                let v = keccak_raw(d);
                *e = (x, Some(v));
                v
            }
        }
    })
}
fn keccak_raw(d: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    let mut k = Keccak::v256();
    k.update(d);
    k.finalize(&mut o);
    o
}

thread_local! {
    static MEMO: RefCell<Vec<([u8; 64], Option<[u8; 32]>)>> = const { RefCell::new(vec![]) };
    static SEL: RefCell<HashMap<(usize, usize), [u8; 32]>> = RefCell::new(HashMap::new());
}
/// keccak of a static signature string (memoised).
pub fn sighash(s: Sig) -> [u8; 32] {
    SEL.with(|m| *m.borrow_mut().entry((s.as_ptr() as usize, s.len())).or_insert_with(|| keccak(s.as_bytes())))
}
pub fn selector(s: Sig) -> [u8; 4] {
    let h = sighash(s);
    [h[0], h[1], h[2], h[3]]
}
/// Argument types of a signature.
pub fn types(s: &str) -> Vec<&str> {
    let i = s.find('(').unwrap();
    let inner = &s[i + 1..s.len() - 1];
    if inner.is_empty() {
        vec![]
    } else {
        inner.split(',').collect()
    }
}

impl V {
    pub fn addr(&self) -> Address {
        match self {
            V::A(a) => *a,
            _ => Address::ZERO,
        }
    }
    pub fn n(&self) -> U256 {
        match self {
            V::N(n) => *n,
            _ => U256::ZERO,
        }
    }
    pub fn b(&self) -> &[u8] {
        match self {
            V::B(b) => b,
            _ => &[],
        }
    }
    pub fn l(&self) -> &[V] {
        match self {
            V::L(l) => l,
            _ => &[],
        }
    }
    pub fn ns(&self) -> Vec<U256> {
        self.l().iter().map(|v| v.n()).collect()
    }
    pub fn addrs(&self) -> Vec<Address> {
        self.l().iter().map(|v| v.addr()).collect()
    }
    pub fn bool(&self) -> bool {
        !self.n().is_zero()
    }
    pub fn str(&self) -> String {
        String::from_utf8_lossy(self.b()).to_string()
    }
    /// bytes32 value
    pub fn w(&self) -> [u8; 32] {
        word(self)
    }
}
pub fn a(x: Address) -> V {
    V::A(x)
}
pub fn n<T>(x: T) -> V
where
    U256: ruint_from::UF<T>,
{
    V::N(<U256 as ruint_from::UF<T>>::uf(x))
}
pub mod ruint_from {
    use alloy_primitives::U256;
    pub trait UF<T> {
        fn uf(t: T) -> U256;
    }
    impl UF<U256> for U256 {
        fn uf(t: U256) -> U256 {
            t
        }
    }
    impl UF<u64> for U256 {
        fn uf(t: u64) -> U256 {
            U256::from(t)
        }
    }
    impl UF<bool> for U256 {
        fn uf(t: bool) -> U256 {
            U256::from(t as u64)
        }
    }
}
pub fn by(x: &[u8]) -> V {
    V::B(x.to_vec())
}
pub fn ln(x: &[U256]) -> V {
    V::L(x.iter().map(|v| V::N(*v)).collect())
}

/// Static value to a 32-byte word. `B` is left aligned (bytesN).
pub fn word(v: &V) -> [u8; 32] {
    match v {
        V::A(x) => {
            let mut o = [0u8; 32];
            o[12..].copy_from_slice(x.as_slice());
            o
        }
        V::N(x) => x.to_be_bytes::<32>(),
        V::B(b) => {
            let mut o = [0u8; 32];
            let k = b.len().min(32);
            o[..k].copy_from_slice(&b[..k]);
            o
        }
        V::L(_) => panic!("list as word"),
    }
}
fn is_dyn(t: &str) -> bool {
    t == "bytes" || t == "string" || t.ends_with("[]")
}
fn enc_one(t: &str, v: &V, out: &mut Vec<u8>) {
    if let Some(e) = t.strip_suffix("[]") {
        let l = v.l();
        out.extend_from_slice(&U256::from(l.len()).to_be_bytes::<32>());
        let ts: Vec<&str> = l.iter().map(|_| e).collect();
        enc_types(&ts, l, out);
    } else if t == "bytes" || t == "string" {
        let b = v.b();
        out.extend_from_slice(&U256::from(b.len()).to_be_bytes::<32>());
        out.extend_from_slice(b);
        while out.len() % 32 != 0 {
            out.push(0);
        }
    } else {
        out.extend_from_slice(&word(v));
    }
}
fn enc_types(ts: &[&str], vs: &[V], out: &mut Vec<u8>) {
    let mut head: Vec<u8> = vec![];
    let mut tail: Vec<u8> = vec![];
    let hl = ts.len() * 32;
    for (t, v) in ts.iter().zip(vs) {
        if is_dyn(t) {
            head.extend_from_slice(&U256::from(hl + tail.len()).to_be_bytes::<32>());
            let mut x = vec![];
            enc_one(t, v, &mut x);
            tail.extend_from_slice(&x);
        } else {
            head.extend_from_slice(&word(v));
        }
    }
    out.extend_from_slice(&head);
    out.extend_from_slice(&tail);
}
/// Encode parameters for comma separated types.
pub fn enc(ts: &str, vs: &[V]) -> Vec<u8> {
    let mut o = vec![];
    let t: Vec<&str> = if ts.is_empty() { vec![] } else { ts.split(',').collect() };
    enc_types(&t, vs, &mut o);
    o
}
/// Selector + parameters (calls and errors).
pub fn encf(s: Sig, vs: &[V]) -> Vec<u8> {
    let mut o = selector(s).to_vec();
    enc_types(&types(s), vs, &mut o);
    o
}
impl Op {
    pub fn data(&self) -> Vec<u8> {
        if self.f.is_empty() {
            return self.a.first().map(|v| v.b().to_vec()).unwrap_or_default();
        }
        encf(self.f, &self.a)
    }
}
pub fn op(f: Sig, a: Vec<V>) -> Op {
    Op { f, a }
}

/// Strict-enough decoder for the calls stub contracts receive (types given by signature).
pub fn dec(ts: &[&str], d: &[u8]) -> Option<Vec<V>> {
    let mut o = vec![];
    for (i, t) in ts.iter().enumerate() {
        let w = d.get(i * 32..i * 32 + 32)?;
        if is_dyn(t) {
            let off = U256::from_be_slice(w);
            if off > U256::from(1u64 << 30) {
                return None;
            }
            let off = off.to::<usize>();
            let len = U256::from_be_slice(d.get(off..off + 32)?);
            if len > U256::from(1u64 << 30) {
                return None;
            }
            let len = len.to::<usize>();
            let body = &d[off + 32..];
            if let Some(e) = t.strip_suffix("[]") {
                let ets: Vec<&str> = (0..len).map(|_| e).collect();
                o.push(V::L(dec(&ets, body)?));
            } else {
                o.push(V::B(body.get(..len)?.to_vec()));
            }
        } else if *t == "address" {
            o.push(V::A(Address::from_slice(&w[12..])));
        } else if t.starts_with("bytes") {
            let k: usize = t[5..].parse().ok()?;
            o.push(V::B(w[..k].to_vec()));
        } else {
            o.push(V::N(U256::from_be_slice(w)));
        }
    }
    Some(o)
}

//! An off-chain observer: folds the logs of successful transactions into the state they
//! announce, without looking at calls, storage or the reference model.
use crate::abi::*;
use crate::core::*;
use crate::rng::mix;
use alloy_primitives::{Address, U256};
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum T {
    Bal,
    Sup,
    Owner721,
    App721,
    Oper,
    Bal1155,
    Sup1155,
    Owner,
    Pending,
    Role,
    Admin,
    Paused,
    Released,
    Allow,
    Shares,
    Uri,
}
type K = (Address, T, U256, U256);
#[derive(Clone, Default)]
pub struct Index {
    m: BTreeMap<K, U256>,
    /// batches: contract, first, last, owner
    ranges: Vec<(Address, U256, U256, U256)>,
}
struct Sigs {
    transfer: [u8; 32],
    approval: [u8; 32],
    forall: [u8; 32],
    single: [u8; 32],
    batch: [u8; 32],
    cons: [u8; 32],
    moved: [u8; 32],
    offer: [u8; 32],
    granted: [u8; 32],
    revoked: [u8; 32],
    admin: [u8; 32],
    paused: [u8; 32],
    unpaused: [u8; 32],
    eth: [u8; 32],
    tok: [u8; 32],
    deposit: [u8; 32],
    withdraw: [u8; 32],
    meta: [u8; 32],
}
fn sigs() -> &'static Sigs {
    static S: OnceLock<Sigs> = OnceLock::new();
    S.get_or_init(|| Sigs {
        transfer: sighash("Transfer(address,address,uint256)"),
        approval: sighash("Approval(address,address,uint256)"),
        forall: sighash("ApprovalForAll(address,address,bool)"),
        single: sighash("TransferSingle(address,address,address,uint256,uint256)"),
        batch: sighash("TransferBatch(address,address,address,uint256[],uint256[])"),
        cons: sighash("ConsecutiveTransfer(uint256,uint256,address,address)"),
        moved: sighash("OwnershipTransferred(address,address)"),
        offer: sighash("OwnershipTransferStarted(address,address)"),
        granted: sighash("RoleGranted(bytes32,address,address)"),
        revoked: sighash("RoleRevoked(bytes32,address,address)"),
        admin: sighash("RoleAdminChanged(bytes32,bytes32,bytes32)"),
        paused: sighash("Paused(address)"),
        unpaused: sighash("Unpaused(address)"),
        eth: sighash("EtherReleased(uint256)"),
        tok: sighash("ERC20Released(address,uint256)"),
        deposit: sighash("Deposit(address,address,uint256,uint256)"),
        withdraw: sighash("Withdraw(address,address,address,uint256,uint256)"),
        meta: sighash("MetadataUpdate(uint256)"),
    })
}
const Z: U256 = U256::ZERO;
fn w(d: &[u8], i: usize) -> U256 {
    d.get(32 * i..32 * i + 32).map(U256::from_be_slice).unwrap_or_default()
}
fn key(v: &V) -> U256 {
    U256::from_be_bytes(word(v))
}
/// What the record says about a query.
pub enum Says {
    Is(U256),
    AtMost(U256),
    Fails,
    /// the answer announced (or first seen) since the last log about it
    Same(bool),
}
impl Index {
    fn get(&self, k: K) -> U256 {
        self.m.get(&k).copied().unwrap_or_default()
    }
    fn put(&mut self, k: K, v: U256) {
        self.m.insert(k, v);
    }
    fn add(&mut self, k: K, v: U256) {
        let x = self.get(k).wrapping_add(v);
        self.m.insert(k, x);
    }
    fn sub(&mut self, k: K, v: U256) {
        let x = self.get(k).wrapping_sub(v);
        self.m.insert(k, x);
    }
    fn owner(&self, at: Address, id: U256) -> U256 {
        if let Some(x) = self.m.get(&(at, T::Owner721, id, Z)) {
            return *x;
        }
        self.ranges.iter().rev().find(|r| r.0 == at && r.1 <= id && id <= r.2).map(|r| r.3).unwrap_or_default()
    }
    /// Read one log.
    pub fn log(&mut self, l: &Log) {
        let s = sigs();
        let at = l.at;
        let t = |i: usize| l.topics.get(i).map(|x| U256::from_be_bytes(*x)).unwrap_or_default();
        let Some(sig) = l.topics.first() else { return };
        let one = U256::from(1);
        if *sig == s.transfer && l.topics.len() == 4 {
            let (from, to, id) = (t(1), t(2), t(3));
            if !from.is_zero() {
                self.sub((at, T::Bal, from, Z), one);
                self.sub((at, T::Sup, Z, Z), one);
            }
            if !to.is_zero() {
                self.add((at, T::Bal, to, Z), one);
                self.add((at, T::Sup, Z, Z), one);
            }
            self.put((at, T::Owner721, id, Z), to);
            self.m.remove(&(at, T::App721, id, Z));
            self.m.remove(&(at, T::Uri, id, Z));
        } else if *sig == s.transfer {
            let (from, to, v) = (t(1), t(2), w(&l.data, 0));
            if from.is_zero() {
                self.add((at, T::Sup, Z, Z), v);
            } else {
                self.sub((at, T::Bal, from, Z), v);
            }
            if to.is_zero() {
                self.sub((at, T::Sup, Z, Z), v);
            } else {
                self.add((at, T::Bal, to, Z), v);
            }
        } else if *sig == s.approval && l.topics.len() == 4 {
            self.put((at, T::App721, t(3), Z), t(2));
        } else if *sig == s.approval {
            self.put((at, T::Allow, t(1), t(2)), w(&l.data, 0));
        } else if *sig == s.forall {
            self.put((at, T::Oper, t(1), t(2)), w(&l.data, 0));
        } else if *sig == s.single {
            self.moved(at, t(2), t(3), w(&l.data, 0), w(&l.data, 1));
        } else if *sig == s.batch {
            let list = |i: usize| -> Vec<U256> {
                let o = w(&l.data, i).saturating_to::<usize>() / 32;
                let n = w(&l.data, o).saturating_to::<usize>().min(l.data.len() / 32);
                (0..n).map(|k| w(&l.data, o + 1 + k)).collect()
            };
            for (id, v) in list(0).into_iter().zip(list(1)) {
                self.moved(at, t(2), t(3), id, v);
            }
        } else if *sig == s.cons {
            // (first id, last id in data, from, to)
            let (lo, hi, to) = (t(1), w(&l.data, 0), t(3));
            self.m.retain(|k, _| !((k.1 == T::Owner721 || k.1 == T::App721) && k.0 == at && k.2 >= lo && k.2 <= hi));
            self.ranges.push((at, lo, hi, to));
            let n = hi.wrapping_sub(lo).wrapping_add(one);
            self.add((at, T::Bal, to, Z), n);
            self.add((at, T::Sup, Z, Z), n);
        } else if *sig == s.moved {
            self.put((at, T::Owner, Z, Z), t(2));
            self.put((at, T::Pending, Z, Z), Z);
        } else if *sig == s.offer {
            self.put((at, T::Pending, Z, Z), t(2));
        } else if *sig == s.granted {
            self.put((at, T::Role, t(1), t(2)), one);
        } else if *sig == s.revoked {
            self.put((at, T::Role, t(1), t(2)), Z);
        } else if *sig == s.admin {
            self.put((at, T::Admin, t(1), Z), t(3));
        } else if *sig == s.paused {
            self.put((at, T::Paused, Z, Z), one);
        } else if *sig == s.unpaused {
            self.put((at, T::Paused, Z, Z), Z);
        } else if *sig == s.eth {
            self.add((at, T::Released, Z, Z), w(&l.data, 0));
        } else if *sig == s.tok {
            self.add((at, T::Released, t(1), one), w(&l.data, 0));
        } else if *sig == s.deposit {
            self.add((at, T::Shares, Z, Z), w(&l.data, 1));
        } else if *sig == s.withdraw {
            self.sub((at, T::Shares, Z, Z), w(&l.data, 1));
        } else if *sig == s.meta {
            self.m.remove(&(at, T::Uri, w(&l.data, 0), Z));
        }
    }
    fn moved(&mut self, at: Address, from: U256, to: U256, id: U256, v: U256) {
        if from.is_zero() {
            self.add((at, T::Sup1155, id, Z), v);
            self.add((at, T::Sup, Z, Z), v);
        } else {
            self.sub((at, T::Bal1155, from, id), v);
        }
        if to.is_zero() {
            self.sub((at, T::Sup1155, id, Z), v);
            self.sub((at, T::Sup, Z, Z), v);
        } else {
            self.add((at, T::Bal1155, to, id), v);
        }
    }
    fn slot(q: &Op, at: Address) -> Option<K> {
        let k = |i: usize| key(&q.a[i]);
        Some(match q.f {
            "balanceOf(address)" => (at, T::Bal, k(0), Z),
            "totalSupply()" => (at, T::Sup, Z, Z),
            "isApprovedForAll(address,address)" => (at, T::Oper, k(0), k(1)),
            "balanceOf(address,uint256)" => (at, T::Bal1155, k(0), k(1)),
            "totalSupply(uint256)" => (at, T::Sup1155, k(0), Z),
            "owner()" => (at, T::Owner, Z, Z),
            "pendingOwner()" => (at, T::Pending, Z, Z),
            "hasRole(bytes32,address)" => (at, T::Role, k(0), k(1)),
            "getRoleAdmin(bytes32)" => (at, T::Admin, k(0), Z),
            "paused()" => (at, T::Paused, Z, Z),
            "released()" => (at, T::Released, Z, Z),
            "released(address)" => (at, T::Released, k(0), U256::from(1)),
            "allowance(address,address)" => (at, T::Allow, k(0), k(1)),
            _ => return None,
        })
    }
    /// The state the observer starts from.
    pub fn start(&mut self, at: Address, q: &Op, r: &Res) {
        let Ok(d) = r else { return };
        if let Some(k) = Self::slot(q, at) {
            self.put(k, w(d, 0));
        }
        if q.f == "totalSupply()" {
            self.put((at, T::Shares, Z, Z), w(d, 0));
        }
        if q.f == "ownerOf(uint256)" {
            self.put((at, T::Owner721, key(&q.a[0]), Z), w(d, 0));
        }
        if q.f == "getApproved(uint256)" {
            self.put((at, T::App721, key(&q.a[0]), Z), w(d, 0));
        }
    }
    /// What the record says about this query (and remember text answers until announced anew).
    pub fn says(&mut self, at: Address, q: &Op, r: &Res) -> Option<Says> {
        match q.f {
            "ownerOf(uint256)" => {
                let o = self.owner(at, key(&q.a[0]));
                return Some(if o.is_zero() { Says::Fails } else { Says::Is(o) });
            }
            "getApproved(uint256)" => {
                let id = key(&q.a[0]);
                if self.owner(at, id).is_zero() {
                    return Some(Says::Fails);
                }
                return Some(Says::Is(self.get((at, T::App721, id, Z))));
            }
            "tokenURI(uint256)" => {
                let mut h = 1u64;
                if let Ok(d) = r {
                    for c in d {
                        h = mix(h ^ *c as u64);
                    }
                }
                let k = (at, T::Uri, key(&q.a[0]), Z);
                let same = self.m.get(&k).map(|x| *x == U256::from(h)).unwrap_or(true);
                self.put(k, U256::from(h));
                return Some(Says::Same(same));
            }
            _ => {}
        }
        let k = Self::slot(q, at)?;
        let v = self.get(k);
        Some(if k.1 == T::Allow { Says::AtMost(v) } else { Says::Is(v) })
    }
    /// Shares a vault announced as issued and not yet returned.
    pub fn shares(&self, at: Address) -> U256 {
        self.get((at, T::Shares, Z, Z))
    }
}

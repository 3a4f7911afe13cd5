//! Reference model of the Merkle distributor.
use super::access::own;
use super::fungible::{e20, mint};
use crate::abi::*;
use crate::core::*;
use crate::model::*;
use alloy_primitives::{Address, U256};
use std::collections::VecDeque;

pub type W = [u8; 32];
/// Hash of a pair of siblings, in either order.
pub fn pair(x: W, y: W, tag: bool) -> W {
    let mut d = if tag { vec![7u8] } else { vec![] };
    d.extend_from_slice(&x.min(y));
    d.extend_from_slice(&x.max(y));
    keccak(&d)
}
pub fn leaf(i: U256, who: Address, v: U256) -> W {
    keccak(&keccak(&enc("uint256,address,uint256", &[n(i), a(who), n(v)])))
}
/// The root a proof leads to.
pub fn climb(l: W, proof: &[W], tag: bool) -> W {
    proof.iter().fold(l, |x, p| pair(x, *p, tag))
}
/// The root a multi-proof leads to: siblings are taken from the front of the queue of known
/// nodes, or from the proof; at the end one node is left and nothing of the proof.
pub fn climb_many(leaves: &[W], proof: &[W], flags: &[bool], tag: bool) -> Option<W> {
    let mut q: VecDeque<W> = leaves.iter().copied().collect();
    let mut p: VecDeque<W> = proof.iter().copied().collect();
    if flags.is_empty() {
        return match (q.len(), p.len()) {
            (1, 0) => Some(q[0]),
            (0, 1) => Some(p[0]),
            _ => None,
        };
    }
    for f in flags {
        let x = q.pop_front()?;
        let y = if *f { q.pop_front()? } else { p.pop_front()? };
        q.push_back(pair(x, y, tag));
    }
    if q.len() == 1 && p.is_empty() {
        Some(q[0])
    } else {
        None
    }
}
fn ws(v: &V) -> Vec<W> {
    v.l().iter().map(|x| x.w()).collect()
}
fn bools(v: &V) -> Vec<bool> {
    v.l().iter().map(|x| x.bool()).collect()
}
pub const DROP_SIGS: &[Sig] = &[
    "totalSupply()",
    "balanceOf(address)",
    "allowance(address,address)",
    "transfer(address,uint256)",
    "approve(address,uint256)",
    "transferFrom(address,address,uint256)",
    "owner()",
    "transferOwnership(address)",
    "renounceOwnership()",
    "root()",
    "setRoot(bytes32)",
    "isClaimed(uint256)",
    "leafOf(uint256,address,uint256)",
    "claim(uint256,address,uint256,bytes32[])",
    "claimMany(uint256[],address[],uint256[],bytes32[],bool[])",
    "prove(bytes32,bytes32,bytes32[],bool)",
    "proveMany(bytes32,bytes32[],bytes32[],bool[],bool)",
];
fn pay(w: &mut MW, c: Address, i: U256, who: Address, v: U256) -> Result<(), E> {
    if !w.m(c).bits.insert(i) {
        return fail();
    }
    mint(w, c, who, v)
}
pub fn drop(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    let root = w.s(c).cap.to_be_bytes::<32>();
    match f {
        "root()" => Ok(root.to_vec()),
        "setRoot(bytes32)" => {
            if w.s(c).owner.is_zero() || w.s(c).owner != m.from {
                return fail();
            }
            w.m(c).cap = U256::from_be_bytes(x[0].w());
            ret0()
        }
        "isClaimed(uint256)" => ret(n(w.s(c).bits.contains(&x[0].n()))),
        "leafOf(uint256,address,uint256)" => Ok(leaf(x[0].n(), x[1].addr(), x[2].n()).to_vec()),
        "claim(uint256,address,uint256,bytes32[])" => {
            let (i, who, v) = (x[0].n(), x[1].addr(), x[2].n());
            if climb(leaf(i, who, v), &ws(&x[3]), false) != root {
                return fail();
            }
            pay(w, c, i, who, v)?;
            ret0()
        }
        "claimMany(uint256[],address[],uint256[],bytes32[],bool[])" => {
            let (i, who, v) = (x[0].ns(), x[1].addrs(), x[2].ns());
            if i.len() != who.len() || who.len() != v.len() {
                return fail();
            }
            let l: Vec<W> = (0..i.len()).map(|k| leaf(i[k], who[k], v[k])).collect();
            if climb_many(&l, &ws(&x[3]), &bools(&x[4]), false) != Some(root) {
                return fail();
            }
            for k in 0..i.len() {
                pay(w, c, i[k], who[k], v[k])?;
            }
            ret0()
        }
        "prove(bytes32,bytes32,bytes32[],bool)" => {
            ret(n(climb(x[1].w(), &ws(&x[2]), x[3].bool()) == x[0].w()))
        }
        "proveMany(bytes32,bytes32[],bytes32[],bool[],bool)" => {
            match climb_many(&ws(&x[1]), &ws(&x[2]), &bools(&x[3]), x[4].bool()) {
                Some(r) if r == x[0].w() => ret0(),
                _ => fail(),
            }
        }
        "owner()" | "transferOwnership(address)" | "renounceOwnership()" => own(w, m, f, x),
        _ => e20(w, m, f, x).unwrap_or(fail()),
    }
}

//! Reference models of access control and the storage structures.
use crate::abi::*;
use crate::core::*;
use crate::model::*;
use alloy_primitives::{Address, U256};

const MOVED: Sig = "OwnershipTransferred(address,address)";
const OFFER: Sig = "OwnershipTransferStarted(address,address)";

fn guarded(w: &mut MW, c: Address) -> Res {
    let k = w.s(c).counter + U256::from(1);
    w.m(c).counter = k;
    ret(n(k))
}
fn hand_over(w: &mut MW, c: Address, to: Address) {
    let from = w.s(c).owner;
    w.m(c).owner = to;
    w.m(c).pending = Address::ZERO;
    w.ev(c, MOVED, 3, &[a(from), a(to)]);
}
pub const OWN_SIGS: &[Sig] =
    &["owner()", "transferOwnership(address)", "renounceOwnership()", "guarded()", "count()"];
pub fn own(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    let is = !w.s(c).owner.is_zero() && w.s(c).owner == m.from;
    match f {
        "owner()" => ret(a(w.s(c).owner)),
        "count()" => ret(n(w.s(c).counter)),
        _ if !is => fail(),
        "guarded()" => guarded(w, c),
        "transferOwnership(address)" if !x[0].addr().is_zero() => {
            hand_over(w, c, x[0].addr());
            ret0()
        }
        "renounceOwnership()" => {
            hand_over(w, c, Address::ZERO);
            ret0()
        }
        _ => fail(),
    }
}
pub const OWN2_SIGS: &[Sig] = &[
    "owner()",
    "pendingOwner()",
    "transferOwnership(address)",
    "acceptOwnership()",
    "renounceOwnership()",
    "guarded()",
    "count()",
];
pub fn own2(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    let is = !w.s(c).owner.is_zero() && w.s(c).owner == m.from;
    match f {
        "owner()" => ret(a(w.s(c).owner)),
        "pendingOwner()" => ret(a(w.s(c).pending)),
        "count()" => ret(n(w.s(c).counter)),
        "acceptOwnership()" => {
            if w.s(c).pending.is_zero() || w.s(c).pending != m.from {
                return fail();
            }
            hand_over(w, c, m.from);
            ret0()
        }
        _ if !is => fail(),
        "guarded()" => guarded(w, c),
        "transferOwnership(address)" => {
            w.m(c).pending = x[0].addr();
            w.ev(c, OFFER, 3, &[a(m.from), a(x[0].addr())]);
            ret0()
        }
        "renounceOwnership()" => {
            hand_over(w, c, Address::ZERO);
            ret0()
        }
        _ => fail(),
    }
}

pub const ACL_SIGS: &[Sig] = &[
    "hasRole(bytes32,address)",
    "onlyRole(bytes32)",
    "getRoleAdmin(bytes32)",
    "grantRole(bytes32,address)",
    "revokeRole(bytes32,address)",
    "renounceRole(bytes32,address)",
    "guarded(bytes32)",
    "count()",
    "checkRole(bytes32,address)",
    "setRoleAdmin(bytes32,bytes32)",
    "rawGrant(bytes32,address)",
    "rawRevoke(bytes32,address)",
    "defaultAdmin()",
];
pub fn acl(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    if f == "count()" {
        return ret(n(w.s(c).counter));
    }
    if f == "defaultAdmin()" {
        return ret(n(0u64));
    }
    let role = x[0].w();
    let has = |w: &MW, r: [u8; 32], who: Address| w.s(c).roles.contains(&(r, who));
    let admin = w.s(c).admins.get(&role).copied().unwrap_or_default();
    let grant = |w: &mut MW, who: Address| -> bool {
        let new = w.m(c).roles.insert((role, who));
        if new {
            w.ev(c, "RoleGranted(bytes32,address,address)", 7, &[by(&role), a(who), a(m.from)]);
        }
        new
    };
    let revoke = |w: &mut MW, who: Address| -> bool {
        let old = w.m(c).roles.remove(&(role, who));
        if old {
            w.ev(c, "RoleRevoked(bytes32,address,address)", 7, &[by(&role), a(who), a(m.from)]);
        }
        old
    };
    match f {
        "hasRole(bytes32,address)" => ret(n(has(w, role, x[1].addr()))),
        "getRoleAdmin(bytes32)" => ret(by(&admin)),
        "onlyRole(bytes32)" if has(w, role, m.from) => ret0(),
        "checkRole(bytes32,address)" if has(w, role, x[1].addr()) => ret0(),
        "guarded(bytes32)" if has(w, role, m.from) => guarded(w, c),
        "grantRole(bytes32,address)" if has(w, admin, m.from) => {
            grant(w, x[1].addr());
            ret0()
        }
        "revokeRole(bytes32,address)" if has(w, admin, m.from) => {
            revoke(w, x[1].addr());
            ret0()
        }
        "renounceRole(bytes32,address)" if m.from == x[1].addr() => {
            revoke(w, m.from);
            ret0()
        }
        "setRoleAdmin(bytes32,bytes32)" => {
            let new = x[1].w();
            w.m(c).admins.insert(role, new);
            w.ev(c, "RoleAdminChanged(bytes32,bytes32,bytes32)", 7, &[by(&role), by(&admin), by(&new)]);
            ret0()
        }
        "rawGrant(bytes32,address)" => {
            let r = grant(w, x[1].addr());
            ret(n(r))
        }
        "rawRevoke(bytes32,address)" => {
            let r = revoke(w, x[1].addr());
            ret(n(r))
        }
        _ => fail(),
    }
}

// ----------------------------------------------------------------- checkpoints
pub const TRACE_SIGS: &[Sig] = &[
    "push(uint256,uint256)",
    "pushMany(uint256,uint256,uint256,uint256)",
    "lowerLookup(uint256)",
    "upperLookup(uint256)",
    "upperLookupRecent(uint256)",
    "latest()",
    "latestCheckpoint()",
    "length()",
    "at(uint32)",
];
fn push(s: &mut S, k: U256, v: U256) -> Result<(U256, U256), E> {
    let old = s.cps.last().map(|x| x.1).unwrap_or_default();
    match s.cps.last_mut() {
        Some(l) if l.0 > k => return fail(),
        Some(l) if l.0 == k => l.1 = v,
        _ => s.cps.push((k, v)),
    }
    Ok((old, v))
}
pub fn trace(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    let s = w.s(c);
    match f {
        "push(uint256,uint256)" => {
            let (o, v) = push(w.m(c), x[0].n(), x[1].n())?;
            Ok(enc("uint256,uint256", &[n(o), n(v)]))
        }
        "pushMany(uint256,uint256,uint256,uint256)" => {
            let mut i = U256::ZERO;
            while i < x[3].n() {
                push(w.m(c), x[0].n() + x[1].n() * i, x[2].n() + i)?;
                i += U256::from(1);
            }
            ret0()
        }
        "lowerLookup(uint256)" => {
            ret(n(s.cps.iter().find(|p| p.0 >= x[0].n()).map(|p| p.1).unwrap_or_default()))
        }
        "upperLookup(uint256)" | "upperLookupRecent(uint256)" => {
            ret(n(s.cps.iter().rev().find(|p| p.0 <= x[0].n()).map(|p| p.1).unwrap_or_default()))
        }
        "latest()" => ret(n(s.cps.last().map(|p| p.1).unwrap_or_default())),
        "latestCheckpoint()" => Ok(match s.cps.last() {
            None => vec![0; 96],
            Some((k, v)) => enc("bool,uint256,uint256", &[n(1u64), n(*k), n(*v)]),
        }),
        "length()" => ret(n(s.cps.len() as u64)),
        "at(uint32)" => match s.cps.get(x[0].n().saturating_to::<usize>()) {
            None => fail(),
            Some((k, v)) => Ok(enc("uint256,uint256", &[n(*k), n(*v)])),
        },
        _ => fail(),
    }
}

// ---------------------------------------------------------------------- bitmap
pub const BITS_SIGS: &[Sig] = &[
    "get(uint256)",
    "set(uint256)",
    "unset(uint256)",
    "setTo(uint256,bool)",
    "get2(uint256)",
    "set2(uint256,bool)",
    "write(uint256[],uint256[])",
    "fill(uint256,uint256,bool)",
    "word(uint256)",
];
pub fn bits(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let s = w.m(m.me);
    match f {
        "get(uint256)" => return ret(n(s.bits.contains(&x[0].n()))),
        "get2(uint256)" => return ret(n(s.owner_of.contains_key(&x[0].n()))),
        "set(uint256)" => {
            s.bits.insert(x[0].n());
        }
        "unset(uint256)" => {
            s.bits.remove(&x[0].n());
        }
        "setTo(uint256,bool)" => {
            if x[1].bool() {
                s.bits.insert(x[0].n());
            } else {
                s.bits.remove(&x[0].n());
            }
        }
        // the second bitmap borrows another set-like field
        "set2(uint256,bool)" => {
            if x[1].bool() {
                s.owner_of.insert(x[0].n(), m.me);
            } else {
                s.owner_of.remove(&x[0].n());
            }
        }
        "fill(uint256,uint256,bool)" => {
            for i in (0..256).filter(|i| x[1].n().bit(*i)) {
                let p = (x[0].n() << 8) | U256::from(i);
                if x[2].bool() {
                    s.bits.insert(p);
                } else {
                    s.bits.remove(&p);
                }
            }
        }
        "word(uint256)" => {
            let b = x[0].n() << 8;
            let mut v = U256::ZERO;
            for p in s.bits.range(b..=b | U256::from(255)) {
                v.set_bit((*p & U256::from(255)).to::<usize>(), true);
            }
            return ret(n(v));
        }
        "write(uint256[],uint256[])" => {
            for i in x[0].ns() {
                s.bits.insert(i);
            }
            for i in x[1].ns() {
                s.bits.remove(&i);
            }
        }
        _ => return fail(),
    }
    ret0()
}

//! Relations between query answers of the real contracts (no model involved).
use crate::abi::*;
use crate::core::*;
use crate::engine::*;
use alloy_primitives::{Address, U256};

type Bad = (&'static str, String);
fn num(r: &Res) -> Option<U256> {
    match r {
        Ok(d) if d.len() == 32 => Some(U256::from_be_slice(d)),
        _ => None,
    }
}
/// Returns how many relations were evaluated, and the first that failed.
pub fn agree(s: &mut Sim, l: &[(Address, Op, Res)]) -> (u64, Result<(), Bad>) {
    let mut k = 0;
    for (to, q, r) in l {
        match one(s, *to, q, r, &mut k) {
            Ok(()) => {}
            Err(e) => return (k, Err(e)),
        }
    }
    let mut ats: Vec<Address> = l.iter().map(|x| x.0).collect();
    ats.sort();
    ats.dedup();
    for at in ats {
        if let Err(e) = whole(s, at, &mut k) {
            return (k, Err(e));
        }
    }
    (k, Ok(()))
}
/// Totals reported by one query against the parts reported by another.
fn whole(s: &mut Sim, at: Address, k: &mut u64) -> Result<(), Bad> {
    let has = |s: &Sim, f: Sig| s.m.has_sig(at, f);
    if !s.m.st.s.contains_key(&at) {
        return Ok(());
    }
    let (by_acc, by_id) = (has(s, "balanceOf(address)"), has(s, "balanceOf(address,uint256)"));
    let mut who = s.who.clone();
    who.extend(s.m.s(at).bal.keys());
    who.extend(s.m.s(at).mb.keys().map(|x| x.0));
    who.extend(s.m.s(at).owner_of.values());
    who.retain(|x| !x.is_zero());
    who.sort();
    who.dedup();
    let mut ask = |s: &mut Sim, o: Op| {
        *k += 1;
        num(&s.w.query(eoa(0), at, &o))
    };
    if by_acc && has(s, "ownerOf(uint256)") && !has(s, "mintConsecutive(address,uint96)") {
        let mut ids: Vec<U256> = s.m.s(at).owner_of.keys().copied().collect();
        ids.dedup();
        let mut cnt: std::collections::BTreeMap<Address, u64> = Default::default();
        for i in ids {
            if let Some(o) = ask(s, op("ownerOf(uint256)", vec![n(i)])) {
                *cnt.entry(Address::from_slice(&o.to_be_bytes::<32>()[12..])).or_default() += 1;
            }
        }
        for x in who {
            let have = U256::from(cnt.get(&x).copied().unwrap_or(0));
            if let Some(b) = ask(s, op("balanceOf(address)", vec![a(x)])) {
                if b != have {
                    return Err(("owned-count", format!("{x} is reported to own {have} tokens and to hold {b}")));
                }
                if has(s, "tokenOfOwnerByIndex(address,uint256)") {
                    if ask(s, op("tokenOfOwnerByIndex(address,uint256)", vec![a(x), n(b)])).is_some() {
                        return Err(("owner-list-end", format!("the list of {x} goes on past its balance {b}")));
                    }
                }
            }
        }
    } else if by_acc && has(s, "totalSupply()") && !has(s, "ownerOf(uint256)") {
        let mut sum = U256::ZERO;
        for x in who {
            let Some(b) = ask(s, op("balanceOf(address)", vec![a(x)])) else { return Ok(()) };
            sum = sum.wrapping_add(b);
        }
        if let Some(t) = ask(s, op("totalSupply()", vec![])) {
            if t != sum {
                return Err(("supply-sum", format!("balances sum to {sum}, the supply is reported as {t}")));
            }
        }
    } else if by_id && has(s, "totalSupply(uint256)") {
        let mut ids: Vec<U256> = s.m.s(at).mb.keys().map(|x| x.1).collect();
        ids.sort();
        ids.dedup();
        let mut all = U256::ZERO;
        for i in ids {
            let mut sum = U256::ZERO;
            for x in &who {
                let Some(b) = ask(s, op("balanceOf(address,uint256)", vec![a(*x), n(i)])) else { return Ok(()) };
                sum = sum.wrapping_add(b);
            }
            let Some(t) = ask(s, op("totalSupply(uint256)", vec![n(i)])) else { return Ok(()) };
            if t != sum {
                return Err(("id-supply-sum", format!("balances of {i} sum to {sum}, its supply is reported as {t}")));
            }
            all = all.wrapping_add(t);
        }
        if let Some(t) = ask(s, op("totalSupply()", vec![])) {
            if t != all {
                return Err(("all-supply-sum", format!("supplies sum to {all}, the total is reported as {t}")));
            }
        }
    }
    Ok(())
}
fn one(s: &mut Sim, at: Address, q: &Op, r: &Res, k: &mut u64) -> Result<(), Bad> {
    let now = s.w.now;
    let has = |s: &Sim, f: Sig| s.m.has_sig(at, f);
    macro_rules! ask {
        ($f:expr $(, $x:expr)*) => {{
            *k += 1;
            s.w.query(eoa(0), at, &op($f, vec![$($x),*]))
        }};
    }
    macro_rules! same {
        ($rule:expr, $x:expr, $y:expr) => {{
            let (x, y): (Res, Res) = ($x, $y);
            if x.is_ok() != y.is_ok() || (x.is_ok() && x != y) {
                return Err(($rule, format!("{} and its counterpart disagree: {:?} / {:?}", show_op(q), x, y)));
            }
        }};
    }
    macro_rules! must {
        ($rule:expr, $c:expr) => {
            if !$c {
                return Err(($rule, format!("{} answers {:?}, which contradicts another query", show_op(q), r)));
            }
        };
    }
    let one = U256::from(1);
    match q.f {
        "balanceOfBatch(address[],uint256[])" => {
            if let Ok(d) = r {
                let (x, y) = (q.a[0].l(), q.a[1].l());
                must!("batch-length", x.len() == y.len() && d.len() == 64 + 32 * x.len());
                for i in 0..x.len() {
                    let b = ask!("balanceOf(address,uint256)", x[i].clone(), y[i].clone());
                    must!("batch-balance", b == Ok(d[64 + 32 * i..96 + 32 * i].to_vec()));
                }
            } else {
                must!("batch-fails", q.a[0].l().len() != q.a[1].l().len());
            }
        }
        "previewDeposit(uint256)" => same!("preview-deposit", r.clone(), ask!("convertToShares(uint256)", q.a[0].clone())),
        "previewRedeem(uint256)" => same!("preview-redeem", r.clone(), ask!("convertToAssets(uint256)", q.a[0].clone())),
        "previewMint(uint256)" | "previewWithdraw(uint256)" => {
            let f: Sig = if q.f.contains("Mint") { "convertToAssets(uint256)" } else { "convertToShares(uint256)" };
            let x = ask!(f, q.a[0].clone());
            if let (Some(p), Some(x)) = (num(r), num(&x)) {
                must!("preview-rounding", p == x || (x < U256::MAX && p == x + one));
            }
        }
        "maxRedeem(address)" => same!("max-redeem", r.clone(), ask!("balanceOf(address)", q.a[0].clone())),
        "maxWithdraw(address)" => {
            if let Some(b) = num(&ask!("balanceOf(address)", q.a[0].clone())) {
                same!("max-withdraw", r.clone(), ask!("convertToAssets(uint256)", n(b)))
            }
        }
        "totalAssets()" => {
            let x = ask!("asset()");
            if let Ok(d) = x {
                let t = Address::from_slice(&d[12..]);
                let b = s.w.query(eoa(0), t, &op("balanceOf(address)", vec![a(at)]));
                if let (Some(x), Some(y)) = (num(r), num(&b)) {
                    must!("total-assets", x == y);
                }
            }
        }
        "releasable()" => {
            let (v, d) = (ask!("vestedAmount(uint64)", n(now)), ask!("released()"));
            if let (Some(x), Some(v), Some(d)) = (num(r), num(&v), num(&d)) {
                must!("vesting-sum", d.checked_add(x) == Some(v));
            }
        }
        "releasable(address)" => {
            let (v, d) =
                (ask!("vestedAmount(address,uint64)", q.a[0].clone(), n(now)), ask!("released(address)", q.a[0].clone()));
            if let (Some(x), Some(v), Some(d)) = (num(r), num(&v), num(&d)) {
                must!("vesting-sum", d.checked_add(x) == Some(v));
            }
        }
        "end()" => {
            let (x, d) = (ask!("start()"), ask!("duration()"));
            if let (Some(e), Some(x), Some(d)) = (num(r), num(&x), num(&d)) {
                must!("vesting-end", x.checked_add(d) == Some(e));
            }
        }
        "maxFlashLoan(address)" => {
            let t = ask!("totalSupply()");
            if let (Some(m), Some(t)) = (num(r), num(&t)) {
                must!("max-flash-loan", if q.a[0].addr() == at { m == U256::MAX - t } else { m.is_zero() });
            }
        }
        "flashFee(address,uint256)" => {
            must!("flash-support", r.is_ok() == (q.a[0].addr() == at));
        }
        "royaltyInfo(uint256,uint256)" => {
            let z = ask!("royaltyInfo(uint256,uint256)", q.a[0].clone(), n(0));
            if let (Ok(d), Ok(z)) = (r, z) {
                must!("royalty-receiver", d[..32] == z[..32]);
                must!("royalty-bound", U256::from_be_slice(&d[32..64]) <= q.a[1].n());
                must!("royalty-zero", U256::from_be_slice(&z[32..64]).is_zero());
            }
        }
        "at(uint32)" => {
            if let Ok(d) = r {
                let (key, v) = (U256::from_be_slice(&d[..32]), U256::from_be_slice(&d[32..64]));
                must!("entry-upper", num(&ask!("upperLookup(uint256)", n(key))) == Some(v));
                must!("entry-lower", num(&ask!("lowerLookup(uint256)", n(key))) == Some(v));
            }
        }
        "convertToAssets(uint256)" => {
            if let Some(x) = num(r) {
                if let Some(y) = num(&ask!("convertToShares(uint256)", n(x))) {
                    must!("round-trip", y <= q.a[0].n());
                }
            }
        }
        "convertToShares(uint256)" => {
            if let Some(x) = num(r) {
                if let Some(y) = num(&ask!("convertToAssets(uint256)", n(x))) {
                    must!("round-trip", y <= q.a[0].n());
                }
            }
        }
        "vestedAmount(uint64)" => {
            if let (Some(x), Some(y)) = (num(r), num(&ask!("vestedAmount(uint64)", n(u64::MAX)))) {
                must!("vesting-monotone", x <= y);
            }
        }
        "getApproved(uint256)" | "tokenURI(uint256)" if has(s, "ownerOf(uint256)") => {
            let o = ask!("ownerOf(uint256)", q.a[0].clone());
            must!("existence", o.is_ok() == r.is_ok());
        }
        "exists(uint256)" => {
            let t = ask!("totalSupply(uint256)", q.a[0].clone());
            if let (Some(e), Some(t)) = (num(r), num(&t)) {
                must!("exists", (e == one) == !t.is_zero());
            }
        }
        "totalSupply()" if has(s, "tokenByIndex(uint256)") => {
            if let Some(t) = num(r) {
                must!("enumeration-end", ask!("tokenByIndex(uint256)", n(t)).is_err());
                if !t.is_zero() {
                    let x = ask!("tokenByIndex(uint256)", n(t - one));
                    must!("enumeration-last", x.is_ok());
                    if let Some(i) = num(&x) {
                        must!("enumeration-exists", ask!("ownerOf(uint256)", n(i)).is_ok());
                    }
                }
            }
        }
        "hasRole(bytes32,address)" => {
            let c = ask!("checkRole(bytes32,address)", q.a[0].clone(), q.a[1].clone());
            if let Some(h) = num(r) {
                must!("role-check", (h == one) == c.is_ok());
                let me = q.a[1].addr();
                *k += 1;
                let o = s.w.query(me, at, &op("onlyRole(bytes32)", vec![q.a[0].clone()]));
                must!("role-guard", (h == one) == o.is_ok());
            }
        }
        "DOMAIN_SEPARATOR()" => {
            let d = ask!("eip712Domain()");
            if let (Ok(sep), Ok(d)) = (r, d) {
                let w = |i: usize| d[64 + 32 * i..96 + 32 * i].to_vec();
                let mut e = keccak(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)").to_vec();
                for i in [5, 6, 1, 2] {
                    e.extend(w(i));
                }
                must!("domain", keccak(&e)[..] == sep[..] && w(7) == *sep);
            }
        }
        "upperLookup(uint256)" => same!("lookup", r.clone(), ask!("upperLookupRecent(uint256)", q.a[0].clone())),
        "latest()" => {
            let c = ask!("latestCheckpoint()");
            let len = num(&ask!("length()"));
            if let (Some(v), Ok(c), Some(len)) = (num(r), c, len) {
                // (exists, key, value)
                let e = !U256::from_be_slice(&c[..32]).is_zero();
                must!("latest-length", e == !len.is_zero());
                if e {
                    must!("latest-value", U256::from_be_slice(&c[64..96]) == v);
                    same!("latest-entry", Ok(c[32..96].to_vec()), ask!("at(uint32)", n(len - one)));
                    let x = ask!("upperLookup(uint256)", n(U256::from_be_slice(&c[32..64])));
                    must!("latest-lookup", num(&x) == Some(v));
                } else {
                    must!("latest-value", v.is_zero());
                }
            }
        }
        _ => {}
    }
    Ok(())
}

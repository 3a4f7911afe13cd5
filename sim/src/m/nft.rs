//! Reference models of the non-fungible and multi-token components.
use crate::abi::*;
use crate::core::*;
use crate::model::*;
use alloy_primitives::{Address, U256};

pub const Z: Address = Address::ZERO;
pub const TRANSFER: Sig = "Transfer(address,address,uint256)";
pub const APPROVAL: Sig = "Approval(address,address,uint256)";
pub const FORALL: Sig = "ApprovalForAll(address,address,bool)";

fn one() -> U256 {
    U256::from(1)
}
pub fn max96() -> U256 {
    (one() << 96) - one()
}
/// Batches of consecutive tokens: (first, last, owner), in order.
pub fn batches(s: &S) -> Vec<(U256, U256, Address)> {
    let mut at = s.first;
    s.cps
        .iter()
        .map(|(last, o)| {
            let b = (at, *last, Address::from_slice(&o.to_be_bytes::<32>()[12..]));
            at = *last + one();
            b
        })
        .collect()
}
/// Owner of a token, zero if it does not exist.
pub fn own_s(s: &S, id: U256) -> Address {
    if let Some(o) = s.owner_of.get(&id) {
        return *o;
    }
    batches(s).into_iter().find(|(f, l, _)| *f <= id && id <= *l).map(|b| b.2).unwrap_or(Z)
}
pub fn own(w: &MW, c: Address, id: U256) -> Address {
    own_s(w.s(c), id)
}
/// Number of tokens an account owns, by definition.
pub fn count_s(s: &S, x: Address) -> U256 {
    let mut k = U256::ZERO;
    for (f, l, o) in batches(s) {
        if o == x {
            let moved = s.owner_of.keys().filter(|i| f <= **i && **i <= l).count();
            k += l - f + one() - U256::from(moved);
        }
    }
    k + U256::from(s.owner_of.values().filter(|o| **o == x).count())
}
fn app(w: &MW, c: Address, id: U256) -> Address {
    w.s(c).tok_app.get(&id).copied().unwrap_or_default()
}
pub fn authorised(s: &S, who: Address, id: U256) -> bool {
    let o = own_s(s, id);
    !o.is_zero() && (who == o || s.oper.contains(&(o, who)) || s.tok_app.get(&id) == Some(&who))
}
/// Mint, move or burn; `from` is the actual owner.
pub fn set_owner(w: &mut MW, c: Address, to: Address, id: U256) {
    let from = own(w, c, id);
    let s = w.m(c);
    s.tok_app.remove(&id);
    s.owner_of.insert(id, to);
    w.ev(c, TRANSFER, 7, &[a(from), a(to), n(id)]);
}
pub fn mint721(w: &mut MW, c: Address, to: Address, id: U256) -> Result<(), E> {
    if to.is_zero() || !own(w, c, id).is_zero() {
        return fail();
    }
    set_owner(w, c, to, id);
    Ok(())
}
pub fn burn721(w: &mut MW, c: Address, id: U256) -> Result<(), E> {
    if own(w, c, id).is_zero() {
        return fail();
    }
    set_owner(w, c, Z, id);
    Ok(())
}
pub fn move721(w: &mut MW, c: Address, from: Address, to: Address, id: U256) -> Result<(), E> {
    let o = own(w, c, id);
    if to.is_zero() || o.is_zero() || o != from {
        return fail();
    }
    set_owner(w, c, to, id);
    Ok(())
}
/// The outcome of asking a receiver: its reason if it gave one.
fn answer(r: Res, magic: Sig) -> Result<(), E> {
    match r {
        Ok(d) if d == magic4(magic) => Ok(()),
        Ok(_) => fail(),
        Err(E::X(v)) if v.iter().all(|b| !b.is_empty()) => Err(E::X(v)),
        Err(_) => fail(),
    }
}
pub fn ask721(w: &mut MW, m: &Msg, op: Address, from: Address, to: Address, id: U256, data: &[u8]) -> Result<(), E> {
    if !w.has_code(to) {
        return Ok(());
    }
    let r = w.ext(m, to, U256::ZERO, &encf(ON721, &[a(op), a(from), n(id), by(data)]));
    answer(r, ON721)
}
/// Functions every ERC-721 shares, plus the administrative ones of the harness contracts.
pub fn e721(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Option<Res> {
    let c = m.me;
    let tf = |w: &mut MW| -> Result<(), E> {
        let (from, to, id) = (x[0].addr(), x[1].addr(), x[2].n());
        if !authorised(w.s(c), m.from, id) {
            return fail();
        }
        move721(w, c, from, to, id)
    };
    let r: Result<(), E> = match f {
        "balanceOf(address)" => {
            let o = x[0].addr();
            return Some(if o.is_zero() { fail() } else { ret(n(count_s(w.s(c), o))) });
        }
        "ownerOf(uint256)" => {
            let o = own(w, c, x[0].n());
            return Some(if o.is_zero() { fail() } else { ret(a(o)) });
        }
        "getApproved(uint256)" => {
            let o = own(w, c, x[0].n());
            return Some(if o.is_zero() { fail() } else { ret(a(app(w, c, x[0].n()))) });
        }
        "isApprovedForAll(address,address)" => {
            return Some(ret(n(w.s(c).oper.contains(&(x[0].addr(), x[1].addr())))));
        }
        "transferFrom(address,address,uint256)" => tf(w),
        "safeTransferFrom(address,address,uint256)" => {
            tf(w).and_then(|_| ask721(w, m, m.from, x[0].addr(), x[1].addr(), x[2].n(), &[]))
        }
        "safeTransferFrom(address,address,uint256,bytes)" => {
            tf(w).and_then(|_| ask721(w, m, m.from, x[0].addr(), x[1].addr(), x[2].n(), x[3].b()))
        }
        "approve(address,uint256)" | "adminApprove(address,uint256)" => {
            let id = x[1].n();
            let o = own(w, c, id);
            if o.is_zero() || (f.starts_with("approve") && o != m.from && !w.s(c).oper.contains(&(o, m.from))) {
                fail()
            } else {
                w.m(c).tok_app.insert(id, x[0].addr());
                w.ev(c, APPROVAL, 7, &[a(o), a(x[0].addr()), n(id)]);
                Ok(())
            }
        }
        "setApprovalForAll(address,bool)" => approve_all(w, c, m.from, x[0].addr(), x[1].bool()),
        "mint(address,uint256)" => mint721(w, c, x[0].addr(), x[1].n()),
        "mintMany(address,uint256,uint256)" => {
            let mut r = Ok(());
            for i in 0..x[2].n().to::<u64>() {
                r = r.and_then(|_| mint721(w, c, x[0].addr(), x[1].n() + U256::from(i)));
            }
            r
        }
        "safeMint(address,uint256,bytes)" => {
            let (to, id) = (x[0].addr(), x[1].n());
            mint721(w, c, to, id).and_then(|_| ask721(w, m, m.from, Z, to, id, x[2].b()))
        }
        "burn(uint256)" => {
            if authorised(w.s(c), m.from, x[0].n()) {
                burn721(w, c, x[0].n())
            } else {
                fail()
            }
        }
        "approveAs(address,uint256,address,bool)" => {
            let (to, id, auth) = (x[0].addr(), x[1].n(), x[2].addr());
            let o = own(w, c, id);
            if o.is_zero() || (!auth.is_zero() && o != auth && !w.s(c).oper.contains(&(o, auth))) {
                fail()
            } else {
                w.m(c).tok_app.insert(id, to);
                if x[3].bool() {
                    w.ev(c, APPROVAL, 7, &[a(o), a(to), n(id)]);
                }
                Ok(())
            }
        }
        "updateAs(address,uint256,address)" => {
            let (to, id, auth) = (x[0].addr(), x[1].n(), x[2].addr());
            let o = own(w, c, id);
            if (to.is_zero() && o.is_zero()) || (!auth.is_zero() && !authorised(w.s(c), auth, id)) {
                return Some(fail());
            }
            set_owner(w, c, to, id);
            return Some(ret(a(o)));
        }
        "setApprovalAs(address,address,bool)" if x[0].addr().is_zero() => fail(),
        "setApprovalAs(address,address,bool)" => approve_all(w, c, x[0].addr(), x[1].addr(), x[2].bool()),
        "ownerOrZero(uint256)" => return Some(ret(a(own(w, c, x[0].n())))),
        "approvedOrZero(uint256)" => return Some(ret(a(app(w, c, x[0].n())))),
        "isAuthorized(address,address,uint256)" => {
            let (o, s, id) = (x[0].addr(), x[1].addr(), x[2].n());
            let y = !s.is_zero() && (o == s || w.s(c).oper.contains(&(o, s)) || app(w, c, id) == s);
            return Some(ret(n(y)));
        }
        "adminBurn(uint256)" => burn721(w, c, x[0].n()),
        "adminTransfer(address,address,uint256)" => move721(w, c, x[0].addr(), x[1].addr(), x[2].n()),
        "adminSafeTransfer(address,address,uint256,bytes)" => {
            let (from, to, id) = (x[0].addr(), x[1].addr(), x[2].n());
            move721(w, c, from, to, id).and_then(|_| ask721(w, m, m.from, from, to, id, x[3].b()))
        }
        _ => return None,
    };
    Some(r.and_then(|_| ret0()))
}
fn approve_all(w: &mut MW, c: Address, who: Address, op: Address, on: bool) -> Result<(), E> {
    if op.is_zero() {
        return fail();
    }
    if on {
        w.m(c).oper.insert((who, op));
    } else {
        w.m(c).oper.remove(&(who, op));
    }
    w.ev(c, FORALL, 3, &[a(who), a(op), n(on)]);
    Ok(())
}

macro_rules! sigs721 {
    ($($x:expr),* $(,)?) => {
        &[
            "balanceOf(address)",
            "ownerOf(uint256)",
            "getApproved(uint256)",
            "isApprovedForAll(address,address)",
            "transferFrom(address,address,uint256)",
            "safeTransferFrom(address,address,uint256)",
            "safeTransferFrom(address,address,uint256,bytes)",
            "approve(address,uint256)",
            "setApprovalForAll(address,bool)",
            $($x),*
        ]
    };
}
pub const T721_SIGS: &[Sig] = sigs721![
    "mint(address,uint256)",
    "mintMany(address,uint256,uint256)",
    "safeMint(address,uint256,bytes)",
    "burn(uint256)",
    "adminBurn(uint256)",
    "adminTransfer(address,address,uint256)",
    "adminSafeTransfer(address,address,uint256,bytes)",
    "adminApprove(address,uint256)",
    "approveAs(address,uint256,address,bool)",
    "updateAs(address,uint256,address)",
    "setApprovalAs(address,address,bool)",
    "ownerOrZero(uint256)",
    "approvedOrZero(uint256)",
    "isAuthorized(address,address,uint256)",
];
pub fn t721(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    e721(w, m, f, x).unwrap_or(fail())
}

// ------------------------------------------------------------------ enumerable
pub const E721_SIGS: &[Sig] = sigs721![
    "mint(address,uint256)",
    "mintMany(address,uint256,uint256)",
    "safeMint(address,uint256,bytes)",
    "burn(uint256)",
    "increaseBalance(uint128)",
    "totalSupply()",
    "tokenByIndex(uint256)",
    "tokenOfOwnerByIndex(address,uint256)",
];
/// The set of tokens is modelled; their order in the lists is free, so the two index getters
/// are judged by the family's invariant instead.
pub fn e721x(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    match f {
        "totalSupply()" => {
            ret(n(U256::from(w.s(c).owner_of.values().filter(|o| !o.is_zero()).count())))
        }
        "increaseBalance(uint128)" => {
            if x[0].n().is_zero() {
                ret0()
            } else {
                failx(encf("ERC721EnumerableForbiddenBatchMint()", &[]))
            }
        }
        _ => e721(w, m, f, x).unwrap_or(fail()),
    }
}

// ----------------------------------------------------------------- consecutive
pub const K721_SIGS: &[Sig] = sigs721![
    "mintConsecutive(address,uint96)",
    "mint(address,uint256)",
    "safeMint(address,uint256,bytes)",
    "burn(uint256)",
    "adminBurn(uint256)",
    "adminTransfer(address,address,uint256)",
    "adminSafeTransfer(address,address,uint256,bytes)",
    "adminApprove(address,uint256)",
    "approveAs(address,uint256,address,bool)",
    "updateAs(address,uint256,address)",
    "ownerOrZero(uint256)",
];
/// The id the next batch starts at.
pub fn next_batch(s: &S) -> U256 {
    s.cps.last().map(|l| l.0 + one()).unwrap_or(s.first)
}
/// Does a token minted alone lie where batches have yet to come? (No batch may run over it.)
pub fn ahead(s: &S) -> bool {
    s.owner_of.range(next_batch(s)..=max96().max(next_batch(s))).any(|(i, o)| *i <= max96() && !o.is_zero())
}
pub fn k721(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    match f {
        "mintConsecutive(address,uint96)" => {
            let (to, k) = (x[0].addr(), x[1].n());
            let next = next_batch(w.s(c));
            if ahead(w.s(c)) {
                return fail();
            }
            if k.is_zero() {
                // with the id range used up there is no next id to report
                return if next > max96() { fail() } else { ret(n(next)) };
            }
            let last = next + k - one();
            if to.is_zero() || k > w.s(c).max_batch || last > max96() {
                return fail();
            }
            // tokens minted alone and burned again before a batch reached them start anew
            w.m(c).owner_of.retain(|i, _| *i < next || *i > last);
            w.m(c).cps.push((last, U256::from_be_bytes(word(&a(to)))));
            w.ev(c, "ConsecutiveTransfer(uint256,uint256,address,address)", 13, &[n(next), n(last), a(Z), a(to)]);
            ret(n(next))
        }
        _ => e721(w, m, f, x).unwrap_or(fail()),
    }
}

// --------------------------------------------------------------------- wrapper
pub const W721_SIGS: &[Sig] = sigs721![
    "underlying()",
    "depositFor(address,uint256[])",
    "withdrawTo(address,uint256[])",
    "onERC721Received(address,address,uint256,bytes)",
    "recover(address,uint256)",
];
fn reason(r: Res) -> Result<(), E> {
    match r {
        Ok(_) => Ok(()),
        Err(E::X(v)) if v.iter().all(|b| !b.is_empty()) => Err(E::X(v)),
        Err(_) => fail(),
    }
}
pub fn w721(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    let u = w.s(c).asset;
    match f {
        "underlying()" => ret(a(u)),
        "depositFor(address,uint256[])" => {
            for id in x[1].ns() {
                let d = encf("transferFrom(address,address,uint256)", &[a(m.from), a(c), n(id)]);
                let r = w.ext(m, u, U256::ZERO, &d);
                reason(r)?;
                mint721(w, c, x[0].addr(), id)?;
                ask721(w, m, m.from, Z, x[0].addr(), id, &[])?;
            }
            ret_true()
        }
        "withdrawTo(address,uint256[])" => {
            for id in x[1].ns() {
                if !authorised(w.s(c), m.from, id) {
                    return fail();
                }
                burn721(w, c, id)?;
                let d = encf("safeTransferFrom(address,address,uint256,bytes)", &[a(c), a(x[0].addr()), n(id), by(&[])]);
                let r = w.ext(m, u, U256::ZERO, &d);
                reason(r)?;
            }
            ret_true()
        }
        "onERC721Received(address,address,uint256,bytes)" => {
            if m.from != u {
                return fail();
            }
            let (from, id) = (x[1].addr(), x[2].n());
            mint721(w, c, from, id)?;
            ask721(w, m, m.from, Z, from, id, &[])?;
            Ok(magic4(ON721))
        }
        "recover(address,uint256)" => {
            // an original that arrived without notice
            let id = x[1].n();
            match w.ext_static(m, u, &encf("ownerOf(uint256)", &[n(id)])) {
                Ok(d) if d.len() >= 32 && d[..12] == [0; 12] && d[12..32] == c[..] => {}
                _ => return fail(),
            }
            mint721(w, c, x[0].addr(), id)?;
            ask721(w, m, m.from, Z, x[0].addr(), id, &[])?;
            ret(n(id))
        }
        _ => e721(w, m, f, x).unwrap_or(fail()),
    }
}

// ------------------------------------------------------------------------ URIs
pub const M721_SIGS: &[Sig] = sigs721![
    "mint(address,uint256)",
    "burn(uint256)",
    "name()",
    "symbol()",
    "tokenURI(uint256)",
    "plainURI(uint256)",
    "baseURI()",
    "setTokenURI(uint256,string)",
];
pub fn m721(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    let s = w.s(c).clone();
    match f {
        "name()" => ret_s(&s.name),
        "symbol()" => ret_s(&s.symbol),
        "baseURI()" => ret_s(&s.base),
        "tokenURI(uint256)" | "plainURI(uint256)" => {
            let id = x[0].n();
            if own_s(&s, id).is_zero() {
                return fail();
            }
            let t = if f.starts_with("token") { s.uri.get(&id).cloned().unwrap_or_default() } else { String::new() };
            ret_s(&match (s.base.is_empty(), t.is_empty()) {
                (true, _) => t,
                (false, true) => format!("{}{}", s.base, id),
                (false, false) => format!("{}{}", s.base, t),
            })
        }
        "setTokenURI(uint256,string)" => {
            w.m(c).uri.insert(x[0].n(), x[1].str());
            w.ev(c, "MetadataUpdate(uint256)", 0, &[n(x[0].n())]);
            ret0()
        }
        _ => e721(w, m, f, x).unwrap_or(fail()),
    }
}
pub const U1155_SIGS: &[Sig] =
    &["uri(uint256)", "contractURI(uint256)", "setTokenURI(uint256,string)", "setBaseURI(string)"];
fn uri1155(s: &S, id: U256) -> String {
    match s.uri.get(&id) {
        Some(t) if !t.is_empty() => format!("{}{}", s.base, t),
        _ => s.base2.clone(),
    }
}
pub fn u1155(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    match f {
        "uri(uint256)" => ret_s(&uri1155(w.s(c), x[0].n())),
        "contractURI(uint256)" => ret_s(&w.s(c).base2.clone()),
        "setTokenURI(uint256,string)" => {
            w.m(c).uri.insert(x[0].n(), x[1].str());
            let u = uri1155(w.s(c), x[0].n());
            w.ev(c, "URI(string,uint256)", 2, &[by(u.as_bytes()), n(x[0].n())]);
            ret0()
        }
        "setBaseURI(string)" => {
            w.m(c).base = x[0].str();
            ret0()
        }
        _ => fail(),
    }
}

// -------------------------------------------------------------------- ERC-1155
pub fn mbal(s: &S, x: Address, id: U256) -> U256 {
    s.mb.get(&(x, id)).copied().unwrap_or_default()
}
fn update1155(w: &mut MW, m: &Msg, from: Address, to: Address, ids: &[U256], vs: &[U256]) -> Result<(), E> {
    if ids.len() != vs.len() {
        return fail();
    }
    let c = m.me;
    let s = w.m(c);
    for (id, v) in ids.iter().zip(vs) {
        if !from.is_zero() {
            let b = mbal(s, from, *id);
            if b < *v {
                return fail();
            }
            s.mb.insert((from, *id), b - v);
        }
        if !to.is_zero() {
            let b = mbal(s, to, *id);
            let Some(x) = b.checked_add(*v) else { return fail() };
            s.mb.insert((to, *id), x);
        }
    }
    if let ([id], [v]) = (ids, vs) {
        w.ev(
            c,
            "TransferSingle(address,address,address,uint256,uint256)",
            7,
            &[a(m.from), a(from), a(to), n(*id), n(*v)],
        );
    } else {
        w.ev(
            c,
            "TransferBatch(address,address,address,uint256[],uint256[])",
            7,
            &[a(m.from), a(from), a(to), ln(ids), ln(vs)],
        );
    }
    Ok(())
}
fn ask1155(w: &mut MW, m: &Msg, from: Address, to: Address, ids: &[U256], vs: &[U256], data: &[u8]) -> Result<(), E> {
    if !w.has_code(to) {
        return Ok(());
    }
    if let ([id], [v]) = (ids, vs) {
        let r = w.ext(m, to, U256::ZERO, &encf(ON1155, &[a(m.from), a(from), n(*id), n(*v), by(data)]));
        answer(r, ON1155)
    } else {
        let r = w.ext(m, to, U256::ZERO, &encf(ON1155B, &[a(m.from), a(from), ln(ids), ln(vs), by(data)]));
        answer(r, ON1155B)
    }
}
/// `sup`: the supply extension, whose overall supply must stay within range.
fn e1155(w: &mut MW, m: &Msg, f: Sig, x: &[V], sup: bool) -> Option<Res> {
    let c = m.me;
    let may = |w: &MW, o: Address| o == m.from || w.s(c).oper.contains(&(o, m.from));
    let mint = |w: &mut MW, to: Address, ids: &[U256], vs: &[U256], data: &[u8]| -> Result<(), E> {
        if to.is_zero() {
            return fail();
        }
        update1155(w, m, Z, to, ids, vs)?;
        if sup && supply(w.s(c)).is_none() {
            return fail();
        }
        ask1155(w, m, Z, to, ids, vs, data)
    };
    let burn = |w: &mut MW, from: Address, ids: &[U256], vs: &[U256]| -> Result<(), E> {
        if from.is_zero() {
            return fail();
        }
        update1155(w, m, from, Z, ids, vs)
    };
    let tr = |w: &mut MW, from: Address, to: Address, ids: &[U256], vs: &[U256], data: &[u8]| -> Result<(), E> {
        if !may(w, from) || to.is_zero() || from.is_zero() {
            return fail();
        }
        update1155(w, m, from, to, ids, vs)?;
        ask1155(w, m, from, to, ids, vs, data)
    };
    let r = match f {
        "balanceOf(address,uint256)" => return Some(ret(n(mbal(w.s(c), x[0].addr(), x[1].n())))),
        "balanceOfBatch(address[],uint256[])" => {
            let (xs, ids) = (x[0].addrs(), x[1].ns());
            if xs.len() != ids.len() {
                return Some(fail());
            }
            let v: Vec<U256> = xs.iter().zip(&ids).map(|(o, i)| mbal(w.s(c), *o, *i)).collect();
            return Some(Ok(enc("uint256[]", &[ln(&v)])));
        }
        "isApprovedForAll(address,address)" => {
            return Some(ret(n(w.s(c).oper.contains(&(x[0].addr(), x[1].addr())))));
        }
        "setApprovalForAll(address,bool)" => approve_all(w, m.me, m.from, x[0].addr(), x[1].bool()),
        "safeTransferFrom(address,address,uint256,uint256,bytes)" => {
            tr(w, x[0].addr(), x[1].addr(), &[x[2].n()], &[x[3].n()], x[4].b())
        }
        "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)" => {
            tr(w, x[0].addr(), x[1].addr(), &x[2].ns(), &x[3].ns(), x[4].b())
        }
        "mint(address,uint256,uint256,bytes)" => mint(w, x[0].addr(), &[x[1].n()], &[x[2].n()], x[3].b()),
        "mintBatch(address,uint256[],uint256[],bytes)" => mint(w, x[0].addr(), &x[1].ns(), &x[2].ns(), x[3].b()),
        "burn(address,uint256,uint256)" | "burnBatch(address,uint256[],uint256[])" if !may(w, x[0].addr()) => fail(),
        "burn(address,uint256,uint256)" | "adminBurn(address,uint256,uint256)" => {
            burn(w, x[0].addr(), &[x[1].n()], &[x[2].n()])
        }
        "burnBatch(address,uint256[],uint256[])" | "adminBurnBatch(address,uint256[],uint256[])" => {
            burn(w, x[0].addr(), &x[1].ns(), &x[2].ns())
        }
        _ => return None,
    };
    Some(r.and_then(|_| ret0()))
}
/// Supply by id and overall, by definition; none if a sum is out of range.
pub fn supply_of(s: &S, id: U256) -> Option<U256> {
    s.mb.iter().filter(|(k, _)| k.1 == id).try_fold(U256::ZERO, |x, (_, v)| x.checked_add(*v))
}
pub fn supply(s: &S) -> Option<U256> {
    s.mb.values().try_fold(U256::ZERO, |x, v| x.checked_add(*v))
}
pub const T1155_SIGS: &[Sig] = &[
    "balanceOf(address,uint256)",
    "balanceOfBatch(address[],uint256[])",
    "isApprovedForAll(address,address)",
    "setApprovalForAll(address,bool)",
    "safeTransferFrom(address,address,uint256,uint256,bytes)",
    "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
    "mint(address,uint256,uint256,bytes)",
    "mintBatch(address,uint256[],uint256[],bytes)",
    "burn(address,uint256,uint256)",
    "burnBatch(address,uint256[],uint256[])",
    "adminBurn(address,uint256,uint256)",
    "adminBurnBatch(address,uint256[],uint256[])",
];
pub fn t1155(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    e1155(w, m, f, x, false).unwrap_or(fail())
}
pub const S1155_SIGS: &[Sig] = &[
    "balanceOf(address,uint256)",
    "balanceOfBatch(address[],uint256[])",
    "isApprovedForAll(address,address)",
    "setApprovalForAll(address,bool)",
    "safeTransferFrom(address,address,uint256,uint256,bytes)",
    "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
    "mint(address,uint256,uint256,bytes)",
    "mintBatch(address,uint256[],uint256[],bytes)",
    "adminBurn(address,uint256,uint256)",
    "adminBurnBatch(address,uint256[],uint256[])",
    "totalSupply(uint256)",
    "totalSupply()",
    "exists(uint256)",
];
pub fn s1155(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    match f {
        "totalSupply(uint256)" => ret(n(supply_of(w.s(c), x[0].n()).unwrap())),
        "totalSupply()" => ret(n(supply(w.s(c)).unwrap())),
        "exists(uint256)" => ret(n(!supply_of(w.s(c), x[0].n()).unwrap().is_zero())),
        _ => e1155(w, m, f, x, true).unwrap_or(fail()),
    }
}

// ------------------------------------------------------------------- royalties
pub const R2981_SIGS: &[Sig] = &[
    "royaltyInfo(uint256,uint256)",
    "setDefault(address,uint96)",
    "deleteDefault()",
    "setToken(uint256,address,uint96)",
    "resetToken(uint256)",
];
pub fn r2981(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    match f {
        "royaltyInfo(uint256,uint256)" => {
            let s = w.s(c);
            let (to, fr) = s.troy.get(&x[0].n()).copied().or(s.roy).unwrap_or_default();
            let Some(p) = x[1].n().checked_mul(fr) else { return fail() };
            if s.fee.is_zero() {
                return fail();
            }
            Ok(enc("address,uint256", &[a(to), n(p / s.fee)]))
        }
        "setDefault(address,uint96)" => {
            if x[0].addr().is_zero() || x[1].n() > w.s(c).fee {
                return fail();
            }
            w.m(c).roy = Some((x[0].addr(), x[1].n()));
            ret0()
        }
        "deleteDefault()" => {
            w.m(c).roy = None;
            ret0()
        }
        "setToken(uint256,address,uint96)" => {
            if x[1].addr().is_zero() || x[2].n() > w.s(c).fee {
                return fail();
            }
            w.m(c).troy.insert(x[0].n(), (x[1].addr(), x[2].n()));
            ret0()
        }
        "resetToken(uint256)" => {
            w.m(c).troy.remove(&x[0].n());
            ret0()
        }
        _ => fail(),
    }
}

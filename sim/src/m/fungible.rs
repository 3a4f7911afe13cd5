//! Reference models of the fungible-token components.
use crate::abi::*;
use crate::core::*;
use crate::model::*;
use alloy_primitives::{Address, Uint, U256};

pub type U512 = Uint<512, 8>;
pub const TRANSFER: Sig = "Transfer(address,address,uint256)";
pub const APPROVAL: Sig = "Approval(address,address,uint256)";
pub const Z: Address = Address::ZERO;

pub fn bal(w: &MW, c: Address, x: Address) -> U256 {
    w.s(c).bal.get(&x).copied().unwrap_or_default()
}
pub fn alw(w: &MW, c: Address, o: Address, s: Address) -> U256 {
    w.s(c).alw.get(&(o, s)).copied().unwrap_or_default()
}
/// Move, mint (from zero) or burn (to zero).
pub fn update(w: &mut MW, c: Address, from: Address, to: Address, v: U256) -> Result<(), E> {
    if from.is_zero() {
        let Some(x) = w.s(c).supply.checked_add(v) else { return fail() };
        w.m(c).supply = x;
    } else {
        let b = bal(w, c, from);
        if b < v {
            return fail();
        }
        w.m(c).bal.insert(from, b - v);
    }
    if to.is_zero() {
        let x = w.s(c).supply - v;
        w.m(c).supply = x;
    } else {
        let b = bal(w, c, to);
        w.m(c).bal.insert(to, b + v);
    }
    w.ev(c, TRANSFER, 3, &[a(from), a(to), n(v)]);
    Ok(())
}
pub fn mint(w: &mut MW, c: Address, to: Address, v: U256) -> Result<(), E> {
    if to.is_zero() {
        return fail();
    }
    update(w, c, Z, to, v)
}
pub fn burn(w: &mut MW, c: Address, from: Address, v: U256) -> Result<(), E> {
    if from.is_zero() {
        return fail();
    }
    update(w, c, from, Z, v)
}
pub fn transfer(w: &mut MW, c: Address, from: Address, to: Address, v: U256) -> Result<(), E> {
    if from.is_zero() || to.is_zero() {
        return fail();
    }
    update(w, c, from, to, v)
}
pub fn approve(w: &mut MW, c: Address, o: Address, s: Address, v: U256, emit: bool) -> Result<(), E> {
    if o.is_zero() || s.is_zero() {
        return fail();
    }
    w.m(c).alw.insert((o, s), v);
    if emit {
        w.ev(c, APPROVAL, 3, &[a(o), a(s), n(v)]);
    }
    Ok(())
}
pub fn spend(w: &mut MW, c: Address, o: Address, s: Address, v: U256) -> Result<(), E> {
    let x = alw(w, c, o, s);
    if x != U256::MAX {
        if x < v {
            return fail();
        }
        approve(w, c, o, s, x - v, false)?;
    }
    Ok(())
}
/// The standard ERC-20 functions.
pub fn e20(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Option<Res> {
    let c = m.me;
    Some(match f {
        "totalSupply()" => ret(n(w.s(c).supply)),
        "balanceOf(address)" => ret(n(bal(w, c, x[0].addr()))),
        "allowance(address,address)" => ret(n(alw(w, c, x[0].addr(), x[1].addr()))),
        "transfer(address,uint256)" => transfer(w, c, m.from, x[0].addr(), x[1].n()).and_then(|_| ret_true()),
        "approve(address,uint256)" => approve(w, c, m.from, x[0].addr(), x[1].n(), true).and_then(|_| ret_true()),
        "transferFrom(address,address,uint256)" => spend(w, c, x[0].addr(), m.from, x[2].n())
            .and_then(|_| transfer(w, c, x[0].addr(), x[1].addr(), x[2].n()))
            .and_then(|_| ret_true()),
        "name()" => ret_s(&w.s(c).name.clone()),
        "symbol()" => ret_s(&w.s(c).symbol.clone()),
        "mint(address,uint256)" => mint(w, c, x[0].addr(), x[1].n()).and_then(|_| ret0()),
        "burn(uint256)" => burn(w, c, m.from, x[0].n()).and_then(|_| ret0()),
        "burnFrom(address,uint256)" => spend(w, c, x[0].addr(), m.from, x[1].n())
            .and_then(|_| burn(w, c, x[0].addr(), x[1].n()))
            .and_then(|_| ret0()),
        "update(address,address,uint256)" => {
            update(w, c, x[0].addr(), x[1].addr(), x[2].n()).and_then(|_| ret0())
        }
        "adminBurn(address,uint256)" => burn(w, c, x[0].addr(), x[1].n()).and_then(|_| ret0()),
        "spendAllowance(address,address,uint256)" => {
            spend(w, c, x[0].addr(), x[1].addr(), x[2].n()).and_then(|_| ret0())
        }
        _ => return None,
    })
}

pub const T20_SIGS: &[Sig] = &[
    "totalSupply()",
    "balanceOf(address)",
    "allowance(address,address)",
    "transfer(address,uint256)",
    "approve(address,uint256)",
    "transferFrom(address,address,uint256)",
    "name()",
    "symbol()",
    "decimals()",
    "mint(address,uint256)",
    "burn(uint256)",
    "burnFrom(address,uint256)",
    "update(address,address,uint256)",
    "adminBurn(address,uint256)",
    "spendAllowance(address,address,uint256)",
];
pub fn t20(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    match f {
        "decimals()" => ret(n(18u64)),
        _ => e20(w, m, f, x).unwrap_or(fail()),
    }
}

pub const P20_SIGS: &[Sig] = &[
    "totalSupply()",
    "balanceOf(address)",
    "allowance(address,address)",
    "transfer(address,uint256)",
    "approve(address,uint256)",
    "transferFrom(address,address,uint256)",
    "name()",
    "symbol()",
    "decimals()",
    "mint(address,uint256)",
    "burn(uint256)",
    "burnFrom(address,uint256)",
    "cap()",
    "paused()",
    "pause()",
    "unpause()",
    "emergency()",
];
pub fn p20(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    match f {
        "decimals()" => ret(n(10u64)),
        "cap()" => ret(n(w.s(c).cap)),
        "paused()" => ret(n(w.s(c).paused)),
        "pause()" => {
            if w.s(c).paused {
                return fail();
            }
            w.m(c).paused = true;
            w.ev(c, "Paused(address)", 0, &[a(m.from)]);
            ret0()
        }
        "unpause()" => {
            if !w.s(c).paused {
                return fail();
            }
            w.m(c).paused = false;
            w.ev(c, "Unpaused(address)", 0, &[a(m.from)]);
            ret0()
        }
        "emergency()" => {
            if !w.s(c).paused {
                return fail();
            }
            w.m(c).counter += U256::from(1);
            ret(n(w.s(c).counter))
        }
        "mint(address,uint256)" | "burn(uint256)" | "burnFrom(address,uint256)" | "transfer(address,uint256)"
        | "transferFrom(address,address,uint256)" => {
            if w.s(c).paused {
                return fail();
            }
            if f.starts_with("mint") {
                match w.s(c).supply.checked_add(x[1].n()) {
                    Some(t) if t <= w.s(c).cap => {}
                    _ => return fail(),
                }
            }
            e20(w, m, f, x).unwrap_or(fail())
        }
        _ => e20(w, m, f, x).unwrap_or(fail()),
    }
}

// -------------------------------------------------------- nonces, permit, ecdsa
pub const PERM_SIGS: &[Sig] = &[
    "totalSupply()",
    "balanceOf(address)",
    "allowance(address,address)",
    "transfer(address,uint256)",
    "approve(address,uint256)",
    "transferFrom(address,address,uint256)",
    "mint(address,uint256)",
    "nonces(address)",
    "eip712Domain()",
    "DOMAIN_SEPARATOR()",
    "permit(address,address,uint256,uint256,uint8,bytes32,bytes32)",
    "useNonce(address)",
    "useCheckedNonce(address,uint256)",
    "useMany(address,uint256)",
    "recover(bytes32,uint8,bytes32,bytes32)",
];
pub fn domain(chain: u64, c: Address) -> [u8; 32] {
    keccak(&enc(
        "bytes32,bytes32,bytes32,uint256,address",
        &[
            by(&keccak(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)")),
            by(&keccak(b"Permit Sim")),
            by(&keccak(b"7")),
            n(chain),
            a(c),
        ],
    ))
}
pub fn permit_digest(dom: &[u8; 32], o: Address, s: Address, v: U256, nonce: U256, dl: U256) -> [u8; 32] {
    let h = keccak(&enc(
        "bytes32,address,address,uint256,uint256,uint256",
        &[
            by(&keccak(
                b"Permit(address owner,address spender,uint256 value,uint256 nonce,uint256 deadline)",
            )),
            a(o),
            a(s),
            n(v),
            n(nonce),
            n(dl),
        ],
    ));
    let mut p = vec![0x19, 1];
    p.extend_from_slice(dom);
    p.extend_from_slice(&h);
    keccak(&p)
}
pub fn half_n() -> U256 {
    // (order of secp256k1) / 2
    U256::from_str_radix("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF5D576E7357A4501DDFE92F46681B20A0", 16).unwrap()
}
pub fn recover(w: &mut MW, m: &Msg, h: &[u8], v: U256, r: &[u8], s: &[u8]) -> Result<Address, E> {
    let inv = encf("ECDSAInvalidSignature()", &[]);
    let mut errs = vec![];
    let d = enc("bytes32,uint8,bytes32,bytes32", &[by(h), n(v), by(r), by(s)]);
    // if the precompile call itself fails, recovery fails, in whatever way
    let Ok(o) = w.ext_static(m, crate::engine::EC, &d) else { return fail() };
    if U256::from_be_slice(s) > half_n() {
        errs.push(encf("ECDSAInvalidSignatureS(bytes32)", &[by(s)]));
        if v != U256::from(27) && v != U256::from(28) {
            errs.push(inv);
        }
        return Err(E::X(errs));
    }
    if v != U256::from(27) && v != U256::from(28) {
        return Err(E::X(vec![inv]));
    }
    if o.len() != 32 || o.iter().all(|b| *b == 0) {
        return Err(E::X(vec![inv]));
    }
    Ok(Address::from_slice(&o[12..]))
}
pub fn perm(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    match f {
        "nonces(address)" => ret(n(w.s(c).nonce.get(&x[0].addr()).copied().unwrap_or_default())),
        "eip712Domain()" => {
            let h = |s: &str| U256::from_be_bytes(keccak(s.as_bytes()));
            let me = U256::from_be_slice(c.as_slice());
            let v = ln(&[
                U256::from(15),
                U256::from(w.chain),
                me,
                U256::ZERO,
                U256::ZERO,
                h("Permit Sim"),
                h("7"),
                U256::from_be_bytes(domain(w.chain, c)),
            ]);
            Ok(enc("uint256[]", &[v]))
        }
        "DOMAIN_SEPARATOR()" => Ok(domain(w.chain, c).to_vec()),
        "useNonce(address)" => {
            let k = w.m(c).nonce.entry(x[0].addr()).or_default();
            let o = *k;
            let Some(x) = k.checked_add(U256::from(1)) else { return fail() };
            *k = x;
            ret(n(o))
        }
        "useMany(address,uint256)" => {
            let k = w.m(c).nonce.entry(x[0].addr()).or_default();
            let Some(z) = k.checked_add(x[1].n()) else { return fail() };
            *k = z;
            ret(n(*k - U256::from(1)))
        }
        "useCheckedNonce(address,uint256)" => {
            let k = w.m(c).nonce.entry(x[0].addr()).or_default();
            if *k != x[1].n() || *k == U256::MAX {
                return fail();
            }
            *k += U256::from(1);
            ret0()
        }
        "recover(bytes32,uint8,bytes32,bytes32)" => {
            let r = recover(w, m, x[0].b(), x[1].n(), x[2].b(), x[3].b())?;
            ret(a(r))
        }
        "permit(address,address,uint256,uint256,uint8,bytes32,bytes32)" => {
            let (o, s, v, dl) = (x[0].addr(), x[1].addr(), x[2].n(), x[3].n());
            if U256::from(w.now) > dl {
                return fail();
            }
            let k = w.m(c).nonce.entry(o).or_default();
            let nonce = *k;
            let Some(z) = k.checked_add(U256::from(1)) else { return fail() };
            *k = z;
            let h = permit_digest(&domain(w.chain, c), o, s, v, nonce, dl);
            let Ok(r) = recover(w, m, &h, x[4].n(), x[5].b(), x[6].b()) else { return fail() };
            if r != o {
                return fail();
            }
            approve(w, c, o, s, v, true)?;
            ret0()
        }
        _ => e20(w, m, f, x).unwrap_or(fail()),
    }
}

// -------------------------------------------------------------------- safe calls
pub fn safe_call(w: &mut MW, m: &Msg, tok: Address, data: &[u8]) -> Result<(), E> {
    if !w.has_code(tok) {
        return fail();
    }
    let Ok(d) = w.ext(m, tok, U256::ZERO, data) else { return fail() };
    if d.is_empty() || (d.len() >= 32 && U256::from_be_slice(&d[..32]) == U256::from(1)) {
        Ok(())
    } else {
        fail()
    }
}
pub fn safe_transfer(w: &mut MW, m: &Msg, tok: Address, to: Address, v: U256) -> Result<(), E> {
    safe_call(w, m, tok, &encf("transfer(address,uint256)", &[a(to), n(v)]))
}
pub fn safe_transfer_from(w: &mut MW, m: &Msg, tok: Address, f: Address, to: Address, v: U256) -> Result<(), E> {
    safe_call(w, m, tok, &encf("transferFrom(address,address,uint256)", &[a(f), a(to), n(v)]))
}
pub fn uint_of(r: Res) -> Result<U256, E> {
    match r {
        Ok(d) if d.len() >= 32 => Ok(U256::from_be_slice(&d[..32])),
        _ => fail(),
    }
}
pub const SAFE_SIGS: &[Sig] = &[
    "safeTransfer(address,address,uint256)",
    "safeTransferFrom(address,address,address,uint256)",
    "safeIncreaseAllowance(address,address,uint256)",
    "safeDecreaseAllowance(address,address,uint256)",
    "forceApprove(address,address,uint256)",
];
fn force_approve(w: &mut MW, m: &Msg, t: Address, s: Address, v: U256) -> Result<(), E> {
    let d = encf("approve(address,uint256)", &[a(s), n(v)]);
    if safe_call(w, m, t, &d).is_ok() {
        return Ok(());
    }
    safe_call(w, m, t, &encf("approve(address,uint256)", &[a(s), n(0u64)]))?;
    safe_call(w, m, t, &d)
}
pub fn safe(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let t = x[0].addr();
    let alw = |w: &mut MW| -> Result<U256, E> {
        if !w.has_code(t) {
            return fail();
        }
        uint_of(w.ext_static(m, t, &encf("allowance(address,address)", &[a(m.me), a(x[1].addr())])))
    };
    match f {
        "safeTransfer(address,address,uint256)" => safe_transfer(w, m, t, x[1].addr(), x[2].n())?,
        "safeTransferFrom(address,address,address,uint256)" => {
            safe_transfer_from(w, m, t, x[1].addr(), x[2].addr(), x[3].n())?
        }
        "safeIncreaseAllowance(address,address,uint256)" => {
            let c = alw(w)?;
            let Some(v) = c.checked_add(x[2].n()) else { return fail() };
            force_approve(w, m, t, x[1].addr(), v)?
        }
        "safeDecreaseAllowance(address,address,uint256)" => {
            let c = alw(w)?;
            if c < x[2].n() {
                return fail();
            }
            force_approve(w, m, t, x[1].addr(), c - x[2].n())?
        }
        "forceApprove(address,address,uint256)" => force_approve(w, m, t, x[1].addr(), x[2].n())?,
        _ => return fail(),
    }
    ret0()
}

// ------------------------------------------------------------------------- vault
pub const VAULT_SIGS: &[Sig] = &[
    "totalSupply()",
    "balanceOf(address)",
    "allowance(address,address)",
    "transfer(address,uint256)",
    "approve(address,uint256)",
    "transferFrom(address,address,uint256)",
    "name()",
    "symbol()",
    "decimals()",
    "asset()",
    "totalAssets()",
    "convertToShares(uint256)",
    "convertToAssets(uint256)",
    "maxDeposit(address)",
    "previewDeposit(uint256)",
    "deposit(uint256,address)",
    "maxMint(address)",
    "previewMint(uint256)",
    "mint(uint256,address)",
    "maxWithdraw(address)",
    "previewWithdraw(uint256)",
    "withdraw(uint256,address,address)",
    "maxRedeem(address)",
    "previewRedeem(uint256)",
    "redeem(uint256,address,address)",
];
pub fn mul_div(x: U256, y: U256, d: U256, up: bool) -> Result<U256, E> {
    if d.is_zero() {
        return fail();
    }
    let p = U512::from(x) * U512::from(y);
    let q = p / U512::from(d);
    let rem = p % U512::from(d);
    let q = if up && !rem.is_zero() { q + U512::from(1) } else { q };
    if q > U512::from(U256::MAX) {
        return fail();
    }
    Ok(U256::from(q))
}
fn total_assets(w: &mut MW, m: &Msg) -> Result<U256, E> {
    let asset = w.s(m.me).asset;
    uint_of(w.ext_static(m, asset, &encf("balanceOf(address)", &[a(m.me)])))
}
fn vparts(w: &mut MW, m: &Msg) -> Result<(U256, U256), E> {
    let t = total_assets(w, m)?;
    let Some(t1) = t.checked_add(U256::from(1)) else { return fail() };
    let s = w.s(m.me);
    let Some(o) = U256::from(10).checked_pow(U256::from(s.off)) else { return fail() };
    let Some(s1) = s.supply.checked_add(o) else { return fail() };
    Ok((t1, s1))
}
fn to_shares(w: &mut MW, m: &Msg, v: U256, up: bool) -> Result<U256, E> {
    let (t, s) = vparts(w, m)?;
    mul_div(v, s, t, up)
}
fn to_assets(w: &mut MW, m: &Msg, v: U256, up: bool) -> Result<U256, E> {
    let (t, s) = vparts(w, m)?;
    mul_div(v, t, s, up)
}
fn vdeposit(w: &mut MW, m: &Msg, rcv: Address, assets: U256, shares: U256) -> Result<(), E> {
    let asset = w.s(m.me).asset;
    safe_transfer_from(w, m, asset, m.from, m.me, assets)?;
    mint(w, m.me, rcv, shares)?;
    w.ev(m.me, "Deposit(address,address,uint256,uint256)", 3, &[a(m.from), a(rcv), n(assets), n(shares)]);
    Ok(())
}
fn vwithdraw(w: &mut MW, m: &Msg, rcv: Address, own: Address, assets: U256, shares: U256) -> Result<(), E> {
    if m.from != own {
        spend(w, m.me, own, m.from, shares)?;
    }
    burn(w, m.me, own, shares)?;
    let asset = w.s(m.me).asset;
    safe_transfer(w, m, asset, rcv, assets)?;
    w.ev(
        m.me,
        "Withdraw(address,address,address,uint256,uint256)",
        7,
        &[a(m.from), a(rcv), a(own), n(assets), n(shares)],
    );
    Ok(())
}
pub fn vault(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    match f {
        "decimals()" => {
            let s = w.s(c);
            match s.dec.checked_add(s.off) {
                Some(d) => ret(n(d as u64)),
                None => fail(),
            }
        }
        "asset()" => ret(a(w.s(c).asset)),
        "totalAssets()" => total_assets(w, m).and_then(|v| ret(n(v))),
        "convertToShares(uint256)" | "previewDeposit(uint256)" => {
            to_shares(w, m, x[0].n(), false).and_then(|v| ret(n(v)))
        }
        "convertToAssets(uint256)" | "previewRedeem(uint256)" => {
            to_assets(w, m, x[0].n(), false).and_then(|v| ret(n(v)))
        }
        "previewMint(uint256)" => to_assets(w, m, x[0].n(), true).and_then(|v| ret(n(v))),
        "previewWithdraw(uint256)" => to_shares(w, m, x[0].n(), true).and_then(|v| ret(n(v))),
        "maxDeposit(address)" | "maxMint(address)" => ret(n(U256::MAX)),
        "maxWithdraw(address)" => {
            let b = bal(w, c, x[0].addr());
            to_assets(w, m, b, false).and_then(|v| ret(n(v)))
        }
        "maxRedeem(address)" => ret(n(bal(w, c, x[0].addr()))),
        "deposit(uint256,address)" => {
            let sh = to_shares(w, m, x[0].n(), false)?;
            vdeposit(w, m, x[1].addr(), x[0].n(), sh)?;
            ret(n(sh))
        }
        "mint(uint256,address)" => {
            let v = to_assets(w, m, x[0].n(), true)?;
            vdeposit(w, m, x[1].addr(), v, x[0].n())?;
            ret(n(v))
        }
        "withdraw(uint256,address,address)" => {
            let own = x[2].addr();
            let b = bal(w, c, own);
            let max = to_assets(w, m, b, false)?;
            if x[0].n() > max {
                return fail();
            }
            let sh = to_shares(w, m, x[0].n(), true)?;
            vwithdraw(w, m, x[1].addr(), own, x[0].n(), sh)?;
            ret(n(sh))
        }
        "redeem(uint256,address,address)" => {
            let own = x[2].addr();
            if x[0].n() > bal(w, c, own) {
                return fail();
            }
            let v = to_assets(w, m, x[0].n(), false)?;
            vwithdraw(w, m, x[1].addr(), own, v, x[0].n())?;
            ret(n(v))
        }
        "mint(address,uint256)" | "burn(uint256)" => fail(),
        _ => e20(w, m, f, x).unwrap_or(fail()),
    }
}

// -------------------------------------------------------------------- flash mint
pub const FLASH_SIGS: &[Sig] = &[
    "totalSupply()",
    "balanceOf(address)",
    "allowance(address,address)",
    "transfer(address,uint256)",
    "approve(address,uint256)",
    "transferFrom(address,address,uint256)",
    "mint(address,uint256)",
    "burn(uint256)",
    "maxFlashLoan(address)",
    "flashFee(address,uint256)",
    "flashLoan(address,address,uint256,bytes)",
];
pub fn flash(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    match f {
        "maxFlashLoan(address)" => {
            ret(n(if x[0].addr() == c { U256::MAX - w.s(c).supply } else { U256::ZERO }))
        }
        "flashFee(address,uint256)" => {
            if x[0].addr() == c {
                ret(n(w.s(c).fee))
            } else {
                fail()
            }
        }
        "flashLoan(address,address,uint256,bytes)" => {
            let (rcv, tok, v) = (x[0].addr(), x[1].addr(), x[2].n());
            if tok != c || v > U256::MAX - w.s(c).supply || !w.has_code(rcv) {
                return fail();
            }
            let fee = w.s(c).fee;
            mint(w, c, rcv, v)?;
            let d = encf(ONFLASH, &[a(m.from), a(tok), n(v), n(fee), x[3].clone()]);
            let Ok(o) = w.ext(m, rcv, U256::ZERO, &d) else { return fail() };
            if o.len() < 32 || o[..32] != flash_magic()[..] {
                return fail();
            }
            let Some(total) = v.checked_add(fee) else { return fail() };
            spend(w, c, rcv, c, total)?;
            let ft = w.s(c).fee_to;
            if fee.is_zero() || ft.is_zero() {
                burn(w, c, rcv, total)?;
            } else {
                // a borrower that is its own fee receiver has to show the fee, or not, depending
                // on whether the loan is burnt or the fee paid first
                let b = bal(w, c, rcv);
                if ft == rcv && b >= v && b < total {
                    w.vague = true;
                }
                burn(w, c, rcv, v)?;
                transfer(w, c, rcv, ft, fee)?;
            }
            ret_true()
        }
        _ => e20(w, m, f, x).unwrap_or(fail()),
    }
}

// ----------------------------------------------------------------------- wrapper
pub const WRAP_SIGS: &[Sig] = &[
    "totalSupply()",
    "balanceOf(address)",
    "allowance(address,address)",
    "transfer(address,uint256)",
    "approve(address,uint256)",
    "transferFrom(address,address,uint256)",
    "underlying()",
    "decimals()",
    "depositFor(address,uint256)",
    "withdrawTo(address,uint256)",
    "recover(address)",
];
pub fn wrap20(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    match f {
        "underlying()" => ret(a(w.s(c).asset)),
        "decimals()" => ret(n(w.s(c).dec as u64)),
        "depositFor(address,uint256)" => {
            if m.from == c || x[0].addr() == c {
                return fail();
            }
            let u = w.s(c).asset;
            safe_transfer_from(w, m, u, m.from, c, x[1].n())?;
            mint(w, c, x[0].addr(), x[1].n())?;
            ret_true()
        }
        "withdrawTo(address,uint256)" => {
            if x[0].addr() == c {
                return fail();
            }
            burn(w, c, m.from, x[1].n())?;
            let u = w.s(c).asset;
            safe_transfer(w, m, u, x[0].addr(), x[1].n())?;
            ret_true()
        }
        "recover(address)" => {
            let u = w.s(c).asset;
            let b = uint_of(w.ext_static(m, u, &encf("balanceOf(address)", &[a(c)])))?;
            let Some(v) = b.checked_sub(w.s(c).supply) else { return fail() };
            if !v.is_zero() {
                mint(w, c, x[0].addr(), v)?;
            }
            ret(n(v))
        }
        _ => e20(w, m, f, x).unwrap_or(fail()),
    }
}

// ----------------------------------------------------------------------- vesting
pub const VEST_SIGS: &[Sig] = &[
    "owner()",
    "transferOwnership(address)",
    "renounceOwnership()",
    "start()",
    "duration()",
    "end()",
    "released()",
    "released(address)",
    "releasable()",
    "releasable(address)",
    "release()",
    "release(address)",
    "vestedAmount(uint64)",
    "vestedAmount(address,uint64)",
];
fn schedule(w: &MW, c: Address, total: U256, t: u64) -> Result<U256, E> {
    let s = w.s(c);
    let (st, du, t) = (U256::from(s.start), U256::from(s.dur), U256::from(t));
    if t < st {
        Ok(U256::ZERO)
    } else if t >= st + du {
        Ok(total)
    } else {
        match total.checked_mul(t - st) {
            Some(p) => Ok(p / du),
            None => fail(),
        }
    }
}
fn vested_eth(w: &MW, c: Address, t: u64) -> Result<U256, E> {
    match w.eth(c).checked_add(w.s(c).released) {
        Some(x) => schedule(w, c, x, t),
        None => fail(),
    }
}
fn tok_rel(w: &MW, c: Address, t: Address) -> U256 {
    w.s(c).tok_released.get(&t).copied().unwrap_or_default()
}
fn vested_tok(w: &mut MW, m: &Msg, tok: Address, t: u64) -> Result<U256, E> {
    let b = uint_of(w.ext_static(m, tok, &encf("balanceOf(address)", &[a(m.me)])))?;
    match b.checked_add(tok_rel(w, m.me, tok)) {
        Some(x) => schedule(w, m.me, x, t),
        None => fail(),
    }
}
pub fn own_only(w: &MW, m: &Msg) -> Result<(), E> {
    if w.s(m.me).owner == m.from {
        Ok(())
    } else {
        fail()
    }
}
pub fn set_owner(w: &mut MW, c: Address, x: Address) {
    let old = w.s(c).owner;
    w.m(c).owner = x;
    w.ev(c, "OwnershipTransferred(address,address)", 3, &[a(old), a(x)]);
}
pub fn vest(w: &mut MW, m: &Msg, f: Sig, x: &[V]) -> Res {
    let c = m.me;
    match f {
        "" => ret0(),
        "owner()" => ret(a(w.s(c).owner)),
        "transferOwnership(address)" => {
            own_only(w, m)?;
            if x[0].addr().is_zero() {
                return fail();
            }
            set_owner(w, c, x[0].addr());
            ret0()
        }
        "renounceOwnership()" => {
            own_only(w, m)?;
            set_owner(w, c, Z);
            ret0()
        }
        "start()" => ret(n(w.s(c).start)),
        "duration()" => ret(n(w.s(c).dur)),
        "end()" => ret(n(U256::from(w.s(c).start) + U256::from(w.s(c).dur))),
        "released()" => ret(n(w.s(c).released)),
        "released(address)" => ret(n(tok_rel(w, c, x[0].addr()))),
        "releasable()" => {
            let v = vested_eth(w, c, w.now)?;
            ret(n(v.wrapping_sub(w.s(c).released)))
        }
        "releasable(address)" => {
            let v = vested_tok(w, m, x[0].addr(), w.now)?;
            ret(n(v.wrapping_sub(tok_rel(w, c, x[0].addr()))))
        }
        "vestedAmount(uint64)" => vested_eth(w, c, x[0].n().to::<u64>()).and_then(|v| ret(n(v))),
        "vestedAmount(address,uint64)" => {
            vested_tok(w, m, x[0].addr(), x[1].n().to::<u64>()).and_then(|v| ret(n(v)))
        }
        "release()" => {
            let v = vested_eth(w, c, w.now)?;
            let Some(am) = v.checked_sub(w.s(c).released) else { return fail() };
            w.m(c).released += am;
            let o = w.s(c).owner;
            if w.ext(m, o, am, &[]).is_err() {
                return fail();
            }
            w.ev(c, "EtherReleased(uint256)", 0, &[n(am)]);
            ret0()
        }
        "release(address)" => {
            let t = x[0].addr();
            let v = vested_tok(w, m, t, w.now)?;
            let rel = tok_rel(w, c, t);
            let Some(am) = v.checked_sub(rel) else { return fail() };
            w.m(c).tok_released.insert(t, rel + am);
            let o = w.s(c).owner;
            safe_transfer(w, m, t, o, am)?;
            w.ev(c, "ERC20Released(address,uint256)", 1, &[a(t), n(am)]);
            ret0()
        }
        _ => fail(),
    }
}

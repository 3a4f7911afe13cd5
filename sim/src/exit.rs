//! Progress: from the state reached, once faults stop, everybody who holds something can get it
//! out and everybody who is in charge can act, within a bounded number of transactions. Judged on
//! the real contract alone: what the queries report is what must come out.
use crate::abi::*;
use crate::core::*;
use crate::engine::*;
use crate::f::fungible::sign;
use crate::host::Code;
use crate::m::fungible as mf;
use crate::rng::Rng;
use alloy_primitives::{Address, U256};
use std::collections::BTreeSet;

type R<T> = Result<T, (String, String)>;
const Z: U256 = U256::ZERO;

fn stuck<T>(f: &str, d: String) -> R<T> {
    Err((format!("stuck:{f}"), d))
}
/// Runs the exit from the current state of the real world; the caller restores the state.
pub struct Exit<'a> {
    s: &'a mut Sim,
    r: Rng,
    pub txs: u64,
    pub moved: u64,
}
impl<'a> Exit<'a> {
    pub fn new(s: &'a mut Sim, seed: u64) -> Exit<'a> {
        Exit { s, r: Rng::new(seed), txs: 0, moved: 0 }
    }
    fn has(&self, f: Sig) -> bool {
        self.s.m.has_sig(C0, f)
    }
    fn ask(&mut self, to: Address, o: Op) -> Res {
        let r = self.s.w.query(eoa(0), to, &o);
        self.s.w.panics = 0;
        r
    }
    /// a number a query reports, which must not fail
    fn num(&mut self, o: Op) -> R<U256> {
        let f = o.f;
        match self.ask(C0, o.clone()) {
            Ok(d) if d.len() >= 32 => Ok(U256::from_be_slice(&d[..32])),
            _ => stuck(f, format!("{} does not answer", show_op(&o))),
        }
    }
    fn try_num(&mut self, to: Address, o: Op) -> Option<U256> {
        match self.ask(to, o) {
            Ok(d) if d.len() == 32 => Some(U256::from_be_slice(&d)),
            _ => None,
        }
    }
    /// a transaction that has to go through
    fn must(&mut self, from: Address, o: Op, why: &str) -> R<Vec<u8>> {
        let t = Tx { from, to: C0, value: Z, op: o, plans: vec![], oog: vec![] };
        self.txs += 1;
        let r = self.s.w.exec(&t, false);
        self.s.w.panics = 0;
        match r {
            Ok(d) => Ok(d),
            Err(_) => stuck(t.op.f, format!("{} by {from} fails: {why}", show_op(&t.op))),
        }
    }
    fn expect(&mut self, o: Op, v: U256, why: &str) -> R<()> {
        let f = o.f;
        let x = self.num(o.clone())?;
        if x != v {
            return stuck(f, format!("{} is {x:#x}, not {v:#x}: {why}", show_op(&o)));
        }
        Ok(())
    }
    fn can_act(&self, x: Address) -> bool {
        !x.is_zero() && matches!(self.s.w.code.get(&x), None | Some(Code::None) | Some(Code::Stub))
    }
    fn no_code(&self, x: Address) -> bool {
        !x.is_zero() && matches!(self.s.w.code.get(&x), None | Some(Code::None))
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    /// everybody who may hold something
    fn people(&mut self) -> Vec<Address> {
        let st = self.s.m.s(C0);
        let mut p: BTreeSet<Address> = st.bal.keys().copied().collect();
        p.extend(st.owner_of.values().copied());
        p.extend(st.mb.keys().map(|k| k.0));
        p.extend(self.s.who.iter().copied());
        p.remove(&Address::ZERO);
        let mut v: Vec<Address> = p.into_iter().collect();
        self.shuffle(&mut v);
        v
    }
    /// an account without code that takes things over
    fn sink(&self) -> Address {
        let mut b = [0x51u8; 20];
        b[0] = 0x5e;
        Address::new(b)
    }
    pub fn run(&mut self) -> R<()> {
        if self.has("paused()") && !self.num(op("paused()", vec![]))?.is_zero() {
            self.must(eoa(1), op("unpause()", vec![]), "the contract is paused")?;
            self.expect(op("paused()", vec![]), Z, "it was unpaused")?;
        }
        if self.has("redeem(uint256,address,address)") {
            return self.vault();
        }
        if self.has("depositFor(address,uint256)") {
            return self.wrapped();
        }
        if self.has("transfer(address,uint256)") {
            if self.has("permit(address,address,uint256,uint256,uint8,bytes32,bytes32)") {
                self.permits()?;
            }
            return self.fungible();
        }
        if self.has("release()") {
            return self.vesting();
        }
        if self.has("ownerOf(uint256)") {
            return self.nft();
        }
        if self.has("balanceOf(address,uint256)") {
            return self.multi();
        }
        if self.has("transferOwnership(address)") {
            return self.owner();
        }
        if self.has("grantRole(bytes32,address)") {
            return self.roles();
        }
        if self.has("push(uint256,uint256)") {
            return self.trace();
        }
        if self.has("unset(uint256)") {
            return self.bits();
        }
        Ok(())
    }
    fn fungible(&mut self) -> R<()> {
        let sink = self.sink();
        let mut locked = Z;
        let sup = self.num(op("totalSupply()", vec![]))?;
        let burn = self.has("burn(uint256)");
        for h in self.people() {
            let b = self.num(op("balanceOf(address)", vec![a(h)]))?;
            if b.is_zero() || h == sink {
                continue;
            }
            if !self.can_act(h) {
                locked = locked.wrapping_add(b);
                continue;
            }
            self.moved += 1;
            match self.r.below(3) {
                0 if burn => {
                    self.must(h, op("burn(uint256)", vec![n(b)]), "the holder burns all it has")?;
                }
                1 => {
                    self.must(h, op("approve(address,uint256)", vec![a(sink), n(b)]), "the holder lets somebody take all it has")?;
                    self.must(sink, op("transferFrom(address,address,uint256)", vec![a(h), a(sink), n(b)]), "the allowance and the balance cover it")?;
                }
                _ => {
                    self.must(h, op("transfer(address,uint256)", vec![a(sink), n(b)]), "the holder sends all it has")?;
                }
            }
            self.expect(op("balanceOf(address)", vec![a(h)]), Z, "everything was sent away")?;
        }
        let b = self.num(op("balanceOf(address)", vec![a(sink)]))?;
        if burn {
            self.must(sink, op("burn(uint256)", vec![n(b)]), "the holder burns all it has")?;
            self.expect(op("totalSupply()", vec![]), locked, "everybody else left")?;
        } else if locked.wrapping_add(b) != sup {
            return stuck("totalSupply()", format!("of a supply of {sup:#x} only {:#x} could be collected", locked.wrapping_add(b)));
        }
        // and the emptied token can be used again
        if self.has("mint(address,uint256)") {
            let cur = self.num(op("totalSupply()", vec![]))?;
            let top = if self.has("cap()") { self.num(op("cap()", vec![]))? } else { U256::MAX };
            if cur < top {
                let v = top - cur;
                self.must(eoa(0), op("mint(address,uint256)", vec![a(sink), n(v)]), "the supply may grow to its limit")?;
                self.expect(op("totalSupply()", vec![]), top, "the supply grew to its limit")?;
            }
        }
        Ok(())
    }
    fn permits(&mut self) -> R<()> {
        for at in [C0, C1] {
            let i = self.r.below(2) as usize;
            let (o, sp) = (eoa(i), eoa(i + 1));
            let Some(k) = self.try_num(at, op("nonces(address)", vec![a(o)])) else {
                return stuck("nonces(address)", "nonces does not answer".into());
            };
            if k == U256::MAX {
                continue;
            }
            let v = U256::from(77);
            let dl = U256::from(self.s.w.now);
            let h = mf::permit_digest(&mf::domain(self.s.w.chain, at), o, sp, v, k, dl);
            let (vv, r, s) = sign(&h, i);
            let t = Tx {
                from: sp,
                to: at,
                value: Z,
                op: op(
                    "permit(address,address,uint256,uint256,uint8,bytes32,bytes32)",
                    vec![a(o), a(sp), n(v), n(dl), n(vv as u64), by(&r), by(&s)],
                ),
                plans: vec![],
                oog: vec![],
            };
            self.txs += 1;
            if self.s.w.exec(&t, false).is_err() {
                return stuck(t.op.f, format!("a freshly signed permit for nonce {k:#x} fails"));
            }
            if self.try_num(at, op("allowance(address,address)", vec![a(o), a(sp)])) != Some(v) {
                return stuck(t.op.f, "an accepted permit grants nothing".into());
            }
        }
        Ok(())
    }
    /// what the simulated asset says `x` holds
    fn asset_of(&mut self, x: Address) -> Option<U256> {
        match self.s.w.code.get(&TK) {
            Some(Code::Tok(_)) => Some(self.s.w.kv.get(&kbal(TK, x)).copied().unwrap_or_default()),
            Some(Code::Contract { .. }) => self.try_num(TK, op("balanceOf(address)", vec![a(x)])),
            _ => None,
        }
    }
    fn vault(&mut self) -> R<()> {
        let Some(held) = self.asset_of(C0) else { return Ok(()) };
        let sup = self.num(op("totalSupply()", vec![]))?;
        // far from the numeric limits, where rounding products fit
        let lim = U256::from(1) << 180;
        if held >= lim || sup >= lim || self.s.cfg.n("off") > U256::from(24) {
            return Ok(());
        }
        let mut locked = Z;
        for h in self.people() {
            let b = self.num(op("balanceOf(address)", vec![a(h)]))?;
            if b.is_zero() {
                continue;
            }
            if !self.can_act(h) {
                locked = locked.wrapping_add(b);
                continue;
            }
            self.moved += 1;
            let to = if self.r.pct(50) { h } else { self.sink() };
            let before = self.asset_of(to).unwrap_or_default();
            let max = self.num(op("maxRedeem(address)", vec![a(h)]))?;
            if max != b {
                return stuck("maxRedeem(address)", format!("{h} holds {b:#x} shares but may redeem {max:#x}"));
            }
            if self.r.pct(30) {
                // first everything that can be taken as assets, then the dust
                let w = self.num(op("maxWithdraw(address)", vec![a(h)]))?;
                self.must(h, op("withdraw(uint256,address,address)", vec![n(w), a(to), a(h)]), "it is what maxWithdraw offers")?;
            }
            let rest = self.num(op("balanceOf(address)", vec![a(h)]))?;
            let got = self.must(h, op("redeem(uint256,address,address)", vec![n(rest), a(to), a(h)]), "the holder redeems all its shares")?;
            self.expect(op("balanceOf(address)", vec![a(h)]), Z, "all shares were redeemed")?;
            let after = self.asset_of(to).unwrap_or_default();
            let got = if got.len() == 32 { U256::from_be_slice(&got) } else { U256::MAX };
            if after < before.saturating_add(got) && to != C0 {
                return stuck("redeem(uint256,address,address)", format!("{got:#x} assets were promised, {:#x} arrived", after.wrapping_sub(before)));
            }
        }
        self.expect(op("totalSupply()", vec![]), locked, "every holder left the vault")
    }
    fn wrapped(&mut self) -> R<()> {
        let Some(held) = self.asset_of(C0) else { return Ok(()) };
        let sup = self.num(op("totalSupply()", vec![]))?;
        if held < sup {
            // a misbehaving underlying token took its own backing away
            return Ok(());
        }
        let mut locked = Z;
        for h in self.people() {
            let b = self.num(op("balanceOf(address)", vec![a(h)]))?;
            if b.is_zero() {
                continue;
            }
            if !self.can_act(h) {
                locked = locked.wrapping_add(b);
                continue;
            }
            self.moved += 1;
            let to = if self.r.pct(50) { h } else { self.sink() };
            let before = self.asset_of(to).unwrap_or_default();
            if before.checked_add(b).is_none() {
                locked = locked.wrapping_add(b);
                continue;
            }
            self.must(h, op("withdrawTo(address,uint256)", vec![a(to), n(b)]), "the holder unwraps all it has")?;
            if self.asset_of(to) != Some(before + b) {
                return stuck("withdrawTo(address,uint256)", format!("{b:#x} were unwrapped but did not arrive"));
            }
        }
        self.expect(op("totalSupply()", vec![]), locked, "everybody unwrapped everything")
    }
    fn vesting(&mut self) -> R<()> {
        let Ok(d) = self.ask(C0, op("owner()", vec![])) else {
            return stuck("owner()", "owner does not answer".into());
        };
        let owner = Address::from_slice(&d[12..32]);
        let end = self.num(op("end()", vec![]))?;
        if !self.can_act(owner) || end > U256::from(u64::MAX) {
            return Ok(());
        }
        let end = end.saturating_to::<u64>();
        self.s.w.now = self.s.w.now.max(end);
        let lim = U256::from(1) << 254;
        let eth = |e: &Self, x: &Address| e.s.w.bal.get(x).copied().unwrap_or_default();
        let held = eth(self, &C0);
        if self.num(op("released()", vec![]))? < lim && held < lim {
            let b = eth(self, &owner);
            self.must(eoa(1), op("release()", vec![]), "the schedule has ended")?;
            self.moved += 1;
            if !eth(self, &C0).is_zero() || eth(self, &owner) != b.wrapping_add(held) {
                return stuck("release()", format!("{held} wei were due at the end, {} arrived", eth(self, &owner).wrapping_sub(b)));
            }
            self.expect(op("releasable()", vec![]), Z, "everything was released")?;
        }
        for tk in [TK, TK2] {
            let bal = |e: &Self, x: Address| e.s.w.kv.get(&kbal(tk, x)).copied().unwrap_or_default();
            if !matches!(self.s.w.code.get(&tk), Some(Code::Tok(_))) {
                continue;
            }
            let (held, b) = (bal(self, C0), bal(self, owner));
            if self.num(op("released(address)", vec![a(tk)]))? >= lim || held >= lim || b >= lim {
                continue;
            }
            self.must(eoa(1), op("release(address)", vec![a(tk)]), "the schedule has ended")?;
            self.moved += 1;
            if !bal(self, C0).is_zero() || bal(self, owner) != b.wrapping_add(held) {
                return stuck("release(address)", format!("{held} were due at the end, {} arrived", bal(self, owner).wrapping_sub(b)));
            }
            self.expect(op("releasable(address)", vec![a(tk)]), Z, "everything was released")?;
        }
        Ok(())
    }
    fn nft_owner(&mut self, at: Address, id: U256) -> Option<Address> {
        match self.ask(at, op("ownerOf(uint256)", vec![n(id)])) {
            Ok(d) if d.len() == 32 => Some(Address::from_slice(&d[12..])),
            _ => None,
        }
    }
    fn nft(&mut self) -> R<()> {
        let wrap = self.has("withdrawTo(address,uint256[])");
        if wrap && !matches!(self.s.w.code.get(&TK), Some(Code::Contract { .. })) {
            return Ok(());
        }
        let batches = self.has("mintConsecutive(address,uint96)");
        let ids: BTreeSet<U256> = self.s.m.s(C0).owner_of.keys().copied().collect();
        let mut ids: Vec<U256> = ids.into_iter().collect();
        self.shuffle(&mut ids);
        if ids.len() > 60 {
            if batches {
                ids.truncate(60);
            } else if self.r.pct(80) {
                return Ok(());
            }
        }
        let sink = self.sink();
        let burn = self.has("burn(uint256)");
        let mut locked = 0u64;
        for id in ids {
            let Some(o) = self.nft_owner(C0, id) else { continue };
            if !self.can_act(o) || (wrap && self.nft_owner(TK, id) != Some(C0)) {
                locked += 1;
                continue;
            }
            self.moved += 1;
            if wrap {
                let to = if self.r.pct(50) && self.no_code(o) { o } else { sink };
                self.must(o, op("withdrawTo(address,uint256[])", vec![a(to), V::L(vec![n(id)])]), "the owner unwraps its token")?;
                if self.nft_owner(TK, id) != Some(to) {
                    return stuck("withdrawTo(address,uint256[])", format!("original {id:#x} did not come out"));
                }
            } else {
                let mut o = o;
                if self.r.pct(70) {
                    self.must(o, op("transferFrom(address,address,uint256)", vec![a(o), a(sink), n(id)]), "the owner sends its token")?;
                    if self.nft_owner(C0, id) != Some(sink) {
                        return stuck("transferFrom(address,address,uint256)", format!("token {id:#x} did not arrive"));
                    }
                    o = sink;
                }
                if burn {
                    self.must(o, op("burn(uint256)", vec![n(id)]), "the owner burns its token")?;
                }
            }
            if (burn || wrap) && self.nft_owner(C0, id).is_some() {
                return stuck("ownerOf(uint256)", format!("token {id:#x} is gone but still has an owner"));
            }
        }
        if !batches && (burn || wrap) {
            for h in self.people() {
                if self.can_act(h) && !wrap {
                    self.expect(op("balanceOf(address)", vec![a(h)]), Z, "every token was burnt")?;
                }
            }
            if self.has("totalSupply()") {
                self.expect(op("totalSupply()", vec![]), U256::from(locked), "every other token was burnt")?;
            }
        }
        Ok(())
    }
    fn multi(&mut self) -> R<()> {
        let sink = self.sink();
        let st = self.s.m.s(C0);
        let mut ks: Vec<(Address, U256)> = st.mb.keys().copied().collect();
        self.shuffle(&mut ks);
        let ids: BTreeSet<U256> = ks.iter().map(|k| k.1).collect();
        let mut locked: std::collections::BTreeMap<U256, U256> = Default::default();
        let own = self.has("burn(address,uint256,uint256)");
        let burn: Sig = if own { "burn(address,uint256,uint256)" } else { "adminBurn(address,uint256,uint256)" };
        for (h, id) in ks {
            let b = self.num(op("balanceOf(address,uint256)", vec![a(h), n(id)]))?;
            if b.is_zero() || h == sink {
                continue;
            }
            if !self.can_act(h) {
                let e = locked.entry(id).or_default();
                *e = e.wrapping_add(b);
                continue;
            }
            self.moved += 1;
            let there = self.num(op("balanceOf(address,uint256)", vec![a(sink), n(id)]))?;
            if self.r.pct(60) && there.checked_add(b).is_some() {
                let o = if self.r.pct(50) {
                    op("safeTransferFrom(address,address,uint256,uint256,bytes)", vec![a(h), a(sink), n(id), n(b), by(&[])])
                } else {
                    op(
                        "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
                        vec![a(h), a(sink), V::L(vec![n(id), n(id)]), V::L(vec![n(b), n(Z)]), by(&[])],
                    )
                };
                self.must(h, o, "the holder sends all it has")?;
                self.expect(op("balanceOf(address,uint256)", vec![a(sink), n(id)]), there + b, "it was sent there")?;
            } else {
                self.must(h, op(burn, vec![a(h), n(id), n(b)]), "the holder burns all it has")?;
            }
            self.expect(op("balanceOf(address,uint256)", vec![a(h), n(id)]), Z, "everything was sent away")?;
        }
        let mut all = Z;
        for id in ids {
            let b = self.num(op("balanceOf(address,uint256)", vec![a(sink), n(id)]))?;
            self.must(sink, op(burn, vec![a(sink), n(id), n(b)]), "the holder burns all it has")?;
            if self.has("totalSupply(uint256)") {
                let l = locked.get(&id).copied().unwrap_or_default();
                all = all.wrapping_add(l);
                self.expect(op("totalSupply(uint256)", vec![n(id)]), l, "every other holder burnt all it had")?;
                self.expect(op("exists(uint256)", vec![n(id)]), U256::from(!l.is_zero() as u64), "every other holder burnt all it had")?;
            }
        }
        if self.has("totalSupply(uint256)") {
            self.expect(op("totalSupply()", vec![]), all, "every holder burnt all it had")?;
        }
        Ok(())
    }
    fn owner(&mut self) -> R<()> {
        let word = |x: Address| U256::from_be_slice(x.as_slice());
        let d = self.num(op("owner()", vec![]))?;
        let o = Address::from_slice(&d.to_be_bytes::<32>()[12..]);
        if o.is_zero() {
            return Ok(());
        }
        self.moved += 1;
        let x = self.sink();
        self.must(o, op("guarded()", vec![]), "the caller is the owner")?;
        self.must(o, op("transferOwnership(address)", vec![a(x)]), "the caller is the owner")?;
        if self.has("acceptOwnership()") {
            self.expect(op("pendingOwner()", vec![]), word(x), "it was offered to this account")?;
            self.must(x, op("acceptOwnership()", vec![]), "it was offered to the caller")?;
            self.expect(op("pendingOwner()", vec![]), Z, "the offer was accepted")?;
        }
        self.expect(op("owner()", vec![]), word(x), "the contract was handed over")?;
        self.must(x, op("guarded()", vec![]), "the caller is the owner")?;
        self.must(x, op("renounceOwnership()", vec![]), "the caller is the owner")?;
        self.expect(op("owner()", vec![]), Z, "the owner renounced")
    }
    fn roles(&mut self) -> R<()> {
        let one = U256::from(1);
        let st = self.s.m.s(C0);
        let rs: BTreeSet<U256> =
            st.roles.iter().map(|x| U256::from_be_bytes(x.0)).chain(st.admins.iter().map(|x| U256::from_be_bytes(*x.0))).collect();
        let mut ps: BTreeSet<Address> = st.roles.iter().map(|x| x.1).collect();
        ps.extend(self.s.who.iter().copied());
        let x = self.sink();
        let mut rs: Vec<U256> = rs.into_iter().collect();
        self.shuffle(&mut rs);
        for r in &rs {
            let ad = self.num(op("getRoleAdmin(bytes32)", vec![n(*r)]))?;
            for p in ps.clone() {
                if self.num(op("hasRole(bytes32,address)", vec![n(ad), a(p)]))?.is_zero() {
                    continue;
                }
                self.moved += 1;
                self.must(p, op("grantRole(bytes32,address)", vec![n(*r), a(x)]), "the caller administers the role")?;
                self.expect(op("hasRole(bytes32,address)", vec![n(*r), a(x)]), one, "the role was granted")?;
                self.must(x, op("guarded(bytes32)", vec![n(*r)]), "the caller has the role")?;
                // the revoker may have been the administrator through this very role
                self.must(p, op("revokeRole(bytes32,address)", vec![n(*r), a(x)]), "the caller administers the role")?;
                self.expect(op("hasRole(bytes32,address)", vec![n(*r), a(x)]), Z, "the role was revoked")?;
                break;
            }
        }
        for r in &rs {
            for p in ps.clone() {
                if self.num(op("hasRole(bytes32,address)", vec![n(*r), a(p)]))?.is_zero() {
                    continue;
                }
                self.must(p, op("renounceRole(bytes32,address)", vec![n(*r), a(p)]), "everybody may leave a role")?;
                self.expect(op("hasRole(bytes32,address)", vec![n(*r), a(p)]), Z, "the role was renounced")?;
            }
        }
        Ok(())
    }
    fn trace(&mut self) -> R<()> {
        let (kb, vb) = (self.s.cfg.g("kbits") as usize, self.s.cfg.g("vbits") as usize);
        let d = match self.ask(C0, op("latestCheckpoint()", vec![])) {
            Ok(d) if d.len() == 96 => d,
            _ => return stuck("latestCheckpoint()", "latestCheckpoint does not answer".into()),
        };
        let w = |i: usize| U256::from_be_slice(&d[32 * i..32 * i + 32]);
        let top = (U256::from(1) << kb) - U256::from(1);
        let k = if w(0).is_zero() { Z } else { w(1) };
        let len = self.num(op("length()", vec![]))?;
        let v = (U256::from(1) << vb) - U256::from(1);
        self.moved += 1;
        // the same key again, and the next one
        self.must(eoa(0), op("push(uint256,uint256)", vec![n(k), n(v)]), "the key is not older than the last")?;
        self.expect(op("latest()", vec![]), v, "it was just pushed")?;
        if k < top {
            let v = self.r.below(1000);
            self.must(eoa(0), op("push(uint256,uint256)", vec![n(k + U256::from(1)), n(v)]), "the key is newer than the last")?;
            self.expect(op("latest()", vec![]), U256::from(v), "it was just pushed")?;
            let l = len.max(U256::from(1)) + U256::from(1);
            self.expect(op("length()", vec![]), l, "one entry was added")?;
        }
        Ok(())
    }
    fn bits(&mut self) -> R<()> {
        let ids: Vec<U256> = self.s.m.s(C0).bits.iter().copied().take(80).collect();
        for i in &ids {
            self.must(eoa(0), op("unset(uint256)", vec![n(*i)]), "any bit can be cleared")?;
            self.moved += 1;
        }
        for i in &ids {
            self.expect(op("get(uint256)", vec![n(*i)]), Z, "it was cleared")?;
        }
        Ok(())
    }
}

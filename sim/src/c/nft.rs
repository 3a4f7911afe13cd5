use alloy_primitives::{aliases::U96, Address, FixedBytes, U256};
use openzeppelin_stylus::{
    token::{
        common::erc2981::{self, Erc2981},
        erc1155::{
            self,
            extensions::{
                Erc1155MetadataUri, Erc1155Supply, Erc1155UriStorage, IErc1155Burnable, IErc1155MetadataUri,
                IErc1155Supply,
            },
            Erc1155,
        },
        erc721::{
            self,
            extensions::{
                consecutive, enumerable, wrapper, Erc721Consecutive, Erc721Enumerable, Erc721Metadata,
                Erc721UriStorage, Erc721Wrapper, IErc721Burnable,
            },
            Erc721, IErc721,
        },
    },
};
use stylus_sdk::{abi::Bytes, msg, prelude::*};

use crate::contract;

// -------------------------------------------------------------------- ERC-721
#[storage]
pub struct T721 {
    #[borrow]
    erc721: Erc721,
}
#[public]
#[inherit(Erc721)]
impl T721 {
    fn mint(&mut self, to: Address, token_id: U256) -> Result<(), erc721::Error> {
        self.erc721._mint(to, token_id)
    }
    fn mint_many(&mut self, to: Address, first: U256, count: U256) -> Result<(), erc721::Error> {
        for i in 0..count.to::<u64>() {
            self.mint(to, first + U256::from(i))?;
        }
        Ok(())
    }
    fn safe_mint(&mut self, to: Address, token_id: U256, data: Bytes) -> Result<(), erc721::Error> {
        self.erc721._safe_mint(to, token_id, &data)
    }
    fn burn(&mut self, token_id: U256) -> Result<(), erc721::Error> {
        self.erc721.burn(token_id)
    }
    fn admin_burn(&mut self, token_id: U256) -> Result<(), erc721::Error> {
        self.erc721._burn(token_id)
    }
    fn admin_transfer(&mut self, from: Address, to: Address, token_id: U256) -> Result<(), erc721::Error> {
        self.erc721._transfer(from, to, token_id)
    }
    fn admin_safe_transfer(
        &mut self,
        from: Address,
        to: Address,
        token_id: U256,
        data: Bytes,
    ) -> Result<(), erc721::Error> {
        self.erc721._safe_transfer(from, to, token_id, &data)
    }
    fn admin_approve(&mut self, to: Address, token_id: U256) -> Result<(), erc721::Error> {
        self.erc721._approve(to, token_id, Address::ZERO, true)
    }
    fn approve_as(&mut self, to: Address, token_id: U256, auth: Address, emit: bool) -> Result<(), erc721::Error> {
        self.erc721._require_owned(token_id)?;
        self.erc721._approve(to, token_id, auth, emit)
    }
    fn update_as(&mut self, to: Address, token_id: U256, auth: Address) -> Result<Address, erc721::Error> {
        if to.is_zero() {
            self.erc721._require_owned(token_id)?;
        }
        self.erc721._update(to, token_id, auth)
    }
    fn set_approval_as(&mut self, owner: Address, operator: Address, on: bool) -> Result<(), erc721::Error> {
        // the zero address holds nothing and can grant nothing
        if owner.is_zero() {
            return Err(erc721::Error::InvalidApprover(erc721::ERC721InvalidApprover { approver: owner }));
        }
        self.erc721._set_approval_for_all(owner, operator, on)
    }
    fn owner_or_zero(&self, token_id: U256) -> Address {
        self.erc721._owner_of(token_id)
    }
    fn approved_or_zero(&self, token_id: U256) -> Address {
        self.erc721._get_approved(token_id)
    }
    fn is_authorized(&self, owner: Address, spender: Address, token_id: U256) -> bool {
        self.erc721._is_authorized(owner, spender, token_id)
    }
}
contract!(T721);

// ------------------------------------------------------------------ enumerable
#[derive(SolidityError, Debug)]
pub enum EErr {
    Enumerable(enumerable::Error),
    Erc721(erc721::Error),
}
#[storage]
pub struct E721 {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    enumerable: Erc721Enumerable,
}
impl E721 {
    fn moved(&mut self, from: Address, to: Address, id: U256) -> Result<(), EErr> {
        self.enumerable._remove_token_from_owner_enumeration(from, id, &self.erc721)?;
        self.enumerable._add_token_to_owner_enumeration(to, id, &self.erc721)?;
        Ok(())
    }
}
#[public]
#[inherit(Erc721, Erc721Enumerable)]
impl E721 {
    fn mint(&mut self, to: Address, token_id: U256) -> Result<(), EErr> {
        self.erc721._mint(to, token_id)?;
        self.enumerable._add_token_to_all_tokens_enumeration(token_id);
        self.enumerable._add_token_to_owner_enumeration(to, token_id, &self.erc721)?;
        Ok(())
    }
    fn mint_many(&mut self, to: Address, first: U256, count: U256) -> Result<(), EErr> {
        for i in 0..count.to::<u64>() {
            self.mint(to, first + U256::from(i))?;
        }
        Ok(())
    }
    fn safe_mint(&mut self, to: Address, token_id: U256, data: Bytes) -> Result<(), EErr> {
        self.mint(to, token_id)?;
        self.erc721._check_on_erc721_received(msg::sender(), Address::ZERO, to, token_id, &data)?;
        Ok(())
    }
    fn burn(&mut self, token_id: U256) -> Result<(), EErr> {
        let owner = self.erc721.owner_of(token_id)?;
        self.erc721.burn(token_id)?;
        self.enumerable._remove_token_from_owner_enumeration(owner, token_id, &self.erc721)?;
        self.enumerable._remove_token_from_all_tokens_enumeration(token_id);
        Ok(())
    }
    fn safe_transfer_from(&mut self, from: Address, to: Address, token_id: U256) -> Result<(), EErr> {
        self.safe_transfer_from_with_data(from, to, token_id, vec![].into())
    }
    #[selector(name = "safeTransferFrom")]
    fn safe_transfer_from_with_data(
        &mut self,
        from: Address,
        to: Address,
        token_id: U256,
        data: Bytes,
    ) -> Result<(), EErr> {
        self.transfer_from(from, to, token_id)?;
        self.erc721._check_on_erc721_received(msg::sender(), from, to, token_id, &data)?;
        Ok(())
    }
    fn transfer_from(&mut self, from: Address, to: Address, token_id: U256) -> Result<(), EErr> {
        let previous = self.erc721.owner_of(token_id)?;
        self.erc721.transfer_from(from, to, token_id)?;
        self.moved(previous, to, token_id)
    }
    fn increase_balance(&mut self, amount: u128) -> Result<(), EErr> {
        Ok(Erc721Enumerable::_check_increase_balance(amount)?)
    }
}
contract!(E721);

// ----------------------------------------------------------------- consecutive
#[derive(SolidityError, Debug)]
pub enum CErr {
    Consecutive(consecutive::Error),
    Sealed(consecutive::ERC721ForbiddenBatchMint),
}
#[storage]
pub struct K721 {
    #[borrow]
    k: Erc721Consecutive,
    /// no batch may run over a token that was minted alone, so those ahead of the batches are noted
    next: stylus_sdk::storage::StorageU256,
    ahead: stylus_sdk::storage::StorageVec<stylus_sdk::storage::StorageU256>,
}
impl K721 {
    fn note(&mut self, token_id: U256) {
        if token_id >= self.next.get() && token_id <= U256::from(U96::MAX) {
            self.ahead.push(token_id);
        }
    }
    fn blocked(&self) -> bool {
        let next = self.next.get();
        (0..self.ahead.len()).any(|i| {
            let x = self.ahead.get(i).unwrap();
            x >= next && !self.k.erc721._owner_of(x).is_zero()
        })
    }
}
#[public]
#[inherit(Erc721Consecutive)]
impl K721 {
    fn mint_consecutive(&mut self, to: Address, batch_size: U96) -> Result<U96, CErr> {
        if self.blocked() {
            return Err(consecutive::ERC721ForbiddenBatchMint {}.into());
        }
        let first = self.k._mint_consecutive(to, batch_size)?;
        self.next.set(U256::from(first) + U256::from(batch_size));
        Ok(first)
    }
    fn mint(&mut self, to: Address, token_id: U256) -> Result<(), CErr> {
        self.note(token_id);
        Ok(self.k._mint(to, token_id)?)
    }
    fn safe_mint(&mut self, to: Address, token_id: U256, data: Bytes) -> Result<(), CErr> {
        self.note(token_id);
        Ok(self.k._safe_mint(to, token_id, &data)?)
    }
    fn burn(&mut self, token_id: U256) -> Result<(), CErr> {
        self.k._update(Address::ZERO, token_id, msg::sender())?;
        Ok(())
    }
    fn admin_burn(&mut self, token_id: U256) -> Result<(), CErr> {
        Ok(self.k._burn(token_id)?)
    }
    fn admin_transfer(&mut self, from: Address, to: Address, token_id: U256) -> Result<(), CErr> {
        Ok(self.k._transfer(from, to, token_id)?)
    }
    fn admin_safe_transfer(&mut self, from: Address, to: Address, token_id: U256, data: Bytes) -> Result<(), CErr> {
        Ok(self.k._safe_transfer(from, to, token_id, &data)?)
    }
    fn admin_approve(&mut self, to: Address, token_id: U256) -> Result<(), CErr> {
        Ok(self.k._approve(to, token_id, Address::ZERO, true)?)
    }
    fn approve_as(&mut self, to: Address, token_id: U256, auth: Address, emit: bool) -> Result<(), CErr> {
        self.k._require_owned(token_id)?;
        Ok(self.k._approve(to, token_id, auth, emit)?)
    }
    fn update_as(&mut self, to: Address, token_id: U256, auth: Address) -> Result<Address, CErr> {
        if to.is_zero() {
            self.k._require_owned(token_id)?;
        } else {
            self.note(token_id);
        }
        Ok(self.k._update(to, token_id, auth)?)
    }
    fn owner_or_zero(&self, token_id: U256) -> Address {
        self.k._owner_of(token_id)
    }
}
contract!(K721);

// --------------------------------------------------------------------- wrapper
#[storage]
pub struct W721 {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    w: Erc721Wrapper,
}
#[public]
#[inherit(Erc721)]
impl W721 {
    fn underlying(&self) -> Address {
        self.w.underlying()
    }
    fn deposit_for(&mut self, account: Address, token_ids: Vec<U256>) -> Result<bool, wrapper::Error> {
        self.w.deposit_for(account, token_ids, &mut self.erc721)
    }
    fn withdraw_to(&mut self, account: Address, token_ids: Vec<U256>) -> Result<bool, wrapper::Error> {
        self.w.withdraw_to(account, token_ids, &mut self.erc721)
    }
    #[selector(name = "onERC721Received")]
    fn on_erc721_received(
        &mut self,
        operator: Address,
        from: Address,
        token_id: U256,
        data: Bytes,
    ) -> Result<FixedBytes<4>, wrapper::Error> {
        self.w.on_erc721_received(operator, from, token_id, data, &mut self.erc721)
    }
    fn recover(&mut self, account: Address, token_id: U256) -> Result<U256, wrapper::Error> {
        // `_recover` is private: reached through the guarded hook (`--cfg vsim`)
        #[cfg(vsim)]
        {
            self.w.vsim_recover(account, token_id, &mut self.erc721)
        }
        #[cfg(not(vsim))]
        {
            panic!("built without the hook {account} {token_id}")
        }
    }
}
contract!(W721);

// ------------------------------------------------------------------------ URIs
#[storage]
pub struct M721 {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    metadata: Erc721Metadata,
    uri: Erc721UriStorage,
}
#[public]
#[inherit(Erc721, Erc721Metadata)]
impl M721 {
    fn mint(&mut self, to: Address, token_id: U256) -> Result<(), erc721::Error> {
        self.erc721._mint(to, token_id)
    }
    fn burn(&mut self, token_id: U256) -> Result<(), erc721::Error> {
        self.erc721.burn(token_id)
    }
    #[selector(name = "tokenURI")]
    fn token_uri(&self, token_id: U256) -> Result<String, erc721::Error> {
        self.uri.token_uri(token_id, &self.erc721, &self.metadata)
    }
    #[selector(name = "plainURI")]
    fn plain_uri(&self, token_id: U256) -> Result<String, erc721::Error> {
        self.metadata.token_uri(token_id, &self.erc721)
    }
    #[selector(name = "baseURI")]
    fn base_uri(&self) -> String {
        self.metadata.base_uri()
    }
    #[selector(name = "setTokenURI")]
    fn set_token_uri(&mut self, token_id: U256, token_uri: String) {
        self.uri._set_token_uri(token_id, token_uri)
    }
}
contract!(M721);

#[storage]
pub struct U1155 {
    #[borrow]
    erc1155: Erc1155,
    metadata: Erc1155MetadataUri,
    store: Erc1155UriStorage,
}
#[public]
#[inherit(Erc1155)]
impl U1155 {
    fn uri(&self, id: U256) -> String {
        self.store.uri(id, &self.metadata)
    }
    #[selector(name = "contractURI")]
    fn contract_uri(&self, id: U256) -> String {
        self.metadata.uri(id)
    }
    #[selector(name = "setTokenURI")]
    fn set_token_uri(&mut self, token_id: U256, token_uri: String) {
        self.store.set_token_uri(token_id, token_uri, &self.metadata)
    }
    #[selector(name = "setBaseURI")]
    fn set_base_uri(&mut self, base: String) {
        self.store.set_base_uri(base)
    }
}
contract!(U1155);

// -------------------------------------------------------------------- ERC-1155
#[storage]
pub struct T1155 {
    #[borrow]
    erc1155: Erc1155,
}
#[public]
#[inherit(Erc1155)]
impl T1155 {
    fn mint(&mut self, to: Address, id: U256, value: U256, data: Bytes) -> Result<(), erc1155::Error> {
        self.erc1155._mint(to, id, value, &data)
    }
    fn mint_batch(
        &mut self,
        to: Address,
        ids: Vec<U256>,
        values: Vec<U256>,
        data: Bytes,
    ) -> Result<(), erc1155::Error> {
        self.erc1155._mint_batch(to, ids, values, &data)
    }
    fn burn(&mut self, account: Address, id: U256, value: U256) -> Result<(), erc1155::Error> {
        self.erc1155.burn(account, id, value)
    }
    fn burn_batch(&mut self, account: Address, ids: Vec<U256>, values: Vec<U256>) -> Result<(), erc1155::Error> {
        self.erc1155.burn_batch(account, ids, values)
    }
    fn admin_burn(&mut self, account: Address, id: U256, value: U256) -> Result<(), erc1155::Error> {
        self.erc1155._burn(account, id, value)
    }
    fn admin_burn_batch(&mut self, account: Address, ids: Vec<U256>, values: Vec<U256>) -> Result<(), erc1155::Error> {
        self.erc1155._burn_batch(account, ids, values)
    }
}
contract!(T1155);

#[storage]
pub struct S1155 {
    #[borrow]
    s: Erc1155Supply,
}
#[public]
#[inherit(Erc1155Supply)]
impl S1155 {
    fn total_supply(&self, id: U256) -> U256 {
        self.s.total_supply(id)
    }
    #[selector(name = "totalSupply")]
    fn total_supply_all(&self) -> U256 {
        self.s.total_supply_all()
    }
    fn exists(&self, id: U256) -> bool {
        self.s.exists(id)
    }
    fn mint(&mut self, to: Address, id: U256, value: U256, data: Bytes) -> Result<(), erc1155::Error> {
        self.s._mint(to, id, value, &data)
    }
    fn mint_batch(
        &mut self,
        to: Address,
        ids: Vec<U256>,
        values: Vec<U256>,
        data: Bytes,
    ) -> Result<(), erc1155::Error> {
        self.s._mint_batch(to, ids, values, &data)
    }
    fn admin_burn(&mut self, account: Address, id: U256, value: U256) -> Result<(), erc1155::Error> {
        self.s._burn(account, id, value)
    }
    fn admin_burn_batch(&mut self, account: Address, ids: Vec<U256>, values: Vec<U256>) -> Result<(), erc1155::Error> {
        self.s._burn_batch(account, ids, values)
    }
}
contract!(S1155);

// ------------------------------------------------------------------- royalties
#[storage]
pub struct R2981 {
    #[borrow]
    r: Erc2981,
}
#[public]
#[inherit(Erc2981)]
impl R2981 {
    fn set_default(&mut self, receiver: Address, fee: U96) -> Result<(), erc2981::Error> {
        self.r._set_default_royalty(receiver, fee)
    }
    fn delete_default(&mut self) {
        self.r._delete_default_royalty()
    }
    fn set_token(&mut self, id: U256, receiver: Address, fee: U96) -> Result<(), erc2981::Error> {
        self.r._set_token_royalty(id, receiver, fee)
    }
    fn reset_token(&mut self, id: U256) {
        self.r._reset_token_royalty(id)
    }
}
contract!(R2981);

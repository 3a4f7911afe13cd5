use alloy_primitives::{Address, B256, U256, U8};
use openzeppelin_stylus::{
    finance::vesting_wallet::VestingWallet,
    token::erc20::{
        self,
        extensions::{
            capped, erc4626, flash_mint, permit, wrapper, Capped, Erc20FlashMint, Erc20Metadata, Erc20Permit,
            Erc20Wrapper, Erc4626, IErc20Burnable, IErc20Wrapper, IErc3156FlashLender, IErc4626,
        },
        utils::SafeErc20,
        Erc20, IErc20,
    },
    utils::{
        cryptography::{ecdsa, eip712::IEip712},
        nonces::{self, Nonces},
        pausable, Pausable,
    },
};
use stylus_sdk::{abi::Bytes, prelude::*};

use crate::contract;

// ---------------------------------------------------------------- plain token
#[storage]
pub struct T20 {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    metadata: Erc20Metadata,
}
#[public]
#[inherit(Erc20, Erc20Metadata)]
impl T20 {
    fn mint(&mut self, account: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(account, value)
    }
    fn burn(&mut self, value: U256) -> Result<(), erc20::Error> {
        self.erc20.burn(value)
    }
    fn burn_from(&mut self, account: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20.burn_from(account, value)
    }
    fn update(&mut self, from: Address, to: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._update(from, to, value)
    }
    fn admin_burn(&mut self, account: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._burn(account, value)
    }
    fn spend_allowance(&mut self, owner: Address, spender: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._spend_allowance(owner, spender, value)
    }
}
contract!(T20);

// ------------------------------------------------------- pausable capped token
#[derive(SolidityError, Debug)]
pub enum PErr {
    Capped(capped::Error),
    Erc20(erc20::Error),
    Pausable(pausable::Error),
}
#[storage]
pub struct P20 {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    metadata: Erc20Metadata,
    #[borrow]
    capped: Capped,
    #[borrow]
    pausable: Pausable,
    counter: stylus_sdk::storage::StorageU256,
}
#[public]
#[inherit(Erc20, Erc20Metadata, Capped, Pausable)]
impl P20 {
    fn decimals(&self) -> u8 {
        10
    }
    fn burn(&mut self, value: U256) -> Result<(), PErr> {
        self.pausable.when_not_paused()?;
        self.erc20.burn(value).map_err(|e| e.into())
    }
    fn burn_from(&mut self, account: Address, value: U256) -> Result<(), PErr> {
        self.pausable.when_not_paused()?;
        self.erc20.burn_from(account, value).map_err(|e| e.into())
    }
    fn mint(&mut self, account: Address, value: U256) -> Result<(), PErr> {
        self.pausable.when_not_paused()?;
        let max_supply = self.capped.cap();
        let supply = self.erc20.total_supply().checked_add(value).expect("overflow");
        if supply > max_supply {
            return Err(capped::Error::ExceededCap(capped::ERC20ExceededCap {
                increased_supply: supply,
                cap: max_supply,
            }))?;
        }
        self.erc20._mint(account, value)?;
        Ok(())
    }
    fn transfer(&mut self, to: Address, value: U256) -> Result<bool, PErr> {
        self.pausable.when_not_paused()?;
        self.erc20.transfer(to, value).map_err(|e| e.into())
    }
    fn transfer_from(&mut self, from: Address, to: Address, value: U256) -> Result<bool, PErr> {
        self.pausable.when_not_paused()?;
        self.erc20.transfer_from(from, to, value).map_err(|e| e.into())
    }
    fn emergency(&mut self) -> Result<U256, PErr> {
        self.pausable.when_paused()?;
        let c = self.counter.get() + U256::from(1);
        self.counter.set(c);
        Ok(c)
    }
    fn pause(&mut self) -> Result<(), PErr> {
        self.pausable.pause().map_err(|e| e.into())
    }
    fn unpause(&mut self) -> Result<(), PErr> {
        self.pausable.unpause().map_err(|e| e.into())
    }
}
contract!(P20);

// ------------------------------------------------------------------ permit token
#[storage]
pub struct Dom;
impl IEip712 for Dom {
    const NAME: &'static str = "Permit Sim";
    const VERSION: &'static str = "7";
}
#[derive(SolidityError, Debug)]
pub enum NErr {
    Permit(permit::Error),
    Nonces(nonces::Error),
    Ecdsa(ecdsa::Error),
}
#[storage]
pub struct Perm {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    nonces: Nonces,
    #[borrow]
    erc20_permit: Erc20Permit<Dom>,
    dom: Dom,
}
#[public]
#[inherit(Erc20, Nonces, Erc20Permit<Dom>)]
impl Perm {
    fn mint(&mut self, account: Address, value: U256) -> Result<(), permit::Error> {
        Ok(self.erc20._mint(account, value)?)
    }
    #[allow(clippy::too_many_arguments)]
    fn permit(
        &mut self,
        owner: Address,
        spender: Address,
        value: U256,
        deadline: U256,
        v: u8,
        r: B256,
        s: B256,
    ) -> Result<(), permit::Error> {
        self.erc20_permit.permit(owner, spender, value, deadline, v, r, s, &mut self.erc20, &mut self.nonces)
    }
    #[selector(name = "eip712Domain")]
    fn eip712_domain(&self) -> Vec<U256> {
        let (f, name, ver, chain, at, salt, ext) = self.dom.eip712_domain();
        let mut v = vec![U256::from(f[0]), chain, U256::from_be_slice(at.as_slice()), U256::from_be_bytes(salt)];
        v.push(U256::from(ext.len()));
        v.push(U256::from_be_slice(alloy_primitives::keccak256(name.as_bytes()).as_slice()));
        v.push(U256::from_be_slice(alloy_primitives::keccak256(ver.as_bytes()).as_slice()));
        v.push(U256::from_be_slice(self.dom.domain_separator_v4().as_slice()));
        v
    }
    fn use_nonce(&mut self, owner: Address) -> U256 {
        self.nonces.use_nonce(owner)
    }
    fn use_many(&mut self, owner: Address, count: U256) -> U256 {
        let mut last = U256::MAX;
        for _ in 0..count.to::<u64>() {
            last = self.nonces.use_nonce(owner);
        }
        last
    }
    fn use_checked_nonce(&mut self, owner: Address, nonce: U256) -> Result<(), NErr> {
        Ok(self.nonces.use_checked_nonce(owner, nonce)?)
    }
    fn recover(&mut self, hash: B256, v: u8, r: B256, s: B256) -> Result<Address, NErr> {
        Ok(ecdsa::recover(self, hash, v, r, s)?)
    }
}
contract!(Perm);

// ------------------------------------------------------------------------- vault
#[storage]
pub struct Vault {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    metadata: Erc20Metadata,
    #[borrow]
    erc4626: Erc4626,
}
#[public]
#[inherit(Erc20, Erc20Metadata)]
impl Vault {
    fn decimals(&self) -> U8 {
        self.erc4626.decimals()
    }
    fn asset(&self) -> Address {
        self.erc4626.asset()
    }
    fn total_assets(&mut self) -> Result<U256, erc4626::Error> {
        self.erc4626.total_assets()
    }
    fn convert_to_shares(&mut self, assets: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.convert_to_shares(assets, &self.erc20)
    }
    fn convert_to_assets(&mut self, shares: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.convert_to_assets(shares, &self.erc20)
    }
    fn max_deposit(&self, receiver: Address) -> U256 {
        self.erc4626.max_deposit(receiver)
    }
    fn preview_deposit(&mut self, assets: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.preview_deposit(assets, &self.erc20)
    }
    fn deposit(&mut self, assets: U256, receiver: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.deposit(assets, receiver, &mut self.erc20)
    }
    fn max_mint(&self, receiver: Address) -> U256 {
        self.erc4626.max_mint(receiver)
    }
    fn preview_mint(&mut self, shares: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.preview_mint(shares, &self.erc20)
    }
    fn mint(&mut self, shares: U256, receiver: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.mint(shares, receiver, &mut self.erc20)
    }
    fn max_withdraw(&mut self, owner: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.max_withdraw(owner, &self.erc20)
    }
    fn preview_withdraw(&mut self, assets: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.preview_withdraw(assets, &self.erc20)
    }
    fn withdraw(&mut self, assets: U256, receiver: Address, owner: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.withdraw(assets, receiver, owner, &mut self.erc20)
    }
    fn max_redeem(&self, owner: Address) -> U256 {
        self.erc4626.max_redeem(owner, &self.erc20)
    }
    fn preview_redeem(&mut self, shares: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.preview_redeem(shares, &self.erc20)
    }
    fn redeem(&mut self, shares: U256, receiver: Address, owner: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.redeem(shares, receiver, owner, &mut self.erc20)
    }
}
contract!(Vault);

// -------------------------------------------------------------------- flash mint
#[storage]
pub struct Flash {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    flash: Erc20FlashMint,
}
#[public]
#[inherit(Erc20)]
impl Flash {
    fn max_flash_loan(&self, token: Address) -> U256 {
        self.flash.max_flash_loan(token, &self.erc20)
    }
    fn flash_fee(&self, token: Address, value: U256) -> Result<U256, flash_mint::Error> {
        self.flash.flash_fee(token, value)
    }
    fn flash_loan(
        &mut self,
        receiver: Address,
        token: Address,
        value: U256,
        data: Bytes,
    ) -> Result<bool, flash_mint::Error> {
        self.flash.flash_loan(receiver, token, value, data, &mut self.erc20)
    }
    fn mint(&mut self, account: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(account, value)
    }
    fn burn(&mut self, value: U256) -> Result<(), erc20::Error> {
        self.erc20.burn(value)
    }
}
contract!(Flash);

// ----------------------------------------------------------------- ERC-20 wrapper
#[storage]
pub struct Wrap20 {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    w: Erc20Wrapper,
}
#[public]
#[inherit(Erc20)]
impl Wrap20 {
    fn underlying(&self) -> Address {
        self.w.underlying()
    }
    fn decimals(&self) -> U8 {
        self.w.decimals()
    }
    fn deposit_for(&mut self, account: Address, value: U256) -> Result<bool, wrapper::Error> {
        self.w.deposit_for(account, value, &mut self.erc20)
    }
    fn withdraw_to(&mut self, account: Address, value: U256) -> Result<bool, wrapper::Error> {
        self.w.withdraw_to(account, value, &mut self.erc20)
    }
    fn recover(&mut self, account: Address) -> Result<U256, wrapper::Error> {
        self.w._recover(account, &mut self.erc20)
    }
}
contract!(Wrap20);

// ---------------------------------------------------------------------- SafeErc20
#[storage]
pub struct Safe {
    #[borrow]
    safe: SafeErc20,
}
#[public]
#[inherit(SafeErc20)]
impl Safe {}
contract!(Safe);

// ------------------------------------------------------------------------ vesting
#[storage]
pub struct Vest {
    #[borrow]
    v: VestingWallet,
}
#[public]
#[inherit(VestingWallet)]
impl Vest {
    #[receive]
    fn receive(&mut self) -> Result<(), Vec<u8>> {
        Ok(())
    }
}
contract!(Vest);

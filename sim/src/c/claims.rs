//! A Merkle distributor: listed members claim tokens, each entry once.
use alloy_primitives::{Address, B256, U256};
use openzeppelin_crypto::{
    hash::{BuildHasher, Hasher},
    merkle::Verifier,
    KeccakBuilder,
};
use openzeppelin_stylus::{
    access::ownable::Ownable,
    token::erc20::Erc20,
    utils::structs::bitmap::BitMap,
};
use stylus_sdk::{prelude::*, storage::StorageB256};

use crate::contract;

#[storage]
pub struct Drop {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    own: Ownable,
    claimed: BitMap,
    root: StorageB256,
}
type Er = Vec<u8>;
fn raw(v: &[B256]) -> Vec<[u8; 32]> {
    v.iter().map(|x| x.0).collect()
}
/// An application's own hash: keccak256 behind a domain tag.
pub struct Tag;
pub struct TagHasher(<KeccakBuilder as BuildHasher>::Hasher);
impl BuildHasher for Tag {
    type Hasher = TagHasher;
    fn build_hasher(&self) -> TagHasher {
        let mut h = KeccakBuilder.build_hasher();
        h.update([7u8]);
        TagHasher(h)
    }
}
impl Hasher for TagHasher {
    type Output = [u8; 32];
    fn update(&mut self, x: impl AsRef<[u8]>) {
        self.0.update(x)
    }
    fn finalize(self) -> [u8; 32] {
        self.0.finalize()
    }
}
fn leaf(index: U256, who: Address, amount: U256) -> [u8; 32] {
    let mut h = KeccakBuilder.build_hasher();
    h.update(index.to_be_bytes::<32>());
    h.update([0u8; 12]);
    h.update(who);
    h.update(amount.to_be_bytes::<32>());
    KeccakBuilder.hash_one(h.finalize())
}
impl Drop {
    fn pay(&mut self, index: U256, who: Address, amount: U256) -> Result<(), Er> {
        if self.claimed.get(index) {
            return Err(b"claimed".to_vec());
        }
        self.claimed.set(index);
        self.erc20._mint(who, amount).map_err(|e| e.into())
    }
}
#[public]
#[inherit(Erc20, Ownable)]
impl Drop {
    fn root(&self) -> B256 {
        self.root.get()
    }
    fn set_root(&mut self, root: B256) -> Result<(), Er> {
        self.own.only_owner().map_err(Er::from)?;
        self.root.set(root);
        Ok(())
    }
    fn is_claimed(&self, index: U256) -> bool {
        self.claimed.get(index)
    }
    fn leaf_of(&self, index: U256, who: Address, amount: U256) -> B256 {
        leaf(index, who, amount).into()
    }
    fn claim(&mut self, index: U256, who: Address, amount: U256, proof: Vec<B256>) -> Result<(), Er> {
        if !Verifier::verify(&raw(&proof), self.root.get().0, leaf(index, who, amount)) {
            return Err(b"proof".to_vec());
        }
        self.pay(index, who, amount)
    }
    fn claim_many(
        &mut self,
        index: Vec<U256>,
        who: Vec<Address>,
        amount: Vec<U256>,
        proof: Vec<B256>,
        flags: Vec<bool>,
    ) -> Result<(), Er> {
        if index.len() != who.len() || who.len() != amount.len() {
            return Err(b"length".to_vec());
        }
        let l: Vec<[u8; 32]> = (0..who.len()).map(|i| leaf(index[i], who[i], amount[i])).collect();
        match Verifier::verify_multi_proof(&raw(&proof), &flags, self.root.get().0, &l) {
            Ok(true) => {}
            _ => return Err(b"proof".to_vec()),
        }
        for i in 0..who.len() {
            self.pay(index[i], who[i], amount[i])?;
        }
        Ok(())
    }
    fn prove(&self, root: B256, leaf: B256, proof: Vec<B256>, tag: bool) -> bool {
        if tag {
            Verifier::verify_with_builder(&raw(&proof), root.0, leaf.0, &Tag)
        } else {
            Verifier::verify(&raw(&proof), root.0, leaf.0)
        }
    }
    fn prove_many(&self, root: B256, leaves: Vec<B256>, proof: Vec<B256>, flags: Vec<bool>, tag: bool) -> Result<(), Er> {
        let (p, l) = (raw(&proof), raw(&leaves));
        let r = if tag {
            Verifier::verify_multi_proof_with_builder(&p, &flags, root.0, &l, &Tag)
        } else {
            Verifier::verify_multi_proof(&p, &flags, root.0, &l)
        };
        // refused or malformed, whichever way it is reported: not proven
        match r {
            Ok(true) => Ok(()),
            _ => Err(b"proof".to_vec()),
        }
    }
}
contract!(Drop);

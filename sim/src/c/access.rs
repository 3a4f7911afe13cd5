use alloy_primitives::{aliases::U96, Address, Uint, B256, U256, U32};
use openzeppelin_stylus::{
    access::{
        control::{self, AccessControl, IAccessControl},
        ownable::{self, Ownable},
        ownable_two_step::Ownable2Step,
    },
    utils::structs::{
        bitmap::BitMap,
        checkpoints::{self, Trace, S160, S208, S224},
    },
};
use stylus_sdk::{prelude::*, storage::StorageU256};

use crate::contract;

#[storage]
pub struct Own {
    #[borrow]
    o: Ownable,
    count: StorageU256,
}
#[public]
#[inherit(Ownable)]
impl Own {
    fn guarded(&mut self) -> Result<U256, ownable::Error> {
        self.o.only_owner()?;
        let c = self.count.get() + U256::from(1);
        self.count.set(c);
        Ok(c)
    }
    fn count(&self) -> U256 {
        self.count.get()
    }
}
contract!(Own);

#[storage]
pub struct Own2 {
    #[borrow]
    o: Ownable2Step,
    count: StorageU256,
}
#[public]
#[inherit(Ownable2Step)]
impl Own2 {
    fn guarded(&mut self) -> Result<U256, ownable::Error> {
        self.o.only_owner()?;
        let c = self.count.get() + U256::from(1);
        self.count.set(c);
        Ok(c)
    }
    fn count(&self) -> U256 {
        self.count.get()
    }
}
contract!(Own2);

#[storage]
pub struct Acl {
    #[borrow]
    a: AccessControl,
    count: StorageU256,
}
#[public]
#[inherit(AccessControl)]
impl Acl {
    fn guarded(&mut self, role: B256) -> Result<U256, control::Error> {
        self.a.only_role(role)?;
        let c = self.count.get() + U256::from(1);
        self.count.set(c);
        Ok(c)
    }
    fn count(&self) -> U256 {
        self.count.get()
    }
    fn check_role(&self, role: B256, account: Address) -> Result<(), control::Error> {
        self.a._check_role(role, account)
    }
    fn set_role_admin(&mut self, role: B256, admin: B256) {
        self.a._set_role_admin(role, admin)
    }
    fn raw_grant(&mut self, role: B256, account: Address) -> bool {
        self.a._grant_role(role, account)
    }
    fn raw_revoke(&mut self, role: B256, account: Address) -> bool {
        self.a._revoke_role(role, account)
    }
    fn default_admin(&self) -> B256 {
        AccessControl::DEFAULT_ADMIN_ROLE.into()
    }
}
contract!(Acl);

type U160 = Uint<160, 3>;
type U224 = Uint<224, 4>;
type U48 = Uint<48, 1>;
type U208 = Uint<208, 4>;
macro_rules! trace {
    ($t:ident, $s:ty, $k:ty, $v:ty) => {
        #[storage]
        pub struct $t {
            t: Trace<$s>,
            /// neighbours that must stay untouched
            guard: StorageU256,
        }
        #[public]
        impl $t {
            fn push(&mut self, key: U256, value: U256) -> Result<(U256, U256), checkpoints::Error> {
                let (a, b) = self.t.push(<$k>::from(key), <$v>::from(value))?;
                Ok((U256::from(a), U256::from(b)))
            }
            fn push_many(&mut self, key: U256, gap: U256, value: U256, count: U256) -> Result<(), checkpoints::Error> {
                let mut i = U256::ZERO;
                while i < count {
                    self.t.push(<$k>::from(key + gap * i), <$v>::from(value + i))?;
                    i += U256::from(1);
                }
                Ok(())
            }
            fn lower_lookup(&self, key: U256) -> U256 {
                U256::from(self.t.lower_lookup(<$k>::from(key)))
            }
            fn upper_lookup(&self, key: U256) -> U256 {
                U256::from(self.t.upper_lookup(<$k>::from(key)))
            }
            fn upper_lookup_recent(&self, key: U256) -> U256 {
                U256::from(self.t.upper_lookup_recent(<$k>::from(key)))
            }
            fn latest(&self) -> U256 {
                U256::from(self.t.latest())
            }
            fn latest_checkpoint(&self) -> (bool, U256, U256) {
                match self.t.latest_checkpoint() {
                    None => (false, U256::ZERO, U256::ZERO),
                    Some((k, v)) => (true, U256::from(k), U256::from(v)),
                }
            }
            fn length(&self) -> U256 {
                self.t.length()
            }
            fn at(&self, pos: u32) -> (U256, U256) {
                let (k, v) = self.t.at(U32::from(pos));
                (U256::from(k), U256::from(v))
            }
        }
        contract!($t);
    };
}
trace!(Tr160, S160, U96, U160);
trace!(Tr224, S224, U32, U224);
trace!(Tr208, S208, U48, U208);

#[storage]
pub struct Bits {
    b: BitMap,
    b2: BitMap,
}
#[public]
impl Bits {
    fn get(&self, i: U256) -> bool {
        self.b.get(i)
    }
    fn set(&mut self, i: U256) {
        self.b.set(i)
    }
    fn unset(&mut self, i: U256) {
        self.b.unset(i)
    }
    fn set_to(&mut self, i: U256, v: bool) {
        self.b.set_to(i, v)
    }
    fn get2(&self, i: U256) -> bool {
        self.b2.get(i)
    }
    fn set2(&mut self, i: U256, v: bool) {
        self.b2.set_to(i, v)
    }
    /// a whole bucket at once: all positions of `mask` become `on`
    fn fill(&mut self, bucket: U256, mask: U256, on: bool) {
        for i in 0..256 {
            if mask.bit(i) {
                self.b.set_to((bucket << 8) | U256::from(i), on);
            }
        }
    }
    fn word(&self, bucket: U256) -> U256 {
        let mut w = U256::ZERO;
        for i in 0..256 {
            w.set_bit(i, self.b.get((bucket << 8) | U256::from(i)));
        }
        w
    }
    /// several writes in one transaction
    fn write(&mut self, on: Vec<U256>, off: Vec<U256>) {
        for i in on {
            self.b.set(i)
        }
        for i in off {
            self.b.unset(i)
        }
    }
}
contract!(Bits);

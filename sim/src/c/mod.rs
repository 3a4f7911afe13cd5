//! Compositions of the library's components into deployable contracts, as in /repo/examples.
use crate::host::Entry;
use stylus_sdk::host::{WasmVM, VM};

/// Route calldata to a contract like its generated entrypoint does.
#[macro_export]
macro_rules! contract {
    ($t:ty) => {
        unsafe impl stylus_sdk::prelude::TopLevelStorage for $t {}
        impl $t {
            pub fn entry(d: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
                let r = stylus_sdk::abi::router_entrypoint::<$t, $t>(d, $crate::c::vm());
                $crate::c::flush();
                r
            }
        }
    };
}
pub fn vm() -> VM {
    VM(WasmVM {})
}
pub type E = Entry;
pub mod access;
pub mod algebra;
pub mod claims;
pub mod fungible;
pub mod nft;
extern "C" {
    fn storage_flush_cache(clear: bool);
}
pub fn flush() {
    unsafe { storage_flush_cache(false) }
}

pub mod access;
pub mod algebra;
pub mod claims;
pub mod fungible;
pub mod nft;

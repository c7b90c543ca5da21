//! Stands in for the crate of the same name, which is not installed here.

use solana_sdk::account::AccountSharedData;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum UiAccountEncoding {
    Binary,
    Base58,
    Base64,
    JsonParsed,
    Base64Zstd,
}

/// an account as told by a node, or something that cannot be decoded
#[derive(Clone, Debug)]
pub struct UiAccount(pub Option<AccountSharedData>);

impl UiAccount {
    pub fn decode<T: From<AccountSharedData>>(&self) -> Option<T> {
        self.0.clone().map(|a| a.into())
    }
}

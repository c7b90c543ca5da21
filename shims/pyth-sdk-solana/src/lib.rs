//! Offline stand-in for the parts of `pyth-sdk-solana` 0.10 that openbook-v2 reads.
use bytemuck::{Pod, Zeroable};

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Price {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
    pub publish_time: i64,
}

pub mod state {
    use super::*;

    pub const MAGIC: u32 = 0xa1b2c3d4;
    pub const VERSION_2: u32 = 2;
    pub const ACCOUNT_TYPE_PRICE: u32 = 3;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Pod, Zeroable)]
    #[repr(transparent)]
    pub struct PriceStatus(pub u8);
    #[allow(non_upper_case_globals)]
    impl PriceStatus {
        pub const Unknown: Self = Self(0);
        pub const Trading: Self = Self(1);
        pub const Halted: Self = Self(2);
        pub const Auction: Self = Self(3);
        pub const Ignored: Self = Self(4);
    }

    #[derive(Clone, Copy, Debug, Pod, Zeroable)]
    #[repr(C)]
    pub struct PriceInfo {
        pub price: i64,
        pub conf: u64,
        pub status: PriceStatus,
        pub corp_act: u8,
        pub _pad: [u8; 6],
        pub pub_slot: u64,
    }

    #[derive(Clone, Copy, Debug, Pod, Zeroable)]
    #[repr(C)]
    pub struct PriceComp {
        pub publisher: [u8; 32],
        pub agg: PriceInfo,
        pub latest: PriceInfo,
    }

    #[derive(Clone, Copy, Debug, Pod, Zeroable)]
    #[repr(C)]
    pub struct Rational {
        pub val: i64,
        pub numer: i64,
        pub denom: i64,
    }

    #[derive(Clone, Copy, Debug, Pod, Zeroable)]
    #[repr(C)]
    pub struct SolanaPriceAccount {
        pub magic: u32,
        pub ver: u32,
        pub atype: u32,
        pub size: u32,
        pub ptype: u8,
        pub _pad: [u8; 3],
        pub expo: i32,
        pub num: u32,
        pub num_qt: u32,
        pub last_slot: u64,
        pub valid_slot: u64,
        pub ema_price: Rational,
        pub ema_conf: Rational,
        pub timestamp: i64,
        pub min_pub: u8,
        pub drv2: u8,
        pub drv3: u16,
        pub drv4: u32,
        pub prod: [u8; 32],
        pub next: [u8; 32],
        pub prev_slot: u64,
        pub prev_price: i64,
        pub prev_conf: u64,
        pub prev_timestamp: i64,
        pub agg: PriceInfo,
        pub comp: [PriceComp; 32],
    }

    #[derive(Debug)]
    pub enum PythError {
        InvalidAccountData,
        BadVersionNumber,
        WrongAccountType,
    }

    pub fn load_price_account(data: &[u8]) -> Result<&SolanaPriceAccount, PythError> {
        let size = std::mem::size_of::<SolanaPriceAccount>();
        let acc: &SolanaPriceAccount =
            bytemuck::try_from_bytes(data.get(0..size).ok_or(PythError::InvalidAccountData)?)
                .map_err(|_| PythError::InvalidAccountData)?;
        if acc.magic != MAGIC {
            return Err(PythError::InvalidAccountData);
        }
        if acc.ver != VERSION_2 {
            return Err(PythError::BadVersionNumber);
        }
        if acc.atype != ACCOUNT_TYPE_PRICE {
            return Err(PythError::WrongAccountType);
        }
        Ok(acc)
    }
}

//! Stands in for the crate of the same name, which is not installed here. Whatever would go to a node is
//! handed to the node set by the harness for the running thread.

use client_error::ClientError;
use solana_sdk::account::Account;
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::hash::Hash;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Signature;
use solana_sdk::transaction::VersionedTransaction;
use std::cell::RefCell;

pub trait Node {
    fn account(&mut self, key: &Pubkey, commitment: CommitmentConfig) -> Result<(u64, Option<Account>), ClientError>;
    fn program_accounts(&mut self, program: &Pubkey, config: &rpc_config::RpcProgramAccountsConfig) -> Result<Vec<(Pubkey, Account)>, ClientError>;
    fn blockhash(&mut self) -> Result<Hash, ClientError>;
    fn send(&mut self, tx: &VersionedTransaction, confirm: bool) -> Result<Signature, ClientError>;
    fn statuses(&mut self, signatures: &[Signature]) -> Result<Vec<Option<u64>>, ClientError>;
}

thread_local! {
    static NODE: RefCell<Option<Box<dyn Node>>> = RefCell::new(None);
}

pub fn set_node(n: Option<Box<dyn Node>>) -> Option<Box<dyn Node>> {
    NODE.with(|c| std::mem::replace(&mut *c.borrow_mut(), n))
}

fn node<R>(f: impl FnOnce(&mut dyn Node) -> R) -> R {
    NODE.with(|c| f(&mut **c.borrow_mut().as_mut().expect("a node")))
}

/// What the helper that sends and confirms asks a node.
pub trait Confirmer {
    fn send(&mut self, tx: &solana_sdk::transaction::Transaction) -> Result<Signature, ClientError>;
    fn blockhash(&mut self, commitment: CommitmentConfig) -> Result<Hash, ClientError>;
    fn valid(&mut self, hash: &Hash, commitment: CommitmentConfig) -> Result<bool, ClientError>;
    fn statuses(&mut self, signatures: &[Signature]) -> Result<Vec<Option<rpc_response::TransactionStatus>>, ClientError>;
}

pub mod rpc_client {
    use crate::client_error::Result;
    use crate::rpc_response::*;
    use crate::*;
    use std::sync::Mutex;

    pub struct RpcClient {
        commitment: CommitmentConfig,
        node: Mutex<Box<dyn Confirmer>>,
    }

    impl RpcClient {
        pub fn over(node: Box<dyn Confirmer>, commitment: CommitmentConfig) -> Self {
            RpcClient { commitment, node: Mutex::new(node) }
        }
        pub fn commitment(&self) -> CommitmentConfig {
            self.commitment
        }
        pub fn send_transaction(&self, tx: &solana_sdk::transaction::Transaction) -> Result<Signature> {
            self.node.lock().unwrap().send(tx)
        }
        pub fn get_latest_blockhash(&self) -> Result<Hash> {
            self.node.lock().unwrap().blockhash(self.commitment)
        }
        pub fn get_latest_blockhash_with_commitment(&self, commitment: CommitmentConfig) -> Result<(Hash, u64)> {
            Ok((self.node.lock().unwrap().blockhash(commitment)?, 0))
        }
        pub fn is_blockhash_valid(&self, hash: &Hash, commitment: CommitmentConfig) -> Result<bool> {
            self.node.lock().unwrap().valid(hash, commitment)
        }
        pub fn get_signature_statuses(&self, signatures: &[Signature]) -> Result<Response<Vec<Option<TransactionStatus>>>> {
            let value = self.node.lock().unwrap().statuses(signatures)?;
            Ok(Response { context: RpcResponseContext::default(), value })
        }
    }
}

pub mod client_error {
    use crate::rpc_request::RpcError;

    #[derive(Debug, thiserror::Error)]
    pub enum ClientErrorKind {
        #[error("{0}")]
        RpcError(RpcError),
        #[error("{0}")]
        TransactionError(solana_sdk::transaction::TransactionError),
        #[error("{0}")]
        Custom(String),
    }

    #[derive(Debug, thiserror::Error)]
    #[error("{kind}")]
    pub struct ClientError {
        pub kind: ClientErrorKind,
    }

    impl ClientError {
        pub fn kind(&self) -> &ClientErrorKind {
            &self.kind
        }
    }

    impl From<ClientErrorKind> for ClientError {
        fn from(kind: ClientErrorKind) -> Self {
            ClientError { kind }
        }
    }

    impl From<RpcError> for ClientError {
        fn from(e: RpcError) -> Self {
            ClientErrorKind::RpcError(e).into()
        }
    }

    impl From<solana_sdk::transaction::TransactionError> for ClientError {
        fn from(e: solana_sdk::transaction::TransactionError) -> Self {
            ClientErrorKind::TransactionError(e).into()
        }
    }

    pub type Result<T> = std::result::Result<T, ClientError>;
}

pub mod rpc_request {
    #[derive(Debug)]
    pub enum RpcResponseErrorData {
        Empty,
        SendTransactionPreflightFailure(crate::rpc_response::RpcSimulateTransactionResult),
        NodeUnhealthy { num_slots_behind: Option<u64> },
    }

    #[derive(Debug, thiserror::Error)]
    pub enum RpcError {
        #[error("RPC request error: {0}")]
        RpcRequestError(String),
        #[error("RPC response error {code}: {message}")]
        RpcResponseError { code: i64, message: String, data: RpcResponseErrorData },
        #[error("{0}")]
        ForUser(String),
    }
}

pub mod rpc_response {
    use solana_sdk::commitment_config::CommitmentConfig;
    use solana_sdk::transaction::TransactionError;

    #[derive(Clone, Debug, Default)]
    pub struct RpcResponseContext {
        pub slot: u64,
    }

    #[derive(Clone, Debug)]
    pub struct Response<T> {
        pub context: RpcResponseContext,
        pub value: T,
    }

    #[derive(Clone, Debug)]
    pub struct RpcKeyedAccount {
        pub pubkey: String,
        pub account: solana_account_decoder::UiAccount,
    }

    #[derive(Clone, Debug)]
    pub struct RpcSimulateTransactionResult {
        pub err: Option<TransactionError>,
        pub logs: Option<Vec<String>>,
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum TransactionConfirmationStatus {
        Processed,
        Confirmed,
        Finalized,
    }

    #[derive(Clone, Debug)]
    pub struct TransactionStatus {
        pub slot: u64,
        pub confirmations: Option<usize>,
        pub status: Result<(), TransactionError>,
        pub err: Option<TransactionError>,
        pub confirmation_status: Option<TransactionConfirmationStatus>,
    }

    impl TransactionStatus {
        pub fn new(slot: u64, err: Option<TransactionError>, level: TransactionConfirmationStatus) -> Self {
            TransactionStatus {
                slot,
                confirmations: if level == TransactionConfirmationStatus::Finalized { None } else { Some(1) },
                status: err.clone().map_or(Ok(()), Err),
                err,
                confirmation_status: Some(level),
            }
        }
        pub fn confirmation_status(&self) -> TransactionConfirmationStatus {
            self.confirmation_status.clone().unwrap_or(TransactionConfirmationStatus::Finalized)
        }
        pub fn satisfies_commitment(&self, commitment: CommitmentConfig) -> bool {
            let level = self.confirmation_status();
            if commitment.is_finalized() {
                level == TransactionConfirmationStatus::Finalized
            } else if commitment.is_confirmed() {
                level != TransactionConfirmationStatus::Processed
            } else {
                true
            }
        }
    }

    #[derive(Clone, Debug)]
    pub enum SlotUpdate {
        FirstShredReceived { slot: u64, timestamp: u64 },
        Completed { slot: u64, timestamp: u64 },
        CreatedBank { slot: u64, parent: u64, timestamp: u64 },
        Dead { slot: u64, timestamp: u64, err: String },
        OptimisticConfirmation { slot: u64, timestamp: u64 },
        Root { slot: u64, timestamp: u64 },
    }
}

pub mod rpc_filter {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Memcmp {
        pub offset: usize,
        pub bytes: Vec<u8>,
    }

    impl Memcmp {
        pub fn new_raw_bytes(offset: usize, bytes: Vec<u8>) -> Self {
            Memcmp { offset, bytes }
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum RpcFilterType {
        DataSize(u64),
        Memcmp(Memcmp),
    }

    impl RpcFilterType {
        pub fn allows(&self, data: &[u8]) -> bool {
            match self {
                RpcFilterType::DataSize(n) => data.len() as u64 == *n,
                RpcFilterType::Memcmp(m) => data.len() >= m.offset + m.bytes.len() && data[m.offset..m.offset + m.bytes.len()] == m.bytes[..],
            }
        }
    }
}

pub mod rpc_config {
    use solana_account_decoder::UiAccountEncoding;
    use solana_sdk::commitment_config::{CommitmentConfig, CommitmentLevel};

    #[derive(Clone, Copy, Debug, Default)]
    pub struct RpcSendTransactionConfig {
        pub skip_preflight: bool,
        pub preflight_commitment: Option<CommitmentLevel>,
        pub encoding: Option<()>,
        pub max_retries: Option<usize>,
        pub min_context_slot: Option<u64>,
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct UiDataSliceConfig {
        pub offset: usize,
        pub length: usize,
    }

    #[derive(Clone, Debug, Default)]
    pub struct RpcAccountInfoConfig {
        pub encoding: Option<UiAccountEncoding>,
        pub data_slice: Option<UiDataSliceConfig>,
        pub commitment: Option<CommitmentConfig>,
        pub min_context_slot: Option<u64>,
    }

    #[derive(Clone, Debug, Default)]
    pub struct RpcProgramAccountsConfig {
        pub filters: Option<Vec<crate::rpc_filter::RpcFilterType>>,
        pub account_config: RpcAccountInfoConfig,
        pub with_context: Option<bool>,
    }
}

pub mod nonblocking {
    pub mod rpc_client {
        use crate::client_error::{ClientErrorKind, Result};
        use crate::rpc_config::*;
        use crate::rpc_response::*;
        use crate::*;
        use std::time::Duration;

        pub struct RpcClient {
            pub url: String,
            pub timeout: Option<Duration>,
            commitment: CommitmentConfig,
        }

        /// gives other tasks a turn, as a request to a node does
        async fn turn() {
            let mut waited = false;
            std::future::poll_fn(|_| {
                if waited {
                    std::task::Poll::Ready(())
                } else {
                    waited = true;
                    std::task::Poll::Pending
                }
            })
            .await
        }

        impl RpcClient {
            pub fn new_with_commitment(url: String, commitment: CommitmentConfig) -> Self {
                RpcClient { url, timeout: None, commitment }
            }
            pub fn new_with_timeout_and_commitment(url: String, timeout: Duration, commitment: CommitmentConfig) -> Self {
                RpcClient { url, timeout: Some(timeout), commitment }
            }
            pub fn commitment(&self) -> CommitmentConfig {
                self.commitment
            }
            pub async fn get_account_with_commitment(&self, key: &Pubkey, commitment: CommitmentConfig) -> Result<Response<Option<Account>>> {
                turn().await;
                let (slot, value) = node(|n| n.account(key, commitment))?;
                Ok(Response { context: RpcResponseContext { slot }, value })
            }
            pub async fn get_account(&self, key: &Pubkey) -> Result<Account> {
                let a = self.get_account_with_commitment(key, self.commitment).await?.value;
                a.ok_or_else(|| ClientErrorKind::RpcError(rpc_request::RpcError::ForUser(format!("AccountNotFound: pubkey={key}"))).into())
            }
            pub async fn get_program_accounts_with_config(&self, program: &Pubkey, config: RpcProgramAccountsConfig) -> Result<Vec<(Pubkey, Account)>> {
                turn().await;
                node(|n| n.program_accounts(program, &config))
            }
            pub async fn get_latest_blockhash(&self) -> Result<Hash> {
                turn().await;
                node(|n| n.blockhash())
            }
            pub async fn send_transaction_with_config(&self, tx: &VersionedTransaction, _: RpcSendTransactionConfig) -> Result<Signature> {
                turn().await;
                node(|n| n.send(tx, false))
            }
            pub async fn send_and_confirm_transaction(&self, tx: &VersionedTransaction) -> Result<Signature> {
                turn().await;
                node(|n| n.send(tx, true))
            }
            pub async fn get_signature_statuses(&self, signatures: &[Signature]) -> Result<Response<Vec<Option<TransactionStatus>>>> {
                turn().await;
                let v = node(|n| n.statuses(signatures))?;
                Ok(Response { context: RpcResponseContext::default(), value: v.into_iter().map(|s| s.map(|slot| TransactionStatus::new(slot, None, TransactionConfirmationStatus::Finalized))).collect() })
            }
        }
    }
}

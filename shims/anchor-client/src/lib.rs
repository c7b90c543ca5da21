//! Stands in for the crate of the same name, which is not installed here.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cluster {
    Localnet,
    Custom(String, String),
}

impl Cluster {
    pub fn url(&self) -> &str {
        match self {
            Cluster::Localnet => "http://127.0.0.1:8899",
            Cluster::Custom(u, _) => u,
        }
    }
}

#[derive(Debug, thiserror::Error)]
pub enum ClientError {
    #[error("Account not found")]
    AccountNotFound,
    #[error("{0}")]
    SolanaClientError(#[from] solana_client::client_error::ClientError),
}

//! Offline stand-in for `solana-security-txt`: metadata only, nothing to emit.
#[macro_export]
macro_rules! security_txt {
    ($($name:ident: $value:expr),* $(,)?) => {};
}

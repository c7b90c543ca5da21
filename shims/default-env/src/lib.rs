//! Offline stand-in for `default-env`: always takes the default.
#[macro_export]
macro_rules! default_env {
    ($name:expr, $default:expr) => {
        $default
    };
}

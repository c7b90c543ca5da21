//! Stands in for the crate of the same name, which is not installed here.

pub fn tilde(s: &str) -> String {
    s.to_string()
}

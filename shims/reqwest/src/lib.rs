//! Stands in for the crate of the same name, which is not installed here. Nothing is ever requested through it.

#[derive(Clone, Default)]
pub struct Client;

impl Client {
    pub fn new() -> Self {
        Client
    }
}

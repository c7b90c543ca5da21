//! Stands in for the crate of the same name, which is not installed here: a bounded queue with a sender and a receiver.

use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

struct Inner<T> {
    queue: VecDeque<T>,
    room: usize,
    closed: bool,
}

pub struct Sender<T>(Arc<Mutex<Inner<T>>>);
pub struct Receiver<T>(Arc<Mutex<Inner<T>>>);

#[derive(Debug, PartialEq, Eq)]
pub struct SendError<T>(pub T);

#[derive(Debug, PartialEq, Eq)]
pub enum TrySendError<T> {
    Full(T),
    Closed(T),
}

pub fn bounded<T>(room: usize) -> (Sender<T>, Receiver<T>) {
    let i = Arc::new(Mutex::new(Inner { queue: VecDeque::new(), room, closed: false }));
    (Sender(i.clone()), Receiver(i))
}

impl<T> Sender<T> {
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        let mut i = self.0.lock().unwrap();
        if i.closed {
            return Err(TrySendError::Closed(msg));
        }
        if i.queue.len() >= i.room {
            return Err(TrySendError::Full(msg));
        }
        i.queue.push_back(msg);
        Ok(())
    }
    pub fn is_full(&self) -> bool {
        let i = self.0.lock().unwrap();
        i.queue.len() >= i.room
    }
    pub fn is_empty(&self) -> bool {
        self.0.lock().unwrap().queue.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().queue.len()
    }
    pub fn is_closed(&self) -> bool {
        self.0.lock().unwrap().closed
    }
}

impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Option<T> {
        self.0.lock().unwrap().queue.pop_front()
    }
    pub fn close(&self) {
        self.0.lock().unwrap().closed = true;
    }
}

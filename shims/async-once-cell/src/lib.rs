//! Stands in for the crate of the same name, which is not installed here: a value computed once by the first
//! task that asks for it. Tasks waiting for another one are polled again by the executor of the harness.

pub mod unpin {
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Mutex, OnceLock};
    use std::task::Poll;

    pub struct Lazy<T, F = Pin<Box<dyn Future<Output = T> + Send>>> {
        value: OnceLock<T>,
        init: Mutex<Option<F>>,
    }

    impl<T, F: Future<Output = T> + Unpin> Lazy<T, F> {
        pub fn new(init: F) -> Self {
            Lazy { value: OnceLock::new(), init: Mutex::new(Some(init)) }
        }

        pub async fn get(&self) -> &T {
            std::future::poll_fn(|cx| {
                if let Some(v) = self.value.get() {
                    return Poll::Ready(v);
                }
                let mut init = self.init.lock().unwrap();
                match Pin::new(init.as_mut().unwrap()).poll(cx) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(v) => {
                        *init = None;
                        Poll::Ready(self.value.get_or_init(|| v))
                    }
                }
            })
            .await
        }
    }
}

//! Model of `tokio::task`.
#![allow(missing_docs, missing_debug_implementations, unreachable_pub)]
use crate::model;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

struct State<T> {
    out: Option<T>,
    done: bool,
    waker: Option<Waker>,
}

pub struct JoinHandle<T> {
    id: usize,
    st: Arc<Mutex<State<T>>>,
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle")
    }
}

pub struct JoinError(());
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        true
    }
    pub fn is_panic(&self) -> bool {
        false
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinError::Cancelled")
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("cancelled")
    }
}
impl std::error::Error for JoinError {}

/// Marks the result as done even if the task gets dropped.
struct Fin<T>(Arc<Mutex<State<T>>>);
impl<T> Drop for Fin<T> {
    fn drop(&mut self) {
        let w = {
            let mut s = self.0.lock().unwrap();
            s.done = true;
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}

pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let st = Arc::new(Mutex::new(State { out: None, done: false, waker: None }));
    let fin = Fin(st.clone());
    let id = model::spawn_raw(Box::pin(async move {
        let out = f.await;
        fin.0.lock().unwrap().out = Some(out);
        drop(fin);
    }));
    JoinHandle { id, st }
}

pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn(async move { f() })
}

pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}

pub async fn yield_now() {
    model::Yield(false).await
}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        model::abort(self.id);
    }
    pub fn is_finished(&self) -> bool {
        self.st.lock().unwrap().done
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.st.lock().unwrap();
        if let Some(o) = s.out.take() {
            return Poll::Ready(Ok(o));
        }
        if s.done {
            return Poll::Ready(Err(JoinError(())));
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

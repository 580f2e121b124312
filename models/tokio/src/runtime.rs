//! Model of `tokio::runtime`: there is always one.
#![allow(missing_docs, missing_debug_implementations, unreachable_pub)]
use crate::task::JoinHandle;
use std::future::Future;

#[derive(Clone, Debug)]
pub struct Handle(());
#[derive(Debug)]
pub struct TryCurrentError(());
impl std::fmt::Display for TryCurrentError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no runtime")
    }
}
impl std::error::Error for TryCurrentError {}
#[derive(Debug)]
pub struct EnterGuard<'a>(std::marker::PhantomData<&'a Handle>);

impl Handle {
    pub fn current() -> Handle {
        Handle(())
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        Ok(Handle(()))
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_blocking(f)
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        EnterGuard(std::marker::PhantomData)
    }
}

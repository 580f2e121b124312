cfg_io_driver! {
    pub(crate) mod bit;
    pub(crate) mod slab;
}

#[cfg(feature = "x-rt")]
pub(crate) mod atomic_cell;

#[cfg(any(
    // io driver uses `WakeList` directly
    feature = "x-net",
    feature = "x-process",
    // `sync` enables `Notify` and `batch_semaphore`, which require `WakeList`.
    not(feature = "x-nosync"),
    // `fs` uses `batch_semaphore`, which requires `WakeList`.
    feature = "x-fs",
    // rt and signal use `Notify`, which requires `WakeList`.
    feature = "x-rt",
    feature = "x-signal",
))]
mod wake_list;
#[cfg(any(
    feature = "x-net",
    feature = "x-process",
    not(feature = "x-nosync"),
    feature = "x-fs",
    feature = "x-rt",
    feature = "x-signal",
))]
pub(crate) use wake_list::WakeList;

#[cfg(any(
    feature = "x-fs",
    feature = "x-net",
    feature = "x-process",
    feature = "x-rt",
    not(feature = "x-nosync"),
    feature = "x-signal",
    feature = "x-time",
))]
pub(crate) mod linked_list;

#[cfg(any(feature = "x-rt-multi-thread", feature = "x-macros"))]
mod rand;

cfg_rt! {
    cfg_unstable! {
        mod idle_notified_set;
        pub(crate) use idle_notified_set::IdleNotifiedSet;
    }

    mod wake;
    pub(crate) use wake::WakerRef;
    pub(crate) use wake::{waker_ref, Wake};

    mod sync_wrapper;
    pub(crate) use sync_wrapper::SyncWrapper;

    mod vec_deque_cell;
    pub(crate) use vec_deque_cell::VecDequeCell;
}

cfg_rt_multi_thread! {
    pub(crate) use self::rand::FastRand;

    mod try_lock;
    pub(crate) use try_lock::TryLock;
}

pub(crate) mod trace;

#[cfg(any(feature = "x-macros"))]
#[cfg_attr(not(feature = "x-macros"), allow(unreachable_pub))]
pub use self::rand::thread_rng_n;

#[cfg(any(
    feature = "x-rt",
    feature = "x-time",
    feature = "x-net",
    feature = "x-process",
    all(unix, feature = "x-signal")
))]
pub(crate) mod error;

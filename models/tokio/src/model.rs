//! Deterministic single threaded executor. The task which runs next, and the points where a task
//! gets preempted, are symbolic (bounded by budgets of delays and preemptions).
#![allow(missing_docs, missing_debug_implementations, static_mut_refs, unreachable_pub)]
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

type Fut = Pin<Box<dyn Future<Output = ()>>>;

struct Slot {
    fut: Option<Fut>,
    queued: bool,
    aborted: bool,
    running: bool,
}

pub struct Ex {
    tasks: Vec<Slot>,
    queue: VecDeque<usize>,
    current: Option<usize>,
    /// remaining number of times when a task other than the first ready one is taken
    pub delays: usize,
    /// remaining number of preemptions at a synchronisation operation
    pub preempts: usize,
    /// remaining number of times when other tasks run in the middle of a step of a task, before
    /// one of its atomic operations (as on another thread)
    pub races: usize,
    pub polls: usize,
    pub max_polls: usize,
    pub now: u64,
    timers: Vec<(u64, u64, Waker)>,
    timer_seq: u64,
}

static mut EX: Option<Ex> = None;

pub fn ex() -> &'static mut Ex {
    unsafe {
        EX.get_or_insert_with(|| Ex {
            tasks: Vec::new(),
            queue: VecDeque::new(),
            current: None,
            delays: 0,
            preempts: 0,
            races: 0,
            polls: 0,
            max_polls: 20_000,
            now: 1_000_000_000_000,
            timers: Vec::new(),
            timer_seq: 0,
        })
    }
}

/// Sets the bounds of the schedule exploration.
pub fn configure(delays: usize, preempts: usize) {
    let e = ex();
    e.delays = delays;
    e.preempts = preempts;
}

/// Sets the number of times when other tasks run in the middle of a step of a task.
pub fn configure_races(races: usize) {
    ex().races = races;
}

/// Called before every atomic operation of the crate: other threads may run here.
#[inline(never)]
pub(crate) fn race() {
    loop {
        let e = ex();
        let n = e.queue.len();
        if e.races == 0 || e.current.is_none() || n == 0 {
            return;
        }
        let k = vk::conc(vk::choose(n + 1, "race"));
        if k == 0 {
            return;
        }
        e.races -= 1;
        let me = e.current.take();
        let id = e.queue.remove(k - 1).unwrap();
        e.tasks[id].queued = false;
        poll(id);
        ex().current = me;
    }
}

fn enqueue(id: usize) {
    let e = ex();
    let t = &mut e.tasks[id];
    if t.fut.is_none() && !t.running {
        return;
    }
    if !t.queued {
        t.queued = true;
        e.queue.push_back(id);
    }
}

static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake, w_drop);
unsafe fn w_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VT)
}
unsafe fn w_wake(p: *const ()) {
    enqueue(p as usize - 1)
}
unsafe fn w_drop(_p: *const ()) {}
fn waker(id: usize) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new((id + 1) as *const (), &VT)) }
}

pub(crate) fn spawn_raw(fut: Fut) -> usize {
    let e = ex();
    let id = e.tasks.len();
    e.tasks.push(Slot { fut: Some(fut), queued: false, aborted: false, running: false });
    enqueue(id);
    id
}

/// Spawns a task of a harness.
pub fn spawn_local<F: Future<Output = ()> + 'static>(fut: F) -> usize {
    spawn_raw(Box::pin(fut))
}

/// The task gets dropped when it would run next (as in tokio, not at once: others may run before).
pub fn abort(id: usize) {
    ex().tasks[id].aborted = true;
    enqueue(id);
}

pub fn is_done(id: usize) -> bool {
    let e = ex();
    e.tasks[id].fut.is_none() && !e.tasks[id].running
}

fn pick() -> Option<usize> {
    let e = ex();
    let n = e.queue.len();
    if n == 0 {
        return None;
    }
    let mut k = 0;
    if n > 1 && e.delays > 0 {
        k = vk::conc(vk::choose(n, "next"));
        if k > 0 {
            e.delays -= 1;
        }
    }
    let id = e.queue.remove(k).unwrap();
    e.tasks[id].queued = false;
    Some(id)
}

/// Runs one ready task. Returns false if there is none.
pub fn step() -> bool {
    let id = match pick() {
        Some(id) => id,
        None => return false,
    };
    poll(id);
    true
}

fn poll(id: usize) {
    let e = ex();
    let mut fut = match e.tasks[id].fut.take() {
        Some(f) => f,
        None => return,
    };
    e.polls += 1;
    vk::check(e.polls < e.max_polls, "livelock: the bound on task polls was reached");
    e.current = Some(id);
    e.tasks[id].running = true;
    if e.tasks[id].aborted {
        drop(fut);
        ex().current = None;
        ex().tasks[id].running = false;
        return;
    }
    let w = waker(id);
    let mut cx = Context::from_waker(&w);
    let r = fut.as_mut().poll(&mut cx);
    ex().current = None;
    ex().tasks[id].running = false;
    if r.is_ready() || ex().tasks[id].aborted {
        drop(fut);
    } else {
        ex().tasks[id].fut = Some(fut);
    }
}

/// Runs until no task is ready (time does not pass).
pub fn run_until_idle() {
    while step() {}
}

/// Runs (with time passing up to `limit_ns` when nothing is ready) until the condition holds.
/// Returns false if it never happens.
pub fn run_until<F: FnMut() -> bool>(limit_ns: u64, mut done: F) -> bool {
    let end = ex().now + limit_ns;
    loop {
        if done() {
            return true;
        }
        if step() {
            continue;
        }
        if !advance(end) {
            return done();
        }
    }
}

/// Moves time to the nearest timer.
pub fn advance(limit: u64) -> bool {
    let e = ex();
    let mut best: Option<usize> = None;
    for (i, t) in e.timers.iter().enumerate() {
        match best {
            Some(b) if (e.timers[b].0, e.timers[b].1) <= (t.0, t.1) => {}
            _ => best = Some(i),
        }
    }
    match best {
        Some(i) if e.timers[i].0 <= limit => {
            let (at, _, w) = e.timers.remove(i);
            if at > e.now {
                e.now = at;
                vk::clock(at);
            }
            w.wake();
            true
        }
        _ => false,
    }
}

/// Passes given time, firing timers on the way.
pub fn pass(ns: u64) {
    let end = ex().now + ns;
    loop {
        run_until_idle();
        if !advance(end) {
            break;
        }
    }
    ex().now = end;
    vk::clock(end);
}

pub(crate) fn add_timer(at: u64, w: Waker) {
    let e = ex();
    e.timer_seq += 1;
    let s = e.timer_seq;
    e.timers.push((at, s, w));
}

/// Called by every operation of `tokio::sync`.
#[inline(never)]
pub(crate) fn preempt(cx: &mut Context<'_>) -> bool {
    let e = ex();
    if e.preempts == 0 || e.current.is_none() || e.queue.is_empty() {
        return false;
    }
    if vk::conc(vk::choose(2, "preempt")) == 1 {
        e.preempts -= 1;
        cx.waker().wake_by_ref();
        return true;
    }
    false
}

/// Gives other tasks a chance to run.
pub struct Yield(pub bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

pub use crate::net::raw;

/// Atomics of the crate: the ones of `std`, with other tasks running in between.
pub mod atomic {
    pub use std::sync::atomic::*;
    use std::sync::atomic as a;
    macro_rules! common {
        ($n:ident, $t:ty) => {
            #[derive(Default)]
            #[repr(transparent)]
            pub struct $n(a::$n);
            impl std::fmt::Debug for $n {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    self.0.fmt(f)
                }
            }
            impl From<$t> for $n {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl $n {
                pub const fn new(v: $t) -> Self {
                    Self(a::$n::new(v))
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub fn load(&self, o: Ordering) -> $t {
                    super::race();
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    super::race();
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    super::race();
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(&self, c: $t, n: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                    super::race();
                    self.0.compare_exchange(c, n, o, p)
                }
                pub fn compare_exchange_weak(&self, c: $t, n: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                    super::race();
                    self.0.compare_exchange(c, n, o, p)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> {
                    super::race();
                    self.0.fetch_update(o, p, f)
                }
            }
        };
    }
    macro_rules! ops {
        ($n:ident, $t:ty, $($f:ident),*) => {
            impl $n {
                $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                    super::race();
                    self.0.$f(v, o)
                })*
            }
        };
    }
    common!(AtomicBool, bool);
    ops!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
    macro_rules! int {
        ($($n:ident $t:ty),*) => {$(
            common!($n, $t);
            ops!($n, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
        )*};
    }
    int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
}

//! Model of `tokio::net`: in-memory duplex byte streams. The environment (a harness) may read and
//! write the other end byte by byte, limit the size of reads and writes, close or reset it.
#![allow(missing_docs, missing_debug_implementations, unreachable_pub, static_mut_refs)]
use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use std::collections::VecDeque;
use std::fmt;
use std::io;
use std::net::{Ipv4Addr, SocketAddr, ToSocketAddrs as StdToSocketAddrs};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub use std::net::ToSocketAddrs;

/// One direction of a connection.
pub(crate) struct Pipe {
    buf: VecDeque<Vec<u8>>,
    head: usize,
    len: usize,
    /// most bytes accepted before a write has to wait
    cap: usize,
    /// sizes of the next reads (empty: as much as possible)
    cuts: VecDeque<usize>,
    /// sizes of the next writes (empty: as much as possible)
    wcuts: VecDeque<usize>,
    eof: bool,
    reset: bool,
    reader_gone: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
}
type P = Arc<Mutex<Pipe>>;

static mut CAPACITY: usize = usize::MAX;

fn pipe() -> P {
    Arc::new(Mutex::new(Pipe {
        buf: VecDeque::new(),
        head: 0,
        len: 0,
        cap: unsafe { CAPACITY },
        cuts: VecDeque::new(),
        wcuts: VecDeque::new(),
        eof: false,
        reset: false,
        reader_gone: false,
        rw: None,
        ww: None,
    }))
}

fn wake(w: Option<Waker>) {
    if let Some(w) = w {
        w.wake()
    }
}

impl Pipe {
    fn push(&mut self, b: &[u8]) {
        if !b.is_empty() {
            self.buf.push_back(b.to_vec());
            self.len += b.len();
        }
    }
    fn take(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::new();
        while out.len() < n && !self.buf.is_empty() {
            let c = &self.buf[0];
            let k = (c.len() - self.head).min(n - out.len());
            out.extend_from_slice(&c[self.head..self.head + k]);
            self.head += k;
            if self.head == c.len() {
                self.buf.pop_front();
                self.head = 0;
            }
        }
        self.len -= out.len();
        out
    }
}

fn poll_read(p: &P, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    if crate::model::preempt(cx) {
        return Poll::Pending;
    }
    let w;
    {
        let mut s = p.lock().unwrap();
        if s.len == 0 {
            if s.reset {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if s.eof {
                return Poll::Ready(Ok(()));
            }
            s.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = s.len.min(buf.remaining());
        if let Some(c) = s.cuts.pop_front() {
            n = n.min(c.max(1));
        }
        let b = s.take(n);
        buf.put_slice(&b);
        w = s.ww.take();
    }
    wake(w);
    Poll::Ready(Ok(()))
}

fn poll_write(p: &P, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
    if crate::model::preempt(cx) {
        return Poll::Pending;
    }
    let w;
    let n;
    {
        let mut s = p.lock().unwrap();
        if s.reset || s.reader_gone || s.eof {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let mut room = s.cap.saturating_sub(s.len).min(b.len());
        if room == 0 && !b.is_empty() {
            s.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if let Some(c) = s.wcuts.pop_front() {
            room = room.min(c.max(1));
        }
        n = room;
        s.push(&b[..n]);
        w = s.rw.take();
    }
    wake(w);
    Poll::Ready(Ok(n))
}

fn close_write(p: &P) {
    let w = {
        let mut s = p.lock().unwrap();
        s.eof = true;
        s.rw.take()
    };
    wake(w)
}

fn close_read(p: &P) {
    let w = {
        let mut s = p.lock().unwrap();
        s.reader_gone = true;
        s.ww.take()
    };
    wake(w)
}

struct RHalf(P);
impl Drop for RHalf {
    fn drop(&mut self) {
        close_read(&self.0)
    }
}
struct WHalf(P);
impl Drop for WHalf {
    fn drop(&mut self) {
        close_write(&self.0)
    }
}

pub struct TcpStream {
    r: RHalf,
    w: WHalf,
    peer: SocketAddr,
    local: SocketAddr,
}
impl fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("TcpStream")
    }
}

struct Lst {
    queue: VecDeque<io::Result<TcpStream>>,
    waker: Option<Waker>,
    open: bool,
    backlog: usize,
}
static mut LISTENERS: Vec<(SocketAddr, Arc<Mutex<Lst>>)> = Vec::new();
static mut PORT: u16 = 40000;
static mut CONNECTS: usize = 0;

fn next_local() -> SocketAddr {
    unsafe {
        PORT += 1;
        SocketAddr::from((Ipv4Addr::LOCALHOST, PORT))
    }
}

fn pair(a: SocketAddr, b: SocketAddr) -> (TcpStream, TcpStream) {
    let (x, y) = (pipe(), pipe());
    (
        TcpStream { r: RHalf(x.clone()), w: WHalf(y.clone()), peer: b, local: a },
        TcpStream { r: RHalf(y), w: WHalf(x), peer: a, local: b },
    )
}

fn lookup(addr: SocketAddr) -> Option<Arc<Mutex<Lst>>> {
    unsafe {
        for (a, l) in LISTENERS.iter() {
            if *a == addr && l.lock().unwrap().open {
                return Some(l.clone());
            }
        }
    }
    None
}

fn connect(addr: SocketAddr) -> io::Result<TcpStream> {
    unsafe { CONNECTS += 1 };
    let l = lookup(addr).ok_or_else(|| io::Error::from(io::ErrorKind::ConnectionRefused))?;
    let (a, b) = pair(next_local(), addr);
    let w = {
        let mut l = l.lock().unwrap();
        if l.queue.len() >= l.backlog {
            return Err(io::ErrorKind::ConnectionRefused.into());
        }
        l.queue.push_back(Ok(b));
        l.waker.take()
    };
    wake(w);
    Ok(a)
}

impl TcpStream {
    pub async fn connect<A: StdToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        crate::task::yield_now().await; // connecting takes time
        let addr = addr
            .to_socket_addrs()?
            .next()
            .ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))?;
        connect(addr)
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        (
            tcp::OwnedReadHalf { r: self.r, peer: self.peer, local: self.local },
            tcp::OwnedWriteHalf { w: Some(self.w), peer: self.peer, local: self.local },
        )
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.peer)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.local)
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(false)
    }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn linger(&self) -> io::Result<Option<std::time::Duration>> {
        Ok(None)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        poll_read(&self.r.0, cx, buf)
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        poll_write(&self.w.0, cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        close_write(&self.w.0);
        Poll::Ready(Ok(()))
    }
}

pub mod tcp {
    use super::*;
    pub struct OwnedReadHalf {
        pub(super) r: RHalf,
        pub(super) peer: SocketAddr,
        pub(super) local: SocketAddr,
    }
    pub struct OwnedWriteHalf {
        pub(super) w: Option<WHalf>,
        pub(super) peer: SocketAddr,
        pub(super) local: SocketAddr,
    }
    impl fmt::Debug for OwnedReadHalf {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("OwnedReadHalf")
        }
    }
    impl fmt::Debug for OwnedWriteHalf {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("OwnedWriteHalf")
        }
    }
    impl OwnedReadHalf {
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.peer)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.local)
        }
    }
    impl OwnedWriteHalf {
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.peer)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.local)
        }
        pub fn forget(mut self) {
            std::mem::forget(self.w.take())
        }
    }
    impl AsyncRead for OwnedReadHalf {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            poll_read(&self.r.0, cx, buf)
        }
    }
    impl AsyncWrite for OwnedWriteHalf {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            poll_write(&self.w.as_ref().unwrap().0, cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            close_write(&self.w.as_ref().unwrap().0);
            Poll::Ready(Ok(()))
        }
    }
}

pub struct TcpListener {
    addr: SocketAddr,
    l: Arc<Mutex<Lst>>,
}
impl fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("TcpListener")
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        let q = {
            let mut l = self.l.lock().unwrap();
            l.open = false;
            std::mem::take(&mut l.queue)
        };
        drop(q);
    }
}
impl TcpListener {
    pub async fn bind<A: StdToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let addr = addr
            .to_socket_addrs()?
            .next()
            .ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))?;
        if lookup(addr).is_some() {
            return Err(io::ErrorKind::AddrInUse.into());
        }
        let l = Arc::new(Mutex::new(Lst { queue: VecDeque::new(), waker: None, open: true, backlog: 128 }));
        unsafe { LISTENERS.push((addr, l.clone())) };
        Ok(TcpListener { addr, l })
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        crate::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let mut l = self.l.lock().unwrap();
        match l.queue.pop_front() {
            Some(s) => Poll::Ready(s.map(|s| {
                let p = s.peer;
                (s, p)
            })),
            None => {
                l.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
}

pub async fn lookup_host<A: StdToSocketAddrs>(addr: A) -> io::Result<impl Iterator<Item = SocketAddr>> {
    addr.to_socket_addrs()
}

/// The environment side.
pub mod raw {
    use super::*;

    /// Other end of a connection, used by a harness outside of any task.
    pub struct Peer(TcpStream);

    impl Peer {
        /// A connected pair: the stream for the code under test and its other end.
        pub fn pair() -> (TcpStream, Peer) {
            let (a, b) = super::pair(next_local(), next_local());
            (a, Peer(b))
        }
        /// Connects to a listener of the code under test.
        pub fn connect(addr: SocketAddr) -> Option<Peer> {
            super::connect(addr).ok().map(Peer)
        }
        pub fn send(&self, b: &[u8]) {
            let w = {
                let mut s = self.0.w.0.lock().unwrap();
                s.push(b);
                s.rw.take()
            };
            wake(w)
        }
        pub fn available(&self) -> usize {
            self.0.r.0.lock().unwrap().len
        }
        pub fn recv(&self, n: usize) -> Vec<u8> {
            let (b, w) = {
                let mut s = self.0.r.0.lock().unwrap();
                (s.take(n), s.ww.take())
            };
            wake(w);
            b
        }
        /// The code under test has closed its writing side.
        pub fn eof(&self) -> bool {
            self.0.r.0.lock().unwrap().eof
        }
        /// The code under test does not read any more.
        pub fn gone(&self) -> bool {
            self.0.w.0.lock().unwrap().reader_gone
        }
        /// The environment stops sending.
        pub fn shutdown(&self) {
            close_write(&self.0.w.0)
        }
        /// Both directions fail.
        pub fn reset(&self) {
            for p in [&self.0.w.0, &self.0.r.0].iter() {
                let (a, b) = {
                    let mut s = p.lock().unwrap();
                    s.reset = true;
                    (s.rw.take(), s.ww.take())
                };
                wake(a);
                wake(b);
            }
        }
        /// Sizes of the reads of the code under test.
        pub fn cuts(&self, c: &[usize]) {
            self.0.w.0.lock().unwrap().cuts.extend(c.iter().copied())
        }
        /// Sizes of the writes accepted from the code under test.
        pub fn wcuts(&self, c: &[usize]) {
            self.0.r.0.lock().unwrap().wcuts.extend(c.iter().copied())
        }
        /// Bytes which the code under test may write before they get received.
        pub fn capacity(&self, n: usize) {
            let w = {
                let mut s = self.0.r.0.lock().unwrap();
                s.cap = n;
                s.ww.take()
            };
            wake(w)
        }
    }

    /// A listener of the environment.
    pub struct Listener(TcpListener);
    impl Listener {
        pub fn bind(addr: SocketAddr) -> Listener {
            let l = Arc::new(Mutex::new(Lst { queue: VecDeque::new(), waker: None, open: true, backlog: 128 }));
            unsafe { LISTENERS.push((addr, l.clone())) };
            Listener(TcpListener { addr, l })
        }
        pub fn accept(&self) -> Option<Peer> {
            self.0.l.lock().unwrap().queue.pop_front().and_then(|s| s.ok()).map(Peer)
        }
        /// Somebody connects.
        pub fn pending(&self) -> bool {
            !self.0.l.lock().unwrap().queue.is_empty()
        }
    }
    /// A client which connects and goes away before it is accepted, so that accepting it fails (see accept(2)).
    pub fn aborted(addr: SocketAddr, kind: io::ErrorKind) {
        if let Some(l) = lookup(addr) {
            let w = {
                let mut l = l.lock().unwrap();
                l.queue.push_back(Err(kind.into()));
                l.waker.take()
            };
            wake(w)
        }
    }
    /// Bytes held by each direction of the connections made from now on.
    pub fn default_capacity(n: usize) {
        unsafe { CAPACITY = n }
    }
    /// Number of attempts to connect made so far.
    pub fn connects() -> usize {
        unsafe { CONNECTS }
    }
}

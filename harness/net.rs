//! The other side of a connection, written from the protocol alone.
use super::common::*;
use crate::errors::HandlerError;
use crate::handler::HandlerResult;
use crate::messages::{MessageChannel, RawMessage};
use crate::{Config, ConfigBuilder, SubChannel, TChannel};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
use tokio::model::{self, raw::Listener, raw::Peer};

pub const ADDR: &str = "127.0.0.1:8888";
pub const SEC: u64 = 1_000_000_000;

pub fn addr() -> std::net::SocketAddr {
    std::net::SocketAddr::from(([127, 0, 0, 1], 8888))
}

pub fn config(max_connections: u32, buffer: usize, tasks: usize, test: bool) -> Config {
    ConfigBuilder::default()
        .max_connections(max_connections)
        .lifetime(Some(Duration::from_secs(60)))
        .test_connection(test)
        .frame_buffer_size(buffer)
        .server_address(addr())
        .server_tasks(tasks)
        .build()
        .unwrap()
}

#[derive(Clone)]
pub struct F {
    pub id: u32,
    pub code: u8,
    pub p: Vec<u8>,
}
impl F {
    pub fn new(id: u32, code: u8, p: Vec<u8>) -> F {
        F { id, code, p }
    }
    pub fn wire(&self) -> Vec<u8> {
        wire(self.id, self.code, &self.p)
    }
}

/// Reads frames from a raw connection.
pub struct Net {
    pub peer: Peer,
    buf: Vec<u8>,
}
impl Net {
    pub fn new(peer: Peer) -> Net {
        Net { peer, buf: vec![] }
    }
    pub fn send(&self, f: &F) {
        self.peer.send(&f.wire());
    }
    /// Complete frames received so far.
    pub fn frames(&mut self) -> Vec<F> {
        let n = self.peer.available();
        self.buf.extend(self.peer.recv(n));
        let mut out = vec![];
        let mut at = 0;
        while self.buf.len() - at >= 16 {
            let b = &self.buf[at..];
            let n = be16(b, 0) as usize;
            check(n >= 16, "length of a received frame");
            if b.len() < n {
                break;
            }
            check(is_type_code(b[2]), "type of a received frame");
            out.push(F::new(be32(b, 4), b[2], b[16..n].to_vec()));
            at += n;
        }
        self.buf.drain(..at);
        out
    }
    /// No incomplete frame is left.
    pub fn clean(&self) -> bool {
        self.buf.is_empty()
    }
}

pub fn init_payload(version: u16) -> Vec<u8> {
    Wr::default().num(version as u64, 2).num(1, 2).text("tchannel_language", 2).text("x", 2).0
}

/// Answers the handshake of a client.
pub fn accept(l: &Listener) -> Option<Net> {
    let mut n = Net::new(l.accept()?);
    model::run_until_idle();
    let f = n.frames();
    check(f.len() == 1 && f[0].code == 1, "a client sends an init request and waits for the response");
    let mut r = Rd::new(&f[0].p);
    check(r.num(2) == Some(2), "version of the init request");
    check(r.headers(2, 2).is_some() && r.left() == 0, "headers of the init request");
    n.send(&F::new(f[0].id, 2, init_payload(2)));
    Some(n)
}

/// Connects to a server and does the handshake.
pub fn connect(id: u32) -> Net {
    let p = match Peer::connect(addr()) {
        Some(p) => p,
        None => {
            check(false, "a started server accepts connections");
            unreachable!()
        }
    };
    let mut n = Net::new(p);
    n.send(&F::new(id, 1, init_payload(2)));
    model::run_until_idle();
    let f = n.frames();
    check(f.len() == 1 && f[0].code == 2 && f[0].id == id, "a server answers the init request");
    let mut r = Rd::new(&f[0].p);
    check(r.num(2) == Some(2), "version of the init response");
    check(r.headers(2, 2).is_some() && r.left() == 0, "headers of the init response");
    wear(&mut n, param(9));
    n
}

/// What a server went through before: `times` requests which end in several ways, pings, clients which leave. (Harnesses with a server only.)
pub fn wear(n: &mut Net, times: usize) {
    for k in 0..times {
        let id = 5000 + k as u32;
        if k % 6 == 4 {
            n.send(&F::new(id, 0xd0, vec![]));
        } else {
            let (service, endpoint) = [("svc", "e"), ("svc", "m"), ("svc", "g"), ("svc", "none"), ("", ""), ("none", "e")][k % 6];
            for f in message(id, true, &req_fields(service, "raw"), &split(&[endpoint.as_bytes().to_vec(), b"h".to_vec(), vec![k as u8; k]], 1 + k % 4)) {
                n.send(&f);
            }
        }
        model::run_until_idle();
        let fs = n.frames();
        check(fs.len() == 1 && fs[0].id == id, "one answer each");
        check(fs[0].code == [4, 4, 0xff, 0xff, 0xd1, 0xff][k % 6], "the same answer as ever");
        match k % 5 {
            0 => model::raw::aborted(addr(), std::io::ErrorKind::ConnectionAborted),
            1 => drop(Peer::connect(addr())),
            2 => {
                if let Some(q) = Peer::connect(addr()) {
                    q.send(&F::new(1, 1, init_payload(2)).wire());
                    model::run_until_idle();
                    q.reset();
                }
            }
            3 => {
                if let Some(q) = Peer::connect(addr()) {
                    q.send(&F::new(1, 1, init_payload(1)).wire());
                }
            }
            // (clients which stay, with and without their handshake)
            _ => {
                if let Some(q) = Peer::connect(addr()) {
                    let mut q = Net::new(q);
                    if k % 2 == 0 {
                        q.send(&F::new(1, 1, init_payload(2)));
                        model::run_until_idle();
                        check(q.frames().len() == 1, "a client is let in however many there are");
                    }
                    std::mem::forget(q);
                }
            }
        }
        model::run_until_idle();
    }
}

/// Fields of a call request.
pub fn req_fields(service: &str, scheme: &str) -> Vec<u8> {
    Wr::default().num(60_000, 4).raw(&[0; 24]).num(0, 1).text(service, 1).num(2, 1).text("as", 1).text(scheme, 1).text("cn", 1).text("other", 1).0
}
/// Fields of a call response.
pub fn res_fields(code: u8, scheme: &str) -> Vec<u8> {
    Wr::default().num(code as u64, 1).raw(&[0; 24]).num(0, 1).num(1, 1).text("as", 1).text(scheme, 1).0
}

/// Frames of a message: `split` gives the chunks of every frame.
pub fn message(id: u32, request: bool, fields: &[u8], split: &[Vec<Vec<u8>>]) -> Vec<F> {
    let first = if request { 3 } else { 4 };
    split
        .iter()
        .enumerate()
        .map(|(k, chunks)| {
            let mut w = Wr::default().num((k + 1 < split.len()) as u64, 1);
            if k == 0 {
                w = w.raw(fields);
            }
            w = w.num(0, 1);
            for c in chunks {
                w = w.num(c.len() as u64, 2).raw(c);
            }
            F::new(id, if k == 0 { first } else { first + 0x10 }, w.0)
        })
        .collect()
}

/// Three args in 1, 2, 3 or 4 frames.
pub fn split(args: &[Vec<u8>; 3], frames: usize) -> Vec<Vec<Vec<u8>>> {
    let [a, b, c] = args;
    let k = c.len() / 2;
    let (c1, c2) = (c[..k].to_vec(), c[k..].to_vec());
    match frames {
        1 => vec![vec![a.clone(), b.clone(), c.clone()]],
        2 => vec![vec![a.clone(), b.clone(), c1], vec![c2]],
        3 => vec![vec![a.clone()], vec![vec![], b.clone(), c1], vec![c2]],
        _ => vec![vec![a.clone()], vec![vec![], b.clone()], vec![vec![], c1], vec![c2]],
    }
}

pub struct Request {
    pub service: String,
    pub args: Vec<Vec<u8>>,
    pub scheme: String,
}
/// Reads a request made of one or more frames (all with the same id).
pub fn read_request(fs: &[F]) -> Option<Request> {
    let mut out = Request { service: String::new(), args: vec![], scheme: String::new() };
    for (k, f) in fs.iter().enumerate() {
        let mut r = Rd::new(&f.p);
        let flags = r.num(1)?;
        if f.code != if k == 0 { 3 } else { 0x13 } || flags != (k + 1 < fs.len()) as u64 {
            return None;
        }
        if k == 0 {
            r.take(4 + 25)?;
            out.service = r.text(1)?.to_string();
            let h = r.headers(1, 1)?;
            out.scheme = h.iter().find(|x| x.0 == "as")?.1.to_string();
        }
        read_args(&mut r, k, &mut out.args)?;
    }
    Some(out)
}
fn read_args(r: &mut Rd, k: usize, args: &mut Vec<Vec<u8>>) -> Option<()> {
    if r.num(1)? != 0 {
        return None;
    }
    let mut i = 0;
    while r.left() > 0 {
        let n = r.num(2)? as usize;
        let b = r.take(n)?;
        if i == 0 && k > 0 {
            args.last_mut()?.extend_from_slice(b);
        } else {
            args.push(b.to_vec());
        }
        i += 1;
    }
    if i == 0 || i > 3 {
        return None;
    }
    Some(())
}
/// Reads a response: code and args.
pub fn read_response(fs: &[F]) -> Option<(u8, String, Vec<Vec<u8>>)> {
    let mut args = vec![];
    let mut code = 9;
    let mut scheme = String::new();
    for (k, f) in fs.iter().enumerate() {
        let mut r = Rd::new(&f.p);
        let flags = r.num(1)?;
        if f.code != if k == 0 { 4 } else { 0x14 } || flags != (k + 1 < fs.len()) as u64 {
            return None;
        }
        if k == 0 {
            code = r.num(1)? as u8;
            r.take(25)?;
            let h = r.headers(1, 1)?;
            scheme = h.iter().find(|x| x.0 == "as")?.1.to_string();
        }
        read_args(&mut r, k, &mut args)?;
    }
    Some((code, scheme, args))
}
/// Reads an error frame: code and message.
pub fn read_error(f: &F) -> Option<(u8, String)> {
    if f.code != 0xff {
        return None;
    }
    let mut r = Rd::new(&f.p);
    let c = r.num(1)? as u8;
    r.take(25)?;
    let m = r.text(2)?.to_string();
    if r.left() != 0 || !(c <= 8 || c == 0xff) {
        return None;
    }
    Some((c, m))
}

/// Outcome of a call: Ok / the error message of the handler / another error.
pub enum Out {
    Ok(RawMessage),
    Message(RawMessage),
    Err(String),
}
pub type Slot = Rc<RefCell<Option<Out>>>;

pub fn out_of(r: HandlerResult<RawMessage>) -> Out {
    match r {
        Ok(m) => Out::Ok(m),
        Err(HandlerError::MessageError(m)) => Out::Message(m),
        Err(HandlerError::GeneralError(_)) => Out::Err(String::from("general")),
        Err(HandlerError::InternalError(_)) => Out::Err(String::from("internal")),
    }
}

/// A text of as many bytes in characters of width ones.
pub fn text(len: usize, width: usize) -> String {
    let c = ["x", "\u{e9}", "\u{20ac}", "\u{1f600}"][width - 1];
    let lead = len % width;
    let mut s = String::with_capacity(len);
    s.push_str(&"abc"[..lead]);
    s.push_str(&c.repeat((len - lead) / width));
    s
}

/// Starts a call.
pub fn call(t: &Rc<TChannel>, service: &'static str, endpoint: &str, header: &str, body: Vec<u8>) -> Slot {
    let s: Slot = Rc::default();
    let (o, t) = (s.clone(), t.clone());
    let m = RawMessage::new(endpoint.into(), header.into(), Bytes::from(body));
    model::spawn_local(async move {
        let sub = match t.subchannel(service).await {
            Ok(s) => s,
            Err(_) => {
                check(false, "a subchannel is created");
                unreachable!()
            }
        };
        let r: HandlerResult<RawMessage> = MessageChannel::send(&*sub, m, ADDR).await;
        *o.borrow_mut() = Some(out_of(r));
    });
    s
}

pub fn done(s: &Slot) -> bool {
    s.borrow().is_some()
}
/// 0 pending, 1 ok, 2 error message, 3 error
pub fn kind(s: &Slot) -> u64 {
    match &*s.borrow() {
        None => 0,
        Some(Out::Ok(_)) => 1,
        Some(Out::Message(_)) => 2,
        Some(Out::Err(_)) => 3,
    }
}

/// Runs any number of steps up to `max`, or until nothing is ready.
pub fn some_steps(max: usize) {
    let n = conc(choose(max + 2, "steps"));
    if n > max {
        model::run_until_idle();
        return;
    }
    for _ in 0..n {
        if !model::step() {
            return;
        }
    }
}

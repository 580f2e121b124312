//! The server against clients which only know the protocol: C12, C13, C14, C16, C17, C20, C21.
#[path = "/verif/harness/common.rs"]
pub mod common;
#[path = "/verif/harness/net.rs"]
pub mod net;
use crate::errors::{HandlerError, TChannelError};
use crate::handler::{HandlerResult, RequestHandler, RequestHandlerAsync};
use crate::messages::RawMessage;
use crate::{SubChannel, TChannel};
use common::*;
use net::*;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use tokio::model;
use tokio::sync::Notify;

crate::entries!(srv_route, srv_wild, srv_bad, srv_handshake, srv_again, srv_close, srv_ping, srv_gate, srv_tasks, srv_register, srv_life, srv_two, srv_hold, srv_concurrent, srv_silent, srv_seq, srv_long, srv_stuck, srv_names, srv_stop, srv_texts, srv_many, srv_registry, srv_slow);

/// Answers with its tag, the header and the body of the request.
#[derive(Debug)]
struct Tag(&'static str);
impl RequestHandler for Tag {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> HandlerResult<RawMessage> {
        Ok(RawMessage::new(self.0.into(), r.header().clone(), r.body().clone()))
    }
}
/// Fails: 0 with a message, 1 generally, 2 internally.
#[derive(Debug)]
struct Fail(u8);
impl RequestHandler for Fail {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> HandlerResult<RawMessage> {
        Err(match self.0 {
            0 => HandlerError::MessageError(RawMessage::new("failed".into(), r.header().clone(), r.body().clone())),
            1 => HandlerError::GeneralError("why".into()),
            _ => HandlerError::InternalError(TChannelError::Error("why".into())),
        })
    }
}
/// The same, some time later.
#[derive(Debug)]
struct FailLater(u8);
impl RequestHandlerAsync for FailLater {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> Pin<Box<dyn Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        Box::pin(async move {
            model::Yield(false).await;
            Fail(self.0).handle(r)
        })
    }
}
/// Waits for its gate, counts running handlers.
#[derive(Debug)]
struct Gate {
    tag: &'static str,
    gate: Arc<Notify>,
    running: Arc<AtomicUsize>,
    started: Arc<AtomicUsize>,
}
impl RequestHandlerAsync for Gate {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> Pin<Box<dyn Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        Box::pin(async move {
            self.running.fetch_add(1, Ordering::Relaxed);
            self.started.fetch_add(1, Ordering::Relaxed);
            self.gate.notified().await;
            self.running.fetch_sub(1, Ordering::Relaxed);
            Ok(RawMessage::new(self.tag.into(), r.header().clone(), r.body().clone()))
        })
    }
}

struct Srv {
    t: Rc<TChannel>,
    gates: Vec<Arc<Notify>>,
    running: Arc<AtomicUsize>,
    started: Arc<AtomicUsize>,
}

/// Runs a future which depends on nothing else.
fn run<T: 'static>(f: impl Future<Output = T> + 'static) -> T {
    let o: Rc<RefCell<Option<T>>> = Rc::new(RefCell::new(None));
    let p = o.clone();
    model::spawn_local(async move {
        let r = f.await;
        *p.borrow_mut() = Some(r);
    });
    model::run_until_idle();
    let r = o.borrow_mut().take();
    match r {
        Some(r) => r,
        None => {
            check(false, "an operation ends");
            unreachable!()
        }
    }
}

fn server(buffer: usize, tasks: usize) -> Srv {
    let t = Rc::new(TChannel::new(config(1, buffer, tasks, false)).unwrap());
    let gates: Vec<Arc<Notify>> = (0..3).map(|_| Arc::new(Notify::new())).collect();
    let (running, started) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let (t2, g2, r2, s2) = (t.clone(), gates.clone(), running.clone(), started.clone());
    run(async move {
        let a = t2.subchannel("svc").await.unwrap();
        let b = t2.subchannel("other").await.unwrap();
        a.register("e", Tag("A.e")).await.unwrap();
        a.register("f", Tag("A.f")).await.unwrap();
        b.register("e", Tag("B.e")).await.unwrap();
        a.register("m", Fail(0)).await.unwrap();
        a.register("g", Fail(1)).await.unwrap();
        a.register("i", Fail(2)).await.unwrap();
        a.register_async("ae", Later("A.ae")).await.unwrap();
        a.register_async("am", FailLater(0)).await.unwrap();
        a.register_async("ag", FailLater(1)).await.unwrap();
        a.register_async("ai", FailLater(2)).await.unwrap();
        for k in 0..3 {
            let h = Gate { tag: ["G0", "G1", "G2"][k], gate: g2[k].clone(), running: r2.clone(), started: s2.clone() };
            a.register_async(["g0", "g1", "g2"][k], h).await.unwrap();
        }
        t2.start_server().unwrap();
    });
    Srv { t, gates, running, started }
}

/// service, endpoint, tag of the response (None: an error frame), code
const TARGETS: [(&str, &str, Option<&str>, u8); 12] = [
    ("svc", "e", Some("A.e"), 0),
    ("svc", "m", Some("failed"), 1),
    ("svc", "g", None, 0),
    ("other", "e", Some("B.e"), 0),
    ("none", "e", None, 0),
    ("svc", "none", None, 0),
    ("svc", "f", Some("A.f"), 0),
    ("svc", "i", None, 0),
    ("svc", "am", Some("failed"), 1),
    ("svc", "ae", Some("A.ae"), 0),
    ("svc", "ag", None, 0),
    ("svc", "ai", None, 0),
];

struct Req {
    id: u32,
    target: usize,
    body: Vec<u8>,
    frames: Vec<F>,
    next: usize,
}
/// A request with an arbitrary id, different from those of the others.
fn request(others: &[Req], targets: usize, most: usize) -> Req {
    let id = sym_u32("id");
    for o in others {
        assume(o.id != id);
    }
    let target = conc(choose(targets, "target"));
    let n = conc(choose(most, "frames")) + 1;
    request_to(id, target, n)
}
fn request_to(id: u32, target: usize, n: usize) -> Req {
    let body = sym_bytes(2, "body");
    let (service, endpoint, _, _) = TARGETS[target];
    let args = [endpoint.as_bytes().to_vec(), b"h".to_vec(), body.clone()];
    let frames = message(id, true, &req_fields(service, "raw"), &split(&args, n));
    Req { id, target, body, frames, next: 0 }
}
/// The single response to a request among the received frames.
fn answer(fs: &[F], r: &Req) {
    let mine: Vec<&F> = fs.iter().filter(|f| f.id == r.id).collect();
    check(mine.len() == 1, "a request gets exactly one response");
    answer_is(mine[0], r);
}
fn answer_is(f: &F, r: &Req) {
    answer_of(std::slice::from_ref(f), r)
}
fn answer_of(fs: &[F], r: &Req) {
    let (_, _, tag, code) = TARGETS[r.target];
    match tag {
        Some(tag) => match read_response(fs) {
            Some((c, scheme, args)) => {
                check(c == code, "response code");
                check(scheme == "raw" && args.len() == 3, "scheme and args of a response");
                check(args[0] == tag.as_bytes(), "the request is handled by the handler of its service and endpoint");
                check(args[1] == b"h" && vk::eq(&args[2], &r.body), "header and body of the response");
                cover(if code == 0 { "ok" } else { "error response" });
            }
            None => check(false, "a well formed response"),
        },
        None => match read_error(&fs[0]) {
            Some((_, m)) => {
                check(fs.len() == 1, "a single error frame");
                check(m.len() > 0, "an error frame tells why");
                cover("error frame");
            }
            None => check(false, "a request which cannot be handled gets an error frame"),
        },
    }
    log("answer", fs[0].code as u64);
}

/// param0 requests of up to param1 frames to param2 targets, frames in any interleaving; delays, preempts, tasks, buffer,
/// 1 if the server may run between frames
fn srv_route() {
    model::configure(0, 0);
    let _s = server(param(6), param(5));
    let mut n = connect(sym_u32("init"));
    let mut rs: Vec<Req> = vec![];
    for _ in 0..param(0) {
        let r = request(&rs, param(2), param(1));
        rs.push(r);
    }
    model::configure(param(3), param(4));
    let mut fs = vec![];
    loop {
        let open: Vec<usize> = (0..rs.len()).filter(|k| rs[*k].next < rs[*k].frames.len()).collect();
        if open.is_empty() {
            break;
        }
        let k = open[conc(choose(open.len(), "who"))];
        n.send(&rs[k].frames[rs[k].next]);
        rs[k].next += 1;
        if param(7) == 1 && conc(choose(2, "run")) == 1 {
            model::run_until_idle();
            fs.extend(n.frames());
            for r in rs.iter() {
                let got = fs.iter().any(|f| f.id == r.id);
                check(got == (r.next == r.frames.len()), "a request is answered when it is complete, not before");
            }
        }
    }
    model::run_until_idle();
    fs.extend(n.frames());
    check(fs.len() == rs.len() && n.clean(), "as many responses as requests");
    for r in rs.iter() {
        answer(&fs, r);
    }
    check(!n.peer.eof() && !n.peer.gone(), "the connection stays open");
}

/// A good request after whatever happened.
fn still_works(n: &mut Net) {
    let r = request_to(0x7000_0001, 0, 1);
    n.send(&r.frames[0]);
    model::run_until_idle();
    answer(&n.frames(), &r);
    check(!n.peer.eof() && !n.peer.gone(), "the connection stays open");
}

/// A request made of param0 arbitrary bytes (param1: 0 first frame, 1 continuation of a proper request, 2 any type);
/// param2: bytes fixed in front (flags to tracing)
fn srv_wild() {
    let s = server(2, 1);
    for g in s.gates.iter() {
        // (no handler waits)
        g.notify_one();
    }
    let mut n = connect(1);
    let id = sym_u32("id");
    assume(id != 0x7000_0001);
    let mut p = vec![];
    if param(2) > 0 {
        // flags, ttl, tracing and the service name are fine
        p = vec![0; 1 + 4 + 25];
        if param(2) > 1 {
            p.extend_from_slice(&[3, b's', b'v', b'c']);
        }
        if param(2) > 2 {
            p.extend_from_slice(&[1, 2, b'a', b's', 3, b'r', b'a', b'w', 0]);
        }
    }
    p.extend(sym_bytes(param(0), "p"));
    let mut code = 3;
    let mut complete = true;
    match param(1) {
        1 => {
            let r = request_to(id, 0, 2);
            n.send(&r.frames[0]);
            code = 0x13;
            complete = p.len() == 0 || p[0] & 1 == 0;
        }
        2 => {
            code = TYPE_CODES[conc(choose(11, "type"))];
        }
        _ => complete = p.len() == 0 || p[0] & 1 == 0,
    }
    n.send(&F::new(id, code, p));
    model::run_until_idle();
    let fs = n.frames();
    check(fs.len() <= 1, "at most one answer");
    if fs.len() == 1 {
        check(fs[0].id == id, "the answer has the id of the request");
        match fs[0].code {
            0xff => {
                check(read_error(&fs[0]).is_some(), "a well formed error frame");
                cover("error frame");
            }
            0xd1 => check(code == 0xd0, "pong"),
            4 => {
                check(read_response(&fs).is_some(), "a well formed response");
                cover("ok");
            }
            _ => check(false, "type of an answer"),
        }
    } else if param(1) < 2 {
        check(!complete, "a complete request is answered");
        cover("pending");
    }
    log("code", if fs.is_empty() { 0 } else { fs[0].code as u64 });
    still_works(&mut n);
}

/// Misuse of ids and types next to a proper request of param0 frames. param1: delays
fn srv_bad() {
    let _s = server(2, 1);
    let mut n = connect(1);
    let mut rs = vec![];
    let r = request(&rs, 2, param(0));
    assume(r.id != 0x7000_0001);
    rs.push(r);
    let before = conc(choose(rs[0].frames.len() + 1, "before"));
    model::configure(param(1), 0);
    for k in 0..before {
        n.send(&rs[0].frames[k]);
    }
    if conc(choose(2, "run")) == 1 {
        model::run_until_idle();
    }
    let other = sym_u32("other");
    assume((other != rs[0].id) & (other != 0x7000_0001));
    let what = conc(choose(5, "what"));
    let mut answered = true;
    let c = Wr::default().num(0, 1).num(0, 1).num(1, 2).raw(b"x").0;
    match what {
        // a continuation of nothing
        0 => {
            n.send(&F::new(other, 0x13, c));
            answered = false;
        }
        // a response nobody asked for
        1 => n.send(&F::new(other, 4, c)),
        // a request with a checksum
        2 => {
            let mut f = message(other, true, &req_fields("svc", "raw"), &split(&[b"e".to_vec(), b"h".to_vec(), b"x".to_vec()], 1)).remove(0);
            let at = 1 + req_fields("svc", "raw").len();
            f.p[at] = 1;
            for _ in 0..4 {
                f.p.insert(at + 1, 9);
            }
            n.send(&f);
        }
        // an unknown arg scheme
        3 => n.send(&message(other, true, &req_fields("svc", "what"), &split(&[b"e".to_vec(), b"h".to_vec(), b"x".to_vec()], 1))[0]),
        // an endpoint which is not a text
        _ => n.send(&message(other, true, &req_fields("svc", "raw"), &split(&[vec![0xff, 0xfe], b"h".to_vec(), b"x".to_vec()], 1))[0]),
    }
    for k in before..rs[0].frames.len() {
        n.send(&rs[0].frames[k]);
    }
    model::run_until_idle();
    let fs = n.frames();
    check(fs.len() == 1 + answered as usize, "every request is answered once, nothing else is");
    answer(&fs, &rs[0]);
    if answered {
        let mine: Vec<&F> = fs.iter().filter(|f| f.id == other).collect();
        check(mine.len() == 1 && read_error(mine[0]).is_some(), "a request which cannot be handled gets an error frame");
        cover("refused");
    } else {
        cover("dropped");
    }
    still_works(&mut n);
}

/// A client starts with any frame. param0: 0 any version, 1 any type, 2 any payload of param1 bytes, 3 nothing
fn srv_handshake() {
    let _s = server(2, 1);
    let mut n = Net::new(tokio::model::raw::Peer::connect(addr()).unwrap());
    model::run_until_idle();
    check(n.frames().is_empty(), "a server waits for the init request");
    let id = sym_u32("id");
    let mut good = false;
    match param(0) {
        0 => {
            let v = sym_u16("version");
            good = v == 2;
            n.send(&F::new(id, 1, init_payload(v)));
        }
        1 => {
            let c = TYPE_CODES[conc(choose(11, "type"))];
            good = c == 1;
            n.send(&F::new(id, c, init_payload(2)));
            if !good && conc(choose(2, "again")) == 1 {
                // too late
                if conc(choose(2, "settle")) == 1 {
                    model::run_until_idle();
                }
                n.send(&F::new(sym_u32("id"), 1, init_payload(2)));
                cover("too late");
            }
        }
        2 => {
            let p = sym_bytes(param(1), "p");
            let mut r = Rd::new(&p);
            if let (Some(2), Some(_)) = (r.num(2), r.headers(2, 2)) {
                good = true;
            }
            n.send(&F::new(id, 1, p));
        }
        _ => n.peer.shutdown(),
    }
    // the request does not wait for the response
    let r = request_to(5, 0, 1);
    if param(0) != 3 && conc(choose(2, "early")) == 1 {
        n.send(&r.frames[0]);
        model::run_until_idle();
    } else {
        model::run_until_idle();
        n.send(&r.frames[0]);
        model::run_until_idle();
    }
    let fs = n.frames();
    if good {
        check(fs.len() == 2 && fs[0].code == 2 && fs[0].id == id, "the init response has the id of the request and comes first");
        let mut rd = Rd::new(&fs[0].p);
        check(rd.num(2) == Some(2) && rd.headers(2, 2).is_some() && rd.left() == 0, "init response of version 2");
        answer(&fs[1..], &r);
        cover("accepted");
        log("good", 1);
    } else {
        check(fs.is_empty() || fs.iter().all(|f| f.code == 0xff), "no request is handled without a handshake");
        check(n.peer.eof(), "a connection which failed its handshake is closed");
        cover("refused");
        log("good", 0);
    }
    // other connections are not affected
    let mut m = connect(9);
    still_works(&mut m);
}

/// Each request is sent under the same id as soon as the one before is answered. param0: requests, param1: delays, param2: preemptions, param3: buffer
fn srv_again() {
    let _s = server(param(3), 1);
    let mut n = connect(1);
    model::configure(param(1), param(2));
    let id = sym_u32("id");
    for _ in 0..param(0) {
        let r = request_to(id, [0, 1, 4, 9][conc(choose(4, "target"))], conc(choose(2, "frames")) + 1);
        for f in r.frames.iter() {
            n.send(f);
        }
        let mut got = vec![];
        while got.is_empty() {
            if !model::step() {
                check(false, "a request under an id which was used before is answered");
            }
            got.extend(n.frames());
        }
        answer(&got, &r);
    }
    model::run_until_idle();
    check(n.frames().is_empty() && !n.peer.eof(), "nothing else is sent");
    cover("all");
}

/// A client goes away at any byte of its requests; others stay. param0: requests, param1: frames, param2: delays
fn srv_close() {
    let s = server(2, 2);
    let mut other = connect(1);
    let mut n = connect(2);
    let mut rs: Vec<Req> = vec![];
    let mut bytes = vec![];
    let mut ends = vec![];
    for k in 0..param(0) {
        let r = request_to(10 + k as u32, k, conc(choose(param(1), "frames")) + 1);
        for f in r.frames.iter() {
            bytes.extend(f.wire());
        }
        ends.push(bytes.len());
        rs.push(r);
    }
    model::configure(param(2), 0);
    let at = conc(choose(bytes.len() + 1, "at"));
    n.peer.send(&bytes[..at]);
    if conc(choose(2, "run")) == 1 {
        model::run_until_idle();
    }
    let reset = conc(choose(2, "reset")) == 1;
    if reset {
        n.peer.reset();
    } else {
        n.peer.shutdown();
    }
    model::run_until_idle();
    if !reset {
        let fs = n.frames();
        for (r, end) in rs.iter().zip(&ends) {
            if *end <= at {
                answer(&fs, r);
                cover("answered");
            } else {
                // (an error frame may tell that the request is not complete)
                check(!fs.iter().any(|f| f.id == r.id && f.code != 0xff), "an incomplete request is not handled");
                cover("cut");
            }
        }
        check(n.clean(), "whole frames");
        check(n.peer.eof(), "the server closes the connection too");
    }
    check(n.peer.gone(), "the server stops reading");
    still_works(&mut other);
    let mut again = connect(3);
    still_works(&mut again);
    drop(s);
}

/// Pings (any id) before, between and after the frames of a request. param0: frames, param1: pings
fn srv_ping() {
    model::configure(param(2), 0);
    let _s = server(2, 1);
    let mut n = connect(1);
    let mut rs = vec![];
    let r = request(&rs, 1, param(0));
    rs.push(r);
    let mut pings = vec![];
    let mut fs = vec![];
    while pings.len() < param(1) || rs[0].next < rs[0].frames.len() {
        let ping = rs[0].next == rs[0].frames.len() || (pings.len() < param(1) && conc(choose(2, "ping")) == 1);
        if ping {
            let id = sym_u32("ping");
            assume(id != rs[0].id);
            for p in pings.iter() {
                assume(id != *p);
            }
            // (whatever it carries)
            let load = sym_bytes(conc(choose(2, "load")), "load");
            n.send(&F::new(id, 0xd0, load));
            pings.push(id);
        } else {
            let k = rs[0].next;
            n.send(&rs[0].frames[k]);
            rs[0].next += 1;
        }
        if conc(choose(2, "run")) == 1 {
            model::run_until_idle();
            fs.extend(n.frames());
            check(pings.iter().all(|p| fs.iter().any(|f| f.id == *p)), "a ping is answered at once");
        }
    }
    model::run_until_idle();
    fs.extend(n.frames());
    check(fs.len() == 1 + pings.len(), "one answer each");
    for p in pings.iter() {
        let mine: Vec<&F> = fs.iter().filter(|f| f.id == *p).collect();
        check(mine.len() == 1 && mine[0].code == 0xd1 && mine[0].p.is_empty(), "a ping is answered by a ping response with its id");
        cover("pong");
    }
    answer(&fs, &rs[0]);
}

/// Handlers which end in any order: responses in that order, each to its request. param0: requests (to different endpoints)
fn srv_gate() {
    let s = server(param(2), 0);
    let mut n = connect(1);
    model::configure(param(1), 0);
    let k = param(0);
    let mut rs: Vec<(u32, Vec<u8>)> = vec![];
    for i in 0..k {
        let body = sym_bytes(1, "body");
        let id = sym_u32("id");
        for o in rs.iter() {
            assume(o.0 != id);
        }
        let args = [format!("g{}", i).into_bytes(), b"h".to_vec(), body.clone()];
        n.send(&message(id, true, &req_fields("svc", "raw"), &split(&args, 1))[0]);
        rs.push((id, body));
    }
    model::run_until_idle();
    check(n.frames().is_empty(), "no response before its handler ends");
    check(s.running.load(Ordering::Relaxed) == k, "handlers of different requests run at the same time");
    let mut left: Vec<usize> = (0..k).collect();
    while !left.is_empty() {
        let w = left.remove(conc(choose(left.len(), "who")));
        s.gates[w].notify_one();
        model::run_until_idle();
        let fs = n.frames();
        check(fs.len() == 1 && fs[0].id == rs[w].0, "the response is sent as soon as its handler ends");
        match read_response(&fs) {
            Some((0, _, args)) => check(args[0] == format!("G{}", w).as_bytes() && vk::eq(&args[2], &rs[w].1), "a response belongs to its request"),
            _ => check(false, "a well formed response"),
        }
    }
    cover("out of order");
}

/// No more handlers at once than configured, all of them in the end. param0: limit (99: any), param1: requests, param2: delays, param3: buffer,
/// param4: 1 if the client may end its side of the connection after its requests
fn srv_tasks() {
    let tasks = if param(0) == 99 { vk::sym_u64("limit") as usize } else { param(0) };
    let s = server(param(3), tasks);
    let mut n = connect(1);
    model::configure(param(2), 0);
    let k = param(1);
    for i in 0..k {
        let args = [format!("g{}", i % 3).into_bytes(), b"h".to_vec(), vec![i as u8]];
        n.send(&message(50 + i as u32, true, &req_fields("svc", "raw"), &split(&args, 1))[0]);
    }
    let limit = if tasks == 0 { usize::MAX } else { tasks };
    if param(4) == 1 && conc(choose(2, "end")) == 1 {
        if conc(choose(2, "settle")) == 1 {
            model::run_until_idle();
        }
        n.peer.shutdown();
        cover("ended");
    }
    let mut fs: Vec<F> = vec![];
    let mut rounds = 0;
    while fs.len() < k {
        model::run_until_idle();
        let r = s.running.load(Ordering::Relaxed);
        check(r <= limit, "no more handlers run at once than configured");
        check(r >= 1, "some handler runs while requests are waiting");
        if r == limit {
            cover("full");
        }
        let before = fs.len();
        for g in s.gates.iter() {
            // (keeps at most one permit)
            g.notify_waiters();
        }
        model::run_until_idle();
        fs.extend(n.frames());
        check(fs.len() > before, "handlers which ended are answered");
        rounds += 1;
        check(rounds <= k + 1, "progress");
    }
    check(s.started.load(Ordering::Relaxed) == k, "every request is handled once");
    for i in 0..k {
        let mine: Vec<F> = fs.iter().filter(|f| f.id == 50 + i as u32).cloned().collect();
        match read_response(&mine) {
            Some((0, _, args)) if mine.len() == 1 => check(args[2] == vec![i as u8], "a response belongs to its request"),
            _ => check(false, "every request is answered once"),
        }
    }
    cover("all");
    log("rounds", rounds as u64);
}

/// Any sequence of param0 registrations and subchannel lookups against a model; then requests to all.
fn srv_register() {
    let s = server(2, 1);
    let t = s.t.clone();
    let ops = param(0);
    let names = ["e", "x", ""];
    let services = ["svc", "new"];
    // handlers of the two services; svc already has "e"
    let mut reg: Vec<Vec<Option<&'static str>>> = vec![vec![Some("A.e"), None, None], vec![None, None, None]];
    let tags = ["T0", "T1", "T2", "T3"];
    let mut held: Vec<Option<Arc<SubChannel>>> = vec![None, None];
    for k in 0..ops {
        let si = conc(choose(2, "service"));
        let ei = conc(choose(3, "endpoint"));
        let (t2, tag) = (t.clone(), tags[k]);
        let fresh = held[si].is_none() || conc(choose(2, "lookup")) == 1;
        let known = held[si].clone();
        let asynch = conc(choose(2, "async")) == 1;
        let (sub, r) = run(async move {
            let sub = if fresh { t2.subchannel(services[si]).await.unwrap() } else { known.unwrap() };
            let r = if asynch { sub.register_async(names[ei], Later(tag)).await } else { sub.register(names[ei], Tag(tag)).await };
            (sub, r.is_ok())
        });
        if let Some(h) = held[si].as_ref() {
            check(Arc::ptr_eq(h, &sub), "the same subchannel for the same service");
        }
        held[si] = Some(sub);
        check(r == reg[si][ei].is_none(), "a handler is registered only if there is none for the endpoint");
        if r {
            reg[si][ei] = Some(tag);
            cover("registered");
        } else {
            cover("rejected");
        }
    }
    if let (Some(a), Some(b)) = (&held[0], &held[1]) {
        check(!Arc::ptr_eq(a, b), "different subchannels for different services");
    }
    let mut n = connect(1);
    for si in 0..2 {
        for ei in 0..3 {
            let id = (si * 3 + ei) as u32;
            let args = [names[ei].as_bytes().to_vec(), b"h".to_vec(), b"b".to_vec()];
            n.send(&message(id, true, &req_fields(services[si], "raw"), &split(&args, 1))[0]);
            model::run_until_idle();
            let fs = n.frames();
            check(fs.len() == 1 && fs[0].id == id, "one answer");
            match (reg[si][ei], read_response(&fs)) {
                (Some(tag), Some((0, _, args))) => check(args[0] == tag.as_bytes(), "the first registered handler answers"),
                (None, None) => check(read_error(&fs[0]).is_some(), "an error frame for an unknown endpoint or service"),
                _ => check(false, "handled exactly if a handler is registered"),
            }
        }
    }
}
/// Two services of param0 and param1 and a request to one of param2 arbitrary (ASCII) bytes; likewise its endpoints if param3 is 1.
/// All of them follow param4 bytes (services) and param5 bytes (endpoints) which are the same.
fn srv_names() {
    let s = server(2, 1);
    let names: Vec<String> = (0..3).map(|k| "s".repeat(param(4)) + &sym_ascii(param(k), "service")).collect();
    let ends: Vec<String> = (0..3).map(|k| if param(3) == 1 { "e".repeat(param(5)) + &sym_ascii(param(k), "endpoint") } else { String::from("q") }).collect();
    let same = |v: &Vec<String>, i: usize, j: usize| v[i].len() == v[j].len() && vk::eq(v[i].as_bytes(), v[j].as_bytes());
    // (the server has a service of its own)
    for n in names.iter() {
        assume(!(n.len() == 3 && vk::eq(n.as_bytes(), b"svc")));
    }
    let (t, n, e) = (s.t.clone(), names.clone(), ends.clone());
    let (one, two, three, first, second) = run(async move {
        let one = t.subchannel(&n[0]).await.unwrap();
        let two = t.subchannel(&n[1]).await.unwrap();
        let first = one.register(&e[0], Tag("T0")).await.is_ok();
        let second = two.register(&e[1], Tag("T1")).await.is_ok();
        let three = t.subchannel(&n[0]).await.unwrap();
        (one, two, three, first, second)
    });
    let equal = conc(same(&names, 0, 1) as usize) == 1;
    check(Arc::ptr_eq(&one, &three), "the same subchannel for the same service");
    check(Arc::ptr_eq(&one, &two) == equal, "another subchannel for another service");
    check(first && second == !(equal && same(&ends, 0, 1)), "a handler is registered only if there is none for the endpoint");
    let mut c = connect(1);
    let args = [ends[2].as_bytes().to_vec(), b"h".to_vec(), b"b".to_vec()];
    c.send(&message(7, true, &req_fields(&names[2], "raw"), &split(&args, 1))[0]);
    model::run_until_idle();
    let fs = c.frames();
    check(fs.len() == 1 && fs[0].id == 7, "one answer");
    let of = |k: usize| same(&names, k, 2) && same(&ends, k, 2);
    let want = if conc(of(0) as usize) == 1 {
        Some("T0")
    } else if conc(of(1) as usize) == 1 {
        Some("T1")
    } else {
        None
    };
    match (want, read_response(&fs)) {
        (Some(tag), Some((0, _, args))) => {
            check(args[0] == tag.as_bytes(), "the handler of the service and endpoint answers");
            cover("known");
        }
        (None, None) => {
            check(read_error(&fs[0]).is_some(), "an error frame for an unknown endpoint or service");
            cover("unknown");
        }
        _ => check(false, "handled exactly if a handler is registered"),
    }
    log("want", want.is_some() as u64);
}
#[derive(Debug)]
struct Later(&'static str);
impl RequestHandlerAsync for Later {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> Pin<Box<dyn Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        Box::pin(async move {
            model::Yield(false).await;
            Ok(RawMessage::new(self.0.into(), r.header().clone(), r.body().clone()))
        })
    }
}

/// Any sequence of param0 starts and shutdowns (and the end of the channel) against a model.
fn srv_life() {
    model::configure(param(1), 0);
    let t = TChannel::new(config(1, 4, 1, false)).unwrap();
    let mut up = false;
    for k in 0..param(9) {
        check(t.start_server().is_ok(), "a stopped server starts again");
        if k % 3 > 0 {
            model::run_until_idle();
        }
        if k % 3 > 1 {
            listening(true);
        }
        check(t.shutdown_server().is_ok(), "shutdown is always possible");
        if k % 2 > 0 {
            model::run_until_idle();
        }
    }
    for _ in 0..param(0) {
        let settle = conc(choose(2, "settle")) == 1;
        if conc(choose(2, "op")) == 0 {
            let r = t.start_server();
            check(r.is_ok() == !up, "a server is started unless it runs already");
            up = true;
        } else {
            check(t.shutdown_server().is_ok(), "shutdown is always possible");
            up = false;
        }
        log("up", up as u64);
        if settle {
            model::run_until_idle();
            listening(up);
        }
    }
    model::run_until_idle();
    listening(up);
    cover(if up { "up" } else { "down" });
    drop(t);
    model::run_until_idle();
    listening(false);
}
fn listening(up: bool) {
    match tokio::model::raw::Peer::connect(addr()) {
        None => check(!up, "a running server accepts connections"),
        Some(p) => {
            check(up, "a stopped server does not accept connections");
            let mut n = Net::new(p);
            n.send(&F::new(3, 1, init_payload(2)));
            model::run_until_idle();
            let f = n.frames();
            check(f.len() == 1 && f[0].code == 2, "a running server answers");
        }
    }
}

/// Two connections use the same ids at the same time. param0: frames, param1: delays
fn srv_two() {
    let _s = server(1, 1);
    let mut ns = [connect(1), connect(1)];
    model::configure(param(1), 0);
    let id = sym_u32("id");
    let mut rs: Vec<Req> = (0..2).map(|k| request_to(id, [0, 3][k], conc(choose(param(0), "frames")) + 1)).collect();
    while rs.iter().any(|r| r.next < r.frames.len()) {
        let open: Vec<usize> = (0..2).filter(|k| rs[*k].next < rs[*k].frames.len()).collect();
        let k = open[conc(choose(open.len(), "who"))];
        ns[k].send(&rs[k].frames[rs[k].next]);
        rs[k].next += 1;
        if conc(choose(2, "run")) == 1 {
            model::run_until_idle();
        }
    }
    model::run_until_idle();
    for k in 0..2 {
        let fs = ns[k].frames();
        check(fs.len() == 1, "one response per connection");
        answer(&fs, &rs[k]);
    }
    cover("both");
}

/// A handler runs for as long as it likes: everything else goes on. param0: things done meanwhile, param1: delays, param2: tasks
fn srv_hold() {
    let s = server(2, param(2));
    let mut n = connect(1);
    model::configure(param(1), 0);
    let hold = |n: &Net, id: u32, body: &[u8]| n.send(&message(id, true, &req_fields("svc", "raw"), &split(&[b"g0".to_vec(), b"h".to_vec(), body.to_vec()], 1))[0]);
    let body = sym_bytes(2, "body");
    hold(&n, 100, &body);
    model::run_until_idle();
    check(s.running.load(Ordering::Relaxed) == 1 && n.frames().is_empty(), "the handler runs");
    let mut waiting = vec![100u32];
    let mut gone = false;
    for k in 0..param(0) {
        let id = 200 + k as u32;
        let t = s.t.clone();
        let new = ["n0", "n1", "n2", "n3"][k];
        let asked = |n: &mut Net, endpoint: &str, tag: Option<&str>| {
            n.send(&message(id, true, &req_fields("svc", "raw"), &split(&[endpoint.as_bytes().to_vec(), b"h".to_vec(), b"b".to_vec()], 1))[0]);
            model::run_until_idle();
            let fs = n.frames();
            check(fs.len() == 1 && fs[0].id == id, "a request to another endpoint is answered while a handler runs");
            match (tag, read_response(&fs)) {
                (Some(tag), Some((0, _, args))) => check(args[0] == tag.as_bytes(), "by its own handler"),
                (None, None) => check(read_error(&fs[0]).is_some(), "an error frame for an unknown endpoint"),
                _ => check(false, "handled exactly if a handler is registered"),
            }
        };
        match conc(choose(7, "what")) {
            0 => {
                let r = run(async move { t.subchannel("svc").await.unwrap().register(new, Tag("N")).await.is_ok() });
                check(r, "a handler is registered while another one runs");
                asked(&mut n, new, Some("N"));
            }
            1 => {
                let r = run(async move { t.subchannel("svc").await.unwrap().register_async(new, Later("N")).await.is_ok() });
                check(r, "a handler is registered while another one runs");
                asked(&mut n, new, Some("N"));
            }
            2 => {
                let r = run(async move { t.subchannel("third").await.unwrap().register("e", Tag("T")).await });
                check(r.is_ok() || k > 0, "a subchannel is created while a handler runs");
            }
            3 => asked(&mut n, "ae", Some("A.ae")),
            4 => {
                let mut m = connect(7);
                asked(&mut m, "f", Some("A.f"));
            }
            5 => {
                let r = run(async move { t.subchannel("other").await.unwrap().register("g0", Tag("O")).await });
                check(r.is_ok() || k > 0, "the same endpoint of another service is free");
                let r = run({
                    let t = s.t.clone();
                    async move { t.subchannel("svc").await.unwrap().register("g0", Tag("O")).await }
                });
                check(r.is_err(), "an endpoint stays registered while its handler runs");
            }
            _ => {
                if !gone {
                    // served one after the other
                    hold(&n, id, &body);
                    model::run_until_idle();
                    check(n.frames().is_empty(), "a response comes after its handler ended");
                    waiting.push(id);
                    gone = true;
                }
            }
        }
    }
    if conc(choose(2, "end")) == 1 {
        // (it still reads)
        n.peer.shutdown();
        model::run_until_idle();
    }
    for _ in 0..waiting.len() {
        s.gates[0].notify_one();
        model::run_until_idle();
    }
    let fs = n.frames();
    check(fs.len() == waiting.len(), "every request is answered when its handler ends");
    for id in waiting.iter() {
        let mine: Vec<F> = fs.iter().filter(|f| f.id == *id).cloned().collect();
        match read_response(&mine) {
            Some((0, _, args)) => check(args[0] == b"G0" && vk::eq(&args[2], &body), "a response belongs to its request"),
            _ => check(false, "every request is answered once"),
        }
    }
    cover("released");
    log("waiting", waiting.len() as u64);
}

/// param0 tasks look up a subchannel and register a handler for the same endpoint at the same time.
/// param1: delays, param2: preemptions, param3: 1 if they do not keep the subchannel
fn srv_concurrent() {
    let s = server(2, 1);
    model::configure(param(1), param(2));
    let service = ["new", "svc"][conc(choose(2, "service"))];
    let won: Rc<RefCell<Vec<Option<bool>>>> = Rc::new(RefCell::new(vec![None; param(0)]));
    let subs: Rc<RefCell<Vec<Arc<SubChannel>>>> = Rc::default();
    for k in 0..param(0) {
        let (t, won, subs) = (s.t.clone(), won.clone(), subs.clone());
        let asynch = k == 1;
        model::spawn_local(async move {
            let sub = t.subchannel(service).await.unwrap();
            if param(3) == 0 {
                subs.borrow_mut().push(sub.clone());
            }
            let tag = ["T0", "T1", "T2"][k];
            let r = if asynch { sub.register_async("x", Later(tag)).await } else { sub.register("x", Tag(tag)).await };
            won.borrow_mut()[k] = Some(r.is_ok());
        });
    }
    model::run_until_idle();
    let w: Vec<usize> = (0..param(0)).filter(|k| won.borrow()[*k] == Some(true)).collect();
    check(won.borrow().iter().all(|x| x.is_some()), "every registration ends");
    check(w.len() == 1, "exactly one of several registrations of an endpoint succeeds");
    let subs = subs.borrow();
    check(subs.iter().all(|x| Arc::ptr_eq(x, &subs[0])), "there is one subchannel per service");
    model::configure(0, 0);
    let mut n = connect(1);
    n.send(&message(9, true, &req_fields(service, "raw"), &split(&[b"x".to_vec(), b"h".to_vec(), b"b".to_vec()], 1))[0]);
    model::run_until_idle();
    match read_response(&n.frames()) {
        Some((0, _, args)) => check(args[0] == ["T0", "T1", "T2"][w[0]].as_bytes(), "the registered handler answers"),
        _ => check(false, "the registered handler answers"),
    }
    cover("one");
    log("won", w[0] as u64);
}

/// param0 clients which stop at any byte of their handshake, for as long as they like; another client is served; then they go on.
/// param1: delays
fn srv_silent() {
    let _s = server(2, 1);
    model::configure(param(1), 0);
    let hello = F::new(4, 1, init_payload(2)).wire();
    let mut silent = vec![];
    for _ in 0..param(0) {
        let n = Net::new(tokio::model::raw::Peer::connect(addr()).unwrap());
        let at = conc(choose(hello.len(), "at"));
        n.peer.send(&hello[..at]);
        silent.push((n, at));
    }
    if conc(choose(2, "run")) == 1 {
        model::run_until_idle();
    }
    let mut m = connect(1);
    still_works(&mut m);
    for (n, at) in silent.iter_mut() {
        check(n.frames().is_empty() && !n.peer.eof(), "a server waits for the init request");
        n.peer.send(&hello[*at..]);
        model::run_until_idle();
        let fs = n.frames();
        check(fs.len() == 1 && fs[0].code == 2 && fs[0].id == 4, "a server answers the init request");
        still_works(n);
    }
    still_works(&mut m);
    cover("served");
}

/// Any sequence of param0 requests one after the other, each proper (to any of param2 targets) or broken, the ids of which may be
/// used again once they are answered; then one more. param1: tasks, param3: frames, param4: delays
fn srv_seq() {
    let s = server(2, param(1));
    let mut n = connect(1);
    model::configure(param(4), 0);
    let first = sym_u32("id");
    for k in 0..param(0) {
        let id = if k == 0 || conc(choose(2, "again")) == 1 { first } else { sym_u32("id") };
        let what = conc(choose(param(2) + 5, "what"));
        let frames = conc(choose(param(3), "frames")) + 1;
        let r = request_to(id, what.saturating_sub(5), frames);
        let mut fs = r.frames.clone();
        match what {
            // a broken last frame, which is answered by an error
            0 => {
                fs.last_mut().unwrap().p.pop();
                if frames > 1 {
                    // (its chunk is cut)
                    cover("cut");
                }
            }
            1 => {
                let f = fs.last_mut().unwrap();
                let at = if frames > 1 { 1 } else { 1 + req_fields("svc", "raw").len() };
                f.p[at] = 1 + conc(choose(3, "checksum")) as u8;
            }
            2 => fs = message(id, true, &req_fields("svc", "what"), &split(&[b"e".to_vec(), b"h".to_vec(), b"xy".to_vec()], 1)),
            3 => fs = message(id, true, &req_fields("svc", "raw"), &split(&[vec![0xff, 0xfe], b"h".to_vec(), b"xy".to_vec()], frames)),
            // no continuation
            4 => {
                if frames > 1 {
                    fs.last_mut().unwrap().code = 0xc1;
                } else {
                    fs[0].code = 4;
                }
            }
            _ => {}
        }
        for f in fs.iter() {
            n.send(f);
        }
        model::run_until_idle();
        let got = n.frames();
        if what < 5 {
            check(got.len() == 1 && got[0].id == id && read_error(&got[0]).is_some(), "a request which cannot be handled gets an error frame");
            cover("refused");
        } else {
            check(got.len() == 1, "a request gets exactly one response");
            answer(&got, &r);
        }
    }
    for _ in 0..2 {
        let r = request_to(first, 0, param(3));
        for f in r.frames.iter() {
            n.send(f);
        }
        model::run_until_idle();
        answer(&n.frames(), &r);
    }
    still_works(&mut n);
    cover("all");
    drop(s);
}

/// Fails with a message made of `len` bytes: characters of `width` bytes after some single ones.
#[derive(Debug)]
struct FailLong {
    internal: bool,
    text: String,
}
impl RequestHandler for FailLong {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, _: RawMessage) -> HandlerResult<RawMessage> {
        Err(if self.internal { HandlerError::InternalError(TChannelError::Error(self.text.clone())) } else { HandlerError::GeneralError(self.text.clone()) })
    }
}
/// A service, endpoint, header of as many bytes, in characters of several ones. param0: least length in bytes, param1: lengths,
/// param2: bytes per character
fn srv_texts() {
    let s = server(2, 1);
    let len = param(0) + conc(choose(param(1), "len"));
    let t = text(len, param(2));
    let service = if len <= 255 { t.clone() } else { String::from("long") };
    let (t2, t3, s2) = (s.t.clone(), t.clone(), service.clone());
    let twice = run(async move {
        let sub = t2.subchannel(&s2).await.unwrap();
        check(sub.register(&t3, Tag("T0")).await.is_ok(), "registered");
        sub.register_async(&t3, Later("T1")).await.is_ok()
    });
    check(!twice, "a handler is registered only if there is none for the endpoint");
    let mut n = connect(1);
    let id = sym_u32("id");
    let body = sym_bytes(2, "body");
    let cut = t.len().min(20_000);
    for f in message(id, true, &req_fields(&service, "raw"), &[vec![t.as_bytes()[..cut].to_vec()], vec![t.as_bytes()[cut..].to_vec(), t.as_bytes().to_vec(), body.clone()]]) {
        n.send(&f);
    }
    model::run_until_idle();
    let fs = n.frames();
    check(fs.iter().all(|f| f.id == id), "one answer");
    match read_response(&fs) {
        Some((0, _, args)) => check(args.len() == 3 && args[0] == b"T0" && args[1] == t.as_bytes() && vk::eq(&args[2], &body), "the handler of the endpoint answers"),
        _ => check(false, "a request to a registered endpoint is answered"),
    }
    cover("answered");
}

/// A failure which has a lot to say is answered by one proper error frame. param0: least length in bytes, param1: lengths,
/// param2: bytes per character, param3: 0 general, 1 internal failure of the handler, 2 unknown endpoint, 3 unknown scheme, 4 unknown service
fn srv_long() {
    let s = server(2, 1);
    let len = param(0) + conc(choose(param(1), "len"));
    let t = text(len, param(2));
    let t2 = s.t.clone();
    if param(3) < 2 {
        let h = FailLong { internal: param(3) == 1, text: t.clone() };
        check(run(async move { t2.subchannel("svc").await.unwrap().register("long", h).await.is_ok() }), "registered");
    }
    let mut n = connect(1);
    let id = sym_u32("id");
    assume(id != 0x7000_0001);
    let (endpoint, scheme) = match param(3) {
        2 => (t.as_bytes().to_vec(), "raw"),
        3 => (b"e".to_vec(), &t[..]),
        _ => (b"long".to_vec(), "raw"),
    };
    // the endpoint may need another frame
    let cut = endpoint.len().min(40_000);
    let (a, b) = endpoint.split_at(cut);
    let mut frames = vec![vec![a.to_vec()], vec![b.to_vec(), b"h".to_vec(), b"b".to_vec()]];
    if b.is_empty() {
        frames = vec![vec![a.to_vec(), b"h".to_vec(), b"b".to_vec()]];
    }
    let service = if param(3) == 4 { &t[..] } else { "svc" };
    for f in message(id, true, &req_fields(service, scheme), &frames) {
        n.send(&f);
    }
    model::run_until_idle();
    let fs = n.frames();
    check(fs.len() == 1 && fs[0].id == id, "a request which fails gets one answer");
    match read_error(&fs[0]) {
        Some((_, m)) => {
            check(m.len() > 0, "an error frame tells why");
            log("length", m.len() as u64);
        }
        None => check(false, "a request which fails gets a well formed error frame"),
    }
    cover("error frame");
    still_works(&mut n);
}

/// A client which does not read its responses (its connection holds param1 bytes) holds up no other one, and reads them later.
/// param0: its requests, param2: tasks, param3: buffer, param4: delays
fn srv_stuck() {
    let _s = server(param(3), param(2));
    let mut n = connect(1);
    n.peer.capacity(param(1));
    model::configure(param(4), 0);
    let mut rs: Vec<Req> = vec![];
    for k in 0..param(0) {
        let mut r = request_to(1 + k as u32, [0, 9, 2][k % 3], conc(choose(2, "frames")) + 1);
        if conc(choose(2, "failing")) == 1 {
            r = request_to(1 + k as u32, [5, 4, 1][k % 3], 1);
        }
        rs.push(r);
    }
    for r in rs.iter() {
        for f in r.frames.iter() {
            n.send(f);
        }
    }
    model::run_until_idle();
    check(n.peer.available() <= param(1), "the connection is full");
    // others are served meanwhile
    let mut m = connect(1);
    still_works(&mut m);
    still_works(&mut m);
    let mut fs = vec![];
    for _ in 0..100 * param(0) * (1 + 200 / param(1)) {
        if n.peer.available() == 0 {
            break;
        }
        fs.extend(n.frames());
        model::run_until_idle();
    }
    check(fs.len() == rs.len() && n.clean(), "every request is answered when its client goes on reading");
    for r in rs.iter() {
        answer(&fs, r);
    }
    still_works(&mut m);
    n.peer.capacity(1 << 20);
    still_works(&mut n);
    cover("served");
}

/// The server stops (and maybe starts again) at any point while requests are sent and handled: requests over connections which were accepted are answered.
/// param0: requests, param1: delays, param2: limit of handlers
fn srv_stop() {
    let s = server(2, param(2));
    let mut n = connect(1);
    model::configure(param(1), 0);
    let k = param(0);
    let mut frames = vec![];
    let mut rs: Vec<(u32, Vec<u8>)> = vec![];
    for i in 0..k {
        let (id, body) = (20 + i as u32, sym_bytes(1, "body"));
        let args = [format!("g{}", i).into_bytes(), b"h".to_vec(), body.clone()];
        frames.extend(message(id, true, &req_fields("svc", "raw"), &split(&args, conc(choose(2, "frames")) + 1)));
        rs.push((id, body));
    }
    let at = conc(choose(frames.len() + 1, "at"));
    let again = conc(choose(2, "again")) == 1;
    for (i, f) in frames.iter().enumerate() {
        if i == at {
            if conc(choose(2, "run")) == 1 {
                model::run_until_idle();
            }
            stop(&s.t, again);
        }
        n.send(f);
    }
    model::run_until_idle();
    if at == frames.len() {
        stop(&s.t, again);
    }
    let mut fs = vec![];
    for _ in 0..k {
        model::run_until_idle();
        for g in s.gates.iter() {
            g.notify_waiters();
        }
        model::run_until_idle();
        fs.extend(n.frames());
    }
    check(fs.len() == k && !n.peer.eof(), "every request is answered once");
    for (id, body) in rs {
        let mine: Vec<F> = fs.iter().filter(|f| f.id == id).cloned().collect();
        match read_response(&mine) {
            Some((0, _, args)) if mine.len() == 1 => check(vk::eq(&args[2], &body), "a response belongs to its request"),
            _ => check(false, "a request which arrives over an accepted connection is answered"),
        }
    }
    listening(again);
    cover(if again { "again" } else { "stopped" });
}
fn stop(t: &TChannel, again: bool) {
    check(t.shutdown_server().is_ok(), "shutdown is always possible");
    if again {
        if conc(choose(2, "settle")) == 1 {
            model::run_until_idle();
        }
        check(t.start_server().is_ok(), "a stopped server starts again");
    }
}

/// Many requests at once over several connections, all unfinished for some time.
/// param0: requests at least, param1: numbers of requests, param2: buffer, param3: tasks, param4: connections, param5: length of a body
fn srv_many() {
    let n = param(0) + conc(choose(param(1), "n"));
    let buffer = if param(2) == 0 { n } else { param(2) };
    let _s = server(buffer, if param(3) == 0 { n } else { param(3) });
    let mut cs: Vec<Net> = (0..param(4).max(1)).map(|k| connect(k as u32)).collect();
    let m = cs.len();
    let x = sym_u8("x");
    let mut rs: Vec<Req> = (0..n)
        .map(|k| {
            let target = if k % 5 == 4 { (k / 5) % TARGETS.len() } else { [0, 1, 9][k % 3] };
            let mut body = vec![if k == n - 1 { x } else { k as u8 }, k as u8, (k >> 8) as u8];
            body.resize(3 + param(5), 0x22);
            let (service, endpoint, _, _) = TARGETS[target];
            let args = [endpoint.as_bytes().to_vec(), b"h".to_vec(), body.clone()];
            let id = (k / m) as u32 * 3 + 1;
            Req { id, target, body, frames: message(id, true, &req_fields(service, "raw"), &split(&args, 2 + k % 3)), next: 0 }
        })
        .collect();
    for k in 0..n {
        cs[k % m].send(&rs[k].frames[0]);
        if k % 16 == 15 {
            model::run_until_idle();
        }
    }
    model::run_until_idle();
    check(cs.iter_mut().all(|c| c.frames().is_empty()), "a request is answered when it is complete, not before");
    // the rest, last request first or in rounds
    if conc(choose(2, "order")) == 0 {
        for k in (0..n).rev() {
            for f in rs[k].frames[1..].iter() {
                cs[k % m].send(f);
            }
        }
    } else {
        for round in 1..4 {
            for k in 0..n {
                if let Some(f) = rs[k].frames.get(round) {
                    cs[k % m].send(f);
                }
            }
        }
    }
    model::run_until_idle();
    for c in 0..m {
        let fs = cs[c].frames();
        let mine: Vec<&mut Req> = rs.iter_mut().enumerate().filter(|(k, _)| k % m == c).map(|r| r.1).collect();
        let mut seen: Vec<u32> = vec![];
        for f in fs.iter() {
            if !seen.contains(&f.id) {
                seen.push(f.id);
            }
        }
        check(seen.len() == mine.len(), "as many responses as requests");
        for r in mine {
            let a: Vec<F> = fs.iter().filter(|f| f.id == r.id).cloned().collect();
            answer_of(&a, r);
        }
        check(cs[c].clean() && !cs[c].peer.eof(), "the connection stays open");
    }
    log("n", n as u64);
}

/// Many services with many handlers each. param0: services at least, param1: numbers of services, param2: endpoints of each
fn srv_registry() {
    let n = param(0) + conc(choose(param(1), "n"));
    let m = param(2);
    let s = server(4, 4);
    let leak = |k: usize, e: usize| -> &'static str { Box::leak(format!("T{}.{}", k, e).into_boxed_str()) };
    let t = s.t.clone();
    let order = conc(choose(2, "order"));
    run(async move {
        let mut subs = vec![];
        for k in 0..n {
            let sub = t.subchannel(format!("s{}", k)).await.unwrap();
            if order == 0 {
                for e in 0..m {
                    let r = if e % 2 == 0 { sub.register(format!("e{}", e), Tag(leak(k, e))).await } else { sub.register_async(format!("e{}", e), Later(leak(k, e))).await };
                    check(r.is_ok(), "a handler of a new endpoint is registered");
                }
            }
            subs.push(sub);
        }
        if order == 1 {
            for e in 0..m {
                for (k, sub) in subs.iter().enumerate() {
                    check(sub.register(format!("e{}", e), Tag(leak(k, e))).await.is_ok(), "a handler of a new endpoint is registered");
                }
            }
        }
        for (k, sub) in subs.iter().enumerate() {
            let again = t.subchannel(format!("s{}", k)).await.unwrap();
            check(Arc::ptr_eq(sub, &again), "there is one subchannel per service");
            check(again.register(format!("e{}", m - 1), Tag("no")).await.is_err(), "an endpoint has one handler");
        }
    });
    let mut c = connect(1);
    let x = sym_u8("x");
    for k in 0..n {
        for e in 0..m {
            let body = [x, k as u8, e as u8];
            let id = (k * m + e) as u32 + 1;
            c.send(&message(id, true, &req_fields(&format!("s{}", k), "raw"), &split(&[format!("e{}", e).into_bytes(), b"h".to_vec(), body.to_vec()], 1))[0]);
            model::run_until_idle();
            match read_response(&c.frames()) {
                Some((0, _, args)) => check(args.len() == 3 && args[0] == leak(k, e).as_bytes() && vk::eq(&args[2], &body), "the request is handled by the handler of its service and endpoint"),
                _ => check(false, "a registered handler answers"),
            }
        }
    }
    for (service, endpoint) in [(format!("s{}", n), "e0".to_string()), ("s0".to_string(), format!("e{}", m))] {
        c.send(&message(1, true, &req_fields(&service, "raw"), &split(&[endpoint.into_bytes(), b"h".to_vec(), vec![x]], 1))[0]);
        model::run_until_idle();
        let fs = c.frames();
        check(fs.len() == 1 && read_error(&fs[0]).is_some(), "a request which cannot be handled gets an error frame");
    }
    for k in 0..3 {
        let r = request_to(7, [0, 3, 9][k], 1);
        c.send(&r.frames[0]);
        model::run_until_idle();
        answer(&c.frames(), &r);
    }
    cover("all");
    log("n", n as u64);
}

/// Requests which take their time (less than their ttl), with their frames or in their handler, over connections which idled before.
/// param0: seconds at least, param1: numbers of seconds, param2: seconds the client idles before
fn srv_slow() {
    let s = server(2, 2);
    let mut n = connect(sym_u32("init"));
    let mut q = connect(1);
    model::pass(param(2) as u64 * 1_000_000_000);
    let d = (param(0) + conc(choose(param(1).max(1), "s"))) as u64 * 1_000_000_000;
    let how = conc(choose(3, "how"));
    let others = |q: &mut Net| {
        let r = request_to(3, 0, 1);
        q.send(&r.frames[0]);
        model::run_until_idle();
        let fs = q.frames();
        check(fs.len() == 1, "as many responses as requests");
        answer(&fs, &r);
    };
    if how == 0 {
        // slow frames
        let r = request_to(sym_u32("id"), conc(choose(12, "target")), 3);
        n.send(&r.frames[0]);
        model::pass(d / 2);
        n.send(&r.frames[1]);
        model::pass(d / 2);
        check(n.frames().is_empty(), "a request is answered when it is complete, not before");
        others(&mut q);
        n.send(&r.frames[2]);
        model::run_until_idle();
        let fs = n.frames();
        check(fs.len() == 1, "as many responses as requests");
        answer(&fs, &r);
    } else {
        // a slow handler, and one which waits for it
        let b = sym_bytes(2, "body");
        let two = how == 2;
        for k in 0..1 + two as usize {
            n.send(&message(40 + k as u32, true, &req_fields("svc", "raw"), &split(&[b"g0".to_vec(), b"h".to_vec(), b.clone()], 1))[0]);
        }
        model::pass(d);
        check(n.frames().is_empty() && s.started.load(Ordering::Relaxed) == 1, "a handler has its time");
        if !two {
            others(&mut n);
        }
        others(&mut q);
        for k in 0..1 + two as u32 {
            s.gates[0].notify_one();
            model::run_until_idle();
            let fs = n.frames();
            check(fs.len() == 1, "a request is answered when its handler is done");
            match read_response(&fs) {
                Some((0, _, args)) => check((two || fs[0].id == 40 + k) && args[0] == b"G0" && vk::eq(&args[2], &b), "the response of the handler"),
                _ => check(false, "the response of the handler"),
            }
        }
    }
    check(n.clean() && !n.peer.eof() && q.clean() && !q.peer.eof(), "the connections stay open");
    cover(["frames", "handler", "queue"][how]);
}

//! Whole system over the model of network and tasks: client and server `TChannel`s.
#[path = "/verif/harness/common.rs"]
pub mod common;
#[path = "/verif/harness/net.rs"]
pub mod net;
use crate::handler::{HandlerResult, RequestHandler, RequestHandlerAsync};
use crate::errors::{HandlerError, TChannelError};
use crate::messages::{JsonMessage, MessageChannel, RawMessage};
use crate::{SubChannel, TChannel};
use common::*;
use net::*;
use serde_json::{Map, Value};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use tokio::model;

crate::entries!(e2e_calls, e2e_big, e2e_json, e2e_restart, e2e_self);

/// Answers with its tag, the header and the body of the request.
#[derive(Debug)]
struct Echo(&'static str);
impl RequestHandler for Echo {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> HandlerResult<RawMessage> {
        Ok(RawMessage::new(self.0.into(), r.header().clone(), r.body().clone()))
    }
}
/// The same after a while.
#[derive(Debug)]
struct Slow(&'static str);
impl RequestHandlerAsync for Slow {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> Pin<Box<dyn Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        Box::pin(async move {
            model::Yield(false).await;
            model::Yield(false).await;
            Ok(RawMessage::new(self.0.into(), r.header().clone(), r.body().clone()))
        })
    }
}
#[derive(Debug)]
struct Fail(u8);
impl RequestHandler for Fail {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> HandlerResult<RawMessage> {
        Err(match self.0 {
            0 => HandlerError::MessageError(RawMessage::new("failed".into(), r.header().clone(), r.body().clone())),
            1 => HandlerError::GeneralError("why".into()),
            _ => HandlerError::InternalError(TChannelError::Error("why".into())),
        })
    }
}
#[derive(Debug)]
struct Json;
impl RequestHandler for Json {
    type REQ = JsonMessage;
    type RES = JsonMessage;
    fn handle(&mut self, r: JsonMessage) -> HandlerResult<JsonMessage> {
        let mut b = r.body().clone();
        b.insert("seen".into(), Value::Bool(true));
        Ok(JsonMessage::new("json".into(), r.headers().clone(), b))
    }
}

fn channel(max: usize, buffer: usize, tasks: usize) -> Rc<TChannel> {
    Rc::new(TChannel::new(config(max as u32, buffer, tasks, false)).unwrap())
}
fn setup(t: &Rc<TChannel>) {
    let t = t.clone();
    model::spawn_local(async move {
        let a = t.subchannel("svc").await.unwrap();
        let b = t.subchannel("other").await.unwrap();
        a.register("e", Echo("A.e")).await.unwrap();
        a.register_async("s", Slow("A.s")).await.unwrap();
        b.register("e", Echo("B.e")).await.unwrap();
        a.register("m", Fail(0)).await.unwrap();
        a.register("g", Fail(1)).await.unwrap();
        b.register("i", Fail(2)).await.unwrap();
        b.register("j", Json).await.unwrap();
        t.start_server().unwrap();
    });
    model::run_until_idle();
}
/// service, endpoint, tag, kind of outcome
const TARGETS: [(&str, &str, &str, u64); 8] = [
    ("svc", "e", "A.e", 1),
    ("other", "e", "B.e", 1),
    ("svc", "s", "A.s", 1),
    ("svc", "m", "failed", 2),
    ("svc", "g", "", 3),
    ("other", "i", "", 3),
    ("other", "j", "", 3),
    ("none", "e", "", 3),
];

fn capacity(n: usize) {
    if n > 0 {
        tokio::model::raw::default_capacity(n);
    }
}

struct Call {
    slot: Slot,
    target: usize,
    body: Vec<u8>,
}
fn start(t: &Rc<TChannel>, target: usize, body: Vec<u8>) -> Call {
    let (s, e, _, _) = TARGETS[target];
    Call { slot: call(t, s, e, "h", body.clone()), target, body }
}
fn finish(c: &Call) {
    let (_, _, tag, k) = TARGETS[c.target];
    check(kind(&c.slot) == k, "the outcome of the handler is the outcome of the call");
    match &*c.slot.borrow() {
        Some(Out::Ok(m)) | Some(Out::Message(m)) => {
            check(m.endpoint() == tag, "the handler of the service and endpoint answers");
            check(m.header() == "h" && vk::eq(m.body(), &c.body), "a call gets its own response");
        }
        _ => {}
    }
    log("kind", kind(&c.slot));
    cover(["pending", "ok", "error response", "error"][kind(&c.slot) as usize]);
}

/// param0 clients with param1 calls each to one of param2 targets, param3 delays, param4 preemptions, param5 buffer, param6 tasks,
/// param7 connections per client, param8 bytes a connection holds (0: any number)
fn e2e_calls() {
    capacity(param(8));
    let server = channel(1, param(5), param(6));
    setup(&server);
    let max = if param(7) == 0 { 1 } else { param(7) };
    let clients: Vec<Rc<TChannel>> = (0..param(0)).map(|_| channel(max, param(5), 1)).collect();
    model::configure(param(3), param(4));
    let mut calls = vec![];
    for c in clients.iter() {
        for _ in 0..param(1) {
            let target = conc(choose(param(2), "target"));
            calls.push(start(c, target, sym_bytes(2, "body")));
        }
    }
    let ok = model::run_until(SEC, || calls.iter().all(|c| done(&c.slot)));
    check(ok, "every call ends");
    for c in calls.iter() {
        finish(c);
    }
    // and again
    let c = start(&clients[0], 0, sym_bytes(2, "body"));
    check(model::run_until(SEC, || done(&c.slot)), "a later call ends");
    finish(&c);
}

/// A body of `n` bytes with some arbitrary ones at the ends of frames.
fn big(n: usize) -> Vec<u8> {
    let mut b = vec![0x5a; n];
    for at in [0, 1, 65400, 65450, 65470, 65480, 65490, 65500, 65510, 65519, 131000, 131038] {
        if at < n {
            b[at] = sym_u8("mark");
        }
    }
    if n > 0 {
        b[n - 1] = sym_u8("mark");
    }
    b
}
/// Bodies of param0 and param1 bytes at once, param2 delays, param3 buffer, param4 tasks, param5: bytes a connection holds
fn e2e_big() {
    capacity(param(5));
    let server = channel(1, param(3), param(4));
    setup(&server);
    let client = channel(1, param(3), 1);
    model::configure(param(2), 0);
    let mut calls = vec![start(&client, 0, big(param(0)))];
    if param(1) > 0 {
        calls.push(start(&client, 1, big(param(1))));
    }
    let ok = model::run_until(SEC, || calls.iter().all(|c| done(&c.slot)));
    check(ok, "every call ends");
    for c in calls.iter() {
        finish(c);
    }
}

/// A json call with any key and value of param0 bytes next to raw calls to the same and another handler.
fn e2e_json() {
    let server = channel(1, 4, 2);
    setup(&server);
    let client = channel(1, 4, 1);
    model::configure(param(1), 0);
    let (k, v) = (sym_str(param(0), "k"), sym_str(param(0), "v"));
    let mut h = Map::new();
    h.insert(k.clone(), Value::String(v.clone()));
    let mut b = Map::new();
    b.insert(v.clone(), Value::String(k.clone()));
    let m = JsonMessage::new("j".into(), h.clone(), b.clone());
    let got: Rc<RefCell<Option<Result<JsonMessage, bool>>>> = Rc::default();
    let (g, t) = (got.clone(), client.clone());
    model::spawn_local(async move {
        let sub = t.subchannel("other").await.unwrap();
        let r: HandlerResult<JsonMessage> = MessageChannel::send(&*sub, m, ADDR).await;
        *g.borrow_mut() = Some(r.map_err(|_| false));
    });
    // a raw message for the json handler, and a proper one
    let raw = [start(&client, 6, vec![1]), start(&client, 1, sym_bytes(1, "body"))];
    check(model::run_until(SEC, || got.borrow().is_some() && raw.iter().all(|c| done(&c.slot))), "every call ends");
    for c in raw.iter() {
        finish(c);
    }
    match &*got.borrow() {
        Some(Ok(m)) => {
            b.insert("seen".into(), Value::Bool(true));
            check(m.method_name() == "json" && *m.headers() == h && *m.body() == b, "a json call gets its own response");
            cover("json");
        }
        _ => check(false, "a json call succeeds"),
    }
    // the other way round
    let wrong: Rc<RefCell<Option<bool>>> = Rc::default();
    let (g, t) = (wrong.clone(), client.clone());
    model::spawn_local(async move {
        let sub = t.subchannel("svc").await.unwrap();
        let r: HandlerResult<JsonMessage> = MessageChannel::send(&*sub, JsonMessage::new("e".into(), Map::new(), Map::new()), ADDR).await;
        *g.borrow_mut() = Some(r.is_ok());
    });
    check(model::run_until(SEC, || wrong.borrow().is_some()), "every call ends");
    check(*wrong.borrow() == Some(false), "a json message is refused by a raw handler");
    let c = start(&client, 0, sym_bytes(1, "body"));
    check(model::run_until(SEC, || done(&c.slot)), "a later call ends");
    finish(&c);
}

/// The server stops and starts again; calls while it is down, and after. param0: delays
fn e2e_restart() {
    let server = channel(1, 4, 2);
    setup(&server);
    let client = channel(1, 4, 1);
    model::configure(param(0), 0);
    let c = start(&client, 0, sym_bytes(2, "body"));
    if conc(choose(2, "settle")) == 1 {
        model::run_until_idle();
        finish(&c);
    }
    check(server.shutdown_server().is_ok(), "a server stops");
    let down = conc(choose(2, "down")) == 1;
    if down {
        model::run_until_idle();
    }
    check(server.start_server().is_ok(), "a server starts again");
    check(model::run_until(100 * SEC, || done(&c.slot)), "every call ends");
    let other = channel(1, 4, 1);
    for t in [&client, &other] {
        let c = start(t, 1, sym_bytes(2, "body"));
        check(model::run_until(100 * SEC, || done(&c.slot)), "every call ends");
        finish(&c);
    }
}

/// A channel which calls itself and another one, both ways. param0: delays, param1: preemptions
fn e2e_self() {
    let a = channel(1, 2, 2);
    setup(&a);
    model::configure(param(0), param(1));
    let calls = [start(&a, 0, sym_bytes(2, "body")), start(&a, 2, sym_bytes(2, "body"))];
    check(model::run_until(SEC, || calls.iter().all(|c| done(&c.slot))), "every call ends");
    for c in calls.iter() {
        finish(c);
    }
}

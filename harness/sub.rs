//! Handlers of a subchannel: C17, C13.
#[path = "/verif/harness/common.rs"]
pub mod common;
use crate::connection::pool::ConnectionPools;
use crate::errors::HandlerError;
use crate::frames::headers::ArgSchemeValue;
use crate::handler::{HandlerResult, RequestHandler, RequestHandlerAsync};
use crate::messages::args::{MessageArgs, ResponseCode};
use crate::messages::RawMessage;
use crate::{Config, SubChannel};
use common::*;
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use std::sync::Arc;
use tokio::model;

crate::entries!(sub_history, sub_any);

fn run<T>(f: impl Future<Output = T>) -> T {
    let w = futures::task::noop_waker();
    let mut cx = std::task::Context::from_waker(&w);
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(r) => r,
        _ => {
            check(false, "an operation ends");
            unreachable!()
        }
    }
}
#[derive(Debug)]
struct Tag(u8);
impl RequestHandler for Tag {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> HandlerResult<RawMessage> {
        // 0..: ok, 100..: error message, 200..: failure
        let m = RawMessage::new(r.endpoint().clone(), r.header().clone(), Bytes::from(vec![self.0]));
        match self.0 / 100 {
            0 => Ok(m),
            1 => Err(HandlerError::MessageError(m)),
            _ => Err(HandlerError::GeneralError("why".into())),
        }
    }
}
#[derive(Debug)]
struct Later(u8);
impl RequestHandlerAsync for Later {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> std::pin::Pin<Box<dyn Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        Box::pin(async move { Tag(self.0).handle(r) })
    }
}
fn sub() -> SubChannel {
    SubChannel::new("svc".into(), Arc::new(ConnectionPools::new(Arc::new(Config::default()))))
}

/// Any sequence of param0 registrations, unregistrations and requests, names of param1 arbitrary (ASCII) bytes.
fn sub_history() {
    let mut s = sub();
    let mut known: Vec<(String, u8)> = vec![];
    let mut used: Vec<String> = vec![];
    for k in 0..param(0) {
        let name = sym_ascii(param(1), "name");
        used.push(name.clone());
        let at = known.iter().position(|x| vk::eq(x.0.as_bytes(), name.as_bytes()));
        match conc(choose(3, "op")) {
            0 => {
                let tag = conc(choose(3, "tag")) as u8 * 100 + k as u8;
                let r = if conc(choose(2, "async")) == 1 { run(s.register_async(&name, Later(tag))).is_ok() } else { run(s.register(&name, Tag(tag))).is_ok() };
                check(r == at.is_none(), "a handler is registered unless there is one");
                if r {
                    known.push((name, tag));
                    cover("registered");
                } else {
                    cover("taken");
                }
            }
            1 => {
                let r = run(s.unregister(&name)).is_ok();
                check(r == at.is_some(), "what is registered can be unregistered");
                if let Some(at) = at {
                    known.remove(at);
                    cover("unregistered");
                }
            }
            _ => request(&s, &name, at.map(|a| known[a].1)),
        }
    }
    for n in used.iter() {
        let at = known.iter().position(|x| vk::eq(x.0.as_bytes(), n.as_bytes()));
        request(&s, n, at.map(|a| known[a].1));
    }
    log("handlers", known.len() as u64);
}
fn request(s: &SubChannel, name: &str, want: Option<u8>) {
    let args = vec![Bytes::from(name.as_bytes().to_vec()), Bytes::from_static(b"h"), Bytes::from_static(b"b")];
    let r = run(s.handle(MessageArgs::new(ArgSchemeValue::Raw, args)));
    match (r, want) {
        (Ok((code, a)), Some(t)) => {
            check(t < 200, "a failure is no response");
            check((code == ResponseCode::Ok) == (t < 100), "response code");
            check(a.args.len() == 3 && a.args[2].to_vec() == vec![t] && vk::eq(&a.args[0], name.as_bytes()), "the handler of the endpoint answers");
            cover("answered");
        }
        (Err(_), Some(t)) => {
            check(t >= 200, "a handler which does not fail answers");
            cover("failed");
        }
        (Err(_), None) => cover("unknown"),
        (Ok(_), None) => check(false, "no response without a handler"),
    }
}

/// Requests with any endpoint bytes and 0..4 args.
fn sub_any() {
    let s = sub();
    let name = sym_ascii(2, "name");
    check(run(s.register(&name, Tag(1))).is_ok(), "registered");
    let n = conc(choose(5, "args"));
    let e = sym_bytes(conc(choose(4, "n")), "endpoint");
    let mut args = vec![];
    for k in 0..n {
        args.push(if k == 0 { Bytes::from(e.clone()) } else { Bytes::from_static(b"x") });
    }
    let r = run(s.handle(MessageArgs::new(ArgSchemeValue::Raw, args)));
    let known = n > 0 && e.len() == 2 && vk::eq(&e, name.as_bytes());
    check(r.is_ok() == known, "handled exactly if a handler is registered under the name");
    let known = conc(known as usize);
    cover(["unknown", "known"][known]);
    log("known", known as u64);
}

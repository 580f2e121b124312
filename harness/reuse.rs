//! Calls which end in any way, one after the other over one connection, their ids used again: C11, C12, C13.
#[path = "/verif/harness/common.rs"]
pub mod common;
#[path = "/verif/harness/net.rs"]
pub mod net;
use crate::handler::HandlerResult;
use crate::messages::{MessageChannel, RawMessage};
use crate::TChannel;
use common::*;
use net::*;
use std::cell::RefCell;
use std::rc::Rc;
use tokio::model::{self, raw::Listener};

crate::entries!(reuse_seq);

fn skip_to(t: &Rc<TChannel>, id: u32) {
    let o: Rc<RefCell<Option<bool>>> = Rc::default();
    let (p, t) = (o.clone(), t.clone());
    model::spawn_local(async move {
        let s = t.subchannel("svc").await.unwrap();
        let r = crate::subchannel::vk_hook::skip_to(&s, addr(), id).await;
        *p.borrow_mut() = Some(r);
    });
    model::run_until_idle();
    check(*o.borrow() == Some(true), "the connection is in use");
}

fn call_named(t: &Rc<TChannel>, service: String, body: Vec<u8>) -> Slot {
    let s: Slot = Rc::default();
    let (o, t) = (s.clone(), t.clone());
    let m = RawMessage::new("e".into(), "h".into(), Bytes::from(body));
    model::spawn_local(async move {
        let sub = t.subchannel(service).await.unwrap();
        let r: HandlerResult<RawMessage> = MessageChannel::send(&*sub, m, ADDR).await;
        *o.borrow_mut() = Some(out_of(r));
    });
    s
}

/// The id of the only request which got sent.
fn sent(n: &mut Net, body: &[u8]) -> u32 {
    let fs = n.frames();
    check(fs.len() == 1, "a call sends its request, once");
    match read_request(&fs) {
        Some(r) => check(r.service == "svc" && r.args.len() == 3 && vk::eq(&r.args[2], body), "a request of the call"),
        None => check(false, "a well formed request"),
    }
    fs[0].id
}

/// param0 calls one after the other, each of which ends in one of the ways, over one connection whose counter returns to where
/// it was; another call may stay in flight under another id. param1: delays
fn reuse_seq() {
    let l = Listener::bind(addr());
    let t = Rc::new(TChannel::new(config(1, 2, 1, false)).unwrap());
    let b = sym_bytes(1, "first");
    let first = call(&t, "svc", "e", "h", b.clone());
    model::run_until_idle();
    let mut n = accept(&l).unwrap();
    model::run_until_idle();
    let id = sent(&mut n, &b);
    let ok = |id: u32, b: &[u8]| message(id, false, &res_fields(0, "raw"), &split(&[b"e".to_vec(), b"h".to_vec(), b.to_vec()], 1)).remove(0);
    n.send(&ok(id, b"xy"));
    model::run_until_idle();
    check(kind(&first) == 1, "an answered call succeeds");
    let at = sym_u32("at");
    model::configure(param(1), 0);
    let mut pending: Option<(Slot, u32)> = None;
    for k in 0..param(0) {
        skip_to(&t, at);
        let what = conc(choose(9, "what"));
        let b = sym_bytes(2, "req");
        if what == 8 {
            // a request which cannot be written: nothing is sent
            let s = call_named(&t, "s".repeat(256), b);
            model::run_until_idle();
            check(kind(&s) == 3, "a request which cannot be written fails its call");
            check(n.frames().is_empty(), "nothing of it is sent");
            cover("unsent");
            continue;
        }
        let s = call(&t, "svc", "e", "h", b.clone());
        model::run_until_idle();
        let id = sent(&mut n, &b);
        let res = sym_bytes(2, "res");
        let mut f = ok(id, &res);
        let mut fs = vec![];
        let mut expect = 3;
        match what {
            0 => expect = 1,
            1 => {
                fs = message(id, false, &res_fields(0, "raw"), &split(&[b"e".to_vec(), b"h".to_vec(), res.clone()], 3));
                f = fs.pop().unwrap();
                expect = 1;
            }
            2 => {
                f = message(id, false, &res_fields(1, "raw"), &split(&[b"e".to_vec(), b"h".to_vec(), res.clone()], 1)).remove(0);
                expect = 2;
            }
            3 => f = F::new(id, 0xff, Wr::default().num(5, 1).raw(&[0; 25]).text("no", 2).0),
            // an unreadable response
            4 => {
                f.p.pop();
            }
            5 => f = message(id, false, &res_fields(0, "json"), &split(&[b"e".to_vec(), b"h".to_vec(), res.clone()], 1)).remove(0),
            // a part, then an error
            6 => {
                fs = message(id, false, &res_fields(0, "raw"), &split(&[b"e".to_vec(), b"h".to_vec(), res.clone()], 2));
                f = F::new(id, 0xff, Wr::default().num(5, 1).raw(&[0; 25]).text("no", 2).0);
                fs.pop();
            }
            // another kind of frame
            _ => f.code = TYPE_CODES[[0, 2, 5, 6][conc(choose(4, "type"))]],
        }
        for f in fs.iter() {
            n.send(f);
        }
        if !fs.is_empty() && conc(choose(2, "run")) == 1 {
            model::run_until_idle();
            check(!done(&s), "an incomplete response does not end a call");
        }
        n.send(&f);
        model::run_until_idle();
        check(kind(&s) == expect, "the outcome of a call");
        if let Some(Out::Ok(m)) | Some(Out::Message(m)) = &*s.borrow() {
            check(vk::eq(m.body(), &res), "a call gets its own response");
        }
        cover(["pending", "ok", "error response", "error"][expect as usize]);
        log("kind", kind(&s));
        if k == 0 && conc(choose(2, "keep")) == 1 {
            // one which stays in flight
            skip_to(&t, at.wrapping_add(1000));
            let b = sym_bytes(2, "req");
            let s = call(&t, "svc", "e", "h", b.clone());
            model::run_until_idle();
            let id = sent(&mut n, &b);
            pending = Some((s, id));
        }
    }
    skip_to(&t, at);
    let b = sym_bytes(2, "req");
    let s = call(&t, "svc", "e", "h", b.clone());
    model::run_until_idle();
    let id = sent(&mut n, &b);
    n.send(&ok(id, b"zz"));
    model::run_until_idle();
    check(kind(&s) == 1, "a later call works, under an id which was used before");
    if let Some((s, id)) = pending {
        check(!done(&s), "a call waits for its response");
        n.send(&ok(id, b"pp"));
        model::run_until_idle();
        match &*s.borrow() {
            Some(Out::Ok(m)) => check(m.body() == &b"pp"[..], "a call gets its own response"),
            _ => check(false, "an answered call succeeds"),
        }
    }
    cover("again");
}

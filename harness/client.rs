//! The client against a peer which only knows the protocol: C10, C11, C14, C15, C19, C21.
#[path = "/verif/harness/common.rs"]
pub mod common;
#[path = "/verif/harness/net.rs"]
pub mod net;
use crate::handler::HandlerResult;
use crate::messages::{MessageChannel, RawMessage};
use crate::{SubChannel, TChannel};
use common::*;
use net::*;
use std::cell::RefCell;
use std::rc::Rc;
use tokio::model::{self, raw::Listener};

crate::entries!(cl_route, cl_stray, cl_loss, cl_error, cl_handshake, cl_wild, cl_race, cl_send_loss, cl_cancel, cl_texts, cl_many, cl_slow);

/// Calls from one client over one connection, up to their requests: listener, connection, calls, ids, bodies.
fn start(calls: usize, buffer: usize) -> (Rc<TChannel>, Listener, Net, Vec<Slot>, Vec<u32>) {
    let l = Listener::bind(addr());
    let t = Rc::new(TChannel::new(config(1, buffer, 1, false)).unwrap());
    let worn = if param(9) > 0 { Some(wear_calls(&t, &l, param(9))) } else { None };
    let mut slots = vec![];
    let mut bodies = vec![];
    for k in 0..calls {
        let b = sym_bytes(2, "req");
        bodies.push(b.clone());
        slots.push(call(&t, "svc", "e", ["h0", "h1", "h2", "h3"][k], b));
    }
    model::run_until_idle();
    let mut n = match worn {
        Some(n) => n,
        None => match accept(&l) {
            Some(n) => n,
            None => {
                check(false, "a client connects");
                unreachable!()
            }
        },
    };
    model::run_until_idle();
    check(l.accept().is_none(), "no more connections than configured");
    let ids = requests(&mut n, &bodies);
    (t, l, n, slots, ids)
}

/// Calls made before, which end in several ways.
fn wear_calls(t: &Rc<TChannel>, l: &Listener, times: usize) -> Net {
    let mut n: Option<Net> = None;
    for k in 0..times {
        let s = call(t, ["svc", "other"][k % 2], "e", "h", vec![k as u8; k]);
        model::run_until_idle();
        if n.is_none() {
            n = accept(l);
            model::run_until_idle();
        }
        let n = n.as_mut().unwrap();
        let fs = n.frames();
        check(fs.len() == 1 && fs[0].code == 3, "every call sends its request");
        let id = fs[0].id;
        let args = [b"e".to_vec(), b"h".to_vec(), vec![k as u8; k]];
        match k % 5 {
            3 => n.send(&F::new(id, 0xff, Wr::default().num(5, 1).raw(&[0; 25]).text("why", 2).0)),
            4 => {
                n.send(&F::new(id + 77, 0xff, Wr::default().num(5, 1).raw(&[0; 25]).text("stray", 2).0));
                n.send(&F::new(id, 4, vec![9, 9]));
            }
            c => {
                for f in message(id, false, &res_fields((c == 1) as u8, "raw"), &split(&args, 1 + k % 4)) {
                    n.send(&f);
                }
            }
        }
        model::run_until_idle();
        check(kind(&s) == [1, 2, 1, 3, 3][k % 5], "the same outcome as ever");
    }
    n.unwrap()
}

/// Checks the requests which got sent, returns their ids by call.
fn requests(n: &mut Net, bodies: &[Vec<u8>]) -> Vec<u32> {
    let fs = n.frames();
    check(fs.len() == bodies.len(), "every call sends its request");
    let mut ids: Vec<Option<u32>> = vec![None; bodies.len()];
    for f in fs.iter() {
        let r = match read_request(std::slice::from_ref(f)) {
            Some(r) => r,
            None => {
                check(false, "a well formed request");
                unreachable!()
            }
        };
        check(r.service == "svc" && r.scheme == "raw" && r.args.len() == 3 && r.args[0] == b"e", "service, scheme and endpoint of a request");
        let k = (r.args[1][1] - b'0') as usize;
        check(ids[k].is_none(), "a request is sent once");
        check(vk::eq(&r.args[2], &bodies[k]), "body of a request");
        for o in ids.iter() {
            check(*o != Some(f.id), "ids of messages in flight differ");
        }
        ids[k] = Some(f.id);
    }
    ids.into_iter().map(|i| i.unwrap()).collect()
}

/// A response with arbitrary code and body in up to `most` frames.
struct Resp {
    code: u8,
    body: Vec<u8>,
    frames: Vec<F>,
    next: usize,
}
fn response(id: u32, most: usize) -> Resp {
    let code = conc(choose(2, "code")) as u8;
    let body = sym_bytes(2, "res");
    let n = conc(choose(most, "frames")) + 1;
    let frames = message(id, false, &res_fields(code, "raw"), &split(&[b"e".to_vec(), vec![b'0' + n as u8], body.clone()], n));
    Resp { code, body, frames, next: 0 }
}
fn check_outcome(s: &Slot, r: &Resp) {
    match &*s.borrow() {
        None => check(false, "an answered call ends"),
        Some(Out::Ok(m)) => {
            check(r.code == 0, "an error response is not a success");
            check(vk::eq(m.body(), &r.body) && m.endpoint() == "e" && m.header().len() == 1, "a call gets its own response");
            cover("ok");
        }
        Some(Out::Message(m)) => {
            check(r.code == 1, "a successful response is not an error");
            check(vk::eq(m.body(), &r.body), "a call gets its own error response");
            cover("error response");
        }
        Some(Out::Err(_)) => check(false, "an answered call does not fail"),
    }
}

/// Responses to `param0` calls in any order and interleaving of up to `param1` frames each.
/// param2: delays, param3: preemptions, param4: buffer size, param5: 1 if the client may run between the frames
fn cl_route() {
    model::configure(param(2), param(3));
    let (_t, _l, mut n, slots, ids) = start(param(0), param(4));
    let mut rs: Vec<Resp> = ids.iter().map(|id| response(*id, param(1))).collect();
    loop {
        let open: Vec<usize> = (0..rs.len()).filter(|k| rs[*k].next < rs[*k].frames.len()).collect();
        if open.is_empty() {
            break;
        }
        let k = open[conc(choose(open.len(), "who"))];
        n.send(&rs[k].frames[rs[k].next]);
        rs[k].next += 1;
        if param(5) == 1 && conc(choose(2, "run")) == 1 {
            model::run_until_idle();
            for (s, r) in slots.iter().zip(&rs) {
                check(done(s) == (r.next == r.frames.len()), "a call ends when its own response is complete");
            }
        }
    }
    model::run_until_idle();
    for (s, r) in slots.iter().zip(&rs) {
        check_outcome(s, r);
        log("kind", kind(s));
    }
    check(n.frames().is_empty() && n.clean(), "nothing else is sent");
    log("polls", model::ex().polls as u64);
}

/// Stray frames (any id which is not in flight, any type) do not disturb a call.
/// param0: stray frames, param1: response frames
fn cl_stray() {
    model::configure(param(2), 0);
    let (t, _l, mut n, slots, ids) = start(1, 4);
    let mut r = response(ids[0], param(1));
    for _ in 0..param(0) {
        let id = sym_u32("stray");
        assume(id != ids[0]);
        let code = TYPE_CODES[conc(choose(11, "type"))];
        let n_bytes = conc(choose(2, "n")) * 3;
        n.send(&F::new(id, code, sym_bytes(n_bytes, "p")));
        if r.next < r.frames.len() && conc(choose(2, "part")) == 1 {
            n.send(&r.frames[r.next]);
            r.next += 1;
        }
    }
    while r.next < r.frames.len() {
        n.send(&r.frames[r.next]);
        r.next += 1;
    }
    model::run_until_idle();
    check_outcome(&slots[0], &r);
    // the connection goes on
    let b = sym_bytes(2, "again");
    let s = call(&t, "svc", "e", "h0", b.clone());
    model::run_until_idle();
    let again = requests(&mut n, &[b]);
    check(again[0] != ids[0], "an id is not reused right away");
    // a second response to the finished call comes first
    for f in r.frames.iter() {
        n.send(f);
    }
    let r2 = response(again[0], 1);
    n.send(&r2.frames[0]);
    model::run_until_idle();
    check_outcome(&s, &r2);
    cover("again");
}

/// The connection ends at any byte of the responses. param0: calls, param1: frames, param2: delays,
/// param3: 0 closed, 1 reset, 2 any of them, param4: 1 to call again afterwards
fn cl_loss() {
    model::configure(param(2), 0);
    let (t, l, mut n, slots, ids) = start(param(0), 4);
    let rs: Vec<Resp> = ids.iter().map(|id| response(*id, param(1))).collect();
    let mut bytes = vec![];
    let mut ends = vec![];
    let first = conc(choose(rs.len(), "first"));
    for k in 0..rs.len() {
        let k = (k + first) % rs.len();
        for f in rs[k].frames.iter() {
            bytes.extend(f.wire());
        }
        ends.push((k, bytes.len()));
    }
    let at = conc(choose(bytes.len() + 1, "at"));
    n.peer.send(&bytes[..at]);
    let reset = match param(3) {
        2 => conc(choose(2, "reset")) == 1,
        k => k == 1,
    };
    if conc(choose(2, "run")) == 1 {
        model::run_until_idle();
    }
    if reset {
        n.peer.reset();
    } else {
        n.peer.shutdown();
    }
    let ok = model::run_until(100 * SEC, || slots.iter().all(done));
    check(ok, "every call ends when its connection is lost");
    for (k, end) in ends.iter() {
        if *end <= at {
            check_outcome(&slots[*k], &rs[*k]);
            cover("complete");
        } else {
            check(kind(&slots[*k]) == 3, "a call without a complete response fails");
            cover("lost");
        }
        log("kind", kind(&slots[*k]));
    }
    if param(4) == 1 {
        // a call which finds the lost connection in the pool fails, but only once
        model::run_until_idle();
        let b = sym_bytes(2, "again");
        let mut s = call(&t, "svc", "e", "h0", b.clone());
        model::run_until_idle();
        if done(&s) {
            check(kind(&s) == 3, "a call over a lost connection fails");
            s = call(&t, "svc", "e", "h0", b.clone());
            model::run_until_idle();
        }
        let mut n2 = match accept(&l) {
            Some(n) => n,
            None => {
                check(false, "a new connection is opened for the next call");
                unreachable!()
            }
        };
        model::run_until_idle();
        let ids = requests(&mut n2, &[b]);
        let r = response(ids[0], 1);
        n2.send(&r.frames[0]);
        model::run_until_idle();
        check_outcome(&s, &r);
        cover("again");
    }
}

/// One of the calls gets an error frame (any code), the other ones their responses. param0: calls, param1: delays
fn cl_error() {
    model::configure(param(1), 0);
    let (_t, _l, mut n, slots, ids) = start(param(0), 4);
    let bad = conc(choose(slots.len(), "bad"));
    let code = [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 0xff][conc(choose(10, "code"))];
    let partial = conc(choose(2, "partial")) == 1;
    let e = Wr::default().num(code as u64, 1).raw(&[7; 24]).num(0, 1).text("no", 2).0;
    let first = conc(choose(slots.len(), "first"));
    for k in 0..slots.len() {
        let k = (k + first) % slots.len();
        if k == bad {
            if partial {
                n.send(&response(ids[k], 1).frames[0].clone().with_more());
                model::run_until_idle();
                check(!done(&slots[k]), "an incomplete response does not end a call");
            }
            n.send(&F::new(ids[k], 0xff, e.clone()));
            model::run_until_idle();
            check(kind(&slots[k]) == 3, "an error frame fails its call");
            cover("error");
        } else {
            let r = response(ids[k], 1);
            n.send(&r.frames[0]);
            model::run_until_idle();
            check_outcome(&slots[k], &r);
        }
    }
    check(n.frames().is_empty(), "nothing else is sent");
}
impl F {
    /// The same frame announcing more fragments.
    fn with_more(mut self) -> F {
        self.p[0] = 1;
        self
    }
}

/// A peer answers the handshake with any frame. param0: 0 any version, 1 any type, 2 any payload of param1 bytes, 3 closes,
/// 4 a response under another id, then the proper one
fn cl_handshake() {
    let l = Listener::bind(addr());
    let t = Rc::new(TChannel::new(config(1, 4, 1, false)).unwrap());
    let body = sym_bytes(2, "req");
    let s = call(&t, "svc", "e", "h0", body.clone());
    model::run_until_idle();
    let mut n = Net::new(l.accept().unwrap());
    let f = n.frames();
    check(f.len() == 1 && f[0].code == 1, "only the init request is sent before the handshake is over");
    let mut r = Rd::new(&f[0].p);
    check(r.num(2) == Some(2) && r.headers(2, 2).is_some() && r.left() == 0, "the init request asks for version 2");
    let mut good = false;
    match param(0) {
        0 => {
            let v = sym_u16("version");
            good = v == 2;
            let p = Wr::default().num(v as u64, 2).num(0, 2).0;
            n.send(&F::new(f[0].id, 2, p));
        }
        1 => {
            let c = TYPE_CODES[conc(choose(11, "type"))];
            good = c == 2;
            n.send(&F::new(f[0].id, c, init_payload(2)));
            if !good && conc(choose(2, "again")) == 1 {
                // too late
                n.send(&F::new(f[0].id, 2, init_payload(2)));
                cover("too late");
            }
        }
        2 => {
            let p = sym_bytes(param(1), "p");
            let mut r = Rd::new(&p);
            if let (Some(2), Some(_)) = (r.num(2), r.headers(2, 2)) {
                good = true;
            }
            n.send(&F::new(f[0].id, 2, p));
        }
        4 => {
            let id = sym_u32("id");
            assume(id != f[0].id);
            n.send(&F::new(id, 2, init_payload(2)));
            model::run_until_idle();
            check(n.frames().is_empty() && !done(&s), "the response to another message is no handshake");
            good = true;
            n.send(&F::new(f[0].id, 2, init_payload(2)));
        }
        _ => n.peer.shutdown(),
    }
    model::run_until_idle();
    let fs = n.frames();
    if good {
        check(fs.len() == 1 && fs[0].code == 3, "calls go on after the handshake");
        let r = response(fs[0].id, 1);
        n.send(&r.frames[0]);
        model::run_until_idle();
        check_outcome(&s, &r);
        cover("accepted");
        log("good", 1);
    } else {
        check(fs.is_empty(), "no call is sent over a connection which failed its handshake");
        check(kind(&s) != 1 && kind(&s) != 2, "no response");
        drop(l);
        drop(n);
        let ok = model::run_until(100 * SEC, || done(&s));
        check(ok && kind(&s) == 3, "the call fails in the end");
        cover("refused");
        log("good", 0);
    }
}

/// The response is any frame of param0 bytes (param1: 1 if it follows a proper first frame): the call ends, the next one works.
fn cl_wild() {
    let (t, _l, mut n, slots, ids) = start(1, 4);
    let p = sym_bytes(param(0), "p");
    let mut code = if param(1) == 1 { 0x14 } else { 4 };
    if param(1) == 1 {
        let r = message(ids[0], false, &res_fields(0, "raw"), &split(&[b"e".to_vec(), b"h".to_vec(), b"xy".to_vec()], 2));
        n.send(&r[0]);
    }
    if param(2) == 1 {
        code = TYPE_CODES[conc(choose(11, "type"))];
    }
    let more = param(1) == 1 && p.len() > 0 && p[0] & 1 == 1;
    n.send(&F::new(ids[0], code, p));
    model::run_until_idle();
    match kind(&slots[0]) {
        0 => {
            check(more, "the call ends with its last frame");
            cover("pending");
        }
        1 => cover("ok"),
        _ => cover("error"),
    }
    log("kind", kind(&slots[0]));
    let b = sym_bytes(2, "again");
    let s = call(&t, "svc", "e", "h0", b.clone());
    model::run_until_idle();
    let again = requests(&mut n, &[b]);
    let r2 = response(again[0], 1);
    n.send(&r2.frames[0]);
    model::run_until_idle();
    check_outcome(&s, &r2);
}

/// The connection is lost while other calls start: each of them ends (fails, or gets answered over a new connection).
/// param0: calls, param1: delays, param2: preemptions, param3: races
fn cl_race() {
    let (t, l, mut n, slots, ids) = start(1, 2);
    let r = response(ids[0], 1);
    n.send(&r.frames[0]);
    model::run_until_idle();
    check_outcome(&slots[0], &r);
    let reset = conc(choose(2, "reset")) == 1;
    let lose = |n: &Net| if reset { n.peer.reset() } else { n.peer.shutdown() };
    model::configure(param(1), param(2));
    model::configure_races(param(3));
    let first = conc(choose(2, "first")) == 1;
    if first {
        lose(&n);
    }
    let mut bodies = vec![];
    let mut calls = vec![];
    for k in 0..param(0) {
        let b = sym_bytes(1, "b");
        calls.push(call(&t, "svc", "e", ["h0", "h1", "h2"][k], b.clone()));
        bodies.push(b);
    }
    if !first {
        lose(&n);
    }
    let mut fresh: Option<Net> = None;
    let mut asked = 0;
    for _ in 0..6 {
        model::run_until(40 * SEC, || calls.iter().all(done));
        if calls.iter().all(done) {
            break;
        }
        if fresh.is_none() {
            fresh = accept(&l);
            model::run_until_idle();
        }
        if let Some(m) = fresh.as_mut() {
            for f in m.frames() {
                match read_request(std::slice::from_ref(&f)) {
                    Some(q) => {
                        asked += 1;
                        m.send(&message(f.id, false, &res_fields(0, "raw"), &split(&[b"e".to_vec(), b"0".to_vec(), q.args[2].clone()], 1))[0]);
                    }
                    None => check(false, "a well formed request"),
                }
            }
        }
    }
    let mut fine = 0;
    for (s, b) in calls.iter().zip(&bodies) {
        check(done(s), "a call which meets a lost connection ends");
        match &*s.borrow() {
            Some(Out::Ok(m)) => {
                check(vk::eq(m.body(), b), "its own response");
                fine += 1;
            }
            _ => {}
        }
        cover(if kind(s) == 1 { "answered" } else { "failed" });
        log("kind", kind(s));
    }
    check(fine == asked, "what got answered over the new connection succeeds, the rest fails");
}

/// The connection ends while requests are being sent. param0: calls, param1: bytes which the connection holds,
/// param2: buffer, param3: size of a body, param4: delays
fn cl_send_loss() {
    let l = Listener::bind(addr());
    let t = Rc::new(TChannel::new(config(1, param(2), 1, false)).unwrap());
    let b = sym_bytes(1, "first");
    let first = call(&t, "svc", "e", "h0", b.clone());
    model::run_until_idle();
    let mut n = accept(&l).unwrap();
    model::run_until_idle();
    let ids = requests(&mut n, &[b]);
    let r = response(ids[0], 1);
    n.send(&r.frames[0]);
    model::run_until_idle();
    check_outcome(&first, &r);
    n.peer.capacity(param(1));
    model::configure(param(4), 0);
    let mut calls = vec![];
    for k in 0..param(0) {
        let mut b = vec![k as u8; param(3)];
        b[0] = sym_u8("body");
        calls.push(call(&t, "svc", "e", "h", b));
    }
    // the peer takes some of it
    for _ in 0..conc(choose(3, "reads")) {
        model::run_until_idle();
        n.peer.recv(n.peer.available());
    }
    if conc(choose(2, "run")) == 1 {
        model::run_until_idle();
    }
    match conc(choose(3, "how")) {
        0 => n.peer.shutdown(),
        1 => n.peer.reset(),
        _ => drop(std::mem::replace(&mut n.peer, tokio::model::raw::Peer::pair().1)),
    }
    let ok = model::run_until(100 * SEC, || calls.iter().all(done) || l.pending());
    check(ok, "every call ends when its connection is lost while it is sent");
    // calls which had not got a connection yet make a new one
    let mut m = None;
    while !calls.iter().all(done) {
        if m.is_none() {
            m = accept(&l);
            check(m.is_some(), "a call ends, or is sent over a new connection");
        }
        let m = m.as_mut().unwrap();
        model::run_until_idle();
        let mut any = false;
        let mut rest: Vec<F> = vec![];
        for f in m.frames() {
            any = true;
            if f.p[0] & 1 == 1 {
                continue;
            }
            rest.push(f);
        }
        for f in rest {
            m.send(&message(f.id, false, &res_fields(0, "raw"), &split(&[b"e".to_vec(), b"0".to_vec(), b"again".to_vec()], 1))[0]);
        }
        model::run_until_idle();
        check(any || calls.iter().all(done), "every call ends when its connection is lost while it is sent");
        cover("again");
    }
    for s in calls.iter() {
        match &*s.borrow() {
            Some(Out::Ok(m)) => check(m.body() == &b"again"[..], "no response but its own"),
            Some(Out::Message(_)) => check(false, "no error response"),
            _ => cover("lost"),
        }
        log("kind", kind(s));
    }
}

/// One of param0 calls is given up by its caller at any moment: the other ones get their responses, and so does a later one.
/// param1: frames of a response, param2: buffer, param3: bytes which the connection holds (0: any number), param4: size of the given up body, param5: delays
fn cl_cancel() {
    let l = Listener::bind(addr());
    let t = Rc::new(TChannel::new(config(1, param(2), 1, false)).unwrap());
    let b = sym_bytes(1, "first");
    let first = call(&t, "svc", "e", "h0", b.clone());
    model::run_until_idle();
    let mut n = accept(&l).unwrap();
    model::run_until_idle();
    let ids = requests(&mut n, &[b]);
    let r = response(ids[0], 1);
    n.send(&r.frames[0]);
    model::run_until_idle();
    check_outcome(&first, &r);
    if param(3) > 0 {
        n.peer.capacity(param(3));
    }
    model::configure(param(5), 0);
    let calls = param(0);
    let gone = conc(choose(calls, "gone"));
    let mut slots = vec![];
    let mut bodies = vec![];
    let mut handle = None;
    for k in 0..calls {
        let mut b = sym_bytes(1, "b");
        if k == gone {
            b.resize(param(4), 7);
        }
        bodies.push(b.clone());
        let header = ["h0", "h1", "h2", "h3"][k];
        if k == gone {
            let tc = t.clone();
            let (f, h) = futures::future::abortable(async move {
                let sub = tc.subchannel("svc").await.unwrap();
                let m = RawMessage::new("e".into(), header.into(), Bytes::from(b));
                let _: HandlerResult<RawMessage> = MessageChannel::send(&*sub, m, ADDR).await;
            });
            handle = Some(h);
            slots.push(None);
            model::spawn_local(async move {
                let _ = f.await;
            });
        } else {
            slots.push(Some(call(&t, "svc", "e", header, b)));
        }
    }
    let handle = handle.unwrap();
    // (1) while it is sent or right after it, (2) while its response arrives, (3) never asked
    let when = conc(choose(2, "when"));
    if when == 0 {
        for _ in 0..conc(choose(8, "steps")) {
            model::step();
        }
        handle.abort();
        cover("early");
    }
    let mut fs: Vec<F> = vec![];
    for _ in 0..if param(3) > 0 { 200 + 2 * param(4) / param(3) } else { 2 } {
        model::run_until_idle();
        let got = n.frames();
        if got.is_empty() && param(3) == 0 {
            break;
        }
        fs.extend(got);
    }
    let mut rs: Vec<Option<Resp>> = vec![];
    for k in 0..calls {
        // (the header tells the call of a request)
        let mine: Vec<&F> = fs.iter().filter(|f| f.code == 3 && read_header(f) == Some(b'0' + k as u8)).collect();
        check(mine.len() <= 1 && (mine.len() == 1 || k == gone), "every call sends its request, once");
        rs.push(mine.first().map(|f| response(f.id, param(1))));
    }
    let ids: Vec<u32> = rs.iter().flatten().map(|r| be32(&r.frames[0].wire(), 4)).collect();
    for i in 0..ids.len() {
        for j in 0..i {
            check(ids[i] != ids[j], "ids of messages in flight differ");
        }
    }
    let mut stopped = when == 0;
    loop {
        let open: Vec<usize> = (0..calls).filter(|k| rs[*k].as_ref().map_or(false, |r| r.next < r.frames.len())).collect();
        if open.is_empty() {
            break;
        }
        if !stopped && conc(choose(2, "stop")) == 1 {
            stopped = true;
            if conc(choose(2, "run")) == 1 {
                model::run_until_idle();
            }
            handle.abort();
            cover("late");
        }
        let k = open[conc(choose(open.len(), "who"))];
        let r = rs[k].as_mut().unwrap();
        n.send(&r.frames[r.next]);
        r.next += 1;
    }
    model::run_until_idle();
    for k in 0..calls {
        if k != gone {
            check_outcome(slots[k].as_ref().unwrap(), rs[k].as_ref().unwrap());
        }
    }
    let left = n.frames();
    check(left.iter().all(|f| f.code == 0x13 || f.code == 0xc0), "nothing else is sent");
    let b = sym_bytes(1, "again");
    let s = call(&t, "svc", "e", "h0", b.clone());
    let mut fs = vec![];
    for _ in 0..if param(3) > 0 { 100 } else { 1 } {
        model::run_until_idle();
        fs.extend(n.frames());
    }
    check(fs.len() == 1 && fs[0].code == 3 && !ids.contains(&fs[0].id), "a later call sends its request");
    let r = response(fs[0].id, 1);
    n.send(&r.frames[0]);
    model::run_until_idle();
    check_outcome(&s, &r);
    check(l.accept().is_none(), "the connection is still the one in use");
    cover("again");
}
/// Second character of the header (arg2) of a request whose first frame has it.
fn read_header(f: &F) -> Option<u8> {
    let mut r = Rd::new(&f.p);
    r.take(1 + 4 + 25)?;
    r.text(1)?;
    r.headers(1, 1)?;
    r.take(1)?;
    let n = r.num(2)? as usize;
    r.take(n)?;
    let n = r.num(2)? as usize;
    r.take(n)?.get(1).copied()
}

/// A call with a service, endpoint, header of as many bytes, in characters of several ones; then its response, or an error frame with such a text.
/// param0: least length in bytes, param1: lengths, param2: bytes per character
fn cl_texts() {
    let len = param(0) + conc(choose(param(1), "len"));
    let how = conc(choose(3, "outcome"));
    let t = text(len, param(2));
    let service: &'static str = if len <= 255 { Box::leak(t.clone().into_boxed_str()) } else { "long" };
    let l = Listener::bind(addr());
    let c = Rc::new(TChannel::new(config(1, 4, 1, false)).unwrap());
    let body = sym_bytes(2, "req");
    let s = call(&c, service, &t, &t, body.clone());
    model::run_until_idle();
    let mut n = accept(&l).unwrap();
    model::run_until_idle();
    let fs = n.frames();
    let id = fs[0].id;
    check(fs.iter().all(|f| f.id == id), "one request");
    match read_request(&fs) {
        Some(r) => check(r.service == service && r.args.len() == 3 && r.args[0] == t.as_bytes() && r.args[1] == t.as_bytes() && vk::eq(&r.args[2], &body), "a request of the call"),
        None => check(false, "a well formed request"),
    }
    if how == 2 {
        n.send(&F::new(id, 0xff, Wr::default().num(conc(choose(3, "code")) as u64 + 3, 1).raw(&[7; 25]).text(&t, 2).0));
        model::run_until_idle();
        check(kind(&s) == 3, "an error frame fails its call");
        cover("error");
    } else {
        let b = sym_bytes(2, "res");
        let cut = t.len().min(20_000);
        let args = [vec![t.as_bytes()[..cut].to_vec()], vec![t.as_bytes()[cut..].to_vec(), t.as_bytes().to_vec(), b.clone()]];
        for f in message(id, false, &res_fields(how as u8, "raw"), &args) {
            n.send(&f);
        }
        model::run_until_idle();
        match &*s.borrow() {
            Some(Out::Ok(m)) if how == 0 => {
                check(*m.endpoint() == t && *m.header() == t && vk::eq(m.body(), &b), "a call gets its own response");
                cover("ok");
            }
            Some(Out::Message(m)) if how == 1 => {
                check(*m.endpoint() == t && *m.header() == t && vk::eq(m.body(), &b), "a call gets its own error response");
                cover("error response");
            }
            _ => check(false, "an answered call ends with its response"),
        }
    }
}

/// Many calls at once over one connection, answered in some order.
/// param0: calls at least, param1: numbers of calls, param2: buffer (0: as many as calls), param3: length of a body, param4: delays
fn cl_many() {
    let n = param(0) + conc(choose(param(1), "n"));
    let l = Listener::bind(addr());
    let buffer = if param(2) == 0 { n } else { param(2) };
    let t = Rc::new(TChannel::new(config(1, buffer, 1, false)).unwrap());
    // (the connection exists)
    let mut c = wear_calls(&t, &l, 1);
    model::configure(param(4), 0);
    let x = sym_u8("x");
    let body = |k: usize| {
        let mut b = vec![k as u8, (k >> 8) as u8, if k == n - 1 { x } else { 7 }];
        b.resize(3 + param(3), 0x33);
        b
    };
    let slots: Vec<Slot> = (0..n).map(|k| call(&t, ["svc", "other"][k % 2], "e", "h", body(k))).collect();
    model::run_until_idle();
    check(l.accept().is_none(), "no more connections than configured");
    let fs = c.frames();
    let mut ids: Vec<u32> = vec![];
    for f in fs.iter() {
        if !ids.contains(&f.id) {
            ids.push(f.id);
        }
    }
    check(ids.len() == n, "every call sends its request under an id of its own");
    let mut who: Vec<usize> = vec![];
    for id in ids.iter() {
        let mine: Vec<F> = fs.iter().filter(|f| f.id == *id).cloned().collect();
        match read_request(&mine) {
            Some(r) => {
                let k = r.args[2][0] as usize | (r.args[2][1] as usize) << 8;
                check(k < n && !who.contains(&k) && vk::eq(&r.args[2], &body(k)), "body of a request");
                who.push(k);
            }
            None => check(false, "a well formed request"),
        }
    }
    check(slots.iter().all(|s| !done(s)), "a call waits for its response");
    let order = conc(choose(3, "order"));
    let y = sym_u8("y");
    let mut rs: Vec<(usize, Vec<F>)> = vec![];
    for i in 0..n {
        let k = who[i];
        let b = vec![k as u8, (k >> 8) as u8, if i == 0 { y } else { 9 }, 4];
        rs.push((k, message(ids[i], false, &res_fields((k % 2) as u8, "raw"), &split(&[b"e".to_vec(), b"h".to_vec(), b], 1 + k % 4))));
    }
    if order == 1 {
        rs.reverse();
    }
    if order < 2 {
        for (k, fs) in rs.iter() {
            for f in fs {
                c.send(f);
            }
            if k % 7 == 0 {
                model::run_until_idle();
                check(done(&slots[*k]), "a call ends when its own response is complete");
            }
        }
    } else {
        for round in 0..4 {
            for (_, fs) in rs.iter() {
                if let Some(f) = fs.get(round) {
                    c.send(f);
                }
            }
        }
    }
    model::run_until_idle();
    for (i, k) in who.iter().enumerate() {
        let (code, m) = match &*slots[*k].borrow() {
            Some(Out::Ok(m)) => (0, m.body().to_vec()),
            Some(Out::Message(m)) => (1, m.body().to_vec()),
            _ => {
                check(false, "an answered call ends with its response");
                unreachable!()
            }
        };
        check(code == k % 2 && vk::eq(&m, &[*k as u8, (*k >> 8) as u8, if i == 0 { y } else { 9 }, 4]), "a call gets its own response");
    }
    check(c.frames().is_empty() && c.clean(), "nothing else is sent");
    cover("all");
    log("n", n as u64);
}

/// Calls whose responses take their time (less than the ttl of the request). param0: calls, param1: frames, param2: seconds at least, param3: numbers of seconds
fn cl_slow() {
    let (_t, l, mut n, slots, ids) = start(param(0), 4);
    let mut rs: Vec<Resp> = ids.iter().map(|id| response(*id, param(1))).collect();
    let s = (param(2) + conc(choose(param(3).max(1), "s"))) as u64;
    let which = conc(choose(2, "each"));
    let mut left = s;
    for (k, r) in rs.iter_mut().enumerate() {
        for i in 0..r.frames.len() {
            let d = if which == 0 { (if k + i == 0 { s } else { 0 }) } else { left / 2 };
            left -= d.min(left);
            model::pass(d * 1_000_000_000);
            check(!done(&slots[k]), "a call waits for its response");
            n.send(&r.frames[i]);
            r.next += 1;
        }
        model::run_until_idle();
        check(done(&slots[k]), "a call ends when its own response is complete");
    }
    for (s, r) in slots.iter().zip(&rs) {
        check_outcome(s, r);
    }
    check(n.frames().is_empty() && n.clean() && l.accept().is_none(), "nothing else is sent");
}

//! The library seen from the other end of its connections, through public items only: C01..C04, C06..C09.
#[path = "/verif/harness/common.rs"]
pub mod common;
#[path = "/verif/harness/net.rs"]
pub mod net;
use crate::errors::HandlerError;
use crate::handler::{HandlerResult, RequestHandler, RequestHandlerAsync};
use crate::messages::{MessageChannel, RawMessage};
use crate::{SubChannel, TChannel};
use common::*;
use net::*;
use std::cell::RefCell;
use std::rc::Rc;
use tokio::model::{self, raw::Listener, raw::Peer};

crate::entries!(wire_cut, wire_back, wire_send, wire_answer, wire_fields, wire_accept, wire_accept_back, wire_split, wire_split_back, wire_aborted, wire_dup, wire_dup_back, wire_outcome, wire_outcome_back);

#[derive(Debug)]
struct Echo;
impl RequestHandler for Echo {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> HandlerResult<RawMessage> {
        Ok(RawMessage::new(r.endpoint().clone(), r.header().clone(), r.body().clone()))
    }
}
#[derive(Debug)]
struct Refuse;
impl RequestHandler for Refuse {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> HandlerResult<RawMessage> {
        Err(HandlerError::MessageError(RawMessage::new(r.endpoint().clone(), r.header().clone(), r.body().clone())))
    }
}
/// Answers with args of the lengths given by the header ("a,b,c").
#[derive(Debug)]
struct Sized;
impl RequestHandler for Sized {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> HandlerResult<RawMessage> {
        let mut n: Vec<usize> = r.header().split(',').map(|x| x.parse().unwrap_or(0)).collect();
        n.resize(3, 0);
        if r.body().len() < 2 {
            return Err(HandlerError::GeneralError("marks are missing".into()));
        }
        Ok(RawMessage::new(text(n[0], b'a'), text(n[1], b'b'), Bytes::from(filled(n[2], b'c', r.body()))))
    }
}

/// `n` bytes, with longer characters at both ends.
fn text(n: usize, c: u8) -> String {
    if n < 8 {
        return String::from_utf8(vec![c; n]).unwrap();
    }
    format!("\u{e9}\u{e9}{}\u{e9}", String::from_utf8(vec![c; n - 6]).unwrap())
}
/// `n` bytes: a mark at both ends and around the limit of a frame.
fn filled(n: usize, c: u8, marks: &[u8]) -> Vec<u8> {
    let mut b = vec![c; n];
    if n > 0 {
        b[0] = marks[0];
        b[n - 1] = marks[1];
    }
    for at in [65400, 65460, 65480, 65500, 65510] {
        if at + 1 < n {
            b[at] = marks[1];
        }
    }
    b
}

fn server() -> Rc<TChannel> {
    let t = Rc::new(TChannel::new(config(1, 4, 2, false)).unwrap());
    let c = t.clone();
    let up = Rc::new(RefCell::new(false));
    let u = up.clone();
    model::spawn_local(async move {
        let s = c.subchannel("svc").await.unwrap();
        s.register("e", Echo).await.unwrap();
        s.register("m", Refuse).await.unwrap();
        s.register("s", Sized).await.unwrap();
        c.start_server().unwrap();
        *u.borrow_mut() = true;
    });
    model::run_until_idle();
    check(*up.borrow(), "a server starts");
    t
}

/// Frames in the received bytes; every byte of every header is checked.
fn parse(b: &[u8]) -> Vec<F> {
    let mut v = vec![];
    let mut at = 0;
    while at < b.len() {
        check(b.len() - at >= 16, "whole frames are written");
        let n = be16(b, at) as usize;
        check(n >= 16 && b.len() - at >= n, "the length of a frame counts its header and payload");
        check(is_type_code(b[at + 2]), "a known type");
        check(b[at + 3] == 0 && b[at + 8..at + 16].iter().all(|x| *x == 0), "reserved bytes are zero");
        v.push(F::new(be32(b, at + 4), b[at + 2], b[at + 16..at + n].to_vec()));
        at += n;
    }
    v
}
fn take(p: &Peer) -> Vec<F> {
    let b = p.recv(p.available());
    parse(&b)
}

/// Sends `b` in `cuts` + 1 pieces, which end anywhere, and lets everything run in between.
fn pieces(p: &Peer, b: &[u8], cuts: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut at = 0;
    for _ in 0..cuts {
        let n = conc(choose(b.len() - at + 1, "cut"));
        p.send(&b[at..at + n]);
        at += n;
        model::run_until_idle();
        out.extend(p.recv(p.available()));
    }
    p.send(&b[at..]);
    loop {
        model::run_until_idle();
        if p.available() == 0 {
            return out;
        }
        out.extend(p.recv(p.available()));
    }
}

fn one_response(fs: &[F], id: u32, code: u8, args: &[Vec<u8>]) {
    let mine: Vec<F> = fs.iter().filter(|f| f.id == id && f.code != 0xd1 && f.code != 2).cloned().collect();
    match read_response(&mine) {
        Some((c, scheme, a)) => {
            check(c == code && scheme == "raw", "code and scheme of the response");
            check(a.len() == args.len(), "number of args of the response");
            for (x, y) in a.iter().zip(args) {
                check(x.len() == y.len() && vk::eq(x, y), "args of the response");
            }
        }
        None => check(false, "a request gets a well formed response"),
    }
}

/// A stream of frames to the server in param0 + 1 pieces; param1: frames of the request; param2: bytes a connection holds.
fn wire_cut() {
    if param(2) > 0 {
        model::raw::default_capacity(param(2));
    }
    let _t = server();
    let p = Peer::connect(addr()).unwrap();
    let (i, a, r, z) = (sym_u32("init"), sym_u32("ping"), sym_u32("request"), sym_u32("ping"));
    let args = [b"e".to_vec(), b"h".to_vec(), sym_bytes(3, "body")];
    let mut b = F::new(i, 1, init_payload(2)).wire();
    b.extend(F::new(a, 0xd0, vec![]).wire());
    for f in message(r, true, &req_fields("svc", "raw"), &split(&args, param(1))) {
        b.extend(f.wire());
    }
    b.extend(F::new(z, 0xd0, vec![]).wire());
    let fs = if param(2) == 0 { parse(&pieces(&p, &b, param(0))) } else { small(&p, &b, param(0)) };
    check(fs.len() == 4, "one answer for each frame");
    check(fs[0].code == 2 && fs[0].id == i, "the handshake is answered first");
    let pongs: Vec<&F> = fs.iter().filter(|f| f.code == 0xd1).collect();
    check(pongs.len() == 2 && pongs.iter().all(|f| f.p.is_empty()), "both pings are answered");
    check(pongs[0].id == a && pongs[1].id == z, "the ids of the pings, in order");
    one_response(&fs, r, 0, &args);
    cover("answered");
    log("frames", fs.len() as u64);
}
/// The same over a connection which holds few bytes.
fn small(p: &Peer, b: &[u8], cuts: usize) -> Vec<F> {
    let c = param(2);
    let mut out = vec![];
    let mut at: Vec<usize> = vec![];
    for _ in 0..cuts {
        at.push(conc(choose(c, "cut")) + 1);
    }
    let mut k = 0;
    let mut i = 0;
    while k < b.len() {
        let n = if i < at.len() { at[i] } else { c }.min(b.len() - k);
        i += 1;
        p.send(&b[k..k + n]);
        k += n;
        loop {
            model::run_until_idle();
            if p.available() == 0 {
                break;
            }
            out.extend(p.recv(p.available()));
        }
    }
    parse(&out)
}

/// Starts a call and returns the connection after the handshake, and the frames of the request.
fn client(service: &str, m: RawMessage) -> (Listener, Peer, Slot, Vec<F>) {
    let l = Listener::bind(addr());
    let t = Rc::new(TChannel::new(config(1, 4, 1, false)).unwrap());
    let s: Slot = Rc::default();
    let (o, name) = (s.clone(), service.to_string());
    model::spawn_local(async move {
        let sub = t.subchannel(&name).await.unwrap();
        let r: HandlerResult<RawMessage> = MessageChannel::send(&*sub, m, ADDR).await;
        *o.borrow_mut() = Some(out_of(r));
        // the channel lives on
        std::mem::forget(t.clone());
    });
    model::run_until_idle();
    let p = match l.accept() {
        Some(p) => p,
        None => {
            check(false, "a client connects");
            unreachable!()
        }
    };
    model::run_until_idle();
    let f = take(&p);
    check(f.len() == 1 && f[0].code == 1, "a client sends an init request and waits");
    p.send(&F::new(f[0].id, 2, init_payload(2)).wire());
    let mut out = vec![];
    loop {
        model::run_until_idle();
        if p.available() == 0 {
            break;
        }
        out.extend(p.recv(p.available()));
    }
    let fs = parse(&out);
    check(!fs.is_empty(), "a client sends its request");
    (l, p, s, fs)
}
fn outcome(s: &Slot, code: u8, e: &[u8], h: &[u8], b: &[u8]) {
    match &*s.borrow() {
        Some(Out::Ok(m)) => {
            check(code == 0, "an error response is not a success");
            check(vk::eq(m.endpoint().as_bytes(), e) && vk::eq(m.header().as_bytes(), h) && m.body().len() == b.len() && vk::eq(m.body(), b), "the response of the call");
        }
        Some(Out::Message(m)) => {
            check(code == 1, "a successful response is not an error");
            check(vk::eq(m.endpoint().as_bytes(), e) && vk::eq(m.header().as_bytes(), h) && m.body().len() == b.len() && vk::eq(m.body(), b), "the error response of the call");
        }
        Some(Out::Err(_)) => check(false, "an answered call does not fail"),
        None => check(false, "an answered call ends"),
    }
    log("kind", kind(s));
}

/// Responses to a client in param0 + 1 pieces. param1: frames of the response
fn wire_back() {
    let body = sym_bytes(2, "body");
    let (_l, p, s, fs) = client("svc", RawMessage::new("e".into(), "h".into(), Bytes::from(body)));
    let code = conc(choose(2, "code")) as u8;
    let args = [b"e".to_vec(), b"x".to_vec(), sym_bytes(3, "res")];
    let mut b = vec![];
    for f in message(fs[0].id, false, &res_fields(code, "raw"), &split(&args, param(1))) {
        b.extend(f.wire());
    }
    let out = pieces(&p, &b, param(0));
    check(out.is_empty(), "nothing else is sent");
    outcome(&s, code, &args[0], &args[1], &args[2]);
    cover("answered");
}

/// The frames of a message respect the protocol.
fn legal(fs: &[F]) {
    for (k, f) in fs.iter().enumerate() {
        check(f.p.len() + 16 <= 65535, "a frame fits");
        check(f.id == fs[0].id, "the frames of a message have one id");
        check(f.p.len() > 2 || k + 1 == fs.len(), "no frame without progress");
    }
}
fn window(k: usize) -> usize {
    let (from, n) = (param(2 * k), param(2 * k + 1));
    from + if n > 1 { conc(choose(n, "len")) } else { 0 }
}

/// Requests with endpoint, header and body of param0.., param2.., param4.. bytes (param1, 3, 5 lengths each), service of param6 bytes.
fn wire_send() {
    let (e, h, n) = (window(0), window(1), window(2));
    let marks = sym_bytes(2, "mark");
    let b = filled(n, b'c', &marks);
    let name = text(param(6), b's');
    let (_l, p, s, fs) = client(&name, RawMessage::new(text(e, b'a'), text(h, b'b'), Bytes::from(b.clone())));
    legal(&fs);
    log("frames", fs.len() as u64);
    match read_request(&fs) {
        Some(r) => {
            check(r.service == name && r.scheme == "raw" && r.args.len() == 3, "service, scheme and args of the request");
            check(r.args[0] == text(e, b'a').as_bytes() && r.args[1] == text(h, b'b').as_bytes(), "endpoint and header of the request");
            check(r.args[2].len() == n && vk::eq(&r.args[2], &b), "body of the request");
        }
        None => check(false, "a well formed request"),
    }
    cover(if fs.len() > 1 { "many" } else { "one" });
    for f in message(fs[0].id, false, &res_fields(0, "raw"), &[vec![b"e".to_vec(), b"".to_vec(), marks.clone()]]) {
        p.send(&f.wire());
    }
    model::run_until_idle();
    outcome(&s, 0, b"e", b"", &marks);
}

/// Responses with args of param0.., param2.., param4.. bytes.
fn wire_answer() {
    let (e, h, n) = (window(0), window(1), window(2));
    let marks = sym_bytes(2, "mark");
    let _t = server();
    let mut c = connect(1);
    let id = sym_u32("id");
    for f in message(id, true, &req_fields("svc", "raw"), &[vec![b"s".to_vec(), format!("{},{},{}", e, h, n).into_bytes(), marks.clone()]]) {
        c.send(&f);
    }
    let mut out = vec![];
    loop {
        model::run_until_idle();
        if c.peer.available() == 0 {
            break;
        }
        out.extend(c.peer.recv(c.peer.available()));
    }
    let fs = parse(&out);
    check(!fs.is_empty() && fs.iter().all(|f| f.id == id), "a request gets an answer");
    legal(&fs);
    log("frames", fs.len() as u64);
    one_response(&fs, id, 0, &[text(e, b'a').into_bytes(), text(h, b'b').into_bytes(), filled(n, b'c', &marks)]);
    cover(if fs.len() > 1 { "many" } else { "one" });
    c.send(&F::new(id, 0xd0, vec![]));
    model::run_until_idle();
    let f = c.frames();
    check(f.len() == 1 && f[0].code == 0xd1, "the connection lives on");
}

/// All fields of requests and responses. param0: bytes of the service, param1: of endpoint, header and body
fn wire_fields() {
    let name = sym_str(param(0), "service");
    let (e, h, b) = (sym_str(param(1), "endpoint"), sym_str(param(1), "header"), sym_bytes(param(1), "body"));
    let (l, _p, _s, fs) = client(&name, RawMessage::new(e.clone(), h.clone(), Bytes::from(b.clone())));
    check(fs.len() == 1 && fs[0].code == 3, "a small request is one frame");
    let mut r = Rd::new(&fs[0].p);
    check(r.num(1) == Some(0), "flags");
    check(r.num(4).map(|t| t > 0) == Some(true), "a time to live");
    check(r.take(25).is_some(), "tracing");
    check(r.text(1).map(|t| vk::eq(t.as_bytes(), name.as_bytes())) == Some(true), "service");
    let hs = r.headers(1, 1);
    check(hs.is_some(), "headers");
    let hs = hs.unwrap();
    check(hs.iter().any(|x| x.0 == "as" && x.1 == "raw"), "the arg scheme is told");
    check(hs.iter().any(|x| x.0 == "cn" && x.1.len() > 0 || x.0 == "cn" && name.is_empty()), "the caller is told");
    check(r.num(1) == Some(0), "checksum type");
    for (a, what) in [(e.as_bytes(), "endpoint"), (h.as_bytes(), "header"), (&b[..], "body")] {
        check(r.num(2) == Some(a.len() as u64), what);
        check(r.take(a.len()).map(|x| vk::eq(x, a)) == Some(true), what);
    }
    check(r.left() == 0, "nothing follows");
    cover("request");
    // the response
    drop(l);
    let _t = server();
    let c = connect(1);
    let ok = conc(choose(2, "code")) as u8;
    let args = [if ok == 0 { b"e".to_vec() } else { b"m".to_vec() }, h.as_bytes().to_vec(), b.clone()];
    for f in message(2, true, &req_fields("svc", "raw"), &split(&args, 1)) {
        c.send(&f);
    }
    model::run_until_idle();
    let fs = take(&c.peer);
    check(fs.len() == 1 && fs[0].code == 4 && fs[0].id == 2, "a small response is one frame");
    let mut r = Rd::new(&fs[0].p);
    check(r.num(1) == Some(0), "flags");
    check(r.num(1) == Some(ok as u64), "code");
    check(r.take(25).is_some(), "tracing");
    let hs = r.headers(1, 1);
    check(hs.is_some() && hs.unwrap().iter().any(|x| x.0 == "as" && x.1 == "raw"), "the arg scheme is told");
    check(r.num(1) == Some(0), "checksum type");
    for a in args.iter() {
        check(r.num(2) == Some(a.len() as u64), "args of the response");
        check(r.take(a.len()).map(|x| vk::eq(x, a)) == Some(true), "args of the response");
    }
    check(r.left() == 0, "nothing follows");
    cover("response");
}
fn rd_args<'a>(r: &mut Rd<'a>) -> Option<Vec<&'a [u8]>> {
    if r.num(1)? != 0 || r.left() == 0 {
        return None;
    }
    let mut v = vec![];
    while r.left() > 0 && v.len() < 3 {
        let n = r.num(2)? as usize;
        v.push(r.take(n)?);
    }
    if r.left() > 0 {
        return None;
    }
    Some(v)
}
fn as_raw(h: &[(&str, &str)]) -> bool {
    h.iter().any(|x| x.0 == "as" && x.1 == "raw")
}
fn at<'a>(a: &[&'a [u8]], k: usize) -> &'a [u8] {
    a.get(k).copied().unwrap_or(&[])
}

/// A proper request to the server with param0 bytes at any place (from param1, param2 places) replaced by arbitrary ones.
fn wire_accept() {
    let _t = server();
    let mut c = connect(1);
    let id = sym_u32("id");
    let mut p = message(id, true, &req_fields("svc", "raw"), &[vec![b"e".to_vec(), b"hh".to_vec(), sym_bytes(2, "body")]])[0].p.clone();
    let i = param(1) + conc(choose(param(2).min(p.len() + 1 - param(0) - param(1)), "place"));
    for k in 0..param(0) {
        p[i + k] = sym_u8("any");
    }
    c.send(&F::new(id, 3, p.clone()));
    model::run_until_idle();
    let fs = c.frames();
    // what the protocol says about it
    let mut r = Rd::new(&p);
    let e = (|| {
        let flags = r.num(1)?;
        if flags > 3 {
            return None;
        }
        r.take(4 + 24)?;
        if r.num(1)? > 1 {
            return None;
        }
        let s = r.text(1)?;
        let h = r.headers(1, 1)?;
        let a = rd_args(&mut r)?;
        if s != "svc" || !as_raw(&h) {
            return None;
        }
        Some((flags & 1 == 1, a))
    })();
    match e {
        Some((true, _)) => {
            // the first of several frames; the service or handler may be refused now or later
            check(fs.is_empty(), "an incomplete request is not answered");
            cover("incomplete");
        }
        Some((false, a)) if (at(&a, 0) == b"e" || at(&a, 0) == b"m") && std::str::from_utf8(at(&a, 1)).is_ok() => {
            one_response(&fs, id, (at(&a, 0) == b"m") as u8, &[at(&a, 0).to_vec(), at(&a, 1).to_vec(), at(&a, 2).to_vec()]);
            cover("answered");
        }
        Some((false, a)) if at(&a, 0) == b"s" => {
            // this handler wants numbers
            vk::stop();
        }
        _ => {
            // a first frame which says that others follow may be refused when they come
            let late = fs.is_empty() && p[0] & 1 == 1;
            check(late || fs.len() == 1 && fs[0].id == id && read_error(&fs[0]).is_some(), "an unusable request gets an error");
            cover("refused");
        }
    }
    log("answers", fs.len() as u64);
    c.send(&F::new(id, 0xd0, vec![]));
    model::run_until_idle();
    let f = c.frames();
    check(f.len() == 1 && f[0].code == 0xd1 && f[0].id == id, "the connection lives on");
}

/// A proper response to a client with param0 bytes at any place replaced by arbitrary ones.
fn wire_accept_back() {
    let (_l, c, s, fs) = client("svc", RawMessage::new("e".into(), "h".into(), Bytes::from_static(b"b")));
    let id = fs[0].id;
    let mut p = message(id, false, &res_fields(0, "raw"), &[vec![b"e".to_vec(), b"hh".to_vec(), sym_bytes(2, "body")]])[0].p.clone();
    let i = param(1) + conc(choose(param(2).min(p.len() + 1 - param(0) - param(1)), "place"));
    for k in 0..param(0) {
        p[i + k] = sym_u8("any");
    }
    c.send(&F::new(id, 4, p.clone()).wire());
    model::run_until_idle();
    let mut r = Rd::new(&p);
    let e = (|| {
        let flags = r.num(1)?;
        if flags > 3 {
            return None;
        }
        let code = r.num(1)? as u8;
        if code > 1 {
            return None;
        }
        r.take(24)?;
        if r.num(1)? > 1 {
            return None;
        }
        let h = r.headers(1, 1)?;
        let a = rd_args(&mut r)?;
        if !as_raw(&h) {
            return None;
        }
        Some((flags & 1 == 1, code, a))
    })();
    match e {
        Some((true, _, _)) => {
            check(!done(&s), "a call with an incomplete response waits");
            cover("incomplete");
        }
        Some((false, code, a)) if std::str::from_utf8(at(&a, 0)).is_ok() && std::str::from_utf8(at(&a, 1)).is_ok() => {
            outcome(&s, code, at(&a, 0), at(&a, 1), at(&a, 2));
            cover("answered");
        }
        _ => {
            check(kind(&s) == 3 || !done(&s) && p[0] & 1 == 1, "an unusable response is an error");
            cover("refused");
        }
    }
}

/// Three args of up to param0 bytes, cut at param1 places anywhere: a message of param1 + 1 frames.
fn cut_message(args: &[Vec<u8>; 3], cuts: usize) -> Vec<Vec<Vec<u8>>> {
    let mut out = vec![];
    let mut now: Vec<Vec<u8>> = vec![];
    // place of the last cut: arg and offset
    let (mut k, mut o) = (0, 0);
    for _ in 0..cuts {
        let k2 = k + conc(choose(3 - k, "arg"));
        let from = if k2 == k { o } else { 0 };
        let o2 = from + conc(choose(args[k2].len() - from + 1, "offset"));
        while k < k2 {
            now.push(args[k][o..].to_vec());
            k += 1;
            o = 0;
        }
        now.push(args[k][o..o2].to_vec());
        o = o2;
        out.push(std::mem::take(&mut now));
    }
    while k < 3 {
        now.push(args[k][o..].to_vec());
        k += 1;
        o = 0;
    }
    out.push(now);
    out
}
/// What may be wrong with the frames of a message: nothing, frame `k` has the wrong type, a checksum, is cut, or says the wrong thing about those which follow.
fn spoil(fs: &mut Vec<F>, on: bool) -> usize {
    if !on {
        return 0;
    }
    let what = conc(choose(6, "spoilt"));
    let k = conc(choose(fs.len(), "frame"));
    let last = fs.len() - 1;
    match what {
        0 => return 0,
        // the type of a frame which can not continue a message
        1 => {
            if k == 0 {
                return 0;
            }
            fs[k].code = if conc(choose(2, "type")) == 0 { 0x02 } else { 0xc1 };
        }
        2 => {
            let c = checksum_at(&fs[k]);
            fs[k].p[c] = 1 + conc(choose(3, "checksum")) as u8;
        }
        3 => {
            // the last byte of a frame is lost, or all of them
            if conc(choose(2, "lost")) == 0 {
                fs[k].p.pop();
            } else {
                fs[k].p.clear();
            }
        }
        4 => {
            // an arg more than a message has
            fs[last].p.extend_from_slice(&[0, 0]);
            cover("too many args");
        }
        _ => {
            if k == last {
                fs[k].p[0] = 1;
                return 5;
            }
            fs.truncate(k + 1);
            return 5;
        }
    }
    what
}
fn checksum_at(f: &F) -> usize {
    let mut r = Rd::new(&f.p);
    r.num(1);
    match f.code {
        3 => {
            r.take(29);
            r.text(1);
            r.headers(1, 1);
        }
        4 => {
            r.take(26);
            r.headers(1, 1);
        }
        _ => {}
    }
    r.i
}
fn any_args(first: &[u8], lens: bool) -> [Vec<u8>; 3] {
    let n = |what: &str| if lens { conc(choose(param(0) + 1, what)) } else { param(0) };
    let (h, b) = (n("header"), n("body"));
    let h = sym_ascii(h, "h").into_bytes();
    [first.to_vec(), h, sym_bytes(b, "b")]
}

/// The flag for streaming says nothing about the frames which follow.
fn streaming(fs: &mut [F]) {
    for f in fs.iter_mut() {
        if !f.p.is_empty() {
            f.p[0] |= sym_u8("streaming") & 2;
        }
    }
}

/// A request with args of up to param0 bytes in param1 + 1 frames; param2: something may be wrong with it
fn wire_split() {
    let _t = server();
    let mut c = connect(1);
    let id = sym_u32("id");
    let args = any_args(b"e", true);
    let mut fs = message(id, true, &req_fields("svc", "raw"), &cut_message(&args, param(1)));
    let bad = spoil(&mut fs, param(2) == 1);
    streaming(&mut fs);
    for (k, f) in fs.iter().enumerate() {
        c.send(f);
        model::run_until_idle();
        let got = c.frames();
        if k + 1 < fs.len() {
            if bad == 0 {
                check(got.is_empty(), "an incomplete request is not answered");
            } else if !got.is_empty() {
                check(got.len() == 1 && got[0].id == id && read_error(&got[0]).is_some(), "a broken request is refused");
                cover("refused early");
                return;
            }
        } else {
            match bad {
                0 => {
                    one_response(&got, id, 0, &args);
                    cover("answered");
                }
                5 => {
                    check(got.is_empty(), "an incomplete request is not answered");
                    cover("waits");
                }
                _ => {
                    check(got.len() == 1 && got[0].id == id && read_error(&got[0]).is_some(), "a broken request is refused");
                    cover("refused");
                }
            }
        }
    }
}
/// The same with a response.
fn wire_split_back() {
    let (_l, c, s, fs) = client("svc", RawMessage::new("e".into(), "h".into(), Bytes::from_static(b"b")));
    let id = fs[0].id;
    let args = any_args(b"e", true);
    let code = conc(choose(2, "code")) as u8;
    let mut fs = message(id, false, &res_fields(code, "raw"), &cut_message(&args, param(1)));
    let bad = spoil(&mut fs, param(2) == 1);
    streaming(&mut fs);
    for (k, f) in fs.iter().enumerate() {
        check(!done(&s), "a call with an incomplete response waits");
        c.send(&f.wire());
        model::run_until_idle();
        if k + 1 == fs.len() && bad == 0 {
            outcome(&s, code, &args[0], &args[1], &args[2]);
            cover("answered");
        } else if bad != 0 && done(&s) {
            check(kind(&s) == 3, "a broken response is an error");
            check(bad != 5, "a call with an incomplete response waits");
            cover("refused");
            return;
        }
    }
    if bad == 5 {
        check(!done(&s), "a call with an incomplete response waits");
        // the end of the connection ends it
        c.shutdown();
        model::run_until(100 * SEC, || done(&s));
        check(kind(&s) == 3, "an incomplete response is an error");
        cover("waits");
    }
    check(done(&s), "a call ends");
}

/// Clients which go away before the server accepts them, or right after it; the others are served.
/// param0: events, param1: delays
fn wire_aborted() {
    let t = server();
    let mut p = Peer::connect(addr()).unwrap();
    let early = conc(choose(2, "early")) == 1;
    if early {
        hello(&p);
    }
    for k in 0..param(9) {
        match k % 4 {
            0 => model::raw::aborted(addr(), std::io::ErrorKind::ConnectionAborted),
            1 => model::raw::aborted(addr(), std::io::ErrorKind::ConnectionReset),
            2 => drop(Peer::connect(addr())),
            _ => model::run_until_idle(),
        }
    }
    model::configure(param(1), 0);
    for _ in 0..param(0) {
        match conc(choose(4, "event")) {
            0 => {
                let kinds = [std::io::ErrorKind::ConnectionAborted, std::io::ErrorKind::ConnectionReset];
                model::raw::aborted(addr(), kinds[conc(choose(2, "kind"))]);
                cover("aborted");
            }
            1 => drop(Peer::connect(addr())),
            2 => {
                if let Some(q) = Peer::connect(addr()) {
                    q.reset();
                }
            }
            _ => model::run_until_idle(),
        }
    }
    if !early {
        model::run_until_idle();
        p = match Peer::connect(addr()) {
            Some(p) => p,
            None => {
                check(false, "clients which went away do not stop a server");
                return;
            }
        };
        hello(&p);
    }
    let args = [b"e".to_vec(), b"h".to_vec(), sym_bytes(2, "body")];
    for f in message(7, true, &req_fields("svc", "raw"), &split(&args, 2)) {
        p.send(&f.wire());
    }
    model::run_until_idle();
    one_response(&take(&p), 7, 0, &args);
    check(t.start_server().is_err(), "the server still runs");
    let p2 = Peer::connect(addr());
    check(p2.is_some(), "the server accepts further clients");
    hello(&p2.unwrap());
    cover("served");
}
fn hello(p: &Peer) {
    p.send(&F::new(3, 1, init_payload(2)).wire());
    model::run_until_idle();
    let f = take(p);
    check(f.len() == 1 && f[0].code == 2 && f[0].id == 3, "a client is served whatever others do");
}

/// A frame of any type arrives under the id of a request whose frames are not all there yet.
/// param0: frames of the request, param1: of another one. Only the request with that id may suffer from it.
fn wire_dup() {
    let _t = server();
    let p = Peer::connect(addr()).unwrap();
    hello(&p);
    let (a, b) = (sym_u32("a"), sym_u32("b"));
    assume(a != b);
    let body = |x: u8| vec![x, sym_u8("body"), x];
    let args = [[b"e".to_vec(), b"h".to_vec(), body(1)], [b"e".to_vec(), b"x".to_vec(), body(2)], [b"e".to_vec(), b"d".to_vec(), body(3)]];
    let fields = req_fields("svc", "raw");
    let mut queue = vec![message(a, true, &fields, &split(&args[0], param(0))), message(b, true, &fields, &split(&args[1], param(1)))];
    let which = TYPE_CODES[conc(choose(TYPE_CODES.len(), "type"))];
    if which == 0x13 || which == 0x14 {
        vk::stop();
    }
    let dup = if which == 3 { message(a, true, &fields, &split(&args[2], 1)).remove(0) } else { F::new(a, which, sym_bytes(2, "payload")) };
    queue.push(vec![dup]);
    // the request has begun
    p.send(&queue[0].remove(0).wire());
    let mut got = vec![];
    while queue.iter().any(|q| !q.is_empty()) {
        let open: Vec<usize> = (0..3).filter(|k| !queue[*k].is_empty()).collect();
        let k = open[conc(choose(open.len(), "next"))];
        if k == 0 && queue[0].len() == 1 && !queue[2].is_empty() {
            // the duplicate arrives before the end of the request
            vk::stop();
        }
        p.send(&queue[k].remove(0).wire());
        if conc(choose(2, "run")) == 1 {
            model::run_until_idle();
            got.extend(take(&p));
        }
    }
    model::run_until_idle();
    got.extend(take(&p));
    one_response(&got, b, 0, &args[1]);
    let mut pongs = 0;
    for f in got.iter().filter(|f| f.id == a) {
        if f.code == 0xd1 {
            pongs += 1;
            continue;
        }
        if read_error(f).is_some() {
            cover("refused");
            continue;
        }
        match read_response(&[f.clone()]) {
            Some((0, _, x)) => {
                let same = |y: &[Vec<u8>; 3]| x.len() == 3 && x.iter().zip(y).all(|(x, y)| vk::eq(x, y));
                check(same(&args[0]) || (which == 3 && same(&args[2])), "no response to parts of two messages");
                cover("answered");
            }
            _ => check(false, "a request is answered or refused"),
        }
    }
    check(pongs == (which == 0xd0) as usize, "a ping is answered once");
    check(got.iter().all(|f| f.id == a || f.id == b), "no frames of other messages");
    if which == 0xd0 || which == 3 {
        check(got.iter().any(|f| f.id == a && f.code != 0xd1), "the request does not get lost");
    }
    if which == 0xd0 {
        let only: Vec<F> = got.iter().filter(|f| f.id == a).cloned().collect();
        one_response(&only, a, 0, &args[0]);
        cover("ping");
    }
    // both ids can be used again
    for id in [a, b] {
        let x = [b"e".to_vec(), b"z".to_vec(), sym_bytes(1, "body")];
        for f in message(id, true, &fields, &split(&x, 1)) {
            p.send(&f.wire());
        }
        model::run_until_idle();
        one_response(&take(&p), id, 0, &x);
    }
}

/// The same for responses: two calls over one connection, a frame of any type in the middle of the response to the first one.
fn wire_dup_back() {
    let l = Listener::bind(addr());
    let t = Rc::new(TChannel::new(config(1, 4, 1, false)).unwrap());
    let s = [call(&t, "svc", "e", "h", vec![1]), call(&t, "svc", "e", "h", vec![2])];
    model::run_until_idle();
    let p = match l.accept() {
        Some(p) => p,
        None => return check(false, "a client connects"),
    };
    model::run_until_idle();
    let f = take(&p);
    check(f.len() == 1 && f[0].code == 1, "a client sends an init request and waits");
    p.send(&F::new(f[0].id, 2, init_payload(2)).wire());
    model::run_until_idle();
    let fs = take(&p);
    check(fs.len() == 2, "both calls are sent");
    // ids of the calls by their bodies
    let of = |x: u8| fs.iter().find(|f| f.p.last() == Some(&x)).map(|f| f.id).unwrap();
    let (a, b) = (of(1), of(2));
    check(a != b, "ids of calls in flight differ");
    let args: Vec<[Vec<u8>; 3]> = (1..4).map(|k| [vec![b'a' + k], vec![b'A' + k], vec![k, sym_u8("body"), k]]).collect();
    let fields = res_fields(0, "raw");
    let mut queue = vec![message(a, false, &fields, &split(&args[0], param(0))), message(b, false, &fields, &split(&args[1], param(1)))];
    let which = TYPE_CODES[conc(choose(TYPE_CODES.len(), "type"))];
    if which == 0x13 || which == 0x14 {
        vk::stop();
    }
    let dup = if which == 4 { message(a, false, &fields, &split(&args[2], 1)).remove(0) } else { F::new(a, which, sym_bytes(2, "payload")) };
    queue.push(vec![dup]);
    p.send(&queue[0].remove(0).wire());
    while queue.iter().any(|q| !q.is_empty()) {
        let open: Vec<usize> = (0..3).filter(|k| !queue[*k].is_empty()).collect();
        let k = open[conc(choose(open.len(), "next"))];
        if k == 0 && queue[0].len() == 1 && !queue[2].is_empty() {
            vk::stop();
        }
        p.send(&queue[k].remove(0).wire());
        if conc(choose(2, "run")) == 1 {
            model::run_until_idle();
        }
    }
    model::run_until_idle();
    check(done(&s[0]) && done(&s[1]), "both calls end");
    outcome(&s[1], 0, &args[1][0], &args[1][1], &args[1][2]);
    match &*s[0].borrow() {
        Some(Out::Ok(m)) => {
            let same = |x: &[Vec<u8>; 3]| vk::eq(m.endpoint().as_bytes(), &x[0]) && vk::eq(m.header().as_bytes(), &x[1]) && vk::eq(m.body(), &x[2]);
            check(same(&args[0]) || (which == 4 && same(&args[2])), "no parts of two responses");
            cover("answered");
        }
        Some(Out::Err(_)) => cover("refused"),
        _ => check(false, "a call ends with its response or an error"),
    }
    // the connection is used on
    let s = call(&t, "svc", "e", "h", vec![3]);
    model::run_until_idle();
    let fs = take(&p);
    let fs: Vec<&F> = fs.iter().filter(|f| f.code == 3).collect();
    check(fs.len() == 1, "a later call is sent");
    for f in message(fs[0].id, false, &fields, &split(&args[2], 2)) {
        p.send(&f.wire());
    }
    model::run_until_idle();
    outcome(&s, 0, &args[2][0], &args[2][1], &args[2][2]);
}

/// Ends as its first header byte says, with args the lengths of which follow, filled with a byte of the body.
#[derive(Debug)]
struct Ends;
impl RequestHandler for Ends {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> HandlerResult<RawMessage> {
        let h = r.header().as_bytes();
        let n = |k: usize| (h[k] - b'0') as usize;
        if r.body().len() != 1 {
            return Err(HandlerError::GeneralError("no mark".into()));
        }
        let m = RawMessage::new(text(n(1), b'x'), text(n(2), b'y'), Bytes::from(vec![r.body()[0]; n(3)]));
        match h[0] {
            b'o' => Ok(m),
            b'm' => Err(HandlerError::MessageError(m)),
            _ => Err(HandlerError::GeneralError(text(n(1), b'w'))),
        }
    }
}
#[derive(Debug)]
struct EndsLater;
impl RequestHandlerAsync for EndsLater {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, r: RawMessage) -> std::pin::Pin<Box<dyn std::future::Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        Box::pin(async move {
            tokio::task::yield_now().await;
            Ends.handle(r)
        })
    }
}
/// Handlers which end in any way, with args of 0..param0 bytes; the request in param1 frames.
fn wire_outcome() {
    let t = server();
    let up = Rc::new(RefCell::new(false));
    let (u, c) = (up.clone(), t.clone());
    model::spawn_local(async move {
        let s = c.subchannel("svc").await.unwrap();
        s.register("now", Ends).await.unwrap();
        s.register_async("later", EndsLater).await.unwrap();
        *u.borrow_mut() = true;
    });
    model::run_until_idle();
    check(*up.borrow(), "handlers are registered");
    let p = Peer::connect(addr()).unwrap();
    hello(&p);
    let id = sym_u32("id");
    let which = conc(choose(2, "handler"));
    let end = [b'o', b'm', b'g'][conc(choose(3, "end"))];
    let n: Vec<usize> = (0..3).map(|_| conc(choose(param(0) + 1, "len"))).collect();
    let x = sym_u8("mark");
    let h = vec![end, b'0' + n[0] as u8, b'0' + n[1] as u8, b'0' + n[2] as u8];
    let name: &[u8] = if which == 0 { b"now" } else { b"later" };
    for f in message(id, true, &req_fields("svc", "raw"), &split(&[name.to_vec(), h, vec![x]], param(1))) {
        p.send(&f.wire());
    }
    model::run_until_idle();
    let fs = take(&p);
    check(fs.len() == 1 && fs[0].id == id, "one answer");
    match end {
        b'g' => match read_error(&fs[0]) {
            Some((_, m)) => {
                check(m.contains(&text(n[0], b'w')), "the error tells what the handler said");
                cover("error");
            }
            None => check(false, "a handler which fails is an error frame"),
        },
        _ => {
            one_response(&fs, id, (end == b'm') as u8, &[text(n[0], b'x').into_bytes(), text(n[1], b'y').into_bytes(), vec![x; n[2]]]);
            cover(if end == b'm' { "error response" } else { "ok" });
        }
    }
}
/// Responses of both kinds and error frames with args of 0..param0 bytes, in param1 frames.
fn wire_outcome_back() {
    let (_l, p, s, fs) = client("svc", RawMessage::new("e".into(), "h".into(), Bytes::from_static(b"b")));
    let id = fs[0].id;
    let n: Vec<usize> = (0..3).map(|_| conc(choose(param(0) + 1, "len"))).collect();
    let x = sym_u8("mark");
    let args = [text(n[0], b'x').into_bytes(), text(n[1], b'y').into_bytes(), vec![x; n[2]]];
    let code = conc(choose(3, "code")) as u8;
    if code == 2 {
        let mut e = vec![ERROR_CODES[conc(choose(ERROR_CODES.len(), "error code"))]];
        e.extend_from_slice(&[0; 25]);
        e.extend_from_slice(&[0, n[0] as u8]);
        e.extend_from_slice(&args[0]);
        p.send(&F::new(id, 0xff, e).wire());
        model::run_until_idle();
        check(kind(&s) == 3, "an error frame is an error");
        cover("error");
        return;
    }
    for f in message(id, false, &res_fields(code, "raw"), &split(&args, param(1))) {
        p.send(&f.wire());
    }
    model::run_until_idle();
    outcome(&s, code, &args[0], &args[1], &args[2]);
    cover(if code == 1 { "error response" } else { "ok" });
}

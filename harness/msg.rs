//! Messages as sequences of frames: C07, C08, C09 (fragmentation, reassembly).
#[path = "/verif/harness/common.rs"]
pub mod common;
use crate::connection::FrameInput;
use crate::defragmentation::{RequestDefragmenter, ResponseDefragmenter};
use crate::fragmentation::{RequestFragmenter, ResponseFragmenter};
use crate::frames::headers::ArgSchemeValue;
use crate::frames::{TFrame, TFrameId, TFrameIdCodec, TFrameStream, Type};
use crate::messages::args::{MessageArgs, ResponseCode};
use crate::messages::RawMessage;
use common::*;
use futures::StreamExt;
use num_traits::FromPrimitive;
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use tokio::model;
use tokio::sync::mpsc;
use tokio_util::codec::Encoder;

crate::entries!(defrag_request, defrag_response, defrag_first, frag_request, frag_response, defrag_many);

/// Runs a future which needs nothing else to happen.
pub fn now<T: 'static, F: Future<Output = T> + 'static>(f: F) -> Option<T> {
    let out: Rc<RefCell<Option<T>>> = Rc::new(RefCell::new(None));
    let o = out.clone();
    model::spawn_local(async move {
        let r = f.await;
        *o.borrow_mut() = Some(r);
    });
    model::run_until_idle();
    let r = out.borrow_mut().take();
    r
}

fn input(frames: Vec<TFrameId>) -> FrameInput {
    let (tx, rx) = mpsc::channel(frames.len().max(1));
    for f in frames {
        assert!(tx.try_send(f).is_ok());
    }
    rx
}
fn open_input(frames: Vec<TFrameId>) -> (mpsc::Sender<TFrameId>, FrameInput) {
    let (tx, rx) = mpsc::channel(frames.len().max(1));
    for f in frames {
        assert!(tx.try_send(f).is_ok());
    }
    (tx, rx)
}
fn frame(code: u8, payload: Vec<u8>) -> TFrameId {
    let ty: Type = Type::from_u8(code).unwrap();
    TFrameId::new(5, TFrame::new(ty, Bytes::from(payload)))
}

/// Fields of a call request or response (without flags and args).
fn fields(request: bool, code: u8, scheme: &str) -> Vec<u8> {
    let w = if request { Wr::default().num(60_000, 4) } else { Wr::default().num(code as u64, 1) };
    let w = w.num(1, 8).num(2, 8).num(3, 8).num(0, 1);
    let w = if request { w.text("svc", 1) } else { w };
    w.num(1, 1).text("as", 1).text(scheme, 1).0
}

/// Frames with symbolic structure and the args they carry by the protocol (None: an invalid message).
/// params: frames, longest fragment, 1: also foreign types, checksums and an early end, args per frame at most
fn any_message(request: bool, code: u8) -> (Vec<TFrameId>, Option<Vec<Vec<u8>>>) {
    let (n, longest, faults, most) = (param(0), param(1), param(2) == 1, param(3));
    let mut frames = vec![];
    let mut args: Vec<Vec<u8>> = vec![];
    let mut over: Option<bool> = None; // Some(valid)
    for k in 0..n {
        let more = if k + 1 == n && !faults { false } else { conc(choose(2, "more")) == 1 };
        let nargs = conc(choose(most, "nargs")) + 1;
        let mut chunks = vec![];
        for _ in 0..nargs {
            let len = conc(choose(longest + 1, "len"));
            chunks.push(sym_bytes(len, "chunk"));
        }
        let fault = if faults { conc(choose(4, "fault")) } else { 0 };
        // (the flag for streaming says nothing about the frames which follow)
        let mut w = Wr::default().num(more as u64 | (sym_u8("streaming") & 2) as u64, 1);
        if k == 0 {
            w = w.raw(&fields(request, code, "raw"));
        }
        w = if fault == 1 { w.num(1 + choose(3, "csum") as u64, 1).num(9, 4) } else { w.num(0, 1) };
        for c in chunks.iter() {
            w = w.num(c.len() as u64, 2).raw(c);
        }
        let first_code = if request { 0x03 } else { 0x04 };
        let mut ty = if k == 0 { first_code } else { first_code + 0x10 };
        if fault == 2 {
            // any other type (the continuations of both directions aside)
            ty = TYPE_CODES[conc(choose(TYPE_CODES.len(), "type"))];
            if (k == 0 && ty == first_code) || (k > 0 && (ty == 0x13 || ty == 0x14)) {
                vk::stop();
            }
        }
        let mut payload = w.0;
        if fault == 3 {
            let cut = [1, 2, payload.len()][conc(choose(3, "cut"))];
            payload.truncate(payload.len() - cut);
        }
        frames.push(frame(ty, payload));
        if over.is_none() {
            if fault != 0 {
                // a truncated frame may still be well formed when an arg got cut away completely: not explored
                if fault == 3 && nargs > 0 && chunks[nargs - 1].is_empty() {
                    vk::stop();
                }
                over = Some(false);
            } else {
                for (i, c) in chunks.into_iter().enumerate() {
                    if i == 0 && k > 0 {
                        args.last_mut().unwrap().extend(c);
                    } else {
                        args.push(c);
                    }
                }
                if !more {
                    over = Some(args.len() <= 3);
                    if args.len() > 3 {
                        cover("too many args");
                    }
                }
            }
        }
    }
    (frames, if over == Some(true) { Some(args) } else { None })
}

fn same(got: &[Bytes], expected: &[Vec<u8>]) {
    check(got.len() == expected.len(), "number of args");
    for (g, e) in got.iter().zip(expected) {
        check(vk::eq(g, e), "an arg is the concatenation of its fragments");
    }
    log("args", got.len() as u64);
}

fn defrag_request() {
    let (frames, expected) = any_message(true, 0);
    let r = now(RequestDefragmenter::new(input(frames)).read_request());
    match r {
        None => check(false, "reading of a message ends when no more frames arrive"),
        Some(Ok((f, a))) => {
            let expected = expected.unwrap_or_else(|| {
                check(false, "an incomplete or invalid message is an error");
                unreachable!()
            });
            same(&a.args, &expected);
            check(f.service() == "svc" && *f.ttl() == 60_000, "fields of the first frame");
            check(a.arg_scheme == ArgSchemeValue::Raw, "scheme");
            cover("complete");
        }
        Some(Err(_)) => {
            check(expected.is_none(), "a complete message is read");
            cover("error");
            log("args", 99);
        }
    }
}

fn defrag_response() {
    let code = conc(choose(2, "code")) as u8;
    let (frames, expected) = any_message(false, code);
    let r = now(ResponseDefragmenter::new(input(frames)).read_response_msg::<RawMessage>());
    match r {
        None => check(false, "reading of a message ends when no more frames arrive"),
        Some(Ok((c, m))) => {
            let expected = expected.unwrap_or_else(|| {
                check(false, "an incomplete or invalid message is an error");
                unreachable!()
            });
            let arg = |k: usize| expected.get(k).cloned().unwrap_or_default();
            check(c as u8 == code, "response code");
            check(vk::eq(m.endpoint().as_bytes(), &arg(0)), "arg1");
            check(vk::eq(m.header().as_bytes(), &arg(1)), "arg2");
            check(vk::eq(m.body(), &arg(2)), "arg3");
            cover("complete");
            log("r", c as u64);
        }
        Some(Err(_)) => {
            log("r", 9);
            cover("error");
            if let Some(e) = expected {
                // texts have to be valid
                let bad = |k: usize| e.get(k).map(|a| std::str::from_utf8(a).is_err()).unwrap_or(false);
                check(bad(0) || bad(1), "a complete message with valid texts is read");
                cover("not utf-8");
            }
        }
    }
}

/// A message which still waits for frames is neither completed nor failed.
/// params: 1 if request, scheme known
fn defrag_first() {
    let request = param(0) == 1;
    let scheme = match conc(choose(6, "scheme")) {
        0 => "raw",
        1 => "json",
        2 => "http",
        3 => "thrift",
        4 => "sthrift",
        _ => "other",
    };
    let more = conc(choose(2, "more")) == 1;
    let mut w = Wr::default().num(more as u64 | (sym_u8("streaming") & 2) as u64, 1).raw(&fields(request, 0, scheme)).num(0, 1);
    let a = sym_bytes(1, "a");
    w = w.num(1, 2).raw(&a).num(0, 2).num(0, 2);
    let f = frame(if request { 3 } else { 4 }, w.0);
    let (tx, rx) = open_input(vec![f]);
    let ok: Option<bool> = if request {
        now(RequestDefragmenter::new(rx).read_request()).map(|r| r.is_ok())
    } else {
        assume(a[0] < 0x80);
        now(ResponseDefragmenter::new(rx).read_response_msg::<RawMessage>()).map(|r| r.is_ok())
    };
    let known = scheme != "other" && (request || scheme == "raw");
    if !known {
        check(ok == Some(false), "an unknown or unexpected arg scheme is an error");
        cover("scheme");
    } else if more {
        check(ok.is_none(), "a message with more fragments to come is not complete");
        cover("waits");
    } else {
        check(ok == Some(true), "a complete message does not wait");
        cover("complete");
    }
    drop(tx);
}

/// Position dependent bytes.
fn pattern(n: usize, seed: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 256);
    let mut k = 0u32;
    while v.len() < n {
        v.extend_from_slice(&[k as u8 ^ seed, (k >> 8) as u8, seed, 0x5a, k as u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]);
        let l = v.len();
        if l >= 4096 && l + 4096 <= n {
            // copies of a block, each made distinct by its number
            let b = v[l - 4096..].to_vec();
            v.extend_from_slice(&b);
            let p = v.len() - 4096;
            v[p] = (p >> 12) as u8;
        }
        k += 1;
    }
    v.truncate(n);
    v
}

/// Lengths of args: params 1..=3, each with a window of `param4` lengths for the args whose bit is set in `param5`.
fn window_args() -> Vec<Vec<u8>> {
    (0..3)
        .map(|k| {
            let mut n = param(1 + k);
            if param(5) >> k & 1 == 1 {
                n += conc(choose(param(4), "len"));
            }
            pattern(n, k as u8 + 1)
        })
        .collect()
}

/// Checks frames by the protocol, returns args.
fn check_frames(frames: &[TFrame], first: u8, fields_len: usize) -> Vec<Vec<u8>> {
    let mut args: Vec<Vec<u8>> = vec![];
    check(!frames.is_empty(), "at least one frame");
    for (k, f) in frames.iter().enumerate() {
        let last = k + 1 == frames.len();
        check(*f.frame_type() as u8 == if k == 0 { first } else { first + 0x10 }, "type of frame");
        check(f.size() + 16 <= 65534, "a frame fits in its length field");
        let mut dst = BytesMut::new();
        let e = TFrameIdCodec {}.encode(TFrameId::new(1, TFrame::new(*f.frame_type(), f.payload().clone())), &mut dst);
        check(e.is_ok() && dst.len() == f.size() + 16 && be16(&dst, 0) as usize == dst.len(), "length field of the written frame");
        let p = f.payload();
        check(p.len() > 0 && p[0] == !last as u8, "all frames but the last one announce more");
        let mut i = 1 + if k == 0 { fields_len } else { 0 };
        check(p.len() > i && p[i] == 0, "no checksum");
        i += 1;
        let mut n = 0;
        while i < p.len() {
            check(i + 2 <= p.len(), "length of an arg");
            let l = be16(p, i) as usize;
            i += 2;
            check(i + l <= p.len(), "arg inside of its frame");
            if n == 0 && k > 0 {
                args.last_mut().unwrap().extend_from_slice(&p[i..i + l]);
            } else {
                args.push(p[i..i + l].to_vec());
            }
            i += l;
            n += 1;
        }
        check(n >= 1 && n <= 3, "1 to 3 args in a frame");
    }
    args
}

fn collect(s: TFrameStream) -> Vec<TFrame> {
    now(s.collect::<Vec<TFrame>>()).unwrap()
}
fn same_concrete(got: &[Vec<u8>], expected: &[Vec<u8>], msg: &str) {
    check(got.len() == expected.len(), "number of args");
    for (g, e) in got.iter().zip(expected) {
        check(g == e, msg);
    }
}

/// A name of `n` bytes, with characters of `w` bytes.
fn name(n: usize, w: usize) -> String {
    let c = ["s", "s", "\u{e9}", "\u{20ac}", "\u{1f600}"][w];
    let mut s = c.repeat(n / c.len());
    while s.len() < n {
        s.push('s');
    }
    s
}

/// params: service length, arg lengths x3, window, windowed args, bytes of a character of the service (0: 1)
fn frag_request() {
    let service = name(param(0), param(6));
    let args = window_args();
    let m = MessageArgs::new(ArgSchemeValue::Raw, args.iter().map(|a| Bytes::from(a.clone())).collect());
    let s = match RequestFragmenter::new(service.clone(), m).create_frames() {
        Ok(s) => s,
        Err(_) => {
            check(false, "a message gets fragmented");
            return;
        }
    };
    let frames = collect(s);
    log("frames", frames.len() as u64);
    // ttl, tracing, service, headers "as" and "cn"
    let fl = 4 + 25 + 1 + service.len() + 1 + 3 + 4 + 3 + 1 + service.len();
    same_concrete(&check_frames(&frames, 3, fl), &args, "args carried by the frames");
    cover(if frames.len() == 1 { "one frame" } else { "more frames" });
    let ids = frames.into_iter().map(|f| TFrameId::new(5, f)).collect();
    match now(RequestDefragmenter::new(input(ids)).read_request()) {
        Some(Ok((f, a))) => {
            check(*f.service() == service, "service");
            let got: Vec<Vec<u8>> = a.args.iter().map(|x| x.to_vec()).collect();
            same_concrete(&got, &args, "args survive fragmentation and reassembly");
        }
        _ => check(false, "own frames get reassembled"),
    }
}

fn frag_response() {
    let service = name(param(0), param(6));
    let code = conc(choose(2, "code"));
    let args = window_args();
    let m = MessageArgs::new(ArgSchemeValue::Raw, args.iter().map(|a| Bytes::from(a.clone())).collect());
    let rc = if code == 0 { ResponseCode::Ok } else { ResponseCode::Error };
    let s = match ResponseFragmenter::new(service.clone(), rc, m).create_frames() {
        Ok(s) => s,
        Err(_) => {
            check(false, "a message gets fragmented");
            return;
        }
    };
    let frames = collect(s);
    log("frames", frames.len() as u64);
    let fl = 1 + 25 + 1 + 3 + 4 + 3 + 1 + service.len();
    check(frames[0].payload()[1] as usize == code, "response code");
    same_concrete(&check_frames(&frames, 4, fl), &args, "args carried by the frames");
    cover(if frames.len() == 1 { "one frame" } else { "more frames" });
    let ids = frames.into_iter().map(|f| TFrameId::new(5, f)).collect();
    match now(ResponseDefragmenter::new(input(ids)).read_response()) {
        Some(Ok((f, a))) => {
            check(*f.code() as usize == code, "code");
            let got: Vec<Vec<u8>> = a.args.iter().map(|x| x.to_vec()).collect();
            same_concrete(&got, &args, "args survive fragmentation and reassembly");
        }
        _ => check(false, "own frames get reassembled"),
    }
}

/// Messages in many frames. param0: 1 if a request, param1: frames at least, param2: numbers of frames
fn defrag_many() {
    let request = param(0) == 1;
    let n = param(1) + conc(choose(param(2), "n"));
    // the frames in which the second and the third arg start
    let ends = [[0, 0], [0, n - 1], [n / 2, n / 2], [n - 1, n - 1], [n / 3, n - 1]][conc(choose(5, "ends"))];
    let x = [0, n / 2, n - 1][conc(choose(3, "x"))];
    let mut frames = vec![];
    let mut args: Vec<Vec<u8>> = vec![vec![]];
    for k in 0..n {
        let mut w = Wr::default().num((k + 1 < n) as u64, 1);
        if k == 0 {
            w = w.raw(&fields(request, 0, "raw"));
        }
        w = w.num(0, 1);
        let starts = ends.iter().filter(|e| **e == k).count();
        for s in 0..starts + 1 {
            let c = if k == x && s == starts && request {
                vec![k as u8, sym_u8("x")]
            } else {
                vec![b'a' + (k % 23) as u8; (k + s) % 4]
            };
            if s > 0 {
                args.push(vec![]);
            }
            args.last_mut().unwrap().extend_from_slice(&c);
            w = w.num(c.len() as u64, 2).raw(&c);
        }
        frames.push(frame([[4, 0x14], [3, 0x13]][request as usize][(k > 0) as usize], w.0));
    }
    let all = frames.len();
    let got: Option<Vec<Vec<u8>>> = if request {
        match now(RequestDefragmenter::new(input(frames)).read_request()) {
            Some(Ok((_, a))) => Some(a.args.iter().map(|b| b.to_vec()).collect()),
            _ => None,
        }
    } else {
        match now(ResponseDefragmenter::new(input(frames)).read_response_msg::<RawMessage>()) {
            Some(Ok((_, m))) => Some(vec![m.endpoint().clone().into_bytes(), m.header().clone().into_bytes(), m.body().to_vec()]),
            _ => None,
        }
    };
    match got {
        Some(got) => {
            check(got.len() == 3, "number of args");
            for (g, e) in got.iter().zip(args.iter()) {
                check(vk::eq(g, e), "an arg is the concatenation of its fragments");
            }
        }
        None => check(false, "a message of any number of frames is read"),
    }
    cover("complete");
    log("frames", all as u64);
}

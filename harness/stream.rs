//! Frames over a byte stream: C02.
#[path = "/verif/harness/common.rs"]
pub mod common;
use crate::connection::Connection;
use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
use common::*;
use futures::{SinkExt, StreamExt};
use num_traits::FromPrimitive;
use std::cell::RefCell;
use std::rc::Rc;
use tokio::model::{self, raw::Peer};
use tokio_util::codec::{FramedRead, FramedWrite};

crate::entries!(stream_read, stream_big, stream_malformed, stream_write, stream_refused);

type Got = Rc<RefCell<(Vec<(u32, u8, Vec<u8>)>, bool, bool)>>;

fn reader(s: tokio::net::TcpStream) -> Got {
    let got: Got = Rc::default();
    let g = got.clone();
    let (r, w) = s.into_split();
    model::spawn_local(async move {
        let _w = w;
        let mut f = FramedRead::new(r, TFrameIdCodec {});
        while let Some(x) = f.next().await {
            match x {
                Ok(x) => g.borrow_mut().0.push((*x.id(), *x.frame().frame_type() as u8, x.frame().payload().to_vec())),
                Err(_) => g.borrow_mut().1 = true,
            }
        }
        g.borrow_mut().2 = true;
    });
    got
}

/// params: payload length of the first frame, of the second one (99: none), symbolic cuts, 1 to feed in parts
/// (bytes arrive between reads) instead of limiting reads, 1 to end the stream anywhere
fn stream_read() {
    let lens: Vec<usize> = [param(0), param(1)].iter().copied().filter(|n| *n != 99).collect();
    let mut frames = vec![];
    let mut bytes = vec![];
    let mut ends = vec![];
    for n in lens {
        let id = sym_u32("id");
        let code = TYPE_CODES[conc(choose(2, "code")) * 7 + 3];
        let p = sym_bytes(n, "p");
        bytes.extend(wire(id, code, &p));
        ends.push(bytes.len());
        frames.push((id, code, p));
    }
    let (s, peer) = Peer::pair();
    let got = reader(s);
    let total = bytes.len();
    let stop = if param(4) == 1 { conc(choose(total + 1, "stop")) } else { total };
    let mut cuts = vec![];
    for _ in 0..param(2) {
        cuts.push(conc(choose(total, "cut")) + 1);
    }
    if param(3) == 1 {
        let mut at = 0;
        for c in cuts {
            let to = (at + c).min(stop);
            peer.send(&bytes[at..to]);
            model::run_until_idle();
            at = to;
        }
        peer.send(&bytes[at..stop]);
    } else {
        peer.cuts(&cuts);
        peer.send(&bytes[..stop]);
    }
    model::run_until_idle();
    let whole = ends.iter().filter(|e| **e <= stop).count();
    {
        let g = got.borrow();
        check(!g.1 && !g.2, "no error and no end while the stream is open");
        check(g.0.len() == whole, "exactly the complete frames are received");
        for (a, b) in g.0.iter().zip(&frames) {
            check(a.0 == b.0 && a.1 == b.1 && vk::eq(&a.2, &b.2), "frames are received in order and unchanged");
        }
        log("frames", g.0.len() as u64);
    }
    peer.shutdown();
    model::run_until_idle();
    let g = got.borrow();
    let partial = stop != 0 && !ends.contains(&stop);
    check(g.0.len() == whole, "a truncated frame is not delivered");
    check(g.1 == partial, "a stream which ends inside a frame is an error, otherwise it is not");
    check(g.2, "the stream of frames ends");
    if whole == frames.len() {
        cover("all");
    }
    if partial {
        cover("truncated");
    }
    log("err", g.1 as u64);
}

/// A frame, a malformed header, another frame. params: payload length of the first frame, cuts
fn stream_malformed() {
    let id = sym_u32("id");
    let p = sym_bytes(param(0), "p");
    let mut bytes = wire(id, 3, &p);
    let first = bytes.len();
    let size = sym_u16("size");
    let code = sym_u8("code");
    assume((size < 16) | !is_type_code(code));
    assume(size <= 20);
    bytes.extend_from_slice(&[(size >> 8) as u8, size as u8, code]);
    bytes.extend(sym_bytes(17, "rest"));
    bytes.extend(wire(7, 4, &[1, 2]));
    let (s, peer) = Peer::pair();
    let got = reader(s);
    let mut cuts = vec![];
    for _ in 0..param(1) {
        cuts.push(conc(choose(first + 8, "cut")) + 1);
    }
    peer.cuts(&cuts);
    peer.send(&bytes);
    peer.shutdown();
    model::run_until_idle();
    let g = got.borrow();
    check(g.0.len() == 1 && g.0[0].0 == id && vk::eq(&g.0[0].2, &p), "frames before a malformed one are received, none after it");
    check(g.1, "a malformed frame is an error");
    check(g.2, "the stream of frames ends after a malformed frame");
    cover("malformed");
}

/// params: payload lengths of two frames, symbolic limits of the writes, capacity of the connection
fn stream_write() {
    let (s, peer) = Peer::pair();
    let (r, w) = s.into_split();
    let mut expected = vec![];
    let mut frames = vec![];
    for k in 0..2 {
        let id = sym_u32("id");
        let p = sym_bytes(param(k), "p");
        let code = TYPE_CODES[conc(choose(2, "code")) * 3 + 2];
        expected.extend(wire(id, code, &p));
        let ty: Type = Type::from_u8(code).unwrap();
        frames.push(TFrameId::new(id, TFrame::new(ty, Bytes::from(p))));
    }
    let mut cuts = vec![];
    for _ in 0..param(2) {
        cuts.push(conc(choose(expected.len(), "cut")) + 1);
    }
    peer.wcuts(&cuts);
    if param(3) > 0 {
        peer.capacity(param(3));
    }
    let done = Rc::new(RefCell::new(false));
    let d = done.clone();
    model::spawn_local(async move {
        let _r = r;
        let mut f = FramedWrite::new(w, TFrameIdCodec {});
        for x in frames {
            check(f.send(x).await.is_ok(), "a frame gets written");
        }
        *d.borrow_mut() = true;
    });
    let mut got = vec![];
    loop {
        model::run_until_idle();
        let n = peer.available();
        if n == 0 {
            break;
        }
        got.extend(peer.recv(n));
    }
    check(*done.borrow(), "writing ends");
    check(vk::eq(&got, &expected), "exactly the bytes of the frames, in order");
    check(peer.eof(), "closed afterwards");
    cover("written");
    logb("got", &got);
}

/// A frame of `param0` bytes and a small one, read with `param2` cuts near the sizes of buffers (window `param1`).
fn stream_big() {
    let n = param(0);
    let mut p = vec![0x11u8; n];
    let marks = sym_bytes(4, "mark");
    p[0] = marks[0];
    p[n / 3] = marks[1];
    p[n - 2] = marks[2];
    p[n - 1] = marks[3];
    let mut bytes = wire(sym_u32("id"), 3, &p);
    let id2 = sym_u32("id");
    bytes.extend(wire(id2, 4, &marks));
    let (s, peer) = Peer::pair();
    let got = reader(s);
    let w = param(1);
    let mut cuts = vec![];
    for _ in 0..param(2) {
        let base = match conc(choose(3, "where")) {
            0 => 8192 - w / 2,
            1 => n + 16 - w / 2,
            _ => 1,
        };
        cuts.push(base + conc(choose(w, "cut")));
    }
    let at = cuts[0].min(bytes.len());
    peer.send(&bytes[..at]);
    if conc(choose(2, "pause")) == 1 {
        model::run_until_idle();
    }
    peer.cuts(&cuts[1..]);
    peer.send(&bytes[at..]);
    peer.shutdown();
    model::run_until_idle();
    let g = got.borrow();
    check(g.0.len() == 2 && !g.1 && g.2, "both frames and the end");
    let q = &g.0[0].2;
    check(q.len() == n, "length of a long payload");
    check((q[0] == marks[0]) & (q[n / 3] == marks[1]) & (q[n - 2] == marks[2]) & (q[n - 1] == marks[3]), "a long payload is unchanged");
    check(g.0[1].0 == id2 && vk::eq(&g.0[1].2, &marks), "the next frame is unchanged");
    cover("all");
}

/// Frames of several messages, each of any of three sizes (one of which does not fit in a frame), passed to a connection which
/// writes up to param0 frames at once: those which fit are written, in order. param1: messages, param2: 1 to run in between
fn stream_refused() {
    let (s, peer) = Peer::pair();
    let sizes = [1, 65518, 70000];
    let mut expected = vec![];
    let mut frames = vec![];
    for k in 0..param(1) {
        let n = sizes[conc(choose(3, "size"))];
        let mut p = vec![k as u8; n];
        p[0] = sym_u8("mark");
        if n <= 65518 {
            expected.push((0xd0u8, p.clone()));
        } else {
            cover("refused");
        }
        frames.push(TFrame::new(Type::PingRequest, Bytes::from(p)));
    }
    let ids: Rc<RefCell<Vec<bool>>> = Rc::default();
    let done = ids.clone();
    let keep: Rc<RefCell<Option<Connection>>> = Rc::default();
    let k2 = keep.clone();
    let (buffer, pause) = (param(0), param(2) == 1);
    model::spawn_local(async move {
        let c = Connection::connect(s, buffer).await.unwrap();
        for f in frames {
            let (_i, o) = c.new_frames_io().await.unwrap();
            done.borrow_mut().push(o.send(f).await.is_ok());
            if pause && conc(choose(2, "pause")) == 1 {
                model::Yield(false).await;
            }
        }
        *k2.borrow_mut() = Some(c);
    });
    let mut got = vec![];
    loop {
        model::run_until_idle();
        let n = peer.available();
        if n == 0 {
            break;
        }
        got.extend(peer.recv(n));
    }
    check(ids.borrow().len() == param(1), "every frame is taken");
    let mut at = 0;
    for (code, p) in expected.iter() {
        check(got.len() - at >= 16, "a frame which fits is written");
        let n = be16(&got, at) as usize;
        check(n == p.len() + 16 && got[at + 2] == *code && got.len() - at >= n, "frames which fit are written in order");
        check(got[at + 16] == p[0] && got[at + n - 1] == *p.last().unwrap(), "bytes of a frame");
        at += n;
    }
    check(at == got.len(), "nothing else is written");
    cover("all");
    log("frames", expected.len() as u64);
}

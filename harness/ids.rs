//! Ids of messages in flight: C11.
#[path = "/verif/harness/common.rs"]
pub mod common;
use crate::connection::{Connection, FrameInput, FramesDispatcher};
use crate::frames::{TFrame, TFrameId, Type};
use common::*;
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use tokio::model;
use tokio::sync::mpsc;

crate::entries!(ids_history, ids_incoming, ids_many, ids_concurrent);

fn run<T: 'static>(f: impl Future<Output = T> + 'static) -> T {
    let o: Rc<RefCell<Option<T>>> = Rc::new(RefCell::new(None));
    let p = o.clone();
    model::spawn_local(async move {
        let r = f.await;
        *p.borrow_mut() = Some(r);
    });
    model::run_until_idle();
    let r = o.borrow_mut().take();
    match r {
        Some(r) => r,
        None => {
            check(false, "an operation ends");
            unreachable!()
        }
    }
}
fn frame(id: u32, ty: Type, tag: u8) -> TFrameId {
    TFrameId::new(id, TFrame::new(ty, Bytes::from(vec![tag])))
}

/// A message which waits for frames, and the tags of those it has to get.
struct Wait {
    id: u32,
    rx: FrameInput,
    want: Vec<u8>,
    open: bool,
}
fn position(ws: &[Wait], id: u32) -> Option<usize> {
    ws.iter().position(|w| w.open && w.id == id)
}
fn compare(ws: &mut [Wait]) {
    for w in ws.iter_mut() {
        for t in w.want.iter() {
            match w.rx.try_recv() {
                Ok(mut f) => {
                    check(*f.id() == w.id, "a frame has the id of its message");
                    check(f.frame_mut().payload_mut().to_vec() == vec![*t], "a message gets its own frames, in order");
                }
                Err(_) => check(false, "no frame of a message is lost"),
            }
        }
        match w.rx.try_recv() {
            Ok(_) => check(false, "a message gets no frames of other messages"),
            Err(e) => {
                let closed = e == mpsc::error::TryRecvError::Disconnected;
                check(closed != w.open, "a message in flight keeps its channel, one which is not has none");
                cover(if closed { "closed" } else { "open" });
            }
        }
    }
}

/// Any sequence of param0 registrations, deregistrations and frames with arbitrary ids, and the end of the connection.
fn ids_history() {
    let d = Rc::new(FramesDispatcher::new(8));
    let mut ws: Vec<Wait> = vec![];
    let mut closed = false;
    for k in 0..param(0) {
        let id = sym_u32("id");
        let d = d.clone();
        match conc(choose(4, "op")) {
            0 => {
                let (tx, rx) = mpsc::channel::<TFrameId>(8);
                let r = run(async move { d.register(id, tx).await.is_ok() });
                check(r == (!closed && position(&ws, id).is_none()), "an id is registered unless it is in flight");
                if r {
                    ws.push(Wait { id, rx, want: vec![], open: true });
                    cover("registered");
                } else {
                    cover("duplicate");
                }
            }
            1 => {
                let r = run(async move { d.deregister(&id).await.is_some() });
                let p = position(&ws, id);
                check(r == p.is_some(), "what is in flight can be deregistered");
                if let Some(p) = p {
                    ws[p].open = false;
                    cover("deregistered");
                }
            }
            2 => {
                let f = frame(id, Type::CallResponse, k as u8);
                let r = run(async move { d.dispatch_following(f).await.is_ok() });
                let p = position(&ws, id);
                check(r == p.is_some(), "a frame is passed to a message in flight only");
                if let Some(p) = p {
                    ws[p].want.push(k as u8);
                    cover("passed");
                } else {
                    cover("stray");
                }
            }
            _ => {
                run(async move { d.close().await });
                closed = true;
                for w in ws.iter_mut() {
                    w.open = false;
                }
            }
        }
    }
    check(d.is_closed() == closed, "closed");
    compare(&mut ws);
    log("messages", ws.len() as u64);
}

/// Any sequence of param0 frames of requests (first or continuation) with arbitrary ids, and ends of messages.
fn ids_incoming() {
    let d = Rc::new(FramesDispatcher::new(8));
    let mut ws: Vec<Wait> = vec![];
    for k in 0..param(0) {
        let id = sym_u32("id");
        let d = d.clone();
        let op = conc(choose(3, "op"));
        if op == 2 {
            let r = run(async move { d.deregister(&id).await.is_some() });
            let p = position(&ws, id);
            check(r == p.is_some(), "what is in flight can be deregistered");
            if let Some(p) = p {
                ws[p].open = false;
            }
            continue;
        }
        let first = op == 0;
        let f = frame(id, if first { Type::CallRequest } else { Type::CallRequestContinue }, k as u8);
        let r = run(async move { d.dispatch(f).await });
        let p = position(&ws, id);
        match (r, p) {
            (Ok(Some(rx)), None) => {
                check(first, "a continuation does not start a message");
                ws.push(Wait { id, rx, want: vec![k as u8], open: true });
                cover("new");
            }
            (Ok(None), Some(p)) => {
                ws[p].want.push(k as u8);
                cover("passed");
            }
            (Ok(None), None) => {
                check(!first, "a first frame starts a message");
                cover("dropped");
            }
            _ => check(false, "a frame starts a message exactly if its id is not in flight"),
        }
    }
    compare(&mut ws);
    log("messages", ws.len() as u64);
}

/// param0 messages while one is in flight all the time.
fn ids_many() {
    let (tx, mut rx) = mpsc::channel::<TFrameId>(1);
    let c = Rc::new(Connection::new(tx, 1));
    let n = param(0);
    let c2 = c.clone();
    let (mut held, out) = run(async move { c2.new_frames_io().await.unwrap() });
    model::spawn_local(async move {
        out.send(TFrame::new(Type::CallRequest, Bytes::from(vec![0]))).await.unwrap();
        // never closed
        std::future::pending::<()>().await;
    });
    model::run_until_idle();
    let first = *rx.try_recv().unwrap().id();
    model::spawn_local(async move {
        for _ in 0..n {
            match c.new_frames_io().await {
                Ok((_i, o)) => {
                    check(o.send(TFrame::new(Type::CallRequest, Bytes::new())).await.is_ok(), "sent");
                    match rx.try_recv() {
                        Ok(f) => check(*f.id() != first, "the id of a message in flight is not used again"),
                        Err(_) => check(false, "sent"),
                    }
                    o.close().await;
                }
                Err(_) => check(false, "there is an id for another message"),
            }
        }
        cover("all");
    });
    model::run_until_idle();
    check(matches!(held.try_recv(), Err(mpsc::error::TryRecvError::Empty)), "a message in flight stays registered");
}

/// param0 messages at once, with param1 delays, param2 preemptions and param3 races of threads, each answered; answers by any order.
fn ids_concurrent() {
    let (tx, mut rx) = mpsc::channel::<TFrameId>(8);
    let c = Rc::new(Connection::new(tx, 1));
    model::configure(param(1), param(2));
    model::configure_races(param(3));
    let got: Rc<RefCell<Vec<Option<u32>>>> = Rc::new(RefCell::new(vec![None; param(0)]));
    for k in 0..param(0) {
        let (c, got) = (c.clone(), got.clone());
        model::spawn_local(async move {
            match c.new_frames_io().await {
                Ok((_i, o)) => {
                    check(o.send(TFrame::new(Type::CallRequest, Bytes::from(vec![k as u8]))).await.is_ok(), "sent");
                    got.borrow_mut()[k] = Some(0);
                    std::future::pending::<()>().await;
                }
                Err(_) => check(false, "there is an id for every message"),
            }
        });
    }
    model::run_until_idle();
    let mut ids: Vec<u32> = vec![];
    for _ in 0..param(0) {
        match rx.try_recv() {
            Ok(f) => {
                check(!ids.contains(f.id()), "ids of messages in flight differ");
                ids.push(*f.id());
            }
            Err(_) => check(false, "every message is sent"),
        }
    }
    cover("all");
}

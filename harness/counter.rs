//! Ids of messages when any number of messages was sent in between: C11, C10.
#[path = "/verif/harness/common.rs"]
pub mod common;
use crate::connection::{vk_hook, Connection, FrameInput, FrameOutput};
use crate::frames::{TFrame, TFrameId, Type};
use common::*;
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use tokio::model;
use tokio::sync::mpsc;

crate::entries!(counter_any);

fn run<T: 'static>(f: impl Future<Output = T> + 'static) -> T {
    let o: Rc<RefCell<Option<T>>> = Rc::new(RefCell::new(None));
    let p = o.clone();
    model::spawn_local(async move {
        let r = f.await;
        *p.borrow_mut() = Some(r);
    });
    model::run_until_idle();
    let r = o.borrow_mut().take();
    match r {
        Some(r) => r,
        None => {
            check(false, "an operation ends");
            unreachable!()
        }
    }
}

/// param0 messages which stay in flight, with any number of messages in between (fewer than there are ids in total).
fn counter_any() {
    let (tx, mut rx) = mpsc::channel::<TFrameId>(8);
    let c = Rc::new(Connection::new(tx, 1));
    let mut at = sym_u32("first");
    let mut left = u32::MAX;
    let mut ids: Vec<u32> = vec![];
    let mut held: Vec<(FrameInput, FrameOutput)> = vec![];
    for k in 0..param(0) {
        if k > 0 {
            // the last message took one id
            let between = sym_u32("between");
            assume((between < left) & (left > 0));
            left = left.wrapping_sub(between).wrapping_sub(1);
            at = at.wrapping_add(1).wrapping_add(between);
        }
        vk_hook::skip_to(&c, at);
        let c2 = c.clone();
        let io = run(async move {
            match c2.new_frames_io().await {
                Ok((i, o)) => {
                    check(o.send(TFrame::new(Type::CallRequest, Bytes::from_static(b"x"))).await.is_ok(), "sent");
                    (i, o)
                }
                Err(_) => {
                    check(false, "there is an id for another message");
                    unreachable!()
                }
            }
        });
        held.push(io);
        match rx.try_recv() {
            Ok(f) => {
                for o in ids.iter() {
                    check(f.id() != o, "ids of messages in flight differ");
                }
                ids.push(*f.id());
            }
            Err(_) => check(false, "sent"),
        }
    }
    for (i, _) in held.iter_mut() {
        check(matches!(i.try_recv(), Err(mpsc::error::TryRecvError::Empty)), "a message in flight stays registered");
    }
    cover("all");
    logb("ids", &ids.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>());
}

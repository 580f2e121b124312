//! Connections of a client: C19, C21.
#[path = "/verif/harness/common.rs"]
pub mod common;
#[path = "/verif/harness/net.rs"]
pub mod net;
use crate::handler::HandlerResult;
use crate::messages::{MessageChannel, RawMessage};
use crate::TChannel;
use common::*;
use net::*;
use std::rc::Rc;
use tokio::model::{self, raw::Listener};

crate::entries!(pool_calls, pool_hosts, pool_history, pool_test, pool_refused, pool_dead, pool_many, pool_addrs, pool_crowd, pool_age);

/// A peer which answers handshakes and (if wanted) pings, and collects requests.
struct Hub {
    l: Listener,
    conns: Vec<Net>,
    pong: bool,
    pings: Vec<(usize, u32)>,
    reqs: Vec<(usize, F)>,
}
impl Hub {
    fn new(port: u16) -> Hub {
        Hub::at(1, port)
    }
    fn at(ip: u8, port: u16) -> Hub {
        Hub::on(std::net::SocketAddr::from(([127, 0, 0, ip], port)))
    }
    fn on(addr: std::net::SocketAddr) -> Hub {
        Hub { l: Listener::bind(addr), conns: vec![], pong: true, pings: vec![], reqs: vec![] }
    }
    fn pump(&mut self) {
        let mut any = true;
        while any {
            any = false;
            model::run_until_idle();
            while let Some(p) = self.l.accept() {
                self.conns.push(Net::new(p));
                any = true;
            }
            for k in 0..self.conns.len() {
                for f in self.conns[k].frames() {
                    any = true;
                    match f.code {
                        1 => self.conns[k].send(&F::new(f.id, 2, init_payload(2))),
                        3 => self.reqs.push((k, f)),
                        0xd0 => {
                            check(f.p.is_empty(), "a ping has no payload");
                            self.pings.push((k, f.id));
                            if self.pong {
                                self.conns[k].send(&F::new(f.id, 0xd1, vec![]));
                            }
                        }
                        _ => check(false, "type of a frame of a client"),
                    }
                }
            }
        }
    }
    /// Takes the only request, which has to be the given one.
    fn take(&mut self, service: &str, body: &[u8]) -> (usize, u32) {
        check(self.reqs.len() == 1, "a call sends its request, once");
        let (c, f) = self.reqs.remove(0);
        match read_request(std::slice::from_ref(&f)) {
            Some(r) => check(r.service == service && r.args.len() == 3 && vk::eq(&r.args[2], body), "a request of the call"),
            None => check(false, "a well formed request"),
        }
        (c, f.id)
    }
    fn answer(&mut self, c: usize, id: u32) -> Vec<u8> {
        let b = sym_bytes(2, "res");
        let fs = message(id, false, &res_fields(0, "raw"), &split(&[b"e".to_vec(), b"h".to_vec(), b.clone()], 1));
        self.conns[c].send(&fs[0]);
        self.pump();
        b
    }
}
fn got(s: &Slot, b: &[u8]) {
    match &*s.borrow() {
        Some(Out::Ok(m)) => {
            check(vk::eq(m.body(), b), "a call gets its own response");
            cover("ok");
        }
        _ => check(false, "an answered call succeeds"),
    }
}
fn call_to(t: &Rc<TChannel>, service: &'static str, host: &'static str, body: Vec<u8>) -> Slot {
    let s: Slot = Rc::default();
    let (o, t) = (s.clone(), t.clone());
    let m = RawMessage::new("e".into(), "h".into(), Bytes::from(body));
    model::spawn_local(async move {
        let sub = t.subchannel(service).await.unwrap();
        let r: HandlerResult<RawMessage> = MessageChannel::send(&*sub, m, host).await;
        *o.borrow_mut() = Some(out_of(r));
    });
    s
}

/// Calls made before; with param8 some connections get lost after them.
fn wear_pool(hub: &mut Hub, t: &Rc<TChannel>, times: usize) {
    let mut lost = 0;
    for k in 0..times {
        let body = vec![k as u8, k as u8];
        let mut s = call(t, ["svc", "other"][k % 2], "e", "h", body.clone());
        hub.pump();
        if lost > 0 && done(&s) {
            // (over the lost connection)
            hub.reqs.clear();
            s = call(t, ["svc", "other"][k % 2], "e", "h", body.clone());
            hub.pump();
        }
        let (c, id) = hub.take(["svc", "other"][k % 2], &body);
        if k % 3 == 2 {
            hub.conns[c].send(&F::new(id, 0xff, Wr::default().num(5, 1).raw(&[0; 25]).text("why", 2).0));
            hub.pump();
            check(kind(&s) == 3, "an error frame is an error");
        } else {
            let r = hub.answer(c, id);
            got(&s, &r);
        }
        check(hub.conns.len() == lost + 1, "a connection gets reused");
        if param(8) > 0 && k % 4 > 1 {
            if k % 4 == 2 {
                hub.conns[c].peer.shutdown();
            } else {
                hub.conns[c].peer.reset();
            }
            hub.pump();
            lost += 1;
        }
    }
    // (only the last one may still be open)
    if times > 0 && param(8) > 0 {
        let mut s = call(t, "svc", "e", "h", vec![1]);
        hub.pump();
        if done(&s) {
            hub.reqs.clear();
            s = call(t, "svc", "e", "h", vec![1]);
            hub.pump();
        }
        let (c, id) = hub.take("svc", &[1]);
        let r = hub.answer(c, id);
        got(&s, &r);
        hub.conns.drain(..c);
        check(hub.conns.len() == 1, "a connection gets reused");
        hub.pings.clear();
    }
}

/// param0 calls at once (to two services), at most param1 connections, param2 delays, param3 preemptions, param4 calls afterwards
fn pool_calls() {
    let mut hub = Hub::new(8888);
    let max = param(1);
    let t = Rc::new(TChannel::new(config(max as u32, 4, 1, false)).unwrap());
    model::configure(param(2), param(3));
    let mut slots = vec![];
    let mut bodies = vec![];
    for k in 0..param(0) {
        let b = vec![k as u8, sym_u8("req")];
        slots.push(call(&t, ["svc", "other"][k % 2], "e", "h", b.clone()));
        bodies.push(b);
        if k + 1 < param(0) && conc(choose(2, "run")) == 1 {
            hub.pump();
        }
    }
    hub.pump();
    check(hub.conns.len() >= 1 && hub.conns.len() <= max, "no more connections than configured");
    if hub.conns.len() == max {
        cover("all connections");
    }
    check(hub.reqs.len() == slots.len(), "every call sends its request, once");
    let reqs: Vec<(usize, F)> = hub.reqs.drain(..).collect();
    let first = conc(choose(reqs.len(), "first"));
    for i in 0..reqs.len() {
        let (c, f) = &reqs[(first + i) % reqs.len()];
        for (c2, f2) in reqs.iter() {
            check(c != c2 || f.id != f2.id || std::ptr::eq(f, f2), "ids in flight on a connection differ");
        }
        let r = read_request(std::slice::from_ref(f)).unwrap();
        let k = r.args[2][0] as usize;
        check(vk::eq(&r.args[2], &bodies[k]) && r.service == ["svc", "other"][k % 2], "a request of the call");
        check(!done(&slots[k]), "a call waits for its response");
        let b = hub.answer(*c, f.id);
        got(&slots[k], &b);
    }
    let n = hub.conns.len();
    for _ in 0..param(4) {
        let b = sym_bytes(2, "req");
        let s = call(&t, "svc", "e", "h", b.clone());
        hub.pump();
        let (c, id) = hub.take("svc", &b);
        let r = hub.answer(c, id);
        got(&s, &r);
        check(hub.conns.len() == n, "an idle connection gets reused");
        cover("reused");
    }
    log("conns", n as u64);
}

/// Calls to two hosts, any order of param0 operations. param2: 0 hosts with another port, 1 with another address
fn pool_hosts() {
    model::configure(param(1), 0);
    let names = if param(2) == 1 { ["127.0.0.1:8888", "127.0.0.2:8888"] } else { ["127.0.0.1:8888", "127.0.0.1:8889"] };
    let mut hubs = if param(2) == 1 { [Hub::new(8888), Hub::at(2, 8888)] } else { [Hub::new(8888), Hub::new(8889)] };
    let t = Rc::new(TChannel::new(config(1, 4, 1, false)).unwrap());
    let mut open: Vec<(usize, Slot, u32)> = vec![];
    for _ in 0..param(0) {
        let h = conc(choose(2, "host"));
        let b = sym_bytes(2, "req");
        let s = call_to(&t, "svc", names[h], b.clone());
        hubs[0].pump();
        hubs[1].pump();
        hubs[0].pump();
        check(hubs[1 - h].reqs.is_empty(), "a request goes to its host only");
        let (c, id) = hubs[h].take("svc", &b);
        check(c == 0 && hubs[h].conns.len() == 1, "one connection per host");
        open.push((h, s, id));
    }
    while !open.is_empty() {
        let (h, s, id) = open.remove(conc(choose(open.len(), "who")));
        check(!done(&s), "a call waits for its response");
        let r = hubs[h].answer(0, id);
        got(&s, &r);
    }
    check(hubs[0].conns.len() <= 1 && hubs[1].conns.len() <= 1, "connections get reused");
}

/// Any sequence of param0 calls and lost connections (up to param1 connections); after a loss a call may fail once per lost connection.
/// param2: delays, param3: 1 if connections are tested before use (no call fails then)
fn pool_history() {
    let mut hub = Hub::new(8888);
    let max = param(1);
    let t = Rc::new(TChannel::new(config(max as u32, 4, 1, param(3) == 1)).unwrap());
    wear_pool(&mut hub, &t, param(9));
    model::configure(param(2), 0);
    // ended by the environment
    let mut ended: Vec<bool> = vec![];
    let mut failures = 0;
    // (a loss seen late fails a call in flight and a later one)
    let each = if param(2) > 0 { 2 } else { 1 };
    if max > 1 {
        let slots: Vec<Slot> = (0..max).map(|_| call(&t, "svc", "e", "h", sym_bytes(1, "req"))).collect();
        hub.pump();
        check(hub.reqs.len() == max, "every call sends its request, once");
        while !hub.reqs.is_empty() {
            let (c, f) = hub.reqs.remove(0);
            hub.answer(c, f.id);
        }
        check(slots.iter().all(|s| kind(s) == 1), "answered calls succeed");
        ended.resize(hub.conns.len(), false);
    }
    for _ in 0..param(0) {
        let live: Vec<usize> = (0..ended.len()).filter(|k| !ended[*k]).collect();
        let op = if live.is_empty() { 0 } else { conc(choose(3, "op")) };
        if op == 0 {
            let b = sym_bytes(1, "req");
            let s = call(&t, "svc", "e", "h", b.clone());
            hub.pump();
            ended.resize(hub.conns.len(), false);
            if done(&s) {
                // (a test finds out whether a connection was lost)
                check(param(3) == 0 || param(2) > 0, "a call over a tested connection succeeds");
                check(kind(&s) == 3, "no response without a request");
                // (it may have been sent over the ended connection)
                hub.reqs.clear();
                failures += 1;
                check(failures <= each * ended.iter().filter(|e| **e).count(), "a lost connection fails at most one later call");
                cover("failed");
            } else {
                let (c, id) = hub.take("svc", &b);
                check(!ended[c], "a request is sent over an open connection");
                let r = hub.answer(c, id);
                got(&s, &r);
            }
        } else {
            let k = live[conc(choose(live.len(), "which"))];
            ended[k] = true;
            if op == 1 {
                hub.conns[k].peer.shutdown();
            } else {
                hub.conns[k].peer.reset();
            }
            if conc(choose(2, "run")) == 1 {
                hub.pump();
            }
            cover("ended");
        }
        ended.resize(hub.conns.len(), false);
        check(ended.iter().filter(|e| !**e).count() <= max, "no more connections than configured");
        check(hub.conns.len() <= max + ended.iter().filter(|e| **e).count(), "an open connection gets reused");
        log("conns", hub.conns.len() as u64);
    }
    // lost connections are not kept forever
    for _ in 0..each * max + 1 {
        let b = sym_bytes(1, "req");
        let s = call(&t, "svc", "e", "h", b.clone());
        hub.pump();
        if !done(&s) {
            let (c, id) = hub.take("svc", &b);
            let r = hub.answer(c, id);
            got(&s, &r);
            return;
        }
        hub.reqs.clear();
    }
    check(false, "calls work again after lost connections");
}

/// Connections are tested before they are used. param0: 0 the ping is answered, 1 it is answered by any frame of param1 bytes,
/// 2 the connection ends instead, 3 it has ended before
fn pool_test() {
    let mut hub = Hub::new(8888);
    let t = Rc::new(TChannel::new(config(1, 4, 1, true)).unwrap());
    let b = sym_bytes(2, "req");
    let s = call(&t, "svc", "e", "h", b.clone());
    hub.pump();
    let (c, id) = hub.take("svc", &b);
    let r = hub.answer(c, id);
    got(&s, &r);
    wear_pool(&mut hub, &t, param(9));
    let before = hub.pings.len();
    model::configure(param(2), 0);
    hub.pong = false;
    if param(0) == 3 {
        if conc(choose(2, "reset")) == 1 {
            hub.conns[0].peer.reset();
        } else {
            hub.conns[0].peer.shutdown();
        }
        hub.pump();
    }
    let b = sym_bytes(2, "req");
    let s = call(&t, "svc", "e", "h", b.clone());
    hub.pump();
    let mut fine = false;
    if param(0) < 3 {
        check(hub.pings.len() == before + 1 && hub.reqs.is_empty(), "a pooled connection gets a ping before a request");
        let (c, id) = hub.pings[before];
        check(c == 0 && hub.conns.len() == 1, "the connection is in use");
        match param(0) {
            0 => {
                fine = true;
                hub.conns[0].send(&F::new(id, 0xd1, sym_bytes(param(1), "p")));
            }
            1 => {
                let code = TYPE_CODES[conc(choose(11, "type"))];
                fine = code == 0xd1;
                hub.conns[0].send(&F::new(id, code, sym_bytes(param(1), "p")));
            }
            _ => {
                if conc(choose(2, "reset")) == 1 {
                    hub.conns[0].peer.reset();
                } else {
                    hub.conns[0].peer.shutdown();
                }
            }
        }
        hub.pump();
    }
    hub.pong = true;
    let (c, id) = hub.take("svc", &b);
    if fine {
        check(c == 0 && hub.conns.len() == 1, "a connection which passed its test is used");
        cover("passed");
    } else {
        check(c == 1 && hub.conns.len() == 2, "a connection which failed its test is replaced");
        cover("replaced");
    }
    let r = hub.answer(c, id);
    got(&s, &r);
    log("conns", hub.conns.len() as u64);
    // and the one in use goes on
    let b = sym_bytes(2, "req");
    let s = call(&t, "svc", "e", "h", b.clone());
    hub.pump();
    let (c2, id) = hub.take("svc", &b);
    check(c == c2, "a tested connection gets reused");
    let r = hub.answer(c2, id);
    got(&s, &r);
}

/// Nobody listens, at first or ever: the call fails in the end, a later one works. param0: seconds until there is a listener (0: never)
fn pool_refused() {
    let t = Rc::new(TChannel::new(config(1, 4, 1, false)).unwrap());
    let b = sym_bytes(2, "req");
    let s = call(&t, "svc", "e", "h", b.clone());
    let late = param(0) as u64;
    if late > 0 {
        model::run_until(late * SEC, || false);
        check(!done(&s), "a call waits for a connection");
        let mut hub = Hub::new(8888);
        let ok = model::run_until(100 * SEC, || {
            hub.pump();
            done(&s) || hub.reqs.len() > 0
        });
        check(ok && !done(&s), "a call connects as soon as it can");
        let (c, id) = hub.take("svc", &b);
        let r = hub.answer(c, id);
        got(&s, &r);
        return;
    }
    check(model::run_until(100 * SEC, || done(&s)), "a call without a host ends");
    check(kind(&s) == 3, "a call without a host fails");
    cover("failed");
    let mut hub = Hub::new(8888);
    let s = call(&t, "svc", "e", "h", b.clone());
    let ok = model::run_until(100 * SEC, || {
        hub.pump();
        done(&s) || hub.reqs.len() > 0
    });
    check(ok && !done(&s), "a later call connects");
    let (c, id) = hub.take("svc", &b);
    let r = hub.answer(c, id);
    got(&s, &r);
}

/// One host cannot be reached (param0: 0 nobody listens, 1 it never answers the handshake, 2 it never answers the request):
/// calls to another one succeed meanwhile. param1: delays
fn pool_dead() {
    let t = Rc::new(TChannel::new(config(1, 4, 1, false)).unwrap());
    let dead = if param(0) > 0 { Some(Listener::bind(std::net::SocketAddr::from(([127, 0, 0, 1], 8889)))) } else { None };
    let mut hub = Hub::new(8888);
    model::configure(param(1), 0);
    let mut ends = vec![];
    let lost = call_to(&t, "svc", "127.0.0.1:8889", vec![1]);
    for _ in 0..conc(choose(3, "first")) {
        model::step();
    }
    if conc(choose(2, "more")) == 1 {
        ends.push(call_to(&t, "svc", "127.0.0.1:8889", vec![2]));
    }
    let mut held = None;
    for k in 0..2 {
        let b = sym_bytes(1, "req");
        let s = call_to(&t, ["svc", "other"][k], "127.0.0.1:8888", b.clone());
        if param(0) > 1 && held.is_none() {
            model::run_until_idle();
            let mut n = Net::new(dead.as_ref().unwrap().accept().unwrap());
            let f = n.frames();
            n.send(&F::new(f[0].id, 2, init_payload(2)));
            held = Some(n);
        } else if param(0) == 1 && held.is_none() {
            model::run_until_idle();
            held = Some(Net::new(dead.as_ref().unwrap().accept().unwrap()));
        }
        hub.pump();
        let (c, id) = hub.take(["svc", "other"][k], &b);
        let r = hub.answer(c, id);
        got(&s, &r);
        check(hub.conns.len() == 1, "one connection per host");
        check(!done(&lost) && ends.iter().all(|e| !done(e)), "a call waits for its host");
    }
    if param(0) == 2 {
        let n = held.as_mut().unwrap();
        let fs = n.frames();
        check(fs.len() == 1 + ends.len() && fs.iter().all(|f| f.code == 3), "requests go to their host");
        for f in fs {
            n.send(&message(f.id, false, &res_fields(0, "raw"), &split(&[b"e".to_vec(), b"h".to_vec(), b"x".to_vec()], 1))[0]);
        }
        hub.pump();
        check(kind(&lost) == 1 && ends.iter().all(|e| kind(e) == 1), "answered calls succeed");
        cover("answered");
    }
    cover("others");
}

/// param0 calls at once, each to any of two hosts. param1: connections per host, param2: delays, param3: preemptions
fn pool_many() {
    let names = ["127.0.0.1:8888", "127.0.0.1:8889"];
    let mut hubs = [Hub::new(8888), Hub::new(8889)];
    let t = Rc::new(TChannel::new(config(param(1) as u32, 4, 1, false)).unwrap());
    model::configure(param(2), param(3));
    let mut calls: Vec<(usize, Slot, u8)> = vec![];
    for k in 0..param(0) {
        let h = conc(choose(2, "host"));
        calls.push((h, call_to(&t, "svc", names[h], vec![k as u8]), k as u8));
    }
    for _ in 0..2 {
        hubs[0].pump();
        hubs[1].pump();
    }
    for h in 0..2 {
        let mine: Vec<&(usize, Slot, u8)> = calls.iter().filter(|c| c.0 == h).collect();
        check(hubs[h].reqs.len() == mine.len(), "every request goes to its host, once");
        check(hubs[h].conns.len() <= param(1) && (mine.is_empty() || hubs[h].conns.len() > 0), "no more connections than configured");
        let reqs: Vec<(usize, F)> = hubs[h].reqs.drain(..).collect();
        for (c, f) in reqs {
            let r = read_request(std::slice::from_ref(&f)).unwrap();
            let who: Vec<&&(usize, Slot, u8)> = mine.iter().filter(|m| m.2 == r.args[2][0]).collect();
            check(who.len() == 1 && !done(&who[0].1), "a request of a call to this host");
            let b = hubs[h].answer(c, f.id);
            got(&who[0].1, &b);
        }
    }
    check(calls.iter().all(|c| done(&c.1)), "all calls end");
    cover(if calls.iter().any(|c| c.0 == 0) && calls.iter().any(|c| c.0 == 1) { "both" } else { "one" });
}

/// Any sequence of param0 calls, each to a list of addresses of two hosts: the first one is called, no address is an error.
/// param1: delays, param2: 1 if several calls are open at once, param3: what the addresses differ in
fn pool_addrs() {
    use std::net::{Ipv6Addr, SocketAddr, SocketAddrV6};
    let v4 = |a: u8, d: u8, port: u16| SocketAddr::from(([a, 0, 0, d], port));
    let v6 = |port: u16, scope: u32| SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::LOCALHOST, port, 0, scope));
    let addrs = match param(3) {
        0 => [v4(127, 1, 8888), v4(127, 2, 8888)],
        1 => [v4(127, 1, 8888), v4(127, 1, 8889)],
        2 => [v4(127, 1, 8888), v6(8888, 0)],
        3 => [v4(127, 1, 8888), v4(10, 1, 8888)],
        4 => [v6(8888, 0), v6(8889, 0)],
        5 => [v6(8888, 1), v6(8888, 2)],
        _ => [v4(127, 1, 80), v4(192, 1, 40000)],
    };
    let mut hubs = [Hub::on(addrs[0]), Hub::on(addrs[1])];
    let t = Rc::new(TChannel::new(config(1, 4, 1, false)).unwrap());
    model::configure(param(1), 0);
    let mut open: Vec<(usize, usize, u32, Slot)> = vec![];
    for _ in 0..param(0) {
        let list: Vec<usize> = [&[][..], &[0], &[1], &[0, 1], &[1, 0], &[0, 0]][conc(choose(6, "list"))].to_vec();
        let hosts: Vec<std::net::SocketAddr> = list.iter().map(|k| addrs[*k]).collect();
        let b = sym_bytes(2, "req");
        let s: Slot = Rc::default();
        let (o, t, m) = (s.clone(), t.clone(), RawMessage::new("e".into(), "h".into(), Bytes::from(b.clone())));
        model::spawn_local(async move {
            let sub = t.subchannel("svc").await.unwrap();
            let r: HandlerResult<RawMessage> = MessageChannel::send(&*sub, m, &hosts[..]).await;
            *o.borrow_mut() = Some(out_of(r));
        });
        hubs[0].pump();
        hubs[1].pump();
        hubs[0].pump();
        let h = match list.first() {
            Some(h) => *h,
            None => {
                check(done(&s) && kind(&s) == 3, "a call without a host fails");
                check(hubs.iter().all(|h| h.reqs.is_empty()), "a call without a host sends nothing");
                cover("none");
                continue;
            }
        };
        check(hubs[1 - h].reqs.is_empty(), "a request goes to its host only");
        let (c, id) = hubs[h].take("svc", &b);
        check(hubs[h].conns.len() == 1, "one connection per host");
        if list.len() > 1 {
            cover("several");
        }
        if param(2) == 1 {
            open.push((h, c, id, s));
        } else {
            let r = hubs[h].answer(c, id);
            got(&s, &r);
        }
    }
    for (h, c, id, s) in open {
        check(!done(&s), "a call waits for its response");
        let r = hubs[h].answer(c, id);
        got(&s, &r);
    }
}

/// Calls to many hosts, several rounds. param0: hosts at least, param1: numbers of hosts, param2: rounds, param3: 1 if the calls are made at once
fn pool_crowd() {
    let n = param(0) + conc(choose(param(1), "n"));
    let mut hubs: Vec<Hub> = (0..n).map(|k| Hub::at((k % 100) as u8 + 1, 8000 + (k / 100) as u16 + (k % 3) as u16 * 10)).collect();
    let names: Vec<&'static str> =
        (0..n).map(|k| -> &'static str { Box::leak(format!("127.0.0.{}:{}", k % 100 + 1, 8000 + k / 100 + k % 3 * 10).into_boxed_str()) }).collect();
    let t = Rc::new(TChannel::new(config(1, 4, 1, false)).unwrap());
    let x = sym_u8("x");
    for round in 0..param(2) {
        let who: Vec<usize> = if round % 2 == 0 { (0..n).collect() } else { (0..n).rev().collect() };
        let mut slots: Vec<(usize, Slot)> = vec![];
        for k in who {
            slots.push((k, call_to(&t, "svc", names[k], vec![x, k as u8, round as u8])));
            if param(3) == 0 {
                hubs[k].pump();
            }
        }
        for _ in 0..2 {
            for h in hubs.iter_mut() {
                h.pump();
            }
        }
        for (k, s) in slots {
            check(!done(&s), "a call waits for its response");
            let (c, id) = hubs[k].take("svc", &[x, k as u8, round as u8]);
            check(hubs[k].conns.len() == 1, "one connection per host, which gets reused");
            let r = hubs[k].answer(c, id);
            got(&s, &r);
        }
    }
    check(hubs.iter().all(|h| h.conns.len() == 1 && !h.conns[0].peer.eof()), "connections stay open");
    cover("all");
    log("n", n as u64);
}

/// Any sequence of param0 calls, answers and times which pass. param1: connections, param2: delays, param3: 1 if connections are tested
/// Connections older than their lifetime (one minute, looked at every half) get replaced; calls over them still end with their responses.
fn pool_age() {
    let mut hub = Hub::new(8888);
    let max = param(1);
    let t = Rc::new(TChannel::new(config(max as u32, 4, 1, param(3) == 1)).unwrap());
    model::configure(param(2), 0);
    let mut now = 0u64;
    let mut born: Vec<u64> = vec![];
    let mut open: Vec<(usize, u32, Slot)> = vec![];
    for step in 0..param(0) + 2 {
        // (every history ends with a call and an answer to everything)
        let op = if step < param(0) { conc(choose(if open.is_empty() { 3 } else { 4 }, "op")) } else { 0 };
        match op {
            0 => {
                let old = hub.conns.len();
                let b = sym_bytes(1, "req");
                let s = call(&t, "svc", "e", "h", b.clone());
                hub.pump();
                check(!done(&s), "a call waits for its response");
                let (c, id) = hub.take("svc", &b);
                born.resize(hub.conns.len(), now);
                check(now - born[c] < 100, "a connection older than its lifetime is not used");
                check(!hub.conns[c].peer.eof() && !hub.conns[c].peer.gone(), "a request is sent over an open connection");
                let usable = born[..old].iter().filter(|b| now - **b < 60).count();
                if usable > 0 {
                    check(hub.conns.len() == old, "a connection gets reused");
                    cover("reused");
                } else if old > 0 {
                    cover("replaced");
                }
                open.push((c, id, s));
            }
            3 => {
                let (c, id, s) = open.remove(conc(choose(open.len(), "who")));
                check(!done(&s), "a call waits for its response");
                if now - born[c] > 100 {
                    cover("late");
                }
                let r = hub.answer(c, id);
                got(&s, &r);
            }
            k => {
                let d = [0, 20, 130][k];
                model::pass(d * 1_000_000_000);
                now += d;
                hub.pump();
            }
        }
        for c in 0..hub.conns.len() {
            let busy = open.iter().any(|o| o.0 == c);
            let eof = hub.conns[c].peer.eof();
            if now - born[c] < 60 || busy {
                check(!eof, "a connection is kept for its lifetime and for its calls");
            }
            if now - born[c] > 100 && !busy {
                check(eof, "a connection older than its lifetime is closed");
                hub.conns[c].peer.shutdown();
                hub.pump();
                cover("closed");
            }
        }
        let n = (0..hub.conns.len()).filter(|c| now - born[*c] < 100 && !hub.conns[*c].peer.eof()).count();
        check(n <= max, "no more connections than configured");
        log("conns", hub.conns.len() as u64);
    }
    while !open.is_empty() {
        let (c, id, s) = open.pop().unwrap();
        let r = hub.answer(c, id);
        got(&s, &r);
    }
}

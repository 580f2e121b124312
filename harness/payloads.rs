//! Payload codecs: C04, C05, C06.
#[path = "/verif/harness/common.rs"]
pub mod common;
use crate::frames::payloads::*;
use crate::messages::args::ResponseCode;
use common::*;
use num_traits::FromPrimitive;

crate::entries!(enc_init, enc_request, enc_response, enc_continue, enc_cancel, enc_claim, enc_error, enc_limits, enc_args_limit, dec_init, dec_request, dec_response, dec_continue, dec_cancel, dec_claim, dec_error, enc_many);

// ---- codes by the names of the protocol

fn error_code(c: &ErrorCode) -> u8 {
    match c {
        ErrorCode::Invalid => 0,
        ErrorCode::Timeout => 1,
        ErrorCode::Cancelled => 2,
        ErrorCode::Busy => 3,
        ErrorCode::Declined => 4,
        ErrorCode::UnexpectedError => 5,
        ErrorCode::BadRequest => 6,
        ErrorCode::NetworkError => 7,
        ErrorCode::Unhealthy => 8,
        ErrorCode::FatalProtocolError => 0xff,
        #[allow(unreachable_patterns)]
        _ => 254,
    }
}
fn checksum_code(c: &ChecksumType) -> u8 {
    match c {
        ChecksumType::None => 0,
        ChecksumType::Crc32 => 1,
        ChecksumType::Farmhash => 2,
        ChecksumType::Crc32C => 3,
        #[allow(unreachable_patterns)]
        _ => 254,
    }
}
fn response_code(c: &ResponseCode) -> u8 {
    match c {
        ResponseCode::Ok => 0,
        ResponseCode::Error => 1,
        #[allow(unreachable_patterns)]
        _ => 254,
    }
}
fn named_flags(f: &Flags) -> bool {
    f.contains(Flags::MORE_FRAGMENTS_FOLLOW) == (f.bits() & 1 == 1) && f.contains(Flags::IS_REQUEST_STREAMING) == (f.bits() & 2 == 2)
}
fn named_trace_flags(f: &TraceFlags) -> bool {
    f.contains(TraceFlags::ENABLED) == (f.bits() & 1 == 1)
}

#[derive(Clone, Copy)]
struct Tr(u64, u64, u64, u8);

fn sym_tracing() -> (Tr, Tracing) {
    let t = Tr(sym_u64("span"), sym_u64("parent"), sym_u64("trace"), sym_u8("tflags"));
    let f = match TraceFlags::from_bits(t.3) {
        Some(f) => f,
        None => {
            vk::stop();
            unreachable!()
        }
    };
    (t, Tracing::new(t.0, t.1, t.2, f))
}
fn wr_tracing(w: Wr, t: Tr) -> Wr {
    w.num(t.0, 8).num(t.1, 8).num(t.2, 8).num(t.3 as u64, 1)
}
fn same_tracing(a: &Tracing, t: Tr) -> bool {
    *a.span_id() == t.0 && *a.parent_id() == t.1 && *a.trace_id() == t.2 && a.trace_flags().bits() == t.3 && named_trace_flags(a.trace_flags())
}

/// `n` headers, keys of `k` and values of `v` bytes.
fn sym_headers(n: usize, k: usize, v: usize) -> (Vec<(String, String)>, HashMap<String, String>) {
    let mut l: Vec<(String, String)> = vec![];
    let mut m = HashMap::new();
    for i in 0..n {
        let key = if i == 0 { sym_str(k, "hk") } else { sym_ascii(k, "hk") };
        let val = sym_ascii(v, "hv");
        for (o, _) in l.iter() {
            assume(!vk::eq(o.as_bytes(), key.as_bytes()));
        }
        l.push((key.clone(), val.clone()));
        m.insert(key, val);
    }
    (l, m)
}
/// Headers in the order in which they got written.
fn wr_headers(w: Wr, l: &[(String, String)], width: usize, swidth: usize, got: &[u8]) -> Wr {
    let w = w.num(l.len() as u64, width);
    let fwd = l.iter().fold(Wr(w.0.clone()), |w, (k, v)| w.text(k, swidth).text(v, swidth));
    if l.len() > 1 && !(got.len() >= fwd.0.len() && vk::eq(&got[..fwd.0.len()], &fwd.0)) {
        return l.iter().rev().fold(w, |w, (k, v)| w.text(k, swidth).text(v, swidth));
    }
    fwd
}
fn same_headers(m: &HashMap<String, String>, l: &[(String, String)]) -> bool {
    m.len() == l.len() && l.iter().all(|(k, v)| m.get(k.as_str()).map(|x| vk::eq(x.as_bytes(), v.as_bytes())).unwrap_or(false))
}

fn sym_flags() -> (u8, Flags) {
    let b = sym_u8("flags");
    match Flags::from_bits(b) {
        Some(f) => (b, f),
        None => {
            vk::stop();
            unreachable!()
        }
    }
}

/// Arguments with lengths given by the digits of `spec` (9: absent), e.g. 3 digits for 3 args; any checksum.
fn sym_args(spec: usize) -> (u8, u32, Vec<Vec<u8>>, CallArgs) {
    let ct = sym_u8("ctype");
    let t: ChecksumType = match ChecksumType::from_u8(ct) {
        Some(t) => t,
        None => {
            vk::stop();
            unreachable!()
        }
    };
    let sum = sym_u32("sum");
    let mut args = VecDeque::new();
    let mut plain = vec![];
    let mut s = spec;
    while s > 0 {
        let n = s % 10;
        s /= 10;
        if n == 9 {
            args.push_back(None);
            plain.push(vec![]);
        } else {
            let b = sym_bytes(n, "arg");
            args.push_back(Some(Bytes::from(b.clone())));
            plain.push(b);
        }
    }
    let v = if t == ChecksumType::None { None } else { Some(sum) };
    (ct, sum, plain, CallArgs::new(t, v, args))
}
fn wr_args(w: Wr, ct: u8, sum: u32, plain: &[Vec<u8>]) -> Wr {
    let mut w = w.num(ct as u64, 1);
    if ct != 0 {
        w = w.num(sum as u64, 4);
    }
    plain.iter().fold(w, |w, a| w.num(a.len() as u64, 2).raw(a))
}
fn same_args(a: &CallArgs, ct: u8, sum: u32, plain: &[Vec<u8>]) -> bool {
    if *a.checksum_type() as u8 != ct || checksum_code(a.checksum_type()) != ct || *a.checksum() != (if ct == 0 { None } else { Some(sum) }) || a.args().len() != plain.len() {
        return false;
    }
    a.args().iter().zip(plain).all(|(x, y)| match x {
        Some(x) => !y.is_empty() && vk::eq(x, y),
        None => y.is_empty(),
    })
}

fn encoded<C: Codec>(c: C) -> Vec<u8> {
    match c.encode_bytes() {
        Ok(b) => b.to_vec(),
        Err(_) => {
            check(false, "a payload within the limits gets encoded");
            vec![]
        }
    }
}
fn decoded<C: Codec>(b: &[u8]) -> C {
    let mut src = Bytes::from(b.to_vec());
    match C::decode(&mut src) {
        Ok(c) => {
            check(src.is_empty(), "the whole payload is consumed");
            c
        }
        Err(_) => {
            check(false, "an encoded payload decodes");
            unreachable!()
        }
    }
}

/// params: headers, key len, value len
fn enc_init() {
    let version = sym_u16("version");
    let (l, m) = sym_headers(param(0), param(1), param(2));
    let b = encoded(Init::new(version, m));
    let e = wr_headers(Wr::default().num(version as u64, 2), &l, 2, 2, &b);
    check(vk::eq(&b, &e.0), "layout: version, number of headers, headers");
    let d: Init = decoded(&b);
    check(*d.version() == version && same_headers(d.headers(), &l), "init survives");
    cover("roundtrip");
}

/// params: service len, headers, key len, value len, args
fn enc_request() {
    let (fb, flags) = sym_flags();
    let ttl = sym_u32("ttl");
    let (t, tracing) = sym_tracing();
    let service = sym_str(param(0), "service");
    let (l, m) = sym_headers(param(1), param(2), param(3));
    let (ct, sum, plain, args) = sym_args(param(4));
    let b = encoded(CallRequest::new(flags, CallRequestFields::new(ttl, tracing, service.clone(), m), args));
    let w = wr_tracing(Wr::default().num(fb as u64, 1).num(ttl as u64, 4), t).text(&service, 1);
    let w = wr_args(wr_headers(w, &l, 1, 1, &b), ct, sum, &plain);
    check(vk::eq(&b, &w.0), "layout: flags, ttl, tracing, service, headers, checksum, args");
    let mut d: CallRequest = decoded(&b);
    check(d.flags.bits() == fb && named_flags(&d.flags), "flags survive");
    check(*d.fields.ttl() == ttl, "ttl survives");
    check(same_tracing(d.fields.tracing(), t), "tracing survives");
    check(vk::eq(d.fields.service().as_bytes(), service.as_bytes()), "service survives");
    check(same_headers(d.fields.headers(), &l), "headers survive");
    check(same_args(d.args_mut(), ct, sum, &plain), "args survive");
    cover("roundtrip");
    log("ttl", ttl as u64);
}

/// params: headers, key len, value len, args
fn enc_response() {
    let (fb, flags) = sym_flags();
    let code = sym_u8("code");
    let rc: ResponseCode = match ResponseCode::from_u8(code) {
        Some(c) => c,
        None => {
            check(code > 1, "0 and 1 are response codes");
            return;
        }
    };
    let (t, tracing) = sym_tracing();
    let (l, m) = sym_headers(param(0), param(1), param(2));
    let (ct, sum, plain, args) = sym_args(param(3));
    let b = encoded(CallResponse::new(flags, CallResponseFields::new(rc, tracing, m), args));
    let w = wr_tracing(Wr::default().num(fb as u64, 1).num(code as u64, 1), t);
    let w = wr_args(wr_headers(w, &l, 1, 1, &b), ct, sum, &plain);
    check(vk::eq(&b, &w.0), "layout: flags, code, tracing, headers, checksum, args");
    let mut d: CallResponse = decoded(&b);
    check(d.flags.bits() == fb && named_flags(&d.flags), "flags survive");
    check(*d.fields.code() as u8 == code && response_code(d.fields.code()) == code, "code survives");
    check(same_tracing(d.fields.tracing(), t), "tracing survives");
    check(same_headers(d.fields.headers(), &l), "headers survive");
    check(same_args(d.args_mut(), ct, sum, &plain), "args survive");
    cover("roundtrip");
}

/// params: args
fn enc_continue() {
    let (fb, flags) = sym_flags();
    let (ct, sum, plain, args) = sym_args(param(0));
    let b = encoded(CallContinue::new(flags, args));
    let w = wr_args(Wr::default().num(fb as u64, 1), ct, sum, &plain);
    check(vk::eq(&b, &w.0), "layout: flags, checksum, args");
    let mut d: CallContinue = decoded(&b);
    check(d.flags().bits() == fb && named_flags(d.flags()), "flags survive");
    check(same_args(d.args_mut(), ct, sum, &plain), "args survive");
    cover("roundtrip");
}

/// params: reason len
fn enc_cancel() {
    let ttl = sym_u32("ttl");
    let (t, tracing) = sym_tracing();
    let why = sym_str(param(0), "why");
    let b = encoded(Cancel::new(ttl, tracing, why.clone()));
    let w = wr_tracing(Wr::default().num(ttl as u64, 4), t).text(&why, 2);
    check(vk::eq(&b, &w.0), "layout: ttl, tracing, why");
    let d: Cancel = decoded(&b);
    check(*d.ttl() == ttl && same_tracing(d.tracing(), t) && vk::eq(d.why().as_bytes(), why.as_bytes()), "cancel survives");
    cover("roundtrip");
}

fn enc_claim() {
    let ttl = sym_u32("ttl");
    let (t, tracing) = sym_tracing();
    let b = encoded(Claim::new(ttl, tracing));
    let w = wr_tracing(Wr::default().num(ttl as u64, 4), t);
    check(vk::eq(&b, &w.0), "layout: ttl, tracing");
    let d: Claim = decoded(&b);
    check(*d.ttl() == ttl && same_tracing(d.tracing(), t), "claim survives");
    cover("roundtrip");
}

fn is_error_code(c: u8) -> bool {
    c <= 8 || c == 0xff
}

/// params: message len
fn enc_error() {
    let code = sym_u8("code");
    let c: ErrorCode = match ErrorCode::from_u8(code) {
        Some(c) => c,
        None => {
            check(!is_error_code(code), "error codes of the protocol are known");
            return;
        }
    };
    check(is_error_code(code), "only error codes of the protocol are known");
    check(error_code(&c) == code, "an error code has the number of its name");
    let (t, tracing) = sym_tracing();
    let msg = sym_str(param(0), "msg");
    let b = encoded(ErrorMsg::new(c, tracing, msg.clone()));
    let w = wr_tracing(Wr::default().num(code as u64, 1), t).text(&msg, 2);
    check(vk::eq(&b, &w.0), "layout: code, tracing, message");
    let d: ErrorMsg = decoded(&b);
    check(d == ErrorMsg::new(c, Tracing::new(t.0, t.1, t.2, TraceFlags::from_bits(t.3).unwrap()), msg), "error survives");
    cover("roundtrip");
}

/// What does not fit its length field is an error, never a wrapped length.
fn enc_limits() {
    let n = param(0); // length of a string in bytes, of characters of param1 + 1 bytes
    let w = param(1) + 1;
    check(n % w == 0, "parameters");
    let s = ["x", "\u{e9}", "\u{20ac}", "\u{1f980}"][w - 1].repeat(n / w);
    let mut m = HashMap::new();
    m.insert("as".to_string(), "raw".to_string());
    let args = || {
        let mut a = VecDeque::new();
        a.push_back(None);
        CallArgs::new(ChecksumType::None, None, a)
    };
    let tr = || Tracing::new(0, 0, 0, TraceFlags::NONE);
    let small = n <= 255;
    let r = CallRequest::new(Flags::NONE, CallRequestFields::new(1, tr(), s.clone(), m.clone()), args()).encode_bytes();
    check(r.is_ok() == small, "service name of at most 255 bytes");
    let mut k = HashMap::new();
    k.insert(s.clone(), "v".to_string());
    let r = CallRequest::new(Flags::NONE, CallRequestFields::new(1, tr(), "s".into(), k), args()).encode_bytes();
    check(r.is_ok() == small, "header key of at most 255 bytes");
    let mut k = HashMap::new();
    k.insert("k".to_string(), s.clone());
    let r = CallResponse::new(Flags::NONE, CallResponseFields::new(ResponseCode::Ok, tr(), k.clone()), args()).encode_bytes();
    check(r.is_ok() == small, "header value of at most 255 bytes");
    let big = n <= 65535;
    let r = Init::new(2, k).encode_bytes();
    check(r.is_ok() == big, "init header value of at most 65535 bytes");
    let r = Cancel::new(2, tr(), s.clone()).encode_bytes();
    check(r.is_ok() == big, "cancel reason of at most 65535 bytes");
    let r = ErrorMsg::new(ErrorCode::Busy, tr(), s.clone()).encode_bytes();
    check(r.is_ok() == big, "error message of at most 65535 bytes");
    if let Ok(b) = r {
        let mut r = Rd::new(&b);
        check(r.take(26).is_some() && r.text(2).map(|t| t == s) == Some(true) && r.left() == 0, "a string after the number of its bytes");
    }
    for k in 0..5 {
        let mut a = VecDeque::new();
        for _ in 0..k {
            a.push_back(Some(Bytes::from_static(b"a")));
        }
        let r = CallContinue::new(Flags::NONE, CallArgs::new(ChecksumType::None, None, a)).encode_bytes();
        check(r.is_ok() == (k >= 1 && k <= 3), "1 to 3 args in a frame");
    }
    cover("limits");
}

/// param0 headers in an init (param1: 0), call request (1) or call response (2).
fn enc_many() {
    let n = param(0);
    let mark = sym_u8("mark");
    assume(mark < 0x80);
    let val = |k: usize| String::from_utf8(vec![b'v', b'0' + (k % 10) as u8]).unwrap() + unsafe { std::str::from_utf8_unchecked(std::slice::from_ref(&mark)) };
    let mut m = HashMap::new();
    for k in 0..n {
        m.insert(format!("k{}", k), val(k));
    }
    let args = || {
        let mut a = VecDeque::new();
        a.push_back(Some(Bytes::from_static(b"arg")));
        CallArgs::new(ChecksumType::None, None, a)
    };
    let tr = || Tracing::new(1, 2, 3, TraceFlags::NONE);
    let same = |h: &HashMap<String, String>| {
        check(h.len() == n, "number of headers");
        for k in 0..n {
            check(h.get(&format!("k{}", k)).map(|v| vk::eq(v.as_bytes(), val(k).as_bytes())) == Some(true), "headers survive");
        }
    };
    let r = match param(1) {
        0 => Init::new(2, m).encode_bytes(),
        1 => CallRequest::new(Flags::NONE, CallRequestFields::new(1, tr(), "s".into(), m), args()).encode_bytes(),
        _ => CallResponse::new(Flags::NONE, CallResponseFields::new(ResponseCode::Ok, tr(), m), args()).encode_bytes(),
    };
    let fits = n <= if param(1) == 0 { 65535 } else { 255 };
    check(r.is_ok() == fits, "headers get encoded exactly if their number fits in its field");
    let b = match r {
        Ok(b) => b.to_vec(),
        Err(_) => {
            cover("refused");
            return;
        }
    };
    let mut r = Rd::new(&b);
    let (skip, w) = match param(1) {
        0 => (2, 2),
        1 => (1 + 4 + 25 + 2, 1),
        _ => (1 + 1 + 25, 1),
    };
    r.take(skip);
    check(r.num(w) == Some(n as u64), "the number of headers is written");
    for _ in 0..n {
        let sw = w;
        let (k, v) = (r.text(sw), r.text(sw));
        check(k.is_some() && v.is_some(), "a header is written");
        let k: usize = k.unwrap()[1..].parse().unwrap();
        check(v.map(|v| vk::eq(v.as_bytes(), val(k).as_bytes())) == Some(true), "a header is written");
    }
    match param(1) {
        0 => {
            check(r.left() == 0, "nothing follows");
            let d: Init = decoded(&b);
            same(d.headers());
        }
        1 => {
            check(r.num(1) == Some(0) && r.text(2) == Some("arg") && r.left() == 0, "args follow");
            let mut d: CallRequest = decoded(&b);
            same(d.fields.headers());
            check(d.args_mut().args().len() == 1, "args survive");
        }
        _ => {
            check(r.num(1) == Some(0) && r.text(2) == Some("arg") && r.left() == 0, "args follow");
            let mut d: CallResponse = decoded(&b);
            same(d.fields.headers());
            check(d.args_mut().args().len() == 1, "args survive");
        }
    }
    cover("roundtrip");
}

// ---- decoding of arbitrary bytes against the independent reader

fn rd_tracing(r: &mut Rd) -> Option<Tr> {
    let t = Tr(r.num(8)?, r.num(8)?, r.num(8)?, r.num(1)? as u8);
    if t.3 > 1 {
        return None;
    }
    Some(t)
}
fn rd_args<'a>(r: &mut Rd<'a>) -> Option<(u8, u32, Vec<&'a [u8]>)> {
    let ct = r.num(1)? as u8;
    if ct > 3 {
        return None;
    }
    let sum = if ct == 0 { 0 } else { r.num(4)? as u32 };
    let mut v = vec![];
    if r.left() == 0 {
        return None;
    }
    while r.left() > 0 && v.len() < 3 {
        let n = r.num(2)? as usize;
        v.push(r.take(n)?);
    }
    if r.left() > 0 {
        return None;
    }
    Some((ct, sum, v))
}
fn same_args_rd(a: &CallArgs, e: &(u8, u32, Vec<&[u8]>)) -> bool {
    let plain: Vec<Vec<u8>> = e.2.iter().map(|x| x.to_vec()).collect();
    same_args(a, e.0, e.1, &plain)
}
fn same_headers_rd(m: &HashMap<String, String>, l: &[(&str, &str)]) -> bool {
    m.len() == l.len() && l.iter().all(|(k, v)| m.get(*k).map(|x| vk::eq(x.as_bytes(), v.as_bytes())).unwrap_or(false))
}

/// Bytes: the first `param0` arbitrary, or with a fixed structure chosen by the harness.
fn any() -> Vec<u8> {
    rest()
}
/// `param0` arbitrary bytes, below 0x80 if param2 is 1 (then every string is valid).
fn rest() -> Vec<u8> {
    let b = sym_bytes(param(0), "b");
    if param(2) == 1 {
        for x in b.iter() {
            assume(*x < 0x80);
        }
    }
    b
}

fn outcome<T, E>(got: &Result<T, E>, expected: bool) {
    match got {
        Ok(_) => {
            check(expected, "a malformed payload is rejected");
            cover("accepted");
            log("ok", 1);
        }
        Err(_) => {
            check(!expected, "a well formed payload is accepted");
            cover("rejected");
            log("ok", 0);
        }
    }
}

fn dec_init() {
    let b = any();
    let mut r = Rd::new(&b);
    let e = (|| {
        let v = r.num(2)? as u16;
        let h = r.headers(2, 2)?;
        Some((v, h))
    })();
    let got = Init::decode(&mut Bytes::from(b.clone()));
    outcome(&got, e.is_some());
    if let (Ok(g), Some(e)) = (got, e) {
        check(*g.version() == e.0, "version");
        check(same_headers_rd(g.headers(), &e.1), "headers");
    }
}

/// param1: 1 if tracing and ttl are zero (to reach further with the same number of symbolic bytes)
fn call_bytes(fixed: usize) -> Vec<u8> {
    // fixed prefix of the payload (after the symbolic flags) with the symbolic rest
    let mut v = vec![sym_u8("b")];
    for k in 0..fixed {
        v.push(if k + 1 == fixed { sym_u8("b") } else { 7 });
    }
    v.extend(rest());
    v
}

fn dec_request() {
    // flags, ttl:4, tracing:25 (trace flags symbolic), the rest
    let b = if param(1) == 0 { any() } else { call_bytes(29) };
    let mut r = Rd::new(&b);
    let e = (|| {
        let f = r.num(1)? as u8;
        if f > 3 {
            return None;
        }
        let ttl = r.num(4)? as u32;
        let t = rd_tracing(&mut r)?;
        let s = r.text(1)?;
        let h = r.headers(1, 1)?;
        Some((f, ttl, t, s, h, rd_args(&mut r)?))
    })();
    let got = CallRequest::decode(&mut Bytes::from(b.clone()));
    outcome(&got, e.is_some());
    if let (Ok(mut g), Some(e)) = (got, e) {
        check(g.flags.bits() == e.0 && named_flags(&g.flags), "flags");
        check(*g.fields.ttl() == e.1, "ttl");
        check(same_tracing(g.fields.tracing(), e.2), "tracing");
        check(vk::eq(g.fields.service().as_bytes(), e.3.as_bytes()), "service");
        check(same_headers_rd(g.fields.headers(), &e.4), "headers");
        check(same_args_rd(g.args_mut(), &e.5), "args");
    }
}

fn dec_response() {
    let b = if param(1) == 0 {
        any()
    } else {
        let mut v = vec![sym_u8("b"), sym_u8("b")];
        v.extend_from_slice(&[7; 24]);
        v.push(sym_u8("b"));
        v.extend(rest());
        v
    };
    let mut r = Rd::new(&b);
    let e = (|| {
        let f = r.num(1)? as u8;
        if f > 3 {
            return None;
        }
        let code = r.num(1)? as u8;
        if code > 1 {
            return None;
        }
        let t = rd_tracing(&mut r)?;
        let h = r.headers(1, 1)?;
        Some((f, code, t, h, rd_args(&mut r)?))
    })();
    let got = CallResponse::decode(&mut Bytes::from(b.clone()));
    outcome(&got, e.is_some());
    if let (Ok(mut g), Some(e)) = (got, e) {
        check(g.flags.bits() == e.0 && named_flags(&g.flags), "flags");
        check(*g.fields.code() as u8 == e.1 && response_code(g.fields.code()) == e.1, "code");
        check(same_tracing(g.fields.tracing(), e.2), "tracing");
        check(same_headers_rd(g.fields.headers(), &e.3), "headers");
        check(same_args_rd(g.args_mut(), &e.4), "args");
    }
}

fn dec_continue() {
    let b = any();
    let mut r = Rd::new(&b);
    let e = (|| {
        let f = r.num(1)? as u8;
        if f > 3 {
            return None;
        }
        Some((f, rd_args(&mut r)?))
    })();
    let got = CallContinue::decode(&mut Bytes::from(b.clone()));
    outcome(&got, e.is_some());
    if let (Ok(mut g), Some(e)) = (got, e) {
        check(g.flags().bits() == e.0 && named_flags(g.flags()), "flags");
        check(same_args_rd(g.args_mut(), &e.1), "args");
    }
}

fn dec_cancel() {
    let b = any();
    let mut r = Rd::new(&b);
    let e = (|| Some((r.num(4)? as u32, rd_tracing(&mut r)?, r.text(2)?)))();
    let got = Cancel::decode(&mut Bytes::from(b.clone()));
    outcome(&got, e.is_some());
    if let (Ok(g), Some(e)) = (got, e) {
        check(*g.ttl() == e.0 && same_tracing(g.tracing(), e.1) && vk::eq(g.why().as_bytes(), e.2.as_bytes()), "cancel");
    }
}

fn dec_claim() {
    let b = any();
    let mut r = Rd::new(&b);
    let e = (|| Some((r.num(4)? as u32, rd_tracing(&mut r)?)))();
    let got = Claim::decode(&mut Bytes::from(b.clone()));
    outcome(&got, e.is_some());
    if let (Ok(g), Some(e)) = (got, e) {
        check(*g.ttl() == e.0 && same_tracing(g.tracing(), e.1), "claim");
    }
}

fn dec_error() {
    let b = any();
    let mut r = Rd::new(&b);
    let e = (|| {
        let c = r.num(1)? as u8;
        if !is_error_code(c) {
            return None;
        }
        Some((c, rd_tracing(&mut r)?, r.text(2)?))
    })();
    let got = ErrorMsg::decode(&mut Bytes::from(b.clone()));
    outcome(&got, e.is_some());
    if let (Ok(g), Some(e)) = (got, e) {
        let c = ErrorCode::from_u8(e.0).unwrap();
        check(error_code(&c) == e.0, "an error code has the number of its name");
        let x = ErrorMsg::new(c, Tracing::new(e.1 .0, e.1 .1, e.1 .2, TraceFlags::from_bits(e.1 .3).unwrap()), e.2.to_string());
        check(g == x, "error message");
    }
}

/// Args of `param0` + 0..`param1`, param2 and param3 bytes: refused, or with exact length fields.
fn enc_args_limit() {
    let lens = [param(0) + conc(choose(param(1), "len")), param(2), param(3)];
    let mut q = VecDeque::new();
    for (k, n) in lens.iter().enumerate() {
        q.push_back(Some(Bytes::from(vec![k as u8 + 1; *n])));
    }
    let args = CallArgs::new(ChecksumType::None, None, q);
    let tr = || Tracing::new(0, 0, 0, TraceFlags::NONE);
    let (fixed, r) = match conc(choose(4, "kind")) {
        0 => (0, CallContinue::new(Flags::NONE, args).encode_bytes()),
        1 => (32, CallRequest::new(Flags::NONE, CallRequestFields::new(1, tr(), "s".into(), HashMap::new()), args).encode_bytes()),
        2 => (27, CallResponse::new(Flags::NONE, CallResponseFields::new(ResponseCode::Ok, tr(), HashMap::new()), args).encode_bytes()),
        _ => (9, CallWithFieldsEncoded::new(Flags::NONE, Bytes::from(vec![7; 9]), args).encode_bytes()),
    };
    let total = 1 + fixed + 1 + 6 + lens[0] + lens[1] + lens[2];
    match r {
        Ok(b) => {
            check(total + 16 <= 65535, "a payload which does not fit in a frame is refused");
            check(b.len() == total, "length of the payload");
            let mut r = Rd::new(&b);
            r.i = 1 + fixed;
            check(r.num(1) == Some(0), "no checksum");
            for (k, n) in lens.iter().enumerate() {
                let l = r.num(2).unwrap() as usize;
                check(l == *n, "the length field of an arg is its length");
                check(r.take(l).map(|a| a.iter().all(|x| *x == k as u8 + 1)) == Some(true), "bytes of an arg");
            }
            cover("written");
            log("ok", 1);
        }
        Err(_) => {
            check(total + 16 > 65534, "a payload which fits is written");
            cover("refused");
            log("ok", 0);
        }
    }
}

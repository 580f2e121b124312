//! Messages and their args: C18.
#[path = "/verif/harness/common.rs"]
pub mod common;
use crate::frames::headers::ArgSchemeValue;
use crate::messages::args::MessageArgs;
use crate::messages::{JsonMessage, RawMessage};
use common::*;
use serde_json::{Map, Number, Value};

crate::entries!(raw_roundtrip, raw_any, json_roundtrip, json_any, json_texts, json_values, json_floats, scheme_any);

fn scheme(k: usize) -> ArgSchemeValue {
    match k {
        0 => ArgSchemeValue::Raw,
        1 => ArgSchemeValue::Json,
        2 => ArgSchemeValue::Http,
        3 => ArgSchemeValue::Thrift,
        _ => ArgSchemeValue::StreamingThrift,
    }
}

/// Endpoint, header and body of param0, param1, param2 bytes.
fn raw_roundtrip() {
    let (e, h, b) = (sym_str(param(0), "e"), sym_str(param(1), "h"), sym_bytes(param(2), "b"));
    let m = RawMessage::new(e.clone(), h.clone(), Bytes::from(b.clone()));
    let r: Result<MessageArgs, _> = m.try_into();
    let a = match r {
        Ok(a) => a,
        Err(_) => return check(false, "a raw message has args"),
    };
    check(a.arg_scheme == ArgSchemeValue::Raw && a.args.len() == 3, "three args of the raw scheme");
    check(vk::eq(&a.args[0], e.as_bytes()) && vk::eq(&a.args[1], h.as_bytes()) && vk::eq(&a.args[2], &b), "endpoint, header and body, in this order");
    match RawMessage::try_from(a) {
        Ok(m) => {
            check(vk::eq(m.endpoint().as_bytes(), e.as_bytes()) && vk::eq(m.header().as_bytes(), h.as_bytes()) && vk::eq(m.body(), &b), "the message comes back");
            cover("roundtrip");
        }
        Err(_) => check(false, "args of a raw message are a raw message"),
    }
}

/// Any scheme and number of args (0..4), of param0 arbitrary bytes each.
fn raw_any() {
    let s = conc(choose(5, "scheme"));
    let n = conc(choose(5, "args"));
    let args: Vec<Vec<u8>> = (0..n).map(|_| sym_bytes(param(0), "a")).collect();
    let r = RawMessage::try_from(MessageArgs::new(scheme(s), args.iter().map(|a| Bytes::from(a.clone())).collect()));
    let text = |k: usize| args.get(k).map_or(true, |a| std::str::from_utf8(a).is_ok());
    let at = |k: usize| args.get(k).cloned().unwrap_or_default();
    let fine = s == 0 && text(0) && text(1);
    log("fine", fine as u64);
    match r {
        Ok(m) => {
            check(fine, "wrong scheme or text is rejected");
            check(vk::eq(m.endpoint().as_bytes(), &at(0)) && vk::eq(m.header().as_bytes(), &at(1)) && vk::eq(m.body(), &at(2)), "args in order");
            cover("accepted");
        }
        Err(_) => {
            check(!fine, "a proper message is accepted");
            cover("rejected");
        }
    }
}

fn value(kind: usize, n: usize) -> Value {
    match kind {
        0 => Value::String(sym_str(n, "s")),
        1 => Value::Bool(conc(choose(2, "bool")) == 1),
        2 => Value::Null,
        3 => Value::Number(Number::from(sym_u8("num") as u64)),
        4 => Value::Array(vec![Value::String(sym_str(n, "s")), Value::Null]),
        5 => {
            let mut m = Map::new();
            m.insert(sym_str(n, "k"), Value::Bool(true));
            Value::Object(m)
        }
        6 => Value::Number(Number::from(-1 - (sym_u8("num") as i64))),
        _ => Value::Number(Number::from_f64(conc(choose(8, "f")) as f64 * 0.25 - 0.5).unwrap()),
    }
}
/// Method of param0 bytes, a header and body of one entry each: keys and texts of param1 bytes, kinds param2 and param3 of values.
fn json_roundtrip() {
    let e = sym_str(param(0), "e");
    let mut h = Map::new();
    let mut b = Map::new();
    if param(2) < 9 {
        h.insert(sym_str(param(1), "k"), value(param(2), param(1)));
    }
    if param(3) < 9 {
        b.insert(sym_str(param(1), "k"), value(param(3), param(1)));
    }
    let m = JsonMessage::new(e.clone(), h.clone(), b.clone());
    let r: Result<MessageArgs, _> = m.try_into();
    let a = match r {
        Ok(a) => a,
        Err(_) => return check(false, "a json message has args"),
    };
    check(a.arg_scheme == ArgSchemeValue::Json && a.args.len() == 3, "three args of the json scheme");
    check(vk::eq(&a.args[0], e.as_bytes()), "the method is the first arg, as it is");
    check(a.args[1][0] == b'{' && a.args[2][0] == b'{', "objects");
    match JsonMessage::try_from(a) {
        Ok(m) => {
            check(vk::eq(m.method_name().as_bytes(), e.as_bytes()), "the method comes back");
            check(*m.headers() == h, "the headers come back");
            check(*m.body() == b, "the body comes back");
            cover("roundtrip");
        }
        Err(_) => check(false, "args of a json message are a json message"),
    }
}

/// Any scheme and number of args; the args are objects, or param0 arbitrary bytes.
fn json_any() {
    let s = conc(choose(5, "scheme"));
    let n = conc(choose(4, "args"));
    let which = conc(choose(4, "which"));
    let any = sym_bytes(param(0), "a");
    let objects: [&[u8]; 3] = [b"m", b"{\"a\":1}", b"{}"];
    let args: Vec<Bytes> = (0..n).map(|k| if k == which { Bytes::from(any.clone()) } else { Bytes::from_static(objects[k]) }).collect();
    let fine0 = n != 0 && which == 0 && std::str::from_utf8(&any).is_ok() || which != 0 || n == 0;
    let r = JsonMessage::try_from(MessageArgs::new(scheme(s), args));
    match r {
        Ok(m) => {
            check(s == 1 && n == 3 && fine0, "wrong scheme, missing objects or a method which is no text are rejected");
            if which == 1 || which == 2 {
                // an object has at least two bytes
                check(any.len() >= 2 && any.contains(&b'{') && any.contains(&b'}'), "what is no object is rejected");
            }
            if which != 1 {
                check(m.headers().len() == 1 && m.headers()["a"] == Value::from(1), "headers");
            }
            if which != 2 {
                check(m.body().is_empty(), "body");
            }
            if which == 0 {
                check(vk::eq(m.method_name().as_bytes(), &any), "method");
            } else {
                check(m.method_name() == "m", "method");
            }
            cover("accepted");
            log("ok", 1);
        }
        Err(_) => {
            check(!(s == 1 && n == 3 && fine0 && (which == 0 || which == 3)), "a proper message is accepted");
            cover("rejected");
            log("ok", 0);
        }
    }
}

/// Headers and body which are JSON but no object, or an object with something else around it.
fn json_texts() {
    let bad: [&[u8]; 16] = [b"null", b"true", b"0", b"12", b"-1.5", b"\"a\"", b"\"\"", b"[]", b"[{}]", b"{}{}", b"{} 1", b"{}}", b"{\"a\"}", b"{\"a\":}", b"{\"a\":1,}", b"{1:2}"];
    let good: [&[u8]; 6] = [b"{}", b" { } ", b"{\"b\":2}", b"\n{\"b\" : 2 }\t", b"{\"b\":1,\"b\":2}", b"{\"\\u0062\":2}"];
    let at = conc(choose(2, "at"));
    let k = conc(choose(bad.len() + good.len(), "text"));
    let t: &[u8] = if k < bad.len() { bad[k] } else { good[k - bad.len()] };
    let other: &[u8] = b"{\"a\":[null]}";
    let args = vec![Bytes::from_static(b"m"), Bytes::from_static(if at == 0 { t } else { other }), Bytes::from_static(if at == 1 { t } else { other })];
    match JsonMessage::try_from(MessageArgs::new(ArgSchemeValue::Json, args)) {
        Ok(m) => {
            check(k >= bad.len(), "what is no object is rejected");
            let (x, o) = if at == 0 { (m.headers(), m.body()) } else { (m.body(), m.headers()) };
            check(x.len() == (k - bad.len() > 1) as usize && x.values().all(|v| *v == Value::from(2)) && x.keys().all(|k| k == "b"), "the object is what was sent");
            check(o.len() == 1 && o["a"] == Value::Array(vec![Value::Null]), "the other one too");
            cover("accepted");
        }
        Err(_) => {
            check(k < bad.len(), "a proper message is accepted");
            cover("rejected");
        }
    }
}

/// Values which are easily lost: numbers at the ends of their ranges, characters which are escaped, nested and many entries.
fn json_values() {
    let num = |n: Number| Value::Number(n);
    let f = |x: f64| Value::Number(Number::from_f64(x).unwrap());
    let mut many = Map::new();
    for k in 0..40 {
        many.insert(format!("k{}", k), Value::from(k));
    }
    let mut deep = Value::from(1);
    for k in 0..20 {
        deep = if k % 2 == 0 { Value::Array(vec![deep, Value::Null]) } else { [(String::new(), deep)].into_iter().collect::<Map<String, Value>>().into() };
    }
    let values = vec![
        num(Number::from(u64::MAX)), num(Number::from(i64::MIN)), num(Number::from(i64::MAX)), num(Number::from((1u64 << 63) + 1)), num(Number::from((1u64 << 53) + 1)), num(Number::from(-(1i64 << 53) - 1)),
        f(1e300), f(0.1), f(f64::MIN_POSITIVE), f(f64::MAX), f(123456789.125), f(1e15), f(5e-324),
        Value::from("\u{0}\u{1f}\"\\/\u{7f}\n\t\u{2028}\u{10ffff}"), Value::from(""), Value::from(" x "), Value::from("null"), Value::from("{}"), Value::Array(vec![]), Value::Object(Map::new()),
        Value::Object(many), deep, Value::from("a".repeat(300)),
    ];
    let k = conc(choose(values.len(), "value"));
    let at = conc(choose(2, "at"));
    let key = ["k", "", "\"\\", "\u{e9}"][conc(choose(4, "key"))];
    let mut m: Map<String, Value> = Map::new();
    m.insert(key.to_string(), values[k].clone());
    let (h, b) = if at == 0 { (m, Map::new()) } else { (Map::new(), m) };
    let r: Result<MessageArgs, _> = JsonMessage::new("m".into(), h.clone(), b.clone()).try_into();
    match r.ok().map(JsonMessage::try_from) {
        Some(Ok(m)) => {
            check(m.method_name() == "m" && *m.headers() == h && *m.body() == b, "the message comes back");
            cover("roundtrip");
        }
        _ => check(false, "a json message has args, which are that message"),
    }
}

/// Numbers with a fraction which serde_json (without float_roundtrip) reads as a neighbouring one: a known finding.
/// Nothing worse may happen to them.
fn json_floats() {
    let values = [-1.5e-300f64, 1.7976931348623155e308, 0.29999999999999993, 2.638344616030823e-256, 0.7853981633974483];
    let x = values[conc(choose(values.len(), "value"))];
    let mut m: Map<String, Value> = Map::new();
    m.insert("k".to_string(), Value::from(x));
    let at = conc(choose(2, "at"));
    let (h, b) = if at == 0 { (m, Map::new()) } else { (Map::new(), m) };
    let r: Result<MessageArgs, _> = JsonMessage::new("m".into(), h, b).try_into();
    match r.ok().map(JsonMessage::try_from) {
        Some(Ok(m)) => {
            let got = if at == 0 { m.headers() } else { m.body() };
            let y = got.get("k").and_then(|v| v.as_f64());
            check(got.len() == 1 && y.is_some(), "the number comes back as a number");
            let d = y.unwrap().to_bits().wrapping_sub(x.to_bits()) as i64;
            check(d >= -2 && d <= 2, "the number comes back, or one next to it");
            cover(if d == 0 { "exact" } else { "inexact" });
        }
        _ => check(false, "a json message has args, which are that message"),
    }
}

/// The name of a scheme in a header: any text of param0 bytes.
fn scheme_any() {
    let s = sym_str(param(0), "s");
    let names = ["raw", "json", "http", "thrift", "sthrift"];
    let r: Result<ArgSchemeValue, _> = s.parse();
    let mut known = false;
    for (k, n) in names.iter().enumerate() {
        if n.len() == s.len() && vk::eq(n.as_bytes(), s.as_bytes()) {
            known = true;
            check(matches!(&r, Ok(v) if *v == scheme(k)), "the name of a scheme is the scheme");
            check(scheme(k).to_string() == *n, "a scheme is written by its name");
            cover("known");
        }
    }
    if !known {
        check(r.is_err(), "no other name is a scheme");
        cover("unknown");
    }
    log("known", known as u64);
}

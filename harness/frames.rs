//! Frame codec: C01, C02, C03, C05 on `TFrameIdCodec`.
#[path = "/verif/harness/common.rs"]
pub mod common;
use common::*;
use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
use num_traits::FromPrimitive;
use tokio_util::codec::{Decoder, Encoder};

crate::entries!(frame_roundtrip, frame_decode_any, frame_limit, frame_oversize_stream);

/// Number of a type by its name in the protocol.
fn type_code(t: &Type) -> u8 {
    match t {
        Type::InitRequest => 0x01,
        Type::InitResponse => 0x02,
        Type::CallRequest => 0x03,
        Type::CallResponse => 0x04,
        Type::CallRequestContinue => 0x13,
        Type::CallResponseContinue => 0x14,
        Type::Cancel => 0xc0,
        Type::Claim => 0xc1,
        Type::PingRequest => 0xd0,
        Type::PingResponse => 0xd1,
        Type::Error => 0xff,
        #[allow(unreachable_patterns)]
        _ => 254,
    }
}

/// Any id, any type, payload of `param0` arbitrary bytes appended after `param1` arbitrary bytes.
fn frame_roundtrip() {
    let n = param(0);
    let pre = sym_bytes(param(1), "pre");
    let id = sym_u32("id");
    let code = sym_u8("code");
    let payload = sym_bytes(n, "payload");
    let ty: Option<Type> = Type::from_u8(code);
    check(ty.is_some() == is_type_code(code), "exactly the 11 frame types of the protocol are known");
    let ty = match ty {
        Some(t) => t,
        None => return,
    };
    let mut codec = TFrameIdCodec {};
    let mut dst = BytesMut::new();
    dst.put_slice(&pre);
    let r = codec.encode(TFrameId::new(id, TFrame::new(ty, Bytes::from(payload.clone()))), &mut dst);
    check(r.is_ok(), "a frame which fits gets encoded");
    check(dst.len() == pre.len() + 16 + n, "length of the encoded frame");
    check(vk::eq(&dst[..pre.len()], &pre), "bytes already in the buffer are kept");
    let expected = wire(id, code, &payload);
    check(vk::eq(&dst[pre.len()..], &expected), "wire layout: length, type, zero, id, 8 zeros, payload");
    dst.advance(pre.len());
    // followed by anything
    let tail = sym_bytes(param(2), "tail");
    dst.put_slice(&tail);
    match codec.decode(&mut dst) {
        Ok(Some(f)) => {
            check(*f.id() == id, "id survives");
            check(*f.frame().frame_type() as u8 == code && type_code(f.frame().frame_type()) == code, "type survives");
            check(vk::eq(f.frame().payload(), &payload), "payload survives");
            check(vk::eq(&dst, &tail), "exactly one frame is consumed");
            cover("roundtrip");
        }
        Ok(None) => check(false, "a complete frame gets decoded"),
        Err(_) => check(false, "an encoded frame decodes"),
    }
    log("id", id as u64);
    log("code", code as u64);
}

/// Any buffer of `param0` bytes: decoding follows the header, never panics.
fn frame_decode_any() {
    let n = param(0);
    let b = sym_bytes(n, "b");
    let mut src = BytesMut::from(&b[..]);
    let mut codec = TFrameIdCodec {};
    let r = codec.decode(&mut src);
    match r {
        Ok(None) => {
            check(n < 2 || (be16(&b, 0) as usize) > n, "a complete frame is not held back");
            check(vk::eq(&src, &b), "an incomplete frame is left in the buffer");
            cover("incomplete");
            log("r", 0);
        }
        Ok(Some(f)) => {
            check(n >= 2, "length read");
            let len = be16(&b, 0) as usize;
            check(len >= 16 && len <= n, "only a complete frame gets decoded");
            check(is_type_code(b[2]), "only a known type is accepted");
            check(*f.frame().frame_type() as u8 == b[2] && type_code(f.frame().frame_type()) == b[2], "type");
            check(*f.id() == be32(&b, 4), "id");
            let p = f.frame().payload();
            check(p.len() == len - 16, "payload length");
            check(vk::eq(p, &b[16..len]), "payload");
            check(vk::eq(&src, &b[len..]), "rest of the buffer is kept");
            cover("frame");
            log("r", 1);
            log("id", *f.id() as u64);
            logb("payload", p);
        }
        Err(_) => {
            check(n >= 2, "length read");
            let len = be16(&b, 0) as usize;
            check(len <= n && (len < 16 || !is_type_code(b[2])), "only a malformed frame is rejected");
            cover("rejected");
            log("r", 2);
        }
    }
}

/// Payloads of `param0` + 0..`param1` bytes, after `param2` bytes: the length field is exact or the frame is refused.
fn frame_limit() {
    // (many lengths are chosen in two steps)
    let step = if param(1) > 64 { 64 } else { param(1) };
    let n = param(0) + conc(choose(param(1) / step, "len")) * step + conc(choose(step, "len"));
    let id = sym_u32("id");
    let marks = sym_bytes(3, "mark");
    let mut payload = vec![0x77u8; n];
    if n > 2 {
        payload[0] = marks[0];
        payload[n / 2] = marks[1];
        payload[n - 1] = marks[2];
    }
    let pre = sym_bytes(param(2), "pre");
    let mut dst = BytesMut::new();
    dst.put_slice(&pre);
    let mut codec = TFrameIdCodec {};
    let r = codec.encode(TFrameId::new(id, TFrame::new(Type::CallRequest, Bytes::from(payload.clone()))), &mut dst);
    let total = n + 16;
    match r {
        Ok(()) => {
            check(total <= 65535, "a frame longer than its length field can tell is refused");
            check(dst.len() == pre.len() + total, "length of the written frame");
            check(be16(&dst, pre.len()) as usize == total, "the length field is the number of bytes of the frame");
            dst.advance(pre.len());
            match codec.decode(&mut dst) {
                Ok(Some(f)) => {
                    check(*f.id() == id && f.frame().payload().len() == n && dst.is_empty(), "the frame is read back whole");
                    let p = f.frame().payload();
                    check(n < 3 || (p[0] == marks[0]) & (p[n / 2] == marks[1]) & (p[n - 1] == marks[2]), "the payload is read back");
                }
                _ => check(false, "a written frame is readable"),
            }
            cover("written");
            log("ok", 1);
        }
        Err(_) => {
            check(total > 65534, "a frame which fits is written");
            check(vk::eq(&dst, &pre), "nothing is written for a refused frame");
            cover("refused");
            log("ok", 0);
        }
    }
}

/// A refused frame between two others leaves the stream intact. params: length over the limit
fn frame_oversize_stream() {
    let mut codec = TFrameIdCodec {};
    let mut dst = BytesMut::new();
    let ids = [sym_u32("id"), sym_u32("id"), sym_u32("id")];
    let over = 65535 - 16 + 1 + param(0);
    for (k, n) in [5, over, 3].iter().enumerate() {
        let r = codec.encode(TFrameId::new(ids[k], TFrame::new(Type::PingRequest, Bytes::from(vec![k as u8; *n]))), &mut dst);
        check(r.is_ok() == (k != 1), "only the frame which does not fit is refused");
    }
    for k in [0, 2].iter() {
        match codec.decode(&mut dst) {
            Ok(Some(f)) => check(*f.id() == ids[*k] && f.frame().payload().len() == 5 - *k, "the others are read in order"),
            _ => check(false, "the others are readable"),
        }
    }
    check(dst.is_empty(), "nothing else");
    cover("kept");
}

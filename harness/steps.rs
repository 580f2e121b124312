//! One step of the fragmentation from any state: C07, C08.
#[path = "/verif/harness/common.rs"]
pub mod common;
use crate::fragmentation::vk_hook;
use crate::frames::payloads::{ChecksumType, Flags};
use common::*;

crate::entries!(frag_step);

static ZEROS: [u8; 16] = [0; 16];

/// An arg of any length. Its bytes are not there: fragmentation does not look at them.
fn arg(len: usize, k: usize) -> Bytes {
    Bytes::from_static(unsafe { std::slice::from_raw_parts(ZEROS.as_ptr().add(k), len) })
}

/// The next frame of a message with param0 args left, of any length each (below 2^param1), after fields of any length up to 2000.
fn frag_step() {
    let n = param(0);
    let mut lens = vec![];
    let mut args = vec![];
    for k in 0..n {
        let l = sym_u64("len") as usize;
        assume(l < 1usize << param(1));
        lens.push(l);
        args.push(arg(l, k));
    }
    let fields = sym_u64("fields") as usize;
    assume(fields <= 2000);
    let (mut a, flags, rest) = vk_hook::step(args, fields);
    check(*a.checksum_type() == ChecksumType::None && a.checksum().is_none(), "no checksum");
    let cs: Vec<Option<Bytes>> = a.args_mut().iter().cloned().collect();
    check(cs.len() >= 1 && cs.len() <= n, "a frame has at least one chunk, at most one per arg");
    let mut total = 16 + 1 + fields + 1;
    let last = cs.len() - 1;
    let mut cut = 0;
    for (k, c) in cs.iter().enumerate() {
        let l = c.as_ref().map(|c| c.len()).unwrap_or(0);
        total += 2 + l;
        if let Some(c) = c {
            check(c.as_ptr() as usize == ZEROS.as_ptr() as usize + k, "a chunk begins where its arg does");
        }
        if k < last {
            check(l == lens[k], "every chunk but the last one is a whole arg");
        } else {
            check(l <= lens[k], "a chunk is a part of its arg");
            cut = l;
        }
    }
    check(total <= 65535, "a frame fits");
    let more = flags.contains(Flags::MORE_FRAGMENTS_FOLLOW);
    check(more == !rest.is_empty(), "the flags tell if more frames follow");
    if cut < lens[last] {
        check(last > 0 || cut > 0, "every frame makes progress");
        check(rest.len() == n - last, "the rest of the arg and the following args are left");
        check(rest[0].len() == lens[last] - cut && rest[0].as_ptr() as usize == ZEROS.as_ptr() as usize + last + cut, "the rest of an arg follows");
        for k in 1..rest.len() {
            check(rest[k].len() == lens[last + k] && rest[k].as_ptr() as usize == ZEROS.as_ptr() as usize + last + k, "following args are kept");
        }
        cover("cut");
    } else if last + 1 == n {
        check(rest.is_empty(), "nothing is left");
        cover("end");
    } else {
        // the next frame begins with an empty chunk
        check(rest.len() == n - last && rest[0].is_empty(), "the end of an arg is told by an empty chunk");
        for k in 1..rest.len() {
            check(rest[k].len() == lens[last + k] && rest[k].as_ptr() as usize == ZEROS.as_ptr() as usize + last + k, "following args are kept");
        }
        cover("marked");
    }
    log("chunks", cs.len() as u64);
    log("cut", cut as u64);
    std::mem::forget((a, rest, cs));
}

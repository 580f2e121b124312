//! Shared by the harnesses.
pub use bytes::{Buf, BufMut, Bytes, BytesMut};
pub use std::collections::{HashMap, VecDeque};
pub use vk::{assume, check, choose, conc, cover, log, logb, param, sym_bool, sym_bytes, sym_u16, sym_u32, sym_u64, sym_u8};

/// Declares entry points.
#[macro_export]
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        pub mod entry {
            $(#[no_mangle] pub extern "C" fn $name() { super::$name() })*
        }
        pub fn dispatch(n: &str) {
            match n {
                $(stringify!($name) => $name(),)*
                _ => panic!("no such entry"),
            }
        }
    };
}

/// All frame types: code on the wire.
pub const TYPE_CODES: [u8; 11] = [0x01, 0x02, 0x03, 0x04, 0x13, 0x14, 0xc0, 0xc1, 0xd0, 0xd1, 0xff];
pub const ERROR_CODES: [u8; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 0xff];

pub fn is_type_code(c: u8) -> bool {
    let mut ok = false;
    for t in TYPE_CODES.iter() {
        ok |= *t == c;
    }
    ok
}

pub fn be16(b: &[u8], i: usize) -> u16 {
    (b[i] as u16) << 8 | b[i + 1] as u16
}
pub fn be32(b: &[u8], i: usize) -> u32 {
    (b[i] as u32) << 24 | (b[i + 1] as u32) << 16 | (b[i + 2] as u32) << 8 | b[i + 3] as u32
}

/// A frame as written on the wire by an independent implementation.
pub fn wire(id: u32, code: u8, payload: &[u8]) -> Vec<u8> {
    let n = payload.len() + 16;
    let mut v = vec![(n >> 8) as u8, n as u8, code, 0];
    v.extend_from_slice(&id.to_be_bytes());
    v.extend_from_slice(&[0; 8]);
    v.extend_from_slice(payload);
    v
}

/// Any valid UTF-8 string of `n` bytes (paths where the bytes are not valid end here).
pub fn sym_str(n: usize, name: &str) -> String {
    match String::from_utf8(sym_bytes(n, name)) {
        Ok(s) => s,
        Err(_) => {
            vk::stop();
            unreachable!()
        }
    }
}

/// Any ASCII string of `n` bytes (does not fork).
pub fn sym_ascii(n: usize, name: &str) -> String {
    let b = sym_bytes(n, name);
    let mut all = 0u8;
    for x in b.iter() {
        all |= *x;
    }
    assume(all < 0x80);
    unsafe { String::from_utf8_unchecked(b) }
}

/// An independent reader of the wire format.
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub i: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd { b, i: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.i
    }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.left() < n {
            return None;
        }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        Some(r)
    }
    pub fn num(&mut self, n: usize) -> Option<u64> {
        let b = self.take(n)?;
        let mut v = 0u64;
        for x in b {
            v = v << 8 | *x as u64;
        }
        Some(v)
    }
    /// A string with a length field of `w` bytes.
    pub fn text(&mut self, w: usize) -> Option<&'a str> {
        let n = self.num(w)? as usize;
        let b = self.take(n)?;
        std::str::from_utf8(b).ok()
    }
    pub fn headers(&mut self, w: usize, sw: usize) -> Option<Vec<(&'a str, &'a str)>> {
        let n = self.num(w)?;
        let mut v: Vec<(&'a str, &'a str)> = vec![];
        let mut k = 0;
        while k < n {
            let key = self.text(sw)?;
            let val = self.text(sw)?;
            v.retain(|x| x.0 != key);
            v.push((key, val));
            k += 1;
        }
        Some(v)
    }
}

/// The writing counterpart.
#[derive(Default)]
pub struct Wr(pub Vec<u8>);
impl Wr {
    pub fn num(mut self, v: u64, n: usize) -> Wr {
        for k in (0..n).rev() {
            self.0.push((v >> (8 * k)) as u8);
        }
        self
    }
    pub fn raw(mut self, b: &[u8]) -> Wr {
        self.0.extend_from_slice(b);
        self
    }
    pub fn text(self, s: &str, w: usize) -> Wr {
        self.num(s.len() as u64, w).raw(s.as_bytes())
    }
}

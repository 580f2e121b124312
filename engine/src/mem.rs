//! Flat little-endian byte memory with copy-on-write pages; every byte is concrete or an 8-bit expression.
use crate::expr::*;
use std::rc::Rc;

pub const PSZ: usize = 4096;
pub const STACK_BASE: u64 = 0x2_0000_0000;
pub const HEAP_BASE: u64 = 0x3_0000_0000;

pub struct Page {
    pub data: [u8; PSZ],
    pub sym: Option<Box<[E; PSZ]>>, // 0 = concrete byte
}
impl Clone for Page {
    fn clone(&self) -> Self {
        Page { data: self.data, sym: self.sym.clone() }
    }
}
#[derive(Clone, Default)]
pub struct Mem {
    // regions 1 (globals), 2 (stack), 3 (heap)
    pages: [Vec<Option<Rc<Page>>>; 3],
    pub limit: [u64; 3],
}

#[inline]
fn loc(addr: u64) -> (usize, usize, usize) {
    ((addr >> 32) as usize, ((addr & 0xffff_ffff) as usize) / PSZ, (addr as usize) % PSZ)
}

impl Mem {
    pub fn ok(&self, addr: u64, len: u64) -> bool {
        let r = addr >> 32;
        if !(1..=3).contains(&r) {
            return false;
        }
        let off = addr & 0xffff_ffff;
        off + len <= self.limit[r as usize - 1]
    }
    pub fn grow(&mut self, addr_end: u64) {
        let r = (addr_end >> 32) as usize - 1;
        let off = addr_end & 0xffff_ffff;
        if off > self.limit[r] {
            self.limit[r] = off;
        }
        let np = (off as usize + PSZ - 1) / PSZ;
        if self.pages[r].len() < np {
            self.pages[r].resize(np, None);
        }
    }
    #[inline]
    fn page(&self, r: usize, p: usize) -> Option<&Page> {
        self.pages[r - 1][p].as_deref()
    }
    #[inline]
    fn page_mut(&mut self, r: usize, p: usize) -> &mut Page {
        let slot = &mut self.pages[r - 1][p];
        if slot.is_none() {
            *slot = Some(Rc::new(Page { data: [0; PSZ], sym: None }));
        }
        Rc::make_mut(slot.as_mut().unwrap())
    }
    /// n <= 16 concrete bytes, None when any byte is symbolic
    #[inline]
    pub fn read_conc(&self, addr: u64, n: usize) -> Option<u128> {
        let (r, p, o) = loc(addr);
        if o + n <= PSZ {
            match self.page(r, p) {
                None => Some(0),
                Some(pg) => {
                    if let Some(s) = &pg.sym {
                        for k in 0..n {
                            if s[o + k] != 0 {
                                return None;
                            }
                        }
                    }
                    if n == 8 {
                        return Some(u64::from_le_bytes(pg.data[o..o + 8].try_into().unwrap()) as u128);
                    }
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&pg.data[o..o + n]);
                    Some(u128::from_le_bytes(b))
                }
            }
        } else {
            let mut v = 0u128;
            for k in 0..n {
                match self.byte(addr + k as u64) {
                    (x, 0) => v |= (x as u128) << (8 * k),
                    _ => return None,
                }
            }
            Some(v)
        }
    }
    #[inline]
    pub fn byte(&self, addr: u64) -> (u8, E) {
        let (r, p, o) = loc(addr);
        match self.page(r, p) {
            None => (0, 0),
            Some(pg) => (pg.data[o], pg.sym.as_ref().map(|s| s[o]).unwrap_or(0)),
        }
    }
    #[inline]
    pub fn write_conc(&mut self, addr: u64, v: u128, n: usize) {
        let (r, p, o) = loc(addr);
        if o + n <= PSZ {
            let pg = self.page_mut(r, p);
            let b = v.to_le_bytes();
            pg.data[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut pg.sym {
                for k in 0..n {
                    s[o + k] = 0;
                }
            }
        } else {
            for k in 0..n {
                self.set_byte(addr + k as u64, (v >> (8 * k)) as u8, 0);
            }
        }
    }
    pub fn set_byte(&mut self, addr: u64, v: u8, e: E) {
        let (r, p, o) = loc(addr);
        let pg = self.page_mut(r, p);
        pg.data[o] = v;
        if e != 0 {
            if pg.sym.is_none() {
                pg.sym = Some(Box::new([0; PSZ]));
            }
        }
        if let Some(s) = &mut pg.sym {
            s[o] = e;
        }
    }
    pub fn read_expr(&self, ar: &mut Arena, addr: u64, n: usize) -> E {
        let mut acc: Option<E> = None;
        for k in 0..n {
            let (x, e) = self.byte(addr + k as u64);
            let b = if e != 0 { e } else { ar.konst(x as u128, 8) };
            acc = Some(match acc {
                None => b,
                Some(a) => ar.concat(b, a),
            });
        }
        acc.unwrap()
    }
    pub fn write_expr(&mut self, ar: &mut Arena, addr: u64, e: E, n: usize) {
        let w = ar.w(e);
        let e = if (w as usize) < n * 8 { ar.zext(e, (n * 8) as u16) } else { e };
        for k in 0..n {
            let b = ar.extract(e, (8 * k) as u16, 8);
            match ar.as_const(b) {
                Some(v) => self.set_byte(addr + k as u64, v as u8, 0),
                None => self.set_byte(addr + k as u64, 0, b),
            }
        }
    }
    pub fn fill(&mut self, addr: u64, v: u8, e: E, n: u64) {
        let mut a = addr;
        let mut left = n as usize;
        while left > 0 {
            let (r, p, o) = loc(a);
            let k = left.min(PSZ - o);
            if v == 0 && e == 0 && k == PSZ {
                self.pages[r - 1][p] = None;
            } else if v == 0 && e == 0 && self.pages[r - 1][p].is_none() {
            } else {
                let pg = self.page_mut(r, p);
                pg.data[o..o + k].fill(v);
                if e != 0 && pg.sym.is_none() {
                    pg.sym = Some(Box::new([0; PSZ]));
                }
                if let Some(s) = &mut pg.sym {
                    s[o..o + k].fill(e);
                }
            }
            a += k as u64;
            left -= k;
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) {
        if n == 0 || dst == src {
            return;
        }
        if n <= 16 {
            if let Some(v) = self.read_conc(src, n as usize) {
                self.write_conc(dst, v, n as usize);
                return;
            }
        }
        // through a buffer: handles overlap
        let mut buf = vec![0u8; n as usize];
        let mut syms: Vec<(usize, E)> = vec![];
        let mut i = 0usize;
        while i < n as usize {
            let (r, p, o) = loc(src + i as u64);
            let k = (n as usize - i).min(PSZ - o);
            if let Some(pg) = self.page(r, p) {
                buf[i..i + k].copy_from_slice(&pg.data[o..o + k]);
                if let Some(s) = &pg.sym {
                    for j in 0..k {
                        if s[o + j] != 0 {
                            syms.push((i + j, s[o + j]));
                        }
                    }
                }
            }
            i += k;
        }
        let mut i = 0usize;
        while i < n as usize {
            let (r, p, o) = loc(dst + i as u64);
            let k = (n as usize - i).min(PSZ - o);
            let pg = self.page_mut(r, p);
            pg.data[o..o + k].copy_from_slice(&buf[i..i + k]);
            if let Some(s) = &mut pg.sym {
                s[o..o + k].fill(0);
            }
            i += k;
        }
        for (i, e) in syms {
            self.set_byte(dst + i as u64, 0, e);
        }
    }
    pub fn bytes_conc(&self, addr: u64, n: u64) -> Option<Vec<u8>> {
        if n > 1 << 20 || !self.ok(addr, n) {
            return None;
        }
        let mut v = Vec::with_capacity(n as usize);
        for k in 0..n {
            let (b, e) = self.byte(addr + k);
            if e != 0 {
                return None;
            }
            v.push(b);
        }
        Some(v)
    }
}

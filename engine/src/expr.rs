//! Hash-consed bit-vector expressions (widths 1..=128) with light simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // a, lo = b
    Concat,  // a = high, b = low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub v: u128,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub fn apply(k: K, w: u16, aw: u16, a: u128, b: u128) -> u128 {
    // aw = width of operand a
    let m = mask(w);
    (match k {
        K::Add => a.wrapping_add(b),
        K::Sub => a.wrapping_sub(b),
        K::Mul => a.wrapping_mul(b),
        K::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        K::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        K::SDiv => {
            let (x, y) = (sext128(a, aw), sext128(b, aw));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        K::SRem => {
            let (x, y) = (sext128(a, aw), sext128(b, aw));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        K::And => a & b,
        K::Or => a | b,
        K::Xor => a ^ b,
        K::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        K::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        K::AShr => {
            let x = sext128(a, aw);
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (x >> s) as u128
        }
        K::Eq => (a == b) as u128,
        K::Ult => (a < b) as u128,
        K::Ule => (a <= b) as u128,
        K::Slt => (sext128(a, aw) < sext128(b, aw)) as u128,
        K::Sle => (sext128(a, aw) <= sext128(b, aw)) as u128,
        _ => unreachable!(),
    }) & m
}

#[derive(Clone, Default)]
pub struct Model {
    pub vals: Vec<u128>, // by var index; missing = 0
}
impl Model {
    pub fn get(&self, var: u32) -> u128 {
        self.vals.get(var as usize).copied().unwrap_or(0)
    }
    pub fn set(&mut self, var: u32, v: u128) {
        if self.vals.len() <= var as usize {
            self.vals.resize(var as usize + 1, 0);
        }
        self.vals[var as usize] = v;
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    vars_memo: HashMap<E, Rc<Vec<u32>>>,
    pub nvars: u32,
    pub var_name: Vec<String>,
    pub var_width: Vec<u16>,
    pub var_expr: Vec<E>,
    ev_cache: Vec<(u32, u128)>,
    ev_gen: u32,
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: vec![Node { k: K::Const, w: 1, a: 0, b: 0, c: 0, v: 0 }],
            map: HashMap::new(),
            vars_memo: HashMap::new(),
            nvars: 0,
            var_name: vec![],
            var_width: vec![],
            var_expr: vec![],
            ev_cache: vec![],
            ev_gen: 0,
        }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.map.insert(n, e);
        e
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn konst(&mut self, v: u128, w: u16) -> E {
        self.mk(Node { k: K::Const, w, a: 0, b: 0, c: 0, v: v & mask(w) })
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.k == K::Const {
            Some(n.v)
        } else {
            None
        }
    }
    pub fn new_var(&mut self, name: &str, w: u16) -> E {
        let id = self.nvars;
        self.nvars += 1;
        self.var_name.push(name.to_string());
        self.var_width.push(w);
        let e = self.mk(Node { k: K::Var, w, a: id, b: 0, c: 0, v: 0 });
        self.var_expr.push(e);
        e
    }
    pub fn not1(&mut self, e: E) -> E {
        let o = self.konst(1, 1);
        self.bin(K::Xor, e, o)
    }
    pub fn bin(&mut self, k: K, mut a: E, mut b: E) -> E {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b), "{:?}", k);
        let rw = match k {
            K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => 1,
            _ => aw,
        };
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = apply(k, rw, aw, x, y);
            return self.konst(v, rw);
        }
        // commutative: const to the right
        match k {
            K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            _ => {}
        }
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        let m = mask(aw);
        match k {
            K::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let na = self.node(a);
                    if na.k == K::Add {
                        if let Some(z) = self.as_const(na.b) {
                            let c = self.konst(y.wrapping_add(z), aw);
                            return self.bin(K::Add, na.a, c);
                        }
                    }
                    if na.k == K::Sub {
                        if let Some(z) = self.as_const(na.a) {
                            let c = self.konst(y.wrapping_add(z), aw);
                            return self.bin(K::Sub, c, na.b);
                        }
                    }
                }
                // (x - y) + y => x
                let (na, nb) = (self.node(a), self.node(b));
                if na.k == K::Sub && na.b == b {
                    return na.a;
                }
                if nb.k == K::Sub && nb.b == a {
                    return nb.a;
                }
                // float constants outwards
                if cb.is_none() {
                    if na.k == K::Add {
                        if self.as_const(na.b).is_some() {
                            let s = self.bin(K::Add, na.a, b);
                            return self.bin(K::Add, s, na.b);
                        }
                    }
                    if nb.k == K::Add {
                        if self.as_const(nb.b).is_some() {
                            let s = self.bin(K::Add, a, nb.a);
                            return self.bin(K::Add, s, nb.b);
                        }
                    }
                }
            }
            K::Sub => {
                if a == b {
                    return self.konst(0, aw);
                }
                if let Some(y) = cb {
                    let c = self.konst((m.wrapping_sub(y)).wrapping_add(1), aw);
                    return self.bin(K::Add, a, c);
                }
                let (na, nb) = (self.node(a), self.node(b));
                // (x + y) - y
                if na.k == K::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if self.as_const(na.b).is_some() {
                        let s = self.bin(K::Sub, na.a, b);
                        return self.bin(K::Add, s, na.b);
                    }
                }
                if nb.k == K::Add {
                    if nb.a == a {
                        let z = self.konst(0, aw);
                        return self.bin(K::Sub, z, nb.b);
                    }
                    if nb.b == a {
                        let z = self.konst(0, aw);
                        return self.bin(K::Sub, z, nb.a);
                    }
                    if let Some(c) = self.as_const(nb.b) {
                        let s = self.bin(K::Sub, a, nb.a);
                        let c = self.konst(0u128.wrapping_sub(c), aw);
                        return self.bin(K::Add, s, c);
                    }
                }
                if nb.k == K::Sub && nb.a == a {
                    return nb.b;
                }
            }
            K::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let c = self.konst(y.trailing_zeros() as u128, aw);
                        return self.bin(K::Shl, a, c);
                    }
                }
            }
            K::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let c = self.konst(y.trailing_zeros() as u128, aw);
                        return self.bin(K::LShr, a, c);
                    }
                }
            }
            K::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let c = self.konst(y - 1, aw);
                        return self.bin(K::And, a, c);
                    }
                }
            }
            K::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if let Some(y) = cb {
                    let na = self.node(a);
                    if na.k == K::And {
                        if let Some(z) = self.as_const(na.b) {
                            let c = self.konst(y & z, aw);
                            return self.bin(K::And, na.a, c);
                        }
                    }
                    // low mask => zext(extract)
                    if (y + 1).is_power_of_two() {
                        let n = y.count_ones() as u16;
                        if n < aw {
                            let x = self.extract(a, 0, n);
                            return self.zext(x, aw);
                        }
                    }
                    if na.k == K::ZExt {
                        let iw = self.w(na.a);
                        let c = self.konst(y & mask(iw), iw);
                        let x = self.bin(K::And, na.a, c);
                        return self.zext(x, aw);
                    }
                }
            }
            K::Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                // or of disjoint: zext(lo) | (x << k)  => concat, when x<<k has low bits zero
                if let Some(r) = self.or_disjoint(a, b) {
                    return r;
                }
            }
            K::Xor => {
                if a == b {
                    return self.konst(0, aw);
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let na = self.node(a);
                    if na.k == K::Xor {
                        if let Some(z) = self.as_const(na.b) {
                            let c = self.konst(y ^ z, aw);
                            return self.bin(K::Xor, na.a, c);
                        }
                    }
                    if aw == 1 {
                        // not of comparison
                        match na.k {
                            K::Ult => return self.bin(K::Ule, na.b, na.a),
                            K::Ule => return self.bin(K::Ult, na.b, na.a),
                            K::Slt => return self.bin(K::Sle, na.b, na.a),
                            K::Sle => return self.bin(K::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            K::Shl | K::LShr | K::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= aw as u128 && k != K::AShr {
                        return self.konst(0, aw);
                    }
                    if k == K::Shl && y < aw as u128 {
                        // concat(extract(a, 0, aw-y), 0:y)
                        let n = y as u16;
                        let hi = self.extract(a, 0, aw - n);
                        let lo = self.konst(0, n);
                        return self.concat(hi, lo);
                    }
                    if k == K::LShr {
                        let n = y as u16;
                        let x = self.extract(a, n, aw - n);
                        return self.zext(x, aw);
                    }
                }
                if ca == Some(0) {
                    return a;
                }
            }
            K::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(y) = cb {
                    if aw == 1 {
                        return if y == 1 { a } else { self.not1(a) };
                    }
                    let na = self.node(a);
                    match na.k {
                        K::ZExt => {
                            let iw = self.w(na.a);
                            if y > mask(iw) {
                                return self.konst(0, 1);
                            }
                            let c = self.konst(y, iw);
                            return self.bin(K::Eq, na.a, c);
                        }
                        K::SExt => {
                            let iw = self.w(na.a);
                            let lo = y & mask(iw);
                            if (sext128(lo, iw) as u128) & m != y {
                                return self.konst(0, 1);
                            }
                            let c = self.konst(lo, iw);
                            return self.bin(K::Eq, na.a, c);
                        }
                        K::Add => {
                            if let Some(z) = self.as_const(na.b) {
                                let c = self.konst(y.wrapping_sub(z), aw);
                                return self.bin(K::Eq, na.a, c);
                            }
                        }
                        K::Xor => {
                            if let Some(z) = self.as_const(na.b) {
                                let c = self.konst(y ^ z, aw);
                                return self.bin(K::Eq, na.a, c);
                            }
                        }
                        K::Ite => {
                            if let (Some(t), Some(f)) = (self.as_const(na.b), self.as_const(na.c)) {
                                return match (t == y, f == y) {
                                    (true, true) => self.konst(1, 1),
                                    (false, false) => self.konst(0, 1),
                                    (true, false) => na.a,
                                    (false, true) => self.not1(na.a),
                                };
                            }
                            if let Some(t) = self.as_const(na.b) {
                                // ite(c, t, f) == y
                                let fe = self.bin(K::Eq, na.c, b);
                                if t == y {
                                    return self.bin(K::Or, na.a, fe);
                                }
                                let nc = self.not1(na.a);
                                return self.bin(K::And, nc, fe);
                            }
                            if let Some(f) = self.as_const(na.c) {
                                let te = self.bin(K::Eq, na.b, b);
                                if f == y {
                                    let nc = self.not1(na.a);
                                    return self.bin(K::Or, nc, te);
                                }
                                return self.bin(K::And, na.a, te);
                            }
                        }
                        K::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let cl = self.konst(y, lw);
                            let ch = self.konst(y >> lw, hw);
                            let l = self.bin(K::Eq, na.b, cl);
                            let h = self.bin(K::Eq, na.a, ch);
                            return self.bin(K::And, h, l);
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (self.node(a), self.node(b));
                    if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(K::Eq, na.a, nb.a);
                    }
                    if na.k == K::Add && nb.k == K::Add && na.b == nb.b {
                        return self.bin(K::Eq, na.a, nb.a);
                    }
                    if na.k == K::Add && self.as_const(na.b).is_some() && na.a == b {
                        return self.konst(0, 1);
                    }
                    if nb.k == K::Add && self.as_const(nb.b).is_some() && nb.a == a {
                        return self.konst(0, 1);
                    }
                }
            }
            K::Ult => {
                if a == b {
                    return self.konst(0, 1);
                }
                if cb == Some(0) {
                    return self.konst(0, 1);
                }
                if ca == Some(m) {
                    return self.konst(0, 1);
                }
                if let Some(y) = cb {
                    let hi = self.umax(a);
                    if hi < y {
                        return self.konst(1, 1);
                    }
                    let na = self.node(a);
                    if na.k == K::ZExt {
                        let iw = self.w(na.a);
                        let c = self.konst(y, iw); // y <= mask(iw) as hi >= y
                        return self.bin(K::Ult, na.a, c);
                    }
                    if na.k == K::Concat && y <= 1u128 << self.w(na.b) {
                        let lw = self.w(na.b);
                        let z = self.konst(0, self.w(na.a));
                        let h = self.bin(K::Eq, na.a, z);
                        if y == 1u128 << lw {
                            return h;
                        }
                        let c = self.konst(y, lw);
                        let l = self.bin(K::Ult, na.b, c);
                        return self.bin(K::And, h, l);
                    }
                    if y == 1 {
                        let z = self.konst(0, aw);
                        return self.bin(K::Eq, a, z);
                    }
                }
                if let Some(x) = ca {
                    let hi = self.umax(b);
                    if x >= hi {
                        return self.konst(0, 1);
                    }
                    let nb = self.node(b);
                    if nb.k == K::ZExt {
                        let iw = self.w(nb.a);
                        let c = self.konst(x, iw);
                        return self.bin(K::Ult, c, nb.a);
                    }
                    if nb.k == K::Concat && x < 1u128 << self.w(nb.b) {
                        let lw = self.w(nb.b);
                        let z = self.konst(0, self.w(nb.a));
                        let h = self.bin(K::Eq, nb.a, z);
                        let h = self.not1(h);
                        let c = self.konst(x, lw);
                        let l = self.bin(K::Ult, c, nb.b);
                        return self.bin(K::Or, h, l);
                    }
                }
                let (na, nb) = (self.node(a), self.node(b));
                if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(K::Ult, na.a, nb.a);
                }
            }
            K::Ule => {
                if a == b || ca == Some(0) || cb == Some(m) {
                    return self.konst(1, 1);
                }
                if let Some(y) = cb {
                    let c = self.konst(y + 1, aw);
                    return self.bin(K::Ult, a, c);
                }
                if let Some(x) = ca {
                    let c = self.konst(x - 1, aw);
                    return self.bin(K::Ult, c, b);
                }
                let (na, nb) = (self.node(a), self.node(b));
                if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(K::Ule, na.a, nb.a);
                }
            }
            K::Slt | K::Sle => {
                if a == b {
                    return self.konst((k == K::Sle) as u128, 1);
                }
                // both known non-negative => unsigned
                let half = 1u128 << (aw - 1);
                if self.umax(a) < half && self.umax(b) < half {
                    let kk = if k == K::Slt { K::Ult } else { K::Ule };
                    return self.bin(kk, a, b);
                }
            }
            _ => {}
        }
        self.mk(Node { k, w: rw, a, b, c: 0, v: 0 })
    }
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        // one operand concat(x, 0:n), the other zext(y) with width(y) <= n
        for (p, q) in [(a, b), (b, a)] {
            let np = self.node(p);
            if np.k == K::Concat && self.as_const(np.b) == Some(0) {
                let n = self.w(np.b);
                let nq = self.node(q);
                let y = match nq.k {
                    K::ZExt if self.w(nq.a) <= n => nq.a,
                    K::Const if nq.v <= mask(n) => q,
                    _ => continue,
                };
                let y = if nq.k == K::Const { self.konst(nq.v, n) } else { self.zext(y, n) };
                return Some(self.concat(np.a, y));
            }
            // concat(zext-hi..) general: zext(concat(x,0:n)) | zext(y)
            if np.k == K::ZExt {
                let ni = self.node(np.a);
                if ni.k == K::Concat && self.as_const(ni.b) == Some(0) {
                    let n = self.w(ni.b);
                    let nq = self.node(q);
                    let w = self.w(p);
                    let y = match nq.k {
                        K::ZExt if self.w(nq.a) <= n => self.zext(nq.a, n),
                        K::Const if nq.v <= mask(n) => self.konst(nq.v, n),
                        _ => continue,
                    };
                    let c = self.concat(ni.a, y);
                    return Some(self.zext(c, w));
                }
            }
        }
        None
    }
    /// cheap upper bound
    pub fn umax(&self, e: E) -> u128 {
        self.umax_d(e, 4)
    }
    fn umax_d(&self, e: E, d: u32) -> u128 {
        let n = &self.nodes[e as usize];
        let m = mask(n.w);
        if d == 0 {
            return if n.k == K::Const { n.v } else { m };
        }
        match n.k {
            K::Const => n.v,
            K::ZExt => self.umax_d(n.a, d - 1),
            K::And => self.umax_d(n.a, d - 1).min(self.umax_d(n.b, d - 1)),
            K::Ite => self.umax_d(n.b, d - 1).max(self.umax_d(n.c, d - 1)),
            K::Add => {
                let (x, y) = (self.umax_d(n.a, d - 1), self.umax_d(n.b, d - 1));
                match x.checked_add(y) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            K::Concat => {
                let lw = self.w(n.b);
                (self.umax_d(n.a, d - 1) << lw) | self.umax_d(n.b, d - 1).max(mask(lw))
            }
            K::URem => match self.as_const(n.b) {
                Some(y) if y > 0 => y - 1,
                _ => m,
            },
            K::UDiv => match self.as_const(n.b) {
                Some(y) if y > 0 => self.umax_d(n.a, d - 1) / y,
                _ => m,
            },
            _ => m,
        }
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(v) = self.as_const(c) {
            return if v == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(f));
        if w == 1 {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(K::Or, c, f),
                (Some(0), None) => {
                    let nc = self.not1(c);
                    return self.bin(K::And, nc, f);
                }
                (None, Some(0)) => return self.bin(K::And, c, t),
                (None, Some(1)) => {
                    let nc = self.not1(c);
                    return self.bin(K::Or, nc, t);
                }
                _ => {}
            }
        }
        self.mk(Node { k: K::Ite, w, a: c, b: t, c: f, v: 0 })
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.node(a);
        if n.w == w {
            return a;
        }
        match n.k {
            K::Const => return self.konst(n.v, w),
            K::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Node { k: K::ZExt, w, a, b: 0, c: 0, v: 0 })
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.node(a);
        if n.w == w {
            return a;
        }
        match n.k {
            K::Const => return self.konst(sext128(n.v, n.w) as u128, w),
            K::SExt => return self.sext(n.a, w),
            K::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        if self.umax(a) < (1u128 << (n.w - 1)) {
            return self.zext(a, w);
        }
        self.mk(Node { k: K::SExt, w, a, b: 0, c: 0, v: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.node(a);
        if lo == 0 && n.w == w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.k {
            K::Const => return self.konst(n.v >> lo, w),
            K::Extract => return self.extract(n.a, lo + n.b as u16, w),
            K::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            K::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            K::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            K::And | K::Or | K::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.k, x, y);
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.k, x, y);
            }
            K::Ite if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Node { k: K::Extract, w, a, b: lo as u32, c: 0, v: 0 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.node(hi), self.node(lo));
        let w = nh.w + nl.w;
        if nh.k == K::Const && nl.k == K::Const {
            return self.konst((nh.v << nl.w) | nl.v, w);
        }
        if nh.k == K::Const && nh.v == 0 {
            return self.zext(lo, w);
        }
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nh.b == nl.b + nl.w as u32 {
            return self.extract(nh.a, nl.b as u16, w);
        }
        // concat(hi, concat(x, y)) with hi,x adjacent
        if nl.k == K::Concat {
            let nx = self.node(nl.a);
            if (nh.k == K::Extract && nx.k == K::Extract && nh.a == nx.a && nh.b == nx.b + nx.w as u32)
                || (nh.k == K::Const && nx.k == K::Const)
            {
                let h = self.concat(hi, nl.a);
                return self.concat(h, nl.b);
            }
        }
        // extract(x, k) hi of zext: concat(extract(x,n,..) , x-low zext?)
        if nh.k == K::ZExt {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        self.mk(Node { k: K::Concat, w, a: hi, b: lo, c: 0, v: 0 })
    }
    pub fn vars(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars_memo.get(&e) {
            return v.clone();
        }
        let n = self.node(e);
        let kids: Vec<E> = match n.k {
            K::Const => vec![],
            K::Var => {
                let r = Rc::new(vec![n.a]);
                self.vars_memo.insert(e, r.clone());
                return r;
            }
            K::ZExt | K::SExt | K::Extract => vec![n.a],
            K::Ite => vec![n.a, n.b, n.c],
            _ => vec![n.a, n.b],
        };
        let mut out: Vec<u32> = vec![];
        for k in kids {
            let v = self.vars(k);
            if out.is_empty() {
                out = (*v).clone();
            } else {
                out.extend(v.iter());
            }
        }
        out.sort_unstable();
        out.dedup();
        let r = Rc::new(out);
        self.vars_memo.insert(e, r.clone());
        r
    }
    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        self.ev_gen += 1;
        if self.ev_cache.len() < self.nodes.len() {
            self.ev_cache.resize(self.nodes.len() + 1024, (0, 0));
        }
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &Model) -> u128 {
        let n = self.nodes[e as usize];
        match n.k {
            K::Const => return n.v,
            K::Var => return m.get(n.a) & mask(n.w),
            _ => {}
        }
        let (g, v) = self.ev_cache[e as usize];
        if g == self.ev_gen {
            return v;
        }
        let r = match n.k {
            K::ZExt => self.ev(n.a, m),
            K::SExt => {
                let x = self.ev(n.a, m);
                (sext128(x, self.w(n.a)) as u128) & mask(n.w)
            }
            K::Extract => (self.ev(n.a, m) >> n.b) & mask(n.w),
            K::Concat => {
                let h = self.ev(n.a, m);
                let l = self.ev(n.b, m);
                (h << self.w(n.b)) | l
            }
            K::Ite => {
                if self.ev(n.a, m) == 1 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            _ => {
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                apply(n.k, n.w, self.w(n.a), a, b)
            }
        };
        self.ev_cache[e as usize] = (self.ev_gen, r);
        r
    }
}

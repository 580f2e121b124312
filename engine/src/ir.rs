//! Textual LLVM IR: lexer, types, lazily parsed functions, global initialisers.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float,
    Double,
    Vec(u64, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vec(n, t) => (*n as u16) * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// store size
    pub fn ssize(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => {
                let s = self.ssize();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(n, t) => (*n * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let n = self.nfields();
                if n == 0 {
                    return 0;
                }
                let a = self.align();
                let end = self.field_off(n - 1) + self.field(n - 1).size();
                (end + a - 1) / a * a
            }
            Ty::Void => 0,
            _ => panic!("size of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!()
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Word(&'a str),
    Int(&'a str),
    Str(&'a str),  // "..."
    CStr(&'a str), // c"..."
    Meta(&'a str),
    Attr(&'a str),
    Label(&'a str),
    P(char),
    Ellipsis,
    Nl, // start of a new instruction line (two-space indentation)
}

fn word_ch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

/// Lex `s`. With `body`, labels and instruction starts are marked.
pub fn lex<'a>(s: &'a str, body: bool) -> Vec<Tok<'a>> {
    let b = s.as_bytes();
    let n = b.len();
    let mut i = 0;
    let mut out = Vec::with_capacity(n / 4);
    let mut bol = body;
    while i < n {
        if bol {
            bol = false;
            // at the beginning of a line
            if b[i] == b'\n' {
                i += 1;
                bol = true;
                continue;
            }
            if b[i] == b';' {
                while i < n && b[i] != b'\n' {
                    i += 1
                }
                continue;
            }
            if b[i] != b' ' && b[i] != b'}' {
                // label
                let st;
                let en;
                if b[i] == b'"' {
                    st = i + 1;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1
                    }
                    en = j;
                } else {
                    st = i;
                    let mut j = st;
                    while b[j] != b':' {
                        j += 1
                    }
                    en = j;
                }
                out.push(Tok::Label(&s[st..en]));
                while i < n && b[i] != b'\n' {
                    i += 1
                }
                continue;
            }
            if i + 2 < n && b[i] == b' ' && b[i + 1] == b' ' {
                let c = b[i + 2];
                if c == b'#' || c == b';' {
                    while i < n && b[i] != b'\n' {
                        i += 1
                    }
                    continue;
                }
                if c != b' ' && c != b']' {
                    out.push(Tok::Nl);
                }
            }
        }
        let c = b[i];
        match c {
            b'\n' => {
                i += 1;
                bol = body;
            }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < n && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let (st, en, nx);
                if i + 1 < n && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1
                    }
                    en = j;
                    nx = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < n && word_ch(b[j]) {
                        j += 1
                    }
                    en = j;
                    nx = j;
                }
                out.push(if c == b'%' { Tok::Local(&s[st..en]) } else { Tok::Global(&s[st..en]) });
                i = nx;
            }
            b'!' => {
                let st = i + 1;
                let mut j = st;
                while j < n && word_ch(b[j]) {
                    j += 1
                }
                out.push(Tok::Meta(&s[st..j]));
                i = j;
            }
            b'#' => {
                let st = i + 1;
                let mut j = st;
                while j < n && word_ch(b[j]) {
                    j += 1
                }
                out.push(Tok::Attr(&s[st..j]));
                i = j;
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::Str(&s[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < n && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::CStr(&s[st..j]));
                i = j + 1;
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                let mut j = i + 1;
                while j < n && (word_ch(b[j]) || b[j] == b'+') {
                    j += 1
                }
                out.push(Tok::Int(&s[st..j]));
                i = j;
            }
            b'.' => {
                if s[i..].starts_with("...") {
                    out.push(Tok::Ellipsis);
                    i += 3;
                } else {
                    let st = i;
                    let mut j = i + 1;
                    while j < n && word_ch(b[j]) {
                        j += 1
                    }
                    out.push(Tok::Word(&s[st..j]));
                    i = j;
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let st = i;
                let mut j = i + 1;
                while j < n && word_ch(b[j]) {
                    j += 1
                }
                out.push(if is_hex_float(&s[st..j]) { Tok::Int(&s[st..j]) } else { Tok::Word(&s[st..j]) });
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(hex(b[i + 1]) * 16 + hex(b[i + 2]));
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

// ---------------------------------------------------------------- constants
#[derive(Clone, Debug)]
pub enum CV {
    Int(u128, u16), // value, width
    Agg(Rc<Vec<CV>>),
}
impl CV {
    pub fn zero(t: &Ty) -> CV {
        match t {
            Ty::Int(w) => CV::Int(0, *w),
            Ty::Ptr | Ty::Double => CV::Int(0, 64),
            Ty::Float => CV::Int(0, 32),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                CV::Agg(Rc::new((0..t.nfields()).map(|i| CV::zero(t.field(i))).collect()))
            }
            _ => CV::Int(0, 1),
        }
    }
}

// ---------------------------------------------------------------- instructions
#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(u64, u16), // scalar constant up to 64 bits
    Wide(u128, u16),
    Agg(Rc<Vec<CV>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CK {
    Trunc,
    ZExt,
    SExt,
    BitCast,
    PtrToInt,
    IntToPtr,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPExt,
    FPTrunc,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RmwK {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32), // index in the module's function table
    Ptr(Op),
    Asm(String),
}
#[derive(Clone, Debug)]
pub enum I {
    Bin(BK, Ty, Op, Op, u32),
    ICmp(Pred, Ty, Op, Op, u32),
    FCmp(String, Ty, Op, Op, u32),
    FNeg(Ty, Op, u32),
    Cast(CK, Ty, Ty, Op, u32),
    Select(Ty, Op, Ty, Op, Op, u32), // cond type, cond, type, a, b
    Load(Ty, Op, u32),
    Store(Ty, Op, Op),
    Gep(Op, u64, Vec<(Op, u16, u64)>, u32), // base, const offset, (index, index width, scale)
    Alloca(u64, u64, u32),
    Call { callee: Callee, args: Vec<(Ty, Op)>, ret: Ty, dst: Option<u32>, normal: Option<u32> },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u16, Op, Vec<(u128, u32)>, u32),
    Ret(Option<Op>),
    Unreachable,
    Extract(Op, Vec<u32>, u32),
    Insert(Ty, Op, Op, Vec<u32>, u32),
    ExtractElem(Op, Op, u32),
    InsertElem(Op, Op, Op, u32),
    Shuffle(Op, Op, Vec<i64>, u32),
    Rmw(RmwK, u16, Op, Op, u32),
    CmpXchg(u16, Op, Op, Op, u32),
    Nop,
    Move(Op, u32), // freeze
    LandingPad,
    VaArg,
}
#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Op)>, // predecessor block -> value
}
#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<I>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ninsts: u64,
}

pub struct FnEntry {
    pub name: String,
    pub body: Option<(usize, usize)>, // text range of `define` .. `}`
    pub addr: u64,
    pub parsed: Option<Rc<Func>>,
    pub weak: bool,
}
pub struct GlobalEntry {
    pub name: String,
    pub addr: u64,
    pub ty: Ty,
    pub init: Option<(usize, usize)>, // text range of the initialiser
}

pub struct Module {
    pub text: &'static str,
    pub types: HashMap<&'static str, Ty>,
    pub fns: Vec<FnEntry>,
    pub fn_ix: HashMap<&'static str, u32>,
    pub globals: Vec<GlobalEntry>,
    pub g_ix: HashMap<&'static str, u32>,
    pub alias: HashMap<&'static str, (usize, usize)>,
    pub globals_end: u64,
}

pub const FN_BASE: u64 = 0x0800_0000;
pub const GLOBAL_BASE: u64 = 0x1_0000_0000;

impl Module {
    pub fn load(path: &str) -> Result<Module, String> {
        let text: &'static str =
            Box::leak(std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?.into_boxed_str());
        let mut m = Module {
            text,
            types: HashMap::new(),
            fns: vec![],
            fn_ix: HashMap::new(),
            globals: vec![],
            g_ix: HashMap::new(),
            alias: HashMap::new(),
            globals_end: 0,
        };
        let b = text.as_bytes();
        let mut pos = 0;
        let n = b.len();
        let mut glines: Vec<(usize, usize)> = vec![];
        while pos < n {
            let mut e = pos;
            while e < n && b[e] != b'\n' {
                e += 1
            }
            let line = &text[pos..e];
            if line.starts_with("define ") {
                // find the closing brace line
                let end = text[e..].find("\n}").map(|x| e + x + 1).ok_or("unterminated define")?;
                let name = fn_name(line);
                m.add_fn(name, Some((pos, end)), false);
                pos = end + 2;
                continue;
            } else if line.starts_with("declare ") {
                let name = fn_name(line);
                m.add_fn(name, None, line.contains("extern_weak"));
            } else if line.starts_with('@') {
                glines.push((pos, e));
            } else if line.starts_with('%') {
                let toks = lex(line, false);
                if let (Tok::Local(nm), Some(_)) = (&toks[0], toks.get(3)) {
                    let mut p = Parser::new(&m, &toks[3..]);
                    if let Ok(t) = p.ty() {
                        m.types.insert(nm, t);
                    }
                }
            } else if line.starts_with("!0 =") || line.starts_with("!0=") {
                break;
            }
            pos = e + 1;
        }
        let mut addr = GLOBAL_BASE;
        for (s, e) in glines {
            let line = &text[s..e];
            let toks = lex(line, false);
            let name = match &toks[0] {
                Tok::Global(x) => *x,
                _ => continue,
            };
            // linkage words ... (global|constant|alias)
            let mut i = 2;
            let mut depth = 0;
            let mut kind = "";
            let mut ext = false;
            let mut weak = false;
            while i < toks.len() {
                match &toks[i] {
                    Tok::P('(') => depth += 1,
                    Tok::P(')') => depth -= 1,
                    Tok::Word(w) if depth == 0 => match *w {
                        "global" | "constant" | "alias" | "ifunc" => {
                            kind = w;
                            break;
                        }
                        "external" => ext = true,
                        "extern_weak" => {
                            ext = true;
                            weak = true
                        }
                        _ => {}
                    },
                    _ => {}
                }
                i += 1;
            }
            if kind == "alias" {
                m.alias.insert(name, (s, e));
                continue;
            }
            let ty = {
                let mut p = Parser::new(&m, &toks[i + 1..]);
                p.ty()?
            };
            let size = ty.size().max(1);
            let mut al = ty.align().max(8);
            // explicit alignment
            for j in i..toks.len() {
                if toks[j] == Tok::Word("align") {
                    if let Some(Tok::Int(a)) = toks.get(j + 1) {
                        al = al.max(a.parse().unwrap_or(8));
                    }
                }
            }
            addr = (addr + al - 1) / al * al;
            let ga = if weak { 0 } else { addr };
            m.g_ix.insert(name, m.globals.len() as u32);
            m.globals.push(GlobalEntry {
                name: name.to_string(),
                addr: ga,
                ty,
                init: if ext { None } else { Some((s, e)) },
            });
            addr += size + 16;
        }
        m.globals_end = addr;
        Ok(m)
    }
    fn add_fn(&mut self, name: &'static str, body: Option<(usize, usize)>, weak: bool) {
        let ix = self.fns.len() as u32;
        self.fn_ix.insert(name, ix);
        self.fns.push(FnEntry {
            name: name.to_string(),
            body,
            addr: if weak { 0 } else { FN_BASE + 16 * ix as u64 },
            parsed: None,
            weak,
        });
    }
    pub fn sym_addr(&self, name: &str) -> Result<u64, String> {
        if let Some(i) = self.g_ix.get(name) {
            return Ok(self.globals[*i as usize].addr);
        }
        if let Some(i) = self.fn_ix.get(name) {
            return Ok(self.fns[*i as usize].addr);
        }
        if let Some(&(s, e)) = self.alias.get(name) {
            let toks = lex(&self.text[s..e], false);
            // alias <ty>, ptr @target
            for i in (0..toks.len()).rev() {
                if let Tok::Global(t) = &toks[i] {
                    return self.sym_addr(t);
                }
            }
        }
        Err(format!("unknown symbol @{}", name))
    }
    pub fn global_init(&self, gi: usize) -> Result<Option<CV>, String> {
        let g = &self.globals[gi];
        let (s, e) = match g.init {
            None => return Ok(None),
            Some(x) => x,
        };
        let toks = lex(&self.text[s..e], false);
        let mut i = 2;
        let mut depth = 0;
        loop {
            match &toks[i] {
                Tok::P('(') => depth += 1,
                Tok::P(')') => depth -= 1,
                Tok::Word("global") | Tok::Word("constant") if depth == 0 => break,
                _ => {}
            }
            i += 1;
        }
        let mut p = Parser::new(self, &toks[i + 1..]);
        let t = p.ty()?;
        Ok(Some(p.const_val(&t)?))
    }
    pub fn parse_fn(&self, id: u32) -> Result<Func, String> {
        let f = &self.fns[id as usize];
        let (s, e) = f.body.ok_or_else(|| format!("no body for {}", f.name))?;
        let txt = &self.text[s..e];
        let nl = txt.find('\n').unwrap();
        let head = &txt[..nl];
        let htoks = lex(head, false);
        let mut fp = FnParser {
            regs: HashMap::new(),
            nregs: 0,
            blocks: HashMap::new(),
        };
        // parameters
        let gpos = htoks.iter().position(|t| matches!(t, Tok::Global(_))).unwrap();
        let mut params = vec![];
        let mut unnamed = 0u32;
        {
            let mut p = Parser::new(self, &htoks[gpos + 1..]);
            p.expect('(')?;
            if !p.eat(')') {
                loop {
                    if p.peek() == Some(&Tok::Ellipsis) {
                        p.i += 1;
                    } else {
                        let _t = p.ty()?;
                        p.skip_attrs();
                        if let Some(Tok::Local(n)) = p.peek() {
                            let n = *n;
                            p.i += 1;
                            params.push(fp.reg(n));
                        } else {
                            let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                            unnamed += 1;
                            params.push(fp.reg(n));
                        }
                        if let Some(Tok::Local(n)) = htoks.get(gpos + 1 + p.i - 1) {
                            if n.bytes().all(|c| c.is_ascii_digit()) {
                                unnamed = unnamed.max(n.parse::<u32>().unwrap() + 1);
                            }
                        }
                    }
                    if p.eat(')') {
                        break;
                    }
                    p.expect(',')?;
                }
            }
        }
        let body = &txt[nl + 1..];
        let toks = lex(body, true);
        // collect labels
        let mut order: Vec<&str> = vec![];
        let entry_label: &'static str;
        if let Some(Tok::Label(l)) = toks.iter().find(|t| matches!(t, Tok::Label(_) | Tok::Nl)) {
            entry_label = unsafe { std::mem::transmute::<&str, &'static str>(*l) };
        } else {
            entry_label = Box::leak(unnamed.to_string().into_boxed_str());
            order.push(entry_label);
        }
        let _ = entry_label;
        for t in &toks {
            if let Tok::Label(l) = t {
                order.push(l);
            }
        }
        for (i, l) in order.iter().enumerate() {
            fp.blocks.insert(l.to_string(), i as u32);
        }
        let mut blocks: Vec<Block> = vec![Block::default(); order.len()];
        let mut cur = 0usize;
        let mut started = !matches!(toks.iter().find(|t| matches!(t, Tok::Label(_) | Tok::Nl)), Some(Tok::Label(_)));
        let mut p = Parser::new(self, &toks);
        let mut ninsts = 0;
        while p.i < toks.len() {
            match &toks[p.i] {
                Tok::Label(_) => {
                    if started {
                        cur += 1;
                    } else {
                        started = true;
                    }
                    p.i += 1;
                }
                Tok::Nl => {
                    p.i += 1;
                    let st = p.i;
                    // end of this instruction
                    let mut en = st;
                    while en < toks.len() && !matches!(toks[en], Tok::Nl | Tok::Label(_)) {
                        en += 1
                    }
                    ninsts += 1;
                    let mut ip = Parser::new(self, &toks[st..en]);
                    fp.inst(&mut ip, &mut blocks[cur])
                        .map_err(|x| format!("{}: {} in `{:?}`", f.name, x, &toks[st..en.min(st + 40)]))?;
                    p.i = en;
                }
                Tok::P('}') => break,
                t => return Err(format!("{}: unexpected token {:?}", f.name, t)),
            }
        }
        Ok(Func { id, name: f.name.clone(), params, nregs: fp.nregs, blocks, ninsts })
    }
}

fn fn_name(line: &'static str) -> &'static str {
    let i = line.find('@').unwrap();
    let r = &line[i + 1..];
    if r.starts_with('"') {
        let e = r[1..].find('"').unwrap();
        &r[1..1 + e]
    } else {
        let e = r.find('(').unwrap();
        &r[..e]
    }
}

pub struct Parser<'m, 't, 's> {
    m: &'m Module,
    t: &'t [Tok<'s>],
    pub i: usize,
}
type R<T> = Result<T, String>;

impl<'m, 't, 's> Parser<'m, 't, 's> {
    pub fn new(m: &'m Module, t: &'t [Tok<'s>]) -> Self {
        Parser { m, t, i: 0 }
    }
    pub fn peek(&self) -> Option<&'t Tok<'s>> {
        self.t.get(self.i)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if let Some(Tok::Word(x)) = self.peek() {
            if *x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?} at {}", c, self.peek(), self.i))
        }
    }
    fn word(&mut self) -> R<&'s str> {
        match self.peek() {
            Some(Tok::Word(w)) => {
                self.i += 1;
                Ok(w)
            }
            t => Err(format!("expected a word, got {:?}", t)),
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while let Some(t) = self.peek() {
            self.i += 1;
            match t {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => is_ty_word(w),
            Some(Tok::P('[')) | Some(Tok::P('<')) | Some(Tok::P('{')) => true,
            Some(Tok::Local(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.peek() {
            Some(Tok::Word(w)) => {
                let w = *w;
                self.i += 1;
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eatw("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "label" | "metadata" | "token" | "half" | "bfloat" | "fp128" | "x86_fp80" => Ty::Other,
                    _ => {
                        if let Some(n) = w.strip_prefix('i') {
                            Ty::Int(n.parse().map_err(|_| format!("bad type {}", w))?)
                        } else {
                            return Err(format!("bad type {}", w));
                        }
                    }
                }
            }
            Some(Tok::P('[')) => {
                self.i += 1;
                let n = self.int()? as u64;
                if !self.eatw("x") {
                    return Err("array type".into());
                }
                let t = self.ty()?;
                self.expect(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Some(Tok::P('<')) => {
                self.i += 1;
                if self.peek() == Some(&Tok::P('{')) {
                    let t = self.struct_body(true)?;
                    self.expect('>')?;
                    t
                } else {
                    let n = self.int()? as u64;
                    if !self.eatw("x") {
                        return Err("vector type".into());
                    }
                    let t = self.ty()?;
                    self.expect('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Some(Tok::P('{')) => self.struct_body(false)?,
            Some(Tok::Local(n)) => {
                self.i += 1;
                self.m.types.get(n).cloned().ok_or_else(|| format!("unknown type %{}", n))?
            }
            t => return Err(format!("expected a type, got {:?}", t)),
        };
        Ok(t)
    }
    fn struct_body(&mut self, packed: bool) -> R<Ty> {
        self.expect('{')?;
        let mut fs = vec![];
        if !self.eat('}') {
            loop {
                fs.push(self.ty()?);
                if self.eat('}') {
                    break;
                }
                self.expect(',')?;
            }
        }
        Ok(Ty::Struct(Rc::new(fs), packed))
    }
    fn int(&mut self) -> R<i128> {
        match self.peek() {
            Some(Tok::Int(s)) => {
                self.i += 1;
                parse_int(s)
            }
            t => Err(format!("expected an int, got {:?}", t)),
        }
    }
    /// skip parameter attributes between a type and its value
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if is_value_word(w) {
                        return;
                    }
                    let al = *w == "align";
                    self.i += 1;
                    if self.peek() == Some(&Tok::P('(')) {
                        self.skip_parens();
                    } else if al {
                        if let Some(Tok::Int(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                Some(Tok::Str(_)) => {
                    // "attr"="value"
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn const_val(&mut self, t: &Ty) -> R<CV> {
        let tok = self.peek().ok_or("eof in const")?;
        match tok {
            Tok::Int(s) => {
                self.i += 1;
                match t {
                    Ty::Float | Ty::Double => {
                        let v = if let Some(h) = s.strip_prefix("f0x") {
                            // the bits of the value in its own type
                            let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            return Ok(CV::Int(b as u128, if *t == Ty::Double { 64 } else { 32 }));
                        } else if let Some(h) = s.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                        } else {
                            s.parse::<f64>().map_err(|e| e.to_string())?
                        };
                        if *t == Ty::Double {
                            Ok(CV::Int(v.to_bits() as u128, 64))
                        } else {
                            Ok(CV::Int((v as f32).to_bits() as u128, 32))
                        }
                    }
                    _ => {
                        let w = t.bits();
                        let v = parse_int(s)?;
                        Ok(CV::Int((v as u128) & crate::expr::mask(w), w))
                    }
                }
            }
            Tok::Global(g) => {
                self.i += 1;
                Ok(CV::Int(self.m.sym_addr(g)? as u128, 64))
            }
            Tok::CStr(s) => {
                self.i += 1;
                Ok(CV::Agg(Rc::new(unescape(s).into_iter().map(|b| CV::Int(b as u128, 8)).collect())))
            }
            Tok::Word(w) => {
                self.i += 1;
                match *w {
                    "null" | "zeroinitializer" | "undef" | "poison" | "none" => Ok(CV::zero(t)),
                    "true" => Ok(CV::Int(1, 1)),
                    "false" => Ok(CV::Int(0, 1)),
                    "splat" => {
                        self.expect('(')?;
                        let et = self.ty()?;
                        let v = self.const_val(&et)?;
                        self.expect(')')?;
                        Ok(CV::Agg(Rc::new(vec![v; t.nfields()])))
                    }
                    "getelementptr" => {
                        while let Some(Tok::Word(_)) = self.peek() {
                            self.i += 1;
                            if self.peek() == Some(&Tok::P('(')) && self.t.get(self.i - 1) == Some(&Tok::Word("inrange")) {
                                self.skip_parens();
                            }
                        }
                        self.expect('(')?;
                        let bt = self.ty()?;
                        self.expect(',')?;
                        let pt = self.ty()?;
                        let base = match self.const_val(&pt)? {
                            CV::Int(v, _) => v as u64,
                            _ => return Err("gep base".into()),
                        };
                        let mut off = 0i128;
                        let mut cur = bt.clone();
                        let mut first = true;
                        while self.eat(',') {
                            let it = self.ty()?;
                            let ix = match self.const_val(&it)? {
                                CV::Int(v, w) => crate::expr::sext128(v, w),
                                _ => return Err("gep idx".into()),
                            };
                            if first {
                                off += ix * bt.size() as i128;
                                first = false;
                            } else {
                                off += match &cur {
                                    Ty::Struct(..) => cur.field_off(ix as usize) as i128,
                                    _ => cur.field(0).size() as i128 * ix,
                                };
                                let nx = match &cur {
                                    Ty::Struct(..) => cur.field(ix as usize).clone(),
                                    _ => cur.field(0).clone(),
                                };
                                cur = nx;
                            }
                        }
                        self.expect(')')?;
                        Ok(CV::Int((base as i128 + off) as u64 as u128, 64))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "zext" => {
                        while let Some(Tok::Word(_)) = self.peek() {
                            self.i += 1;
                        }
                        self.expect('(')?;
                        let ft = self.ty()?;
                        let v = self.const_val(&ft)?;
                        if !self.eatw("to") {
                            return Err("cast const".into());
                        }
                        let tt = self.ty()?;
                        self.expect(')')?;
                        match v {
                            CV::Int(x, _) => Ok(CV::Int(x & crate::expr::mask(tt.bits()), tt.bits())),
                            a => Ok(a),
                        }
                    }
                    "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" => {
                        let op = *w;
                        while let Some(Tok::Word(_)) = self.peek() {
                            self.i += 1;
                        }
                        self.expect('(')?;
                        let t1 = self.ty()?;
                        let a = self.const_val(&t1)?;
                        self.expect(',')?;
                        let t2 = self.ty()?;
                        let b = self.const_val(&t2)?;
                        self.expect(')')?;
                        if let (CV::Int(x, w1), CV::Int(y, _)) = (a, b) {
                            let r = match op {
                                "add" => x.wrapping_add(y),
                                "sub" => x.wrapping_sub(y),
                                "xor" => x ^ y,
                                "and" => x & y,
                                "or" => x | y,
                                "mul" => x.wrapping_mul(y),
                                _ => x << y,
                            };
                            Ok(CV::Int(r & crate::expr::mask(w1), w1))
                        } else {
                            Err("const binop".into())
                        }
                    }
                    x => Err(format!("const word {}", x)),
                }
            }
            Tok::P('[') | Tok::P('{') => {
                let close = if *tok == Tok::P('[') { ']' } else { '}' };
                self.i += 1;
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        let et = self.ty()?;
                        v.push(self.const_val(&et)?);
                        if self.eat(close) {
                            break;
                        }
                        self.expect(',')?;
                    }
                }
                Ok(CV::Agg(Rc::new(v)))
            }
            Tok::P('<') => {
                self.i += 1;
                if self.peek() == Some(&Tok::P('{')) {
                    let v = self.const_val(t)?;
                    self.expect('>')?;
                    return Ok(v);
                }
                let mut v = vec![];
                if !self.eat('>') {
                    loop {
                        let et = self.ty()?;
                        v.push(self.const_val(&et)?);
                        if self.eat('>') {
                            break;
                        }
                        self.expect(',')?;
                    }
                }
                Ok(CV::Agg(Rc::new(v)))
            }
            Tok::P('+') => {
                // +inf, +qnan
                self.i += 1;
                let v = match self.peek() {
                    Some(Tok::Word("inf")) => f64::INFINITY,
                    Some(Tok::Word("qnan")) | Some(Tok::Word("nan")) => f64::NAN,
                    t => return Err(format!("const +{:?}", t)),
                };
                self.i += 1;
                Ok(if *t == Ty::Float { CV::Int((v as f32).to_bits() as u128, 32) } else { CV::Int(v.to_bits() as u128, 64) })
            }
            t => Err(format!("const {:?}", t)),
        }
    }
}

fn parse_int(s: &str) -> R<i128> {
    s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("bad int {}", s))
}
fn is_ty_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80")
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true"
            | "false"
            | "null"
            | "undef"
            | "poison"
            | "zeroinitializer"
            | "none"
            | "splat"
            | "getelementptr"
            | "inttoptr"
            | "ptrtoint"
            | "bitcast"
            | "trunc"
            | "zext"
            | "add"
            | "sub"
            | "xor"
            | "and"
            | "or"
            | "mul"
            | "shl"
            | "addrspacecast"
    )
}

struct FnParser {
    regs: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
}

impl FnParser {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn val(&mut self, p: &mut Parser, t: &Ty) -> R<Op> {
        if let Some(Tok::Local(n)) = p.peek() {
            let n = *n;
            p.i += 1;
            return Ok(Op::Reg(self.reg(n)));
        }
        if *t == Ty::Other {
            // metadata operand: skip one token group
            p.i += 1;
            return Ok(Op::C(0, 64));
        }
        Ok(match p.const_val(t)? {
            CV::Int(v, w) if w <= 64 => Op::C(v as u64, w),
            CV::Int(v, w) => Op::Wide(v, w),
            CV::Agg(a) => Op::Agg(a),
        })
    }
    fn tval(&mut self, p: &mut Parser) -> R<(Ty, Op)> {
        let t = p.ty()?;
        p.skip_attrs();
        let v = self.val(p, &t)?;
        Ok((t, v))
    }
    fn label(&mut self, p: &mut Parser) -> R<u32> {
        if !p.eatw("label") {
            return Err("expected label".into());
        }
        self.blk(p)
    }
    fn blk(&mut self, p: &mut Parser) -> R<u32> {
        match p.peek() {
            Some(Tok::Local(n)) => {
                p.i += 1;
                self.blocks.get(*n).copied().ok_or_else(|| format!("no block {}", n))
            }
            t => Err(format!("expected block, got {:?}", t)),
        }
    }
    fn inst(&mut self, p: &mut Parser, b: &mut Block) -> R<()> {
        let mut dst = None;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (p.t.get(0), p.t.get(1)) {
            dst = Some(self.reg(n));
            p.i = 2;
        }
        let d = dst.unwrap_or(u32::MAX);
        let op = p.word()?;
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr"
            | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let k = match op {
                    "add" => BK::Add,
                    "sub" => BK::Sub,
                    "mul" => BK::Mul,
                    "udiv" => BK::UDiv,
                    "sdiv" => BK::SDiv,
                    "urem" => BK::URem,
                    "srem" => BK::SRem,
                    "and" => BK::And,
                    "or" => BK::Or,
                    "xor" => BK::Xor,
                    "shl" => BK::Shl,
                    "lshr" => BK::LShr,
                    "ashr" => BK::AShr,
                    "fadd" => BK::FAdd,
                    "fsub" => BK::FSub,
                    "fmul" => BK::FMul,
                    "fdiv" => BK::FDiv,
                    _ => BK::FRem,
                };
                self.skip_flags(p);
                let t = p.ty()?;
                let a = self.val(p, &t)?;
                p.expect(',')?;
                let c = self.val(p, &t)?;
                I::Bin(k, t, a, c, d)
            }
            "fneg" => {
                self.skip_flags(p);
                let t = p.ty()?;
                let a = self.val(p, &t)?;
                I::FNeg(t, a, d)
            }
            "icmp" => {
                p.eatw("samesign");
                let pr = match p.word()? {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => return Err(format!("icmp {}", x)),
                };
                let t = p.ty()?;
                let a = self.val(p, &t)?;
                p.expect(',')?;
                let c = self.val(p, &t)?;
                I::ICmp(pr, t, a, c, d)
            }
            "fcmp" => {
                self.skip_flags(p);
                let pr = p.word()?.to_string();
                let t = p.ty()?;
                let a = self.val(p, &t)?;
                p.expect(',')?;
                let c = self.val(p, &t)?;
                I::FCmp(pr, t, a, c, d)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi"
            | "fpext" | "fptrunc" | "ptrtoaddr" => {
                let k = match op {
                    "trunc" => CK::Trunc,
                    "zext" => CK::ZExt,
                    "sext" => CK::SExt,
                    "bitcast" => CK::BitCast,
                    "ptrtoint" | "ptrtoaddr" => CK::PtrToInt,
                    "inttoptr" => CK::IntToPtr,
                    "uitofp" => CK::UIToFP,
                    "sitofp" => CK::SIToFP,
                    "fptoui" => CK::FPToUI,
                    "fptosi" => CK::FPToSI,
                    "fpext" => CK::FPExt,
                    _ => CK::FPTrunc,
                };
                self.skip_flags(p);
                let t = p.ty()?;
                let a = self.val(p, &t)?;
                if !p.eatw("to") {
                    return Err("cast".into());
                }
                let t2 = p.ty()?;
                I::Cast(k, t, t2, a, d)
            }
            "select" => {
                self.skip_flags(p);
                let (ct, c) = self.tval(p)?;
                p.expect(',')?;
                let (t, a) = self.tval(p)?;
                p.expect(',')?;
                let (_, bb) = self.tval(p)?;
                I::Select(ct, c, t, a, bb, d)
            }
            "phi" => {
                self.skip_flags(p);
                let t = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.expect('[')?;
                    let v = self.val(p, &t)?;
                    p.expect(',')?;
                    let bl = self.blk(p)?;
                    p.expect(']')?;
                    inc.push((bl, v));
                    if p.peek() == Some(&Tok::P(',')) && p.t.get(p.i + 1) == Some(&Tok::P('[')) {
                        p.i += 1;
                        continue;
                    }
                    break;
                }
                b.phis.push(Phi { dst: d, inc });
                return Ok(());
            }
            "load" => {
                p.eatw("atomic");
                p.eatw("volatile");
                let t = p.ty()?;
                p.expect(',')?;
                let (_, a) = self.tval(p)?;
                I::Load(t, a, d)
            }
            "store" => {
                p.eatw("atomic");
                p.eatw("volatile");
                let (t, v) = self.tval(p)?;
                p.expect(',')?;
                let (_, a) = self.tval(p)?;
                I::Store(t, v, a)
            }
            "getelementptr" => {
                loop {
                    match p.peek() {
                        Some(Tok::Word("inrange")) => {
                            p.i += 1;
                            p.skip_parens();
                        }
                        Some(Tok::Word("inbounds")) | Some(Tok::Word("nuw")) | Some(Tok::Word("nusw")) => p.i += 1,
                        _ => break,
                    }
                }
                let bt = p.ty()?;
                p.expect(',')?;
                let (_, base) = self.tval(p)?;
                let mut coff: i128 = 0;
                let mut dynv = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while p.peek() == Some(&Tok::P(',')) {
                    if let Some(Tok::Meta(_)) = p.t.get(p.i + 1) {
                        break;
                    }
                    p.i += 1;
                    let (it, iv) = self.tval(p)?;
                    let (scale, next) = if first {
                        (bt.size(), None)
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let ix = match iv {
                                    Op::C(v, _) => v as usize,
                                    _ => return Err("struct gep".into()),
                                };
                                coff += cur.field_off(ix) as i128;
                                let nx = cur.field(ix).clone();
                                cur = nx;
                                continue;
                            }
                            _ => (cur.field(0).size(), Some(cur.field(0).clone())),
                        }
                    };
                    first = false;
                    if let Some(n) = next {
                        cur = n;
                    }
                    match iv {
                        Op::C(v, w) => coff += crate::expr::sext128(v as u128, w) * scale as i128,
                        other => dynv.push((other, it.bits(), scale)),
                    }
                }
                I::Gep(base, coff as u64, dynv, d)
            }
            "alloca" => {
                p.eatw("inalloca");
                let t = p.ty()?;
                let mut n = 1;
                let mut al = t.align();
                while p.eat(',') {
                    if p.eatw("align") {
                        al = p.int()? as u64;
                    } else if p.is_type_start() {
                        let (_, v) = self.tval(p)?;
                        n = match v {
                            Op::C(c, _) => c,
                            _ => return Err("dynamic alloca".into()),
                        };
                    } else {
                        break;
                    }
                }
                I::Alloca(t.size() * n, al.max(1), d)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    p.word()?;
                }
                return self.call(p, b, dst, op == "invoke");
            }
            "br" => {
                if let Some(Tok::Word("label")) = p.peek() {
                    I::Br(self.label(p)?)
                } else {
                    let (_, c) = self.tval(p)?;
                    p.expect(',')?;
                    let t = self.label(p)?;
                    p.expect(',')?;
                    let f = self.label(p)?;
                    I::CondBr(c, t, f)
                }
            }
            "switch" => {
                let (t, v) = self.tval(p)?;
                p.expect(',')?;
                let def = self.label(p)?;
                p.expect('[')?;
                let mut cases = vec![];
                while !p.eat(']') {
                    let ct = p.ty()?;
                    let cv = match p.const_val(&ct)? {
                        CV::Int(x, _) => x,
                        _ => return Err("switch case".into()),
                    };
                    p.expect(',')?;
                    let l = self.label(p)?;
                    cases.push((cv, l));
                }
                I::Switch(t.bits(), v, cases, def)
            }
            "ret" => {
                let t = p.ty()?;
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.val(p, &t)?))
                }
            }
            "unreachable" => I::Unreachable,
            "extractvalue" => {
                let (_, a) = self.tval(p)?;
                let mut ix = vec![];
                while p.peek() == Some(&Tok::P(',')) && matches!(p.t.get(p.i + 1), Some(Tok::Int(_))) {
                    p.i += 1;
                    ix.push(p.int()? as u32);
                }
                I::Extract(a, ix, d)
            }
            "insertvalue" => {
                let (t, a) = self.tval(p)?;
                p.expect(',')?;
                let (_, v) = self.tval(p)?;
                let mut ix = vec![];
                while p.peek() == Some(&Tok::P(',')) && matches!(p.t.get(p.i + 1), Some(Tok::Int(_))) {
                    p.i += 1;
                    ix.push(p.int()? as u32);
                }
                I::Insert(t, a, v, ix, d)
            }
            "extractelement" => {
                let (_, a) = self.tval(p)?;
                p.expect(',')?;
                let (_, i) = self.tval(p)?;
                I::ExtractElem(a, i, d)
            }
            "insertelement" => {
                let (_, a) = self.tval(p)?;
                p.expect(',')?;
                let (_, v) = self.tval(p)?;
                p.expect(',')?;
                let (_, i) = self.tval(p)?;
                I::InsertElem(a, v, i, d)
            }
            "shufflevector" => {
                let (_, a) = self.tval(p)?;
                p.expect(',')?;
                let (_, c) = self.tval(p)?;
                p.expect(',')?;
                let mt = p.ty()?;
                let mv = p.const_val(&mt)?;
                let mask = match mv {
                    CV::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            CV::Int(i, _) => *i as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                I::Shuffle(a, c, mask, d)
            }
            "atomicrmw" => {
                p.eatw("volatile");
                let k = match p.word()? {
                    "xchg" => RmwK::Xchg,
                    "add" => RmwK::Add,
                    "sub" => RmwK::Sub,
                    "and" => RmwK::And,
                    "or" => RmwK::Or,
                    "xor" => RmwK::Xor,
                    "nand" => RmwK::Nand,
                    "max" => RmwK::Max,
                    "min" => RmwK::Min,
                    "umax" => RmwK::UMax,
                    "umin" => RmwK::UMin,
                    x => return Err(format!("atomicrmw {}", x)),
                };
                let (_, a) = self.tval(p)?;
                p.expect(',')?;
                let (t, v) = self.tval(p)?;
                I::Rmw(k, t.bits(), a, v, d)
            }
            "cmpxchg" => {
                p.eatw("weak");
                p.eatw("volatile");
                let (_, a) = self.tval(p)?;
                p.expect(',')?;
                let (t, c) = self.tval(p)?;
                p.expect(',')?;
                let (_, n) = self.tval(p)?;
                I::CmpXchg(t.bits(), a, c, n, d)
            }
            "fence" => I::Nop,
            "freeze" => {
                let (_, a) = self.tval(p)?;
                I::Move(a, d)
            }
            "landingpad" => I::LandingPad,
            "resume" => I::Unreachable,
            "va_arg" => I::VaArg,
            x => return Err(format!("instruction {}", x)),
        };
        b.insts.push(ins);
        Ok(())
    }
    fn skip_flags(&mut self, p: &mut Parser) {
        while let Some(Tok::Word(w)) = p.peek() {
            match *w {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn"
                | "reassoc" | "fast" => p.i += 1,
                _ => break,
            }
        }
    }
    fn call(&mut self, p: &mut Parser, b: &mut Block, dst: Option<u32>, invoke: bool) -> R<()> {
        // calling convention, return attributes
        loop {
            if p.is_type_start() {
                break;
            }
            match p.peek() {
                Some(Tok::Word(w)) => {
                    let al = *w == "align";
                    p.i += 1;
                    if p.peek() == Some(&Tok::P('(')) {
                        p.skip_parens();
                    } else if al {
                        if let Some(Tok::Int(_)) = p.peek() {
                            p.i += 1;
                        }
                    }
                }
                t => return Err(format!("call prefix {:?}", t)),
            }
        }
        let ret = p.ty()?;
        // explicit function type
        if p.peek() == Some(&Tok::P('(')) {
            p.skip_parens();
        }
        let callee = match p.peek() {
            Some(Tok::Global(g)) => {
                p.i += 1;
                match p.m.fn_ix.get(g) {
                    Some(i) => Callee::Fn(*i),
                    None => {
                        let a = p.m.sym_addr(g)?;
                        if a >= FN_BASE && a < GLOBAL_BASE {
                            Callee::Fn(((a - FN_BASE) / 16) as u32)
                        } else {
                            return Err(format!("call of {}", g));
                        }
                    }
                }
            }
            Some(Tok::Local(n)) => {
                p.i += 1;
                let n = *n;
                Callee::Ptr(Op::Reg(self.reg(n)))
            }
            Some(Tok::Word("asm")) => {
                p.i += 1;
                let mut s = String::new();
                while p.peek().is_some() && p.peek() != Some(&Tok::P('(')) {
                    if let Some(Tok::Str(x)) = p.peek() {
                        s.push_str(x);
                        s.push('|');
                    }
                    p.i += 1;
                }
                Callee::Asm(s)
            }
            _ => {
                let v = self.val(p, &Ty::Ptr)?;
                Callee::Ptr(v)
            }
        };
        p.expect('(')?;
        let mut args = vec![];
        if !p.eat(')') {
            loop {
                if let Some(Tok::Word("metadata")) = p.peek() {
                    // skip to ',' or ')' at depth 0
                    let mut depth = 0;
                    while let Some(t) = p.peek() {
                        match t {
                            Tok::P('(') | Tok::P('{') => depth += 1,
                            Tok::P(')') if depth == 0 => break,
                            Tok::P(')') | Tok::P('}') => depth -= 1,
                            Tok::P(',') if depth == 0 => break,
                            _ => {}
                        }
                        p.i += 1;
                    }
                } else {
                    args.push(self.tval(p)?);
                }
                if p.eat(')') {
                    break;
                }
                p.expect(',')?;
            }
        }
        let mut normal = None;
        if invoke {
            while let Some(t) = p.peek() {
                if *t == Tok::Word("to") {
                    break;
                }
                p.i += 1;
            }
            p.eatw("to");
            normal = Some(self.label(p)?);
        }
        b.insts.push(I::Call { callee, args, ret: ret.clone(), dst: if ret == Ty::Void { None } else { dst }, normal });
        Ok(())
    }
}

fn is_hex_float(w: &str) -> bool {
    w.len() > 3 && w.starts_with("f0x") && w[3..].bytes().all(|b| b.is_ascii_hexdigit())
}

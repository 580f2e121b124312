//! SMT-LIB2 pipe to z3 (or any solver speaking the same dialect).
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub enum Res {
    Sat(Model),
    Unsat,
    Unknown(String),
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: HashSet<E>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub time_ms: f64,
    pub max_ms: f64,
    cache: HashMap<Vec<E>, Option<HashMap<u32, u128>>>,
    pub cmd: String,
    pub dump: Option<std::fs::File>,
}

impl Solver {
    pub fn new(cmd: &str, timeout_ms: u64) -> Solver {
        let mut parts = cmd.split_whitespace();
        let mut child = Command::new(parts.next().unwrap())
            .args(parts)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start the SMT solver");
        let mut inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        if cmd.starts_with("z3") {
            writeln!(inp, "(set-option :timeout {})", timeout_ms).unwrap();
        }
        writeln!(inp, "(set-option :produce-models true)\n(set-logic QF_BV)").unwrap();
        Solver {
            child,
            inp,
            out,
            defined: HashSet::new(),
            queries: 0,
            sat: 0,
            unsat: 0,
            cached: 0,
            time_ms: 0.0,
            max_ms: 0.0,
            cache: HashMap::new(),
            cmd: cmd.to_string(),
            dump: None,
        }
    }
    fn define(&mut self, ar: &Arena, e: E, buf: &mut String) {
        use std::fmt::Write;
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((e, done)) = stack.pop() {
            if self.defined.contains(&e) {
                continue;
            }
            let n = ar.node(e);
            if n.k == K::Const {
                continue;
            }
            if !done {
                stack.push((e, true));
                match n.k {
                    K::Var => {}
                    K::ZExt | K::SExt | K::Extract => stack.push((n.a, false)),
                    K::Ite => {
                        stack.push((n.a, false));
                        stack.push((n.b, false));
                        stack.push((n.c, false));
                    }
                    _ => {
                        stack.push((n.a, false));
                        stack.push((n.b, false));
                    }
                }
                continue;
            }
            self.defined.insert(e);
            if n.k == K::Var {
                writeln!(buf, "(declare-fun v{} () (_ BitVec {}))", n.a, n.w).unwrap();
                writeln!(buf, "(define-fun e{} () (_ BitVec {}) v{})", e, n.w, n.a).unwrap();
                continue;
            }
            let t = |x: E| -> String {
                match ar.as_const(x) {
                    Some(v) => format!("(_ bv{} {})", v, ar.w(x)),
                    None => format!("e{}", x),
                }
            };
            let body = match n.k {
                K::Add => format!("(bvadd {} {})", t(n.a), t(n.b)),
                K::Sub => format!("(bvsub {} {})", t(n.a), t(n.b)),
                K::Mul => format!("(bvmul {} {})", t(n.a), t(n.b)),
                K::UDiv => format!("(bvudiv {} {})", t(n.a), t(n.b)),
                K::SDiv => format!("(bvsdiv {} {})", t(n.a), t(n.b)),
                K::URem => format!("(bvurem {} {})", t(n.a), t(n.b)),
                K::SRem => format!("(bvsrem {} {})", t(n.a), t(n.b)),
                K::And => format!("(bvand {} {})", t(n.a), t(n.b)),
                K::Or => format!("(bvor {} {})", t(n.a), t(n.b)),
                K::Xor => format!("(bvxor {} {})", t(n.a), t(n.b)),
                K::Shl => format!("(bvshl {} {})", t(n.a), t(n.b)),
                K::LShr => format!("(bvlshr {} {})", t(n.a), t(n.b)),
                K::AShr => format!("(bvashr {} {})", t(n.a), t(n.b)),
                K::Eq => format!("(ite (= {} {}) #b1 #b0)", t(n.a), t(n.b)),
                K::Ult => format!("(ite (bvult {} {}) #b1 #b0)", t(n.a), t(n.b)),
                K::Ule => format!("(ite (bvule {} {}) #b1 #b0)", t(n.a), t(n.b)),
                K::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", t(n.a), t(n.b)),
                K::Sle => format!("(ite (bvsle {} {}) #b1 #b0)", t(n.a), t(n.b)),
                K::Ite => format!("(ite (= {} #b1) {} {})", t(n.a), t(n.b), t(n.c)),
                K::ZExt => format!("((_ zero_extend {}) {})", n.w - ar.w(n.a), t(n.a)),
                K::SExt => format!("((_ sign_extend {}) {})", n.w - ar.w(n.a), t(n.a)),
                K::Extract => format!("((_ extract {} {}) {})", n.b + n.w as u32 - 1, n.b, t(n.a)),
                K::Concat => format!("(concat {} {})", t(n.a), t(n.b)),
                K::Const | K::Var => unreachable!(),
            };
            writeln!(buf, "(define-fun e{} () (_ BitVec {}) {})", e, n.w, body).unwrap();
        }
    }
    /// Is the conjunction of `cs` (1-bit expressions) satisfiable? The model covers the variables of `cs`.
    pub fn check(&mut self, ar: &mut Arena, cs: &[E], base: &Model) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return match r {
                None => Res::Unsat,
                Some(m) => {
                    let mut out = base.clone();
                    for (k, v) in m {
                        out.set(*k, *v);
                    }
                    Res::Sat(out)
                }
            };
        }
        let t0 = Instant::now();
        let mut buf = String::new();
        for &c in &key {
            self.define(ar, c, &mut buf);
        }
        buf.push_str("(push 1)\n");
        let mut vs: Vec<u32> = vec![];
        for &c in &key {
            match ar.as_const(c) {
                Some(1) => {}
                Some(_) => buf.push_str("(assert false)\n"),
                None => buf.push_str(&format!("(assert (= e{} #b1))\n", c)),
            }
            vs.extend(ar.vars(c).iter());
        }
        vs.sort_unstable();
        vs.dedup();
        buf.push_str("(check-sat)\n");
        self.queries += 1;
        self.send(&buf);
        let ans = self.line();
        let res = match ans.as_str() {
            "sat" => {
                self.sat += 1;
                let mut m = HashMap::new();
                if !vs.is_empty() {
                    let mut q = String::from("(get-value (");
                    for v in &vs {
                        q.push_str(&format!("v{} ", v));
                    }
                    q.push_str("))\n");
                    self.send(&q);
                    let txt = self.sexp();
                    // ((v0 #x..) (v1 #b..))
                    let toks: Vec<&str> =
                        txt.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|s| !s.is_empty()).collect();
                    let mut i = 0;
                    while i + 1 < toks.len() {
                        let id: u32 = toks[i][1..].parse().expect("model var");
                        let t = toks[i + 1];
                        let v = if let Some(h) = t.strip_prefix("#x") {
                            u128::from_str_radix(h, 16).unwrap()
                        } else if let Some(b) = t.strip_prefix("#b") {
                            u128::from_str_radix(b, 2).unwrap()
                        } else {
                            panic!("bad model value {}", t)
                        };
                        m.insert(id, v);
                        i += 2;
                    }
                }
                let mut out = base.clone();
                for (k, v) in &m {
                    out.set(*k, *v);
                }
                // independent check of the model by evaluation
                for &c in &key {
                    if ar.eval(c, &out) != 1 {
                        return Res::Unknown("solver model does not satisfy the query".into());
                    }
                }
                self.cache.insert(key, Some(m));
                Res::Sat(out)
            }
            "unsat" => {
                self.unsat += 1;
                self.cache.insert(key, None);
                Res::Unsat
            }
            other => Res::Unknown(other.to_string()),
        };
        self.send("(pop 1)\n");
        let dt = t0.elapsed().as_secs_f64() * 1000.0;
        self.time_ms += dt;
        if dt > self.max_ms {
            self.max_ms = dt;
        }
        res
    }
    fn send(&mut self, s: &str) {
        if let Some(f) = &mut self.dump {
            let _ = f.write_all(s.as_bytes());
        }
        self.inp.write_all(s.as_bytes()).expect("solver pipe");
        self.inp.flush().unwrap();
    }
    fn line(&mut self) -> String {
        loop {
            let mut l = String::new();
            if self.out.read_line(&mut l).unwrap_or(0) == 0 {
                return "solver died".into();
            }
            let t = l.trim();
            if !t.is_empty() {
                return t.to_string();
            }
        }
    }
    fn sexp(&mut self) -> String {
        let mut s = String::new();
        let mut depth = 0i32;
        loop {
            let mut l = String::new();
            if self.out.read_line(&mut l).unwrap_or(0) == 0 {
                return s;
            }
            for c in l.chars() {
                if c == '(' {
                    depth += 1
                } else if c == ')' {
                    depth -= 1
                }
            }
            s.push_str(&l);
            if depth <= 0 && !s.trim().is_empty() {
                return s;
            }
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

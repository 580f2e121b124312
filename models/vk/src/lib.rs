//! Interface between harnesses and the engine which executes them symbolically.
//! With feature `native` the same harness runs as an ordinary program: every symbolic value is
//! read from a file (a counterexample or a sampled path of the engine).
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn vk_sym(bits: u32, name: *const u8, len: usize) -> u64;
        pub fn vk_choose(n: u64, name: *const u8, len: usize) -> u64;
        pub fn vk_assume(c: bool);
        pub fn vk_assert(c: bool, msg: *const u8, len: usize);
        pub fn vk_log(tag: *const u8, len: usize, v: u64);
        pub fn vk_logb(tag: *const u8, len: usize, p: *const u8, n: usize);
        pub fn vk_cover(name: *const u8, len: usize);
        pub fn vk_conc(v: u64) -> u64;
        pub fn vk_param(i: u64) -> u64;
        pub fn vk_stop();
        pub fn vk_clock(ns: u64);
    }
}
#[cfg(feature = "native")]
pub mod imp {
    use std::collections::HashMap;
    use std::sync::Mutex;
    pub struct St {
        pub vals: HashMap<String, u64>,
        pub occ: HashMap<String, usize>,
        pub params: Vec<u64>,
    }
    pub static ST: Mutex<Option<St>> = Mutex::new(None);
    unsafe fn s(p: *const u8, n: usize) -> String {
        String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
    }
    fn next(name: String) -> u64 {
        let mut g = ST.lock().unwrap();
        let st = g.as_mut().expect("vk state");
        let k = st.occ.entry(name.clone()).or_insert(0);
        let key = format!("{}#{}", name, k);
        *k += 1;
        st.vals.get(&key).copied().unwrap_or(0)
    }
    fn out(l: String) {
        println!("{}", l);
    }
    pub unsafe fn vk_sym(bits: u32, name: *const u8, len: usize) -> u64 {
        let v = next(s(name, len));
        if bits >= 64 { v } else { v & ((1u64 << bits) - 1) }
    }
    pub unsafe fn vk_choose(n: u64, name: *const u8, len: usize) -> u64 {
        if n == 1 {
            return 0;
        }
        let v = next(s(name, len));
        v.min(n - 1)
    }
    pub unsafe fn vk_assume(c: bool) {
        if !c {
            out("VK assume failed".into());
            std::process::exit(3);
        }
    }
    pub unsafe fn vk_assert(c: bool, msg: *const u8, len: usize) {
        if !c {
            out(format!("VK violation assertion: {}", s(msg, len)));
            std::process::exit(1);
        }
    }
    pub unsafe fn vk_log(tag: *const u8, len: usize, v: u64) {
        out(format!("{}={}", s(tag, len), v));
    }
    pub unsafe fn vk_logb(tag: *const u8, len: usize, p: *const u8, n: usize) {
        let b = std::slice::from_raw_parts(p, n);
        let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
        out(format!("{}=x{}", s(tag, len), h));
    }
    pub unsafe fn vk_cover(_name: *const u8, _len: usize) {}
    pub unsafe fn vk_conc(v: u64) -> u64 {
        v
    }
    pub unsafe fn vk_param(i: u64) -> u64 {
        ST.lock().unwrap().as_ref().unwrap().params.get(i as usize).copied().unwrap_or(0)
    }
    pub unsafe fn vk_stop() {
        out("VK stop".into());
        std::process::exit(0);
    }
    static CLOCK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1_000_000_000_000);
    pub unsafe fn vk_clock(ns: u64) {
        CLOCK.fetch_max(ns, std::sync::atomic::Ordering::Relaxed);
    }
    /// The clock of the standard library, as in the engine.
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(_: i32, ts: *mut i64) -> i32 {
        let t = CLOCK.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1;
        *ts = (t / 1_000_000_000) as i64;
        *ts.add(1) = (t % 1_000_000_000) as i64;
        0
    }
    /// Loads "name#k value" and "param value" lines.
    pub fn load(path: &str) {
        let mut st = St { vals: HashMap::new(), occ: HashMap::new(), params: vec![] };
        for l in std::fs::read_to_string(path).unwrap().lines() {
            if let Some((n, v)) = l.rsplit_once(' ') {
                if n == "param" {
                    st.params.push(v.parse().unwrap());
                } else if let Ok(v) = v.parse::<u64>() {
                    st.vals.insert(n.to_string(), v);
                }
            }
        }
        *ST.lock().unwrap() = Some(st);
        std::panic::set_hook(Box::new(|i| {
            println!("VK violation panic: {}", i);
            std::process::exit(1);
        }));
    }
}

#[inline]
pub fn sym_u64(name: &str) -> u64 {
    unsafe { imp::vk_sym(64, name.as_ptr(), name.len()) }
}
#[inline]
pub fn sym_u32(name: &str) -> u32 {
    unsafe { imp::vk_sym(32, name.as_ptr(), name.len()) as u32 }
}
#[inline]
pub fn sym_u16(name: &str) -> u16 {
    unsafe { imp::vk_sym(16, name.as_ptr(), name.len()) as u16 }
}
#[inline]
pub fn sym_u8(name: &str) -> u8 {
    unsafe { imp::vk_sym(8, name.as_ptr(), name.len()) as u8 }
}
#[inline]
pub fn sym_bool(name: &str) -> bool {
    unsafe { imp::vk_sym(1, name.as_ptr(), name.len()) & 1 == 1 }
}
/// Value in 0..n.
#[inline]
pub fn choose(n: usize, name: &str) -> usize {
    unsafe { imp::vk_choose(n as u64, name.as_ptr(), name.len()) as usize }
}
#[inline]
pub fn assume(c: bool) {
    unsafe { imp::vk_assume(c) }
}
#[inline]
pub fn check(c: bool, msg: &str) {
    unsafe { imp::vk_assert(c, msg.as_ptr(), msg.len()) }
}
#[inline]
pub fn log(tag: &str, v: u64) {
    unsafe { imp::vk_log(tag.as_ptr(), tag.len(), v) }
}
#[inline]
pub fn logb(tag: &str, v: &[u8]) {
    unsafe { imp::vk_logb(tag.as_ptr(), tag.len(), v.as_ptr(), v.len()) }
}
#[inline]
pub fn cover(name: &str) {
    unsafe { imp::vk_cover(name.as_ptr(), name.len()) }
}
/// Forks over the feasible values.
#[inline]
pub fn conc(v: usize) -> usize {
    unsafe { imp::vk_conc(v as u64) as usize }
}
#[inline]
pub fn param(i: usize) -> usize {
    unsafe { imp::vk_param(i as u64) as usize }
}
#[inline]
pub fn stop() {
    unsafe { imp::vk_stop() }
}
pub fn sym_bytes(n: usize, name: &str) -> Vec<u8> {
    (0..n).map(|_| sym_u8(name)).collect()
}
/// Equality of byte strings as one formula (no fork per byte).
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// Sets the clock of the standard library (nanoseconds since the start), which never goes back.
#[inline]
pub fn clock(ns: u64) {
    unsafe { imp::vk_clock(ns) }
}

//! Harness interface. In symbolic builds every call is an external function the
//! executor implements; in native builds (feature `native`) inputs come from a
//! replay file, so the same harness re-runs a counterexample on the real code.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn __sym_bytes(p: *mut u8, n: usize);
        fn __sym_u8() -> u8;
        fn __sym_u16() -> u16;
        fn __sym_u32() -> u32;
        fn __sym_u64() -> u64;
        fn __sym_bool() -> bool;
        fn __sym_choose(n: u64) -> u64;
        fn __sym_assume(c: bool);
        fn __sym_check(c: bool, p: *const u8, n: usize);
        fn __sym_reach(p: *const u8, n: usize);
        fn __sym_observe(p: *const u8, n: usize);
        fn __sym_alloc_limit(n: u64);
        fn __sym_concretize(n: u64) -> u64;
        fn __sym_panic_ok(n: u64);
    }
    pub fn fill(b: &mut [u8]) {
        unsafe { __sym_bytes(b.as_mut_ptr(), b.len()) }
    }
    pub fn u8() -> u8 {
        unsafe { __sym_u8() }
    }
    pub fn u16() -> u16 {
        unsafe { __sym_u16() }
    }
    pub fn u32() -> u32 {
        unsafe { __sym_u32() }
    }
    pub fn u64() -> u64 {
        unsafe { __sym_u64() }
    }
    pub fn bool() -> bool {
        unsafe { __sym_bool() }
    }
    pub fn choose(n: usize) -> usize {
        unsafe { __sym_choose(n as u64) as usize }
    }
    pub fn assume(c: bool) {
        unsafe { __sym_assume(c) }
    }
    pub fn check(c: bool, l: &str) {
        unsafe { __sym_check(c, l.as_ptr(), l.len()) }
    }
    pub fn reach(l: &str) {
        unsafe { __sym_reach(l.as_ptr(), l.len()) }
    }
    pub fn observe(b: &[u8]) {
        unsafe { __sym_observe(b.as_ptr(), b.len()) }
    }
    pub fn alloc_limit(n: u64) {
        unsafe { __sym_alloc_limit(n) }
    }
    pub fn concretize(n: u64) -> u64 {
        unsafe { __sym_concretize(n) }
    }
    pub fn panic_ok(b: bool) {
        unsafe { __sym_panic_ok(b as u64) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::Mutex;

    pub struct Counting;
    pub static LIMIT: AtomicU64 = AtomicU64::new(0);
    pub static OVER: AtomicU64 = AtomicU64::new(0);
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let lim = LIMIT.load(Ordering::Relaxed);
            if lim > 0 && l.size() as u64 > lim {
                OVER.fetch_max(l.size() as u64, Ordering::Relaxed);
                if l.size() > 1 << 28 {
                    // do not actually take the memory of the machine
                    return std::ptr::null_mut();
                }
            }
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
    }

    #[derive(Default)]
    pub struct Run {
        pub inputs: Vec<Vec<u8>>,
        pub pos: usize,
        pub observes: Vec<Vec<u8>>,
        pub fails: Vec<String>,
        pub reached: Vec<String>,
        pub mismatch: bool,
    }
    pub static RUN: Mutex<Option<Run>> = Mutex::new(None);

    pub struct AssumeFailed;

    fn next(n: usize) -> Vec<u8> {
        let mut g = RUN.lock().unwrap();
        let r = g.as_mut().unwrap();
        let v = match r.inputs.get(r.pos) {
            Some(v) if v.len() == n => v.clone(),
            Some(v) => {
                r.mismatch = true;
                let mut v = v.clone();
                v.resize(n, 0);
                v
            }
            None => {
                r.mismatch = true;
                vec![0; n]
            }
        };
        r.pos += 1;
        v
    }
    pub fn fill(b: &mut [u8]) {
        let v = next(b.len());
        b.copy_from_slice(&v);
    }
    pub fn u8() -> u8 {
        next(1)[0]
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes(next(2).try_into().unwrap())
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(next(4).try_into().unwrap())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(next(8).try_into().unwrap())
    }
    pub fn bool() -> bool {
        next(1)[0] & 1 == 1
    }
    pub fn choose(n: usize) -> usize {
        let v = next(1)[0] as usize;
        assert!(v < n, "replay: choose out of range");
        v
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed);
        }
    }
    pub fn check(c: bool, l: &str) {
        if !c {
            let mut g = RUN.lock().unwrap();
            let r = g.as_mut().unwrap();
            // after the recorded inputs ran out the run is no longer the solver's path
            if !r.mismatch {
                r.fails.push(l.to_string());
            }
        }
    }
    pub fn reach(l: &str) {
        RUN.lock().unwrap().as_mut().unwrap().reached.push(l.to_string());
    }
    pub fn observe(b: &[u8]) {
        RUN.lock().unwrap().as_mut().unwrap().observes.push(b.to_vec());
    }
    pub fn alloc_limit(n: u64) {
        LIMIT.store(n, Ordering::Relaxed);
    }
    pub fn concretize(n: u64) -> u64 {
        n
    }
    pub fn panic_ok(_b: bool) {}

    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    fn unhex(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }

    /// Replay file: blocks of `run <entry> <arg>` followed by `in <hex>` lines.
    /// Prints one line per run: `result <n> mismatch=.. assume=.. over=.. panic=<hex> fails=<hex,..> obs=<hex,..>`
    pub fn native_main(entries: &[(&str, extern "C-unwind" fn(u64))]) {
        let path = std::env::args().nth(1).expect("replay file");
        let text = std::fs::read_to_string(path).expect("read replay file");
        let mut runs: Vec<(String, u64, Vec<Vec<u8>>)> = vec![];
        for l in text.lines() {
            let mut it = l.split_whitespace();
            match it.next() {
                Some("run") => {
                    let e = it.next().unwrap().to_string();
                    let a = it.next().unwrap().parse().unwrap();
                    runs.push((e, a, vec![]));
                }
                Some("in") => runs.last_mut().unwrap().2.push(unhex(it.next().unwrap_or(""))),
                _ => {}
            }
        }
        std::panic::set_hook(Box::new(|_| {}));
        let last = std::sync::Arc::new(Mutex::new(String::new()));
        {
            let last = last.clone();
            std::panic::set_hook(Box::new(move |i| {
                let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = i.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    String::new()
                };
                *last.lock().unwrap() = format!("{} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default());
            }));
        }
        for (n, (e, a, inputs)) in runs.into_iter().enumerate() {
            let f = entries.iter().find(|x| x.0 == e).unwrap_or_else(|| panic!("no entry {e}")).1;
            LIMIT.store(0, Ordering::Relaxed);
            OVER.store(0, Ordering::Relaxed);
            last.lock().unwrap().clear();
            let ninputs = inputs.len();
            *RUN.lock().unwrap() = Some(Run { inputs, ..Default::default() });
            // announce first: if the process dies inside the run (abort, out of
            // memory), the caller still knows which run killed it
            println!("begin {n}");
            let child = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(a)))
            });
            let res = child.unwrap().join().unwrap();
            LIMIT.store(0, Ordering::Relaxed);
            let mut assume = false;
            let mut panic = String::new();
            if let Err(p) = res {
                if p.downcast_ref::<AssumeFailed>().is_some() {
                    assume = true;
                } else {
                    panic = last.lock().unwrap().clone();
                    if panic.is_empty() {
                        panic = "panic".into();
                    }
                }
            }
            let r = RUN.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
            let mismatch = r.mismatch || (panic.is_empty() && !assume && r.pos != ninputs);
            println!(
                "result {n} mismatch={} assume={} over={} panic={} fails={} obs={}",
                mismatch,
                assume,
                OVER.load(Ordering::Relaxed),
                hex(panic.as_bytes()),
                r.fails.iter().map(|f| hex(f.as_bytes())).collect::<Vec<_>>().join(","),
                r.observes.iter().map(|f| format!("x{}", hex(f))).collect::<Vec<_>>().join(",")
            );
        }
    }

}

#[cfg(feature = "native")]
pub use imp::{native_main, Counting};

pub use imp::{alloc_limit, assume, bool, check, choose, concretize, fill, observe, panic_ok, reach, u16, u32, u64, u8};

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}

pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}

/// any byte string of length lo..=hi (the length is forked over)
pub fn vec_upto(lo: usize, hi: usize) -> Vec<u8> {
    let n = lo + choose(hi - lo + 1);
    vec(n)
}

pub fn i64() -> i64 {
    u64() as i64
}

pub fn observe_u64(x: u64) {
    observe(&x.to_le_bytes())
}

/// Declares the harness entries: `entries!{ fn h_name(cfg) { .. } .. }` expands to
/// exported symbols for the executor and to a native runner table.
#[macro_export]
macro_rules! entries {
    ($( $(#[$m:meta])* fn $name:ident($cfg:ident : u64) $body:block )*) => {
        $( $(#[$m])*
        #[cfg(not(feature = "native"))]
        #[no_mangle]
        pub extern "C" fn $name($cfg: u64) $body
        #[cfg(feature = "native")]
        pub extern "C-unwind" fn $name($cfg: u64) $body
        )*
        #[cfg(feature = "native")]
        pub const ENTRIES: &[(&str, extern "C-unwind" fn(u64))] = &[ $((stringify!($name), $name)),* ];
    };
}

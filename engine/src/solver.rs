//! Z3 (C API, loaded at run time) behind constraint slicing, byte-domain
//! enumeration and a query cache.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
}

macro_rules! api {
    ($($n:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($n: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                Api { $($n: {
                    let s = CString::new(concat!("Z3_", stringify!($n))).unwrap();
                    let p = dlsym(h, s.as_ptr());
                    if p.is_null() { panic!("libz3 lacks Z3_{}", stringify!($n)); }
                    std::mem::transmute::<P, unsafe extern "C" fn($($t),*) $(-> $r)?>(p)
                },)* }
            }
        }
    };
}

api! {
    mk_config: fn() -> P;
    set_param_value: fn(P, *const c_char, *const c_char);
    mk_context_rc: fn(P) -> P;
    mk_solver: fn(P) -> P;
    mk_simple_solver: fn(P) -> P;
    mk_solver_for_logic: fn(P, P) -> P;
    mk_tactic: fn(P, *const c_char) -> P;
    tactic_inc_ref: fn(P, P);
    mk_solver_from_tactic: fn(P, P) -> P;
    solver_inc_ref: fn(P, P);
    solver_dec_ref: fn(P, P);
    solver_push: fn(P, P);
    solver_pop: fn(P, P, c_uint);
    solver_reset: fn(P, P);
    solver_assert: fn(P, P, P);
    solver_check: fn(P, P) -> c_int;
    solver_get_model: fn(P, P) -> P;
    solver_set_params: fn(P, P, P);
    mk_params: fn(P) -> P;
    params_inc_ref: fn(P, P);
    params_set_uint: fn(P, P, P, c_uint);
    mk_string_symbol: fn(P, *const c_char) -> P;
    mk_int_symbol: fn(P, c_int) -> P;
    model_inc_ref: fn(P, P);
    model_dec_ref: fn(P, P);
    model_eval: fn(P, P, P, bool, *mut P) -> bool;
    get_numeral_string: fn(P, P) -> *const c_char;
    get_numeral_uint64: fn(P, P, *mut u64) -> bool;
    inc_ref: fn(P, P);
    dec_ref: fn(P, P);
    mk_bv_sort: fn(P, c_uint) -> P;
    mk_const: fn(P, P, P) -> P;
    mk_numeral: fn(P, *const c_char, P) -> P;
    mk_unsigned_int64: fn(P, u64, P) -> P;
    mk_true: fn(P) -> P;
    mk_false: fn(P) -> P;
    mk_eq: fn(P, P, P) -> P;
    mk_not: fn(P, P) -> P;
    mk_ite: fn(P, P, P, P) -> P;
    mk_and: fn(P, c_uint, *const P) -> P;
    mk_or: fn(P, c_uint, *const P) -> P;
    mk_bvadd: fn(P, P, P) -> P;
    mk_bvmul: fn(P, P, P) -> P;
    mk_bvudiv: fn(P, P, P) -> P;
    mk_bvurem: fn(P, P, P) -> P;
    mk_bvsdiv: fn(P, P, P) -> P;
    mk_bvsrem: fn(P, P, P) -> P;
    mk_bvand: fn(P, P, P) -> P;
    mk_bvor: fn(P, P, P) -> P;
    mk_bvxor: fn(P, P, P) -> P;
    mk_bvshl: fn(P, P, P) -> P;
    mk_bvlshr: fn(P, P, P) -> P;
    mk_bvashr: fn(P, P, P) -> P;
    mk_bvult: fn(P, P, P) -> P;
    mk_bvslt: fn(P, P, P) -> P;
    mk_extract: fn(P, c_uint, c_uint, P) -> P;
    mk_concat: fn(P, P, P) -> P;
    mk_zero_ext: fn(P, c_uint, P) -> P;
    mk_sign_ext: fn(P, c_uint, P) -> P;
    get_full_version: fn() -> *const c_char;
}

pub type Overlay = Rc<Vec<(u32, u128)>>;

#[derive(Clone)]
pub enum Ans {
    Sat(Overlay),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub order: u64,
    pub cache_hits: u64,
    pub dom_hits: u64,
    pub reuse_hits: u64,
    pub solver_s: f64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub max_query_s: f64,
}

struct Inc {
    sv: P,
    stack: Vec<Id>,
    used: u64,
    checks: u64,
}

pub struct Solver {
    api: Api,
    ctx: P,
    xcheck: bool,
    incremental: bool,
    quick: P,
    pool: Vec<Inc>,
    tick: u64,
    bv: HashMap<Id, P, FxB>,
    bo: HashMap<Id, P, FxB>,
    sorts: HashMap<u32, P>,
    cache: HashMap<Vec<Id>, Ans>,
    pub stats: Stats,
    recent: Vec<Overlay>,
    pub version: String,
    tactic: P,
    pub timeout_ms: u32,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let paths = std::env::var("SYMIR_Z3").map(|s| vec![s]).unwrap_or_else(|_| {
                vec![
                    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".to_string(),
                    "libz3.so.4".into(),
                    "libz3.so".into(),
                    "/usr/lib/x86_64-linux-gnu/libz3.so".into(),
                ]
            });
            let mut h = std::ptr::null_mut();
            for p in &paths {
                let c = CString::new(p.as_str()).unwrap();
                h = dlopen(c.as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            if h.is_null() {
                panic!("no libz3 found");
            }
            let api = Api::load(h);
            let cfg = (api.mk_config)();
            let ctx = (api.mk_context_rc)(cfg);
            let version = CStr::from_ptr((api.get_full_version)()).to_string_lossy().to_string();
            let quick = (api.mk_simple_solver)(ctx);
            (api.solver_inc_ref)(ctx, quick);
            let tn = CString::new("qfbv").unwrap();
            let tactic = (api.mk_tactic)(ctx, tn.as_ptr());
            (api.tactic_inc_ref)(ctx, tactic);
            Solver {
                api,
                ctx,
                incremental: std::env::var("SYMIR_INC").is_ok(),
                quick,
                xcheck: std::env::var("SYMIR_XCHECK").is_ok(),
                pool: vec![],
                tick: 0,
                bv: HashMap::default(),
                bo: HashMap::default(),
                sorts: HashMap::new(),
                cache: HashMap::new(),
                stats: Stats::default(),
                recent: vec![],
                version,
                tactic,
                timeout_ms: 120_000,
            }
        }
    }

    fn sort(&mut self, w: u32) -> P {
        if let Some(s) = self.sorts.get(&w) {
            return *s;
        }
        unsafe {
            let s = (self.api.mk_bv_sort)(self.ctx, w);
            (self.api.inc_ref)(self.ctx, s);
            self.sorts.insert(w, s);
            s
        }
    }

    fn num(&mut self, w: u32, v: u128) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 {
                (self.api.mk_unsigned_int64)(self.ctx, v as u64, s)
            } else {
                let c = CString::new(v.to_string()).unwrap();
                (self.api.mk_numeral)(self.ctx, c.as_ptr(), s)
            }
        }
    }

    fn tbool(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(p) = self.bo.get(&i) {
            return *p;
        }
        let n = ar.n[i as usize];
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        (self.api.mk_true)(c)
                    } else {
                        (self.api.mk_false)(c)
                    }
                }
                Op::Eq => {
                    if ar.w(n.a) == 1 {
                        let a = self.tbool(ar, n.a);
                        let b = self.tbool(ar, n.b);
                        (self.api.mk_eq)(c, a, b)
                    } else {
                        let a = self.tbv(ar, n.a);
                        let b = self.tbv(ar, n.b);
                        (self.api.mk_eq)(c, a, b)
                    }
                }
                Op::Ult => {
                    let a = self.tbv(ar, n.a);
                    let b = self.tbv(ar, n.b);
                    (self.api.mk_bvult)(c, a, b)
                }
                Op::Slt => {
                    let a = self.tbv(ar, n.a);
                    let b = self.tbv(ar, n.b);
                    (self.api.mk_bvslt)(c, a, b)
                }
                Op::Not => {
                    let a = self.tbool(ar, n.a);
                    (self.api.mk_not)(c, a)
                }
                Op::And => {
                    let v = [self.tbool(ar, n.a), self.tbool(ar, n.b)];
                    (self.api.mk_and)(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.tbool(ar, n.a), self.tbool(ar, n.b)];
                    (self.api.mk_or)(c, 2, v.as_ptr())
                }
                Op::Ite => {
                    let x = self.tbool(ar, n.a);
                    let a = self.tbool(ar, n.b);
                    let b = self.tbool(ar, n.c);
                    (self.api.mk_ite)(c, x, a, b)
                }
                _ => {
                    let a = self.tbv(ar, i);
                    let one = self.num(1, 1);
                    (self.api.mk_eq)(c, a, one)
                }
            }
        };
        if r.is_null() {
            panic!("z3 translation failed for {}", ar.show(i, 3));
        }
        unsafe { (self.api.inc_ref)(c, r) };
        self.bo.insert(i, r);
        r
    }

    fn tbv(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(p) = self.bv.get(&i) {
            return *p;
        }
        let n = ar.n[i as usize];
        let w = n.w as u32;
        let c = self.ctx;
        let r = unsafe {
            macro_rules! b2 {
                ($f:ident) => {{
                    let a = self.tbv(ar, n.a);
                    let b = self.tbv(ar, n.b);
                    (self.api.$f)(c, a, b)
                }};
            }
            match n.op {
                Op::Const => self.num(w, n.k),
                Op::Var => {
                    let s = self.sort(w);
                    let y = (self.api.mk_int_symbol)(c, n.k as c_int);
                    (self.api.mk_const)(c, y, s)
                }
                Op::Eq | Op::Ult | Op::Slt | Op::Not => {
                    let x = self.tbool(ar, i);
                    let a = self.num(1, 1);
                    let b = self.num(1, 0);
                    (self.api.mk_ite)(c, x, a, b)
                }
                Op::And | Op::Or if w == 1 => {
                    let x = self.tbool(ar, i);
                    let a = self.num(1, 1);
                    let b = self.num(1, 0);
                    (self.api.mk_ite)(c, x, a, b)
                }
                Op::Add => b2!(mk_bvadd),
                Op::Mul => b2!(mk_bvmul),
                Op::UDiv => b2!(mk_bvudiv),
                Op::URem => b2!(mk_bvurem),
                Op::SDiv => b2!(mk_bvsdiv),
                Op::SRem => b2!(mk_bvsrem),
                Op::And => b2!(mk_bvand),
                Op::Or => b2!(mk_bvor),
                Op::Xor => b2!(mk_bvxor),
                Op::Shl => b2!(mk_bvshl),
                Op::LShr => b2!(mk_bvlshr),
                Op::AShr => b2!(mk_bvashr),
                Op::Concat => b2!(mk_concat),
                Op::ZExt => {
                    let a = self.tbv(ar, n.a);
                    (self.api.mk_zero_ext)(c, w - ar.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.tbv(ar, n.a);
                    (self.api.mk_sign_ext)(c, w - ar.w(n.a), a)
                }
                Op::Extract => {
                    let a = self.tbv(ar, n.a);
                    (self.api.mk_extract)(c, n.c + w - 1, n.c, a)
                }
                Op::Ite => {
                    let x = self.tbool(ar, n.a);
                    let a = self.tbv(ar, n.b);
                    let b = self.tbv(ar, n.c);
                    (self.api.mk_ite)(c, x, a, b)
                }
            }
        };
        if r.is_null() {
            panic!("z3 translation failed for {}", ar.show(i, 3));
        }
        unsafe { (self.api.inc_ref)(c, r) };
        self.bv.insert(i, r);
        r
    }

    /// Is the conjunction satisfiable? Returns values for every variable in it.
    pub fn check(&mut self, ar: &mut Arena, cons: &[Id]) -> Ans {
        let mut key: Vec<Id> = Vec::with_capacity(cons.len());
        for c in cons {
            match ar.cv(*c) {
                Some(0) => return Ans::Unsat,
                Some(_) => {}
                None => key.push(*c),
            }
        }
        key.sort_unstable();
        key.dedup();
        if key.is_empty() {
            return Ans::Sat(Rc::new(vec![]));
        }
        if let Some(a) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return a.clone();
        }
        let mut s = 0;
        for c in &key {
            s = ar.sup_union(s, ar.sup_id(*c));
        }
        let vars = ar.sup_pool[s as usize].clone();
        // try recent models
        for r in self.recent.iter().rev() {
            let mut v = vec![0u128; ar.nvars as usize];
            for (k, x) in r.iter() {
                v[*k as usize] = *x;
            }
            let m = Model { gen: next_gen(), v };
            if key.iter().all(|c| ar.eval(*c, &m) == 1) {
                self.stats.reuse_hits += 1;
                let o: Overlay = Rc::new(vars.iter().map(|k| (*k, m.get(*k))).collect());
                let a = Ans::Sat(o);
                self.cache.insert(key, a.clone());
                return a;
            }
        }
        if crate::order::refutes(ar, &key) {
            self.stats.order += 1;
            if self.xcheck {
                let sv = unsafe {
                    let sv = (self.api.mk_solver_from_tactic)(self.ctx, self.tactic);
                    (self.api.solver_inc_ref)(self.ctx, sv);
                    sv
                };
                if !matches!(self.run(ar, &key, &vars, sv, self.timeout_ms), Ans::Unsat) {
                    panic!("order refutation wrong");
                }
                unsafe { (self.api.solver_dec_ref)(self.ctx, sv) };
            }
            self.cache.insert(key, Ans::Unsat);
            return Ans::Unsat;
        }
        let t0 = Instant::now();
        self.stats.queries += 1;
        let mut ans = if self.incremental {
            self.run_inc(ar, cons, &key, &vars)
        } else {
            let q = self.quick;
            self.run(ar, &key, &vars, q, 2_000)
        };
        if let Ans::Unknown = ans {
            unsafe {
                let sv = (self.api.mk_solver_from_tactic)(self.ctx, self.tactic);
                (self.api.solver_inc_ref)(self.ctx, sv);
                ans = self.run(ar, &key, &vars, sv, self.timeout_ms);
                (self.api.solver_dec_ref)(self.ctx, sv);
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.solver_s += dt;
        if dt > self.stats.max_query_s {
            self.stats.max_query_s = dt;
        }
        match &ans {
            Ans::Sat(o) => {
                self.stats.sat += 1;
                self.recent.push(o.clone());
                if self.recent.len() > 3 {
                    self.recent.remove(0);
                }
            }
            Ans::Unsat => {
                if std::env::var("SYMIR_DUMP").is_ok() && self.stats.unsat % 400 == 7 {
                    eprintln!("UNSAT {}", dt);
                    for k in &key {
                        eprintln!("    {}", ar.show(*k, 8));
                    }
                }
                self.stats.unsat += 1
            }
            Ans::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert(key, ans.clone());
        ans
    }

    /// incremental solvers: each keeps the assertion stack of its last query; the one
    /// sharing the longest prefix with this query is popped back to it and extended
    fn run_inc(&mut self, ar: &mut Arena, cons: &[Id], key: &[Id], vars: &[u32]) -> Ans {
        let mut list: Vec<Id> = Vec::with_capacity(cons.len());
        for c in cons {
            if ar.cv(*c).is_none() && !list.contains(c) {
                list.push(*c);
            }
        }
        self.tick += 1;
        let mut best: Option<(usize, usize)> = None;
        for (i, s) in self.pool.iter().enumerate() {
            let n = s.stack.iter().zip(list.iter()).take_while(|(a, b)| a == b).count();
            if best.map_or(true, |b| n > b.1) {
                best = Some((i, n));
            }
        }
        let idx = match best {
            Some((i, n)) if n > 0 && n * 2 >= self.pool[i].stack.len() || self.pool.len() >= 8 => {
                if n == 0 {
                    // reuse the least recently used one
                    (0..self.pool.len()).min_by_key(|i| self.pool[*i].used).unwrap()
                } else {
                    i
                }
            }
            _ => {
                unsafe {
                    let sv = match std::env::var("SYMIR_LOGIC") {
                        Ok(l) => {
                            let nm = CString::new(l).unwrap();
                            let sy = (self.api.mk_string_symbol)(self.ctx, nm.as_ptr());
                            (self.api.mk_solver_for_logic)(self.ctx, sy)
                        }
                        _ => (self.api.mk_simple_solver)(self.ctx),
                    };
                    (self.api.solver_inc_ref)(self.ctx, sv);
                    let ps = (self.api.mk_params)(self.ctx);
                    (self.api.params_inc_ref)(self.ctx, ps);
                    let nm = CString::new("rlimit").unwrap();
                    let sy = (self.api.mk_string_symbol)(self.ctx, nm.as_ptr());
                    (self.api.params_set_uint)(self.ctx, ps, sy, 4_000_000);
                    (self.api.solver_set_params)(self.ctx, sv, ps);
                    self.pool.push(Inc { sv, stack: vec![], used: 0, checks: 0 });
                }
                self.pool.len() - 1
            }
        };
        let (sv, mut n) = {
            let p = &self.pool[idx];
            (p.sv, p.stack.iter().zip(list.iter()).take_while(|(a, b)| a == b).count())
        };
        unsafe {
            if self.pool[idx].checks > 3000 {
                // start afresh now and then: popped scopes leave garbage behind
                (self.api.solver_dec_ref)(self.ctx, sv);
                self.pool.remove(idx);
                return self.run_inc(ar, cons, key, vars);
            }
            let depth = self.pool[idx].stack.len();
            if depth > n {
                (self.api.solver_pop)(self.ctx, sv, (depth - n) as c_uint);
                self.pool[idx].stack.truncate(n);
            }
            while n < list.len() {
                (self.api.solver_push)(self.ctx, sv);
                let a = self.tbool(ar, list[n]);
                (self.api.solver_assert)(self.ctx, sv, a);
                self.pool[idx].stack.push(list[n]);
                n += 1;
            }
            self.pool[idx].used = self.tick;
            self.pool[idx].checks += 1;
            self.check_model(ar, key, vars, sv)
        }
    }

    fn run(&mut self, ar: &mut Arena, key: &[Id], vars: &[u32], sv: P, timeout: u32) -> Ans {
        unsafe {
            let c = self.ctx;
            let ps = (self.api.mk_params)(c);
            (self.api.params_inc_ref)(c, ps);
            let nm = CString::new("timeout").unwrap();
            let sy = (self.api.mk_string_symbol)(c, nm.as_ptr());
            (self.api.params_set_uint)(c, ps, sy, timeout);
            (self.api.solver_set_params)(c, sv, ps);
            (self.api.solver_push)(c, sv);
            for k in key {
                let a = self.tbool(ar, *k);
                (self.api.solver_assert)(c, sv, a);
            }
            let ans = self.check_model(ar, key, vars, sv);
            (self.api.solver_pop)(c, sv, 1);
            ans
        }
    }

    fn check_model(&mut self, ar: &mut Arena, key: &[Id], vars: &[u32], sv: P) -> Ans {
        unsafe {
            let c = self.ctx;
            let r = (self.api.solver_check)(c, sv);
            let ans = match r {
                -1 => Ans::Unsat,
                1 => {
                    let m = (self.api.solver_get_model)(c, sv);
                    (self.api.model_inc_ref)(c, m);
                    let mut out = Vec::with_capacity(vars.len());
                    for v in vars.iter() {
                        let id = ar.var_id[*v as usize];
                        let a = self.tbv(ar, id);
                        let mut o: P = std::ptr::null_mut();
                        if !(self.api.model_eval)(c, m, a, true, &mut o) {
                            panic!("z3 model_eval");
                        }
                        (self.api.inc_ref)(c, o);
                        let mut x = 0u64;
                        let val = if (self.api.get_numeral_uint64)(c, o, &mut x) {
                            x as u128
                        } else {
                            let s = (self.api.get_numeral_string)(c, o);
                            CStr::from_ptr(s).to_str().unwrap().parse::<u128>().expect("numeral")
                        };
                        (self.api.dec_ref)(c, o);
                        out.push((*v, val));
                    }
                    (self.api.model_dec_ref)(c, m);
                    Ans::Sat(Rc::new(out))
                }
                _ => Ans::Unknown,
            };
            if let Ans::Sat(o) = &ans {
                // the model must satisfy the expressions under our own evaluator:
                // cross-checks simplifier, translation and solver on every query
                let mut v = vec![0u128; ar.nvars as usize];
                for (k, x) in o.iter() {
                    v[*k as usize] = *x;
                }
                let m = Model { gen: next_gen(), v };
                for k in key {
                    if ar.eval(*k, &m) != 1 {
                        panic!("solver model does not satisfy constraint {}", ar.show(*k, 6));
                    }
                }
            }
            ans
        }
    }
}

static GEN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
pub fn next_gen() -> u64 {
    GEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}

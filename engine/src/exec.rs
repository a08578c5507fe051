//! Symbolic executor over the decoded IR.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(Id),
    A(Rc<Vec<V>>),
}

/// one memory byte: expression id (0 = concrete) and concrete value
pub type BV = (Id, u8);

const FN_BASE: u64 = 0x7000_0000_0000_0000;

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Vec<Id>, // empty when fully concrete
    kind: u8,     // 0 global ro, 1 global rw, 2 stack, 3 heap
}

#[derive(Clone)]
struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    next: u32,
}

const CH: u32 = 64;

impl Mem {
    fn new() -> Self {
        Mem { chunks: vec![Rc::new(vec![None; CH as usize])], next: 1 }
    }
    fn alloc(&mut self, o: Obj) -> u32 {
        let id = self.next;
        self.next += 1;
        let c = (id / CH) as usize;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH as usize]));
        }
        Rc::make_mut(&mut self.chunks[c])[(id % CH) as usize] = Some(Rc::new(o));
        id
    }
    #[inline]
    fn get(&self, id: u32) -> Option<&Obj> {
        self.chunks.get((id / CH) as usize)?[(id % CH) as usize].as_deref()
    }
    #[inline]
    fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut((id / CH) as usize)?;
        let c = Rc::make_mut(c);
        c[(id % CH) as usize].as_mut().map(Rc::make_mut)
    }
    fn free(&mut self, id: u32) {
        if let Some(c) = self.chunks.get_mut((id / CH) as usize) {
            Rc::make_mut(c)[(id % CH) as usize] = None;
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    regs: Vec<V>,
    blk: u32,
    ip: u32,
    dst: Option<u32>,
    next: Option<u32>,
    allocas: Vec<u32>,
}

#[derive(Clone)]
struct Part {
    vars: Vec<u32>,
    cons: Vec<Id>,
    dom: Option<[u64; 4]>,
}

#[derive(Clone, Default)]
struct Parts {
    of: Vec<u32>,
    list: Vec<Option<Rc<Part>>>,
}

#[derive(Clone)]
pub struct State {
    cur: Frame,
    stack: Vec<Rc<Frame>>,
    mem: Mem,
    parts: Parts,
    known: Rc<HashMap<Id, u128, FxB>>,
    fixed: Vec<bool>,
    nfixed: u32,
    model: Rc<Model>,
    inputs: Vec<Vec<u32>>, // var ids per any_* call
    observes: Vec<Rc<Vec<BV>>>,
    hashes: Vec<u32>,
    nin: u32,
    insts: u64,
    reached: Vec<u32>,
    alloc_limit: u64,
    panic_ok: Option<u32>,
    depth_forks: u32,
}

struct HashEnt {
    bytes: Vec<BV>,
    lo: Id,
    hi: Id,
}

pub enum Stop {
    End,
    Forked,
    Err(String),
}

type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum H {
    None,
    Panic,
    RetZero,
    RandomKeys,
    HashOne,
    Api,
}

pub struct Violation {
    pub label: String,
    pub detail: String,
    pub inputs: Vec<Vec<u8>>,
    pub confirmed_model: bool,
    pub stack: Vec<String>,
}

pub struct Trace {
    pub inputs: Vec<Vec<u8>>,
    pub observes: Vec<Vec<u8>>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub killed_by_assume: u64,
    pub errors: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub reached: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    pub checks_sym: u64,
    pub forks: u64,
    pub insts: u64,
    pub truncated: u64,
    pub traces: Vec<Trace>,
    pub fns: BTreeSet<String>,
    pub panics_ok: u64,
    pub hashes_sym: u64,
    pub hashes_conc: u64,
    pub unconfirmed: u64,
}

pub struct Exec {
    pub m: Module,
    pub ar: Arena,
    pub sv: Solver,
    pub rep: Report,
    work: Vec<State>,
    base: Option<Mem>,
    gaddr: HashMap<u32, u64>,
    handlers: HashMap<u32, H>,
    hash_ents: Vec<HashEnt>,
    hash_ix: HashMap<Vec<BV>, u32>,
    hash_var: HashMap<u32, (u32, u32)>, // var -> (ent, 0 lo / 1 hi)
    known_hash: HashMap<[u8; 32], Rc<Vec<u8>>>,
    known_pre: HashMap<Rc<Vec<u8>>, [u8; 32]>,
    axioms: HashMap<(u32, u32), Id>,
    axioms_c: HashMap<(u32, [u8; 32]), Id>,
    ext_cache: HashMap<u32, Rc<[u32]>>,
    truth: HashMap<Id, [u64; 4], FxB>,
    labels: Vec<String>,
    label_ix: HashMap<String, u32>,
    in_vars: HashMap<(u32, u32), Id>, // (index, width) -> var
    pub inst_limit: u64,
    pub deadline: Option<Instant>,
    pub max_traces: usize,
    pub trace_on: bool,
    viol_labels: BTreeMap<String, u32>,
    fn_seen: Vec<bool>,
    pub max_mem_mb: u64,
    audit_on: bool,
}

fn b4_get(d: &[u64; 4], i: usize) -> bool {
    d[i / 64] >> (i % 64) & 1 == 1
}

impl Exec {
    pub fn new(m: Module) -> Exec {
        let mut ar = Arena::new();
        let z = ar.new_var(1); // pseudo-variable 0: ties all hash terms together
        let _ = z;
        let n = m.syms.len();
        Exec {
            m,
            ar,
            sv: Solver::new(),
            rep: Report::default(),
            work: vec![],
            base: None,
            gaddr: HashMap::new(),
            handlers: HashMap::new(),
            hash_ents: vec![],
            hash_ix: HashMap::new(),
            hash_var: HashMap::new(),
            known_hash: HashMap::new(),
            known_pre: HashMap::new(),
            axioms: HashMap::new(),
            axioms_c: HashMap::new(),
            ext_cache: HashMap::new(),
            truth: HashMap::default(),
            labels: vec![],
            label_ix: HashMap::new(),
            in_vars: HashMap::new(),
            inst_limit: 400_000_000,
            deadline: None,
            max_traces: 24,
            trace_on: false,
            viol_labels: BTreeMap::new(),
            fn_seen: vec![false; n + 4096],
            max_mem_mb: 3500,
            audit_on: std::env::var_os("SYMIR_AUDIT").is_some(),
        }
    }

    fn label(&mut self, s: &str) -> u32 {
        if let Some(i) = self.label_ix.get(s) {
            return *i;
        }
        let i = self.labels.len() as u32;
        self.labels.push(s.to_string());
        self.label_ix.insert(s.to_string(), i);
        i
    }

    // ---- globals ------------------------------------------------------

    fn init_globals(&mut self) -> Mem {
        let mut mem = Mem::new();
        let mut todo = vec![];
        for s in 0..self.m.syms.len() as u32 {
            if let SymKind::Global { ty, init, konst } = &self.m.syms[s as usize].kind {
                let size = self.m.alloc_size(*ty).max(1);
                let kind = if *konst { 0 } else { 1 };
                let id = mem.alloc(Obj { data: vec![0; size as usize], sym: vec![], kind });
                self.gaddr.insert(s, (id as u64) << 32);
                if let Some(i) = init {
                    todo.push((id, *ty, i.clone()));
                }
            }
        }
        for (id, ty, init) in todo {
            let mut buf = vec![0u8; self.m.alloc_size(ty).max(1) as usize];
            self.fill(&mut buf, 0, ty, &init);
            mem.get_mut(id).unwrap().data = buf;
        }
        mem
    }

    fn fill(&mut self, buf: &mut [u8], off: usize, ty: TyId, c: &Cst) {
        match c {
            Cst::Zero | Cst::Undef => {}
            Cst::Str(s) => buf[off..off + s.len()].copy_from_slice(s),
            Cst::Agg(v) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    let (o, _) = self.m.field_off(ty, i);
                    self.fill(buf, off + o as usize, *t, x);
                }
            }
            c => {
                let v = self.cst_int(c);
                let n = self.m.store_size(ty) as usize;
                for i in 0..n.min(16) {
                    buf[off + i] = (v >> (8 * i)) as u8;
                }
            }
        }
    }

    fn sym_addr(&mut self, s: u32) -> u64 {
        if let Some(a) = self.gaddr.get(&s) {
            return *a;
        }
        match &self.m.syms[s as usize].kind {
            SymKind::Alias(c) => {
                let c = c.clone();
                self.cst_int(&c) as u64
            }
            _ => FN_BASE + s as u64 * 16,
        }
    }

    fn cst_int(&mut self, c: &Cst) -> u128 {
        match c {
            Cst::Int(i) => *i,
            Cst::Zero | Cst::Undef => 0,
            Cst::Global(s) => self.sym_addr(*s) as u128,
            Cst::Add(b, k) => (self.cst_int(b) as i128).wrapping_add(*k) as u64 as u128,
            Cst::Sub(a, b) => (self.cst_int(a) as u64).wrapping_sub(self.cst_int(b) as u64) as u128,
            Cst::Trunc(a, w) => self.cst_int(a) & mask(*w),
            c => panic!("cst_int {c:?}"),
        }
    }

    fn cst_val(&mut self, ty: TyId, c: &Cst) -> V {
        match (&self.m.tys[ty as usize], c) {
            (Ty::Struct(es, _), Cst::Zero | Cst::Undef) => {
                let es = es.clone();
                V::A(Rc::new(es.iter().map(|t| self.cst_val(*t, &Cst::Zero)).collect()))
            }
            (Ty::Arr(n, e), Cst::Zero | Cst::Undef) => {
                let (n, e) = (*n, *e);
                V::A(Rc::new((0..n).map(|_| self.cst_val(e, &Cst::Zero)).collect()))
            }
            (Ty::Vec(n, e), Cst::Zero | Cst::Undef) => {
                let (n, e) = (*n, *e);
                V::A(Rc::new((0..n).map(|_| self.cst_val(e, &Cst::Zero)).collect()))
            }
            (_, Cst::Agg(v)) => V::A(Rc::new(v.iter().map(|(t, c)| self.cst_val(*t, c)).collect())),
            (_, Cst::Str(s)) => V::A(Rc::new(s.iter().map(|b| V::C(*b as u128)).collect())),
            (_, c) => V::C(self.cst_int(c)),
        }
    }

    #[inline]
    fn ov(&mut self, fr: &Frame, o: &Opnd, ty: TyId) -> V {
        match o {
            Opnd::Reg(r) => fr.regs[*r as usize].clone(),
            Opnd::Imm(i) => V::C(*i),
            Opnd::Cst(c) => {
                let c = c.clone();
                self.cst_val(ty, &c)
            }
            Opnd::Meta => V::C(0),
        }
    }

    fn id(&mut self, v: &V, w: u32) -> Id {
        match v {
            V::C(c) => self.ar.konst(w, *c),
            V::S(i) => *i,
            V::A(_) => panic!("aggregate where scalar expected"),
        }
    }

    fn v(&self, i: Id) -> V {
        match self.ar.cv(i) {
            Some(c) => V::C(c),
            None => V::S(i),
        }
    }

    // ---- path condition -----------------------------------------------

    fn simp(&mut self, st: &State, i: Id) -> Id {
        if self.ar.cv(i).is_some() {
            return i;
        }
        if let Some(c) = st.known.get(&i) {
            let w = self.ar.w(i);
            return self.ar.konst(w, *c);
        }
        if st.nfixed > 0 {
            let s = self.ar.sup_id(i);
            let p = &self.ar.sup_pool[s as usize];
            if p.len() <= 128 && p.iter().all(|v| st.fixed.get(*v as usize).copied().unwrap_or(false)) {
                let c = self.ar.eval(i, &st.model);
                let w = self.ar.w(i);
                return self.ar.konst(w, c);
            }
        }
        i
    }

    fn ext_vars(&mut self, i: Id) -> Rc<[u32]> {
        let s = self.ar.sup_id(i);
        self.ext_sup(s)
    }

    fn ext_sup(&mut self, s: u32) -> Rc<[u32]> {
        if let Some(r) = self.ext_cache.get(&s) {
            return r.clone();
        }
        let base = self.ar.sup_pool[s as usize].clone();
        let hs: Vec<u32> = base.iter().filter_map(|v| self.hash_var.get(v).map(|x| x.0)).collect();
        let r = if hs.is_empty() {
            base
        } else {
            let mut set: BTreeSet<u32> = base.iter().copied().collect();
            set.insert(0);
            for h in hs {
                let mut ss = 0;
                let ids: Vec<Id> = self.hash_ents[h as usize].bytes.iter().map(|b| b.0).filter(|i| *i != 0).collect();
                for b in ids {
                    let x = self.ar.sup_id(b);
                    ss = self.ar.sup_union(ss, x);
                }
                let e = self.ext_sup(ss);
                set.extend(e.iter().copied());
                set.insert(self.ar.n[self.hash_ents[h as usize].lo as usize].k as u32);
                set.insert(self.ar.n[self.hash_ents[h as usize].hi as usize].k as u32);
            }
            Rc::from(set.into_iter().collect::<Vec<_>>())
        };
        self.ext_cache.insert(s, r.clone());
        r
    }

    fn truth(&mut self, c: Id, var: u32) -> [u64; 4] {
        if let Some(t) = self.truth.get(&c) {
            return *t;
        }
        let w = self.ar.var_w[var as usize];
        let mut t = [0u64; 4];
        for v in 0..(1usize << w) {
            let mut cache = HashMap::default();
            if self.ar.eval1(c, var, v as u128, &mut cache) == 1 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        self.truth.insert(c, t);
        t
    }

    fn full_dom(&self, var: u32) -> [u64; 4] {
        let w = self.ar.var_w[var as usize];
        let n = 1usize << w;
        let mut d = [0u64; 4];
        for i in 0..n {
            d[i / 64] |= 1 << (i % 64);
        }
        d
    }

    fn part_of(&self, st: &State, v: u32) -> Option<usize> {
        match st.parts.of.get(v as usize) {
            Some(0) | None => None,
            Some(i) => Some(*i as usize - 1),
        }
    }

    fn feasible(&mut self, st: &State, c: Id) -> R<Option<Overlay>> {
        let c = self.simp(st, c);
        match self.ar.cv(c) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(Rc::new(vec![]))),
            None => {}
        }
        let vars = self.ext_vars(c);
        if vars.len() == 1 && self.ar.var_w[vars[0] as usize] <= 8 {
            let v = vars[0];
            let tt = self.truth(c, v);
            let (dom, single) = match self.part_of(st, v) {
                None => (self.full_dom(v), true),
                Some(p) => {
                    let p = st.parts.list[p].as_ref().unwrap();
                    (p.dom.unwrap_or_else(|| self.full_dom(v)), p.vars.len() == 1)
                }
            };
            let x = [dom[0] & tt[0], dom[1] & tt[1], dom[2] & tt[2], dom[3] & tt[3]];
            if x == [0; 4] {
                self.sv.stats.dom_hits += 1;
                return Ok(None);
            }
            if single {
                self.sv.stats.dom_hits += 1;
                let i = (0..256).find(|i| b4_get(&x, *i)).unwrap();
                return Ok(Some(Rc::new(vec![(v, i as u128)])));
            }
        }
        let mut pids: Vec<usize> = vec![];
        for v in vars.iter() {
            if let Some(p) = self.part_of(st, *v) {
                if !pids.contains(&p) {
                    pids.push(p);
                }
            }
        }
        let mut cons: Vec<Id> = vec![c];
        let cons_parts = pids.clone();
        for p in pids.iter().copied() {
            cons.extend(st.parts.list[p].as_ref().unwrap().cons.iter().copied());
        }
        // a part that holds a hash (variable 0) needs the axioms even when the
        // condition itself mentions no hash
        let hashy = vars.contains(&0) || self.part_of(st, 0).map_or(false, |p| cons_parts.contains(&p));
        self.solve(st, cons, hashy, cons_parts)
    }

    /// `inc`: the parts whose constraints `cons` holds; an axiom that mentions variables
    /// of other parts brings their constraints in
    fn solve(&mut self, st: &State, mut cons: Vec<Id>, hashy: bool, mut inc: Vec<usize>) -> R<Option<Overlay>> {
        let n0 = cons.len();
        if hashy {
            let bound = |x: &Self, h: u32| {
                let lo = x.hash_ents[h as usize].lo;
                x.part_of(st, x.ar.n[lo as usize].k as u32).is_some()
            };
            let hs: BTreeSet<u32> = st.hashes.iter().copied().filter(|h| bound(self, *h)).collect();
            for ((i, j), a) in &self.axioms {
                if hs.contains(i) && hs.contains(j) {
                    cons.push(*a);
                }
            }
            for ((i, _), a) in &self.axioms_c {
                if hs.contains(i) {
                    cons.push(*a);
                }
            }
        }
        let mut done = n0;
        loop {
            while done < cons.len() {
                for v in self.ext_vars(cons[done]).iter() {
                    if let Some(p) = self.part_of(st, *v) {
                        if !inc.contains(&p) {
                            inc.push(p);
                            cons.extend(st.parts.list[p].as_ref().unwrap().cons.iter().copied());
                        }
                    }
                }
                done += 1;
            }
            match self.sv.check(&mut self.ar, &cons) {
                Ans::Unsat => return Ok(None),
                Ans::Unknown => return Err(Stop::Err("solver timeout".into())),
                Ans::Sat(o) => {
                    if !hashy {
                        return Ok(Some(o));
                    }
                    let new = self.hash_axioms(st, &o);
                    if new.is_empty() {
                        return Ok(Some(o));
                    }
                    cons.extend(new);
                }
            }
        }
    }

    fn overlay_model(&mut self, st: &State, o: &Overlay) -> Model {
        let mut v = st.model.v.clone();
        v.resize(self.ar.nvars as usize, 0);
        let mut touched: BTreeSet<u32> = BTreeSet::new();
        for (k, x) in o.iter() {
            v[*k as usize] = *x;
            touched.insert(*k);
        }
        let mut m = Model { gen: next_gen(), v };
        let free = |v: u32| !touched.contains(&v) && st.parts.of.get(v as usize).copied().unwrap_or(0) == 0;
        let hs: Vec<(u32, usize, usize, bool)> = st
            .hashes
            .iter()
            .map(|h| {
                let (lo, hi) = (self.hash_ents[*h as usize].lo, self.hash_ents[*h as usize].hi);
                let (l, r) = (self.ar.n[lo as usize].k as u32, self.ar.n[hi as usize].k as u32);
                (*h, l as usize, r as usize, free(l) && free(r))
            })
            .collect();
        let set = |m: &mut Model, l: usize, h: usize, r: [u8; 32]| {
            m.v[l] = u128::from_le_bytes(r[..16].try_into().unwrap());
            m.v[h] = u128::from_le_bytes(r[16..].try_into().unwrap());
        };
        for (h, l, r, f) in &hs {
            if *f {
                let b = self.eval_bytes(*h, &m);
                set(&mut m, *l, *r, *blake3::hash(&b).as_bytes());
                m.gen = next_gen();
            }
        }
        if hs.iter().all(|x| x.3) || hs.iter().all(|x| !x.3) {
            return m;
        }
        // a free hash of the same bytes as one the constraints give a value has that value
        for _ in 0..8 {
            let mut by: HashMap<Vec<u8>, u32> = HashMap::default();
            for (h, _, _, f) in &hs {
                if !*f {
                    let b = self.eval_bytes(*h, &m);
                    by.entry(b).or_insert(*h);
                }
            }
            let mut changed = false;
            for (h, l, r, f) in &hs {
                if *f {
                    let b = self.eval_bytes(*h, &m);
                    let x = match by.get(&b) {
                        Some(e) => self.hash_value(*e, &m),
                        None => *blake3::hash(&b).as_bytes(),
                    };
                    if x != self.hash_value(*h, &m) {
                        set(&mut m, *l, *r, x);
                        m.gen = next_gen();
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        m
    }

    /// debugging: the model satisfies the path condition and the hash axioms
    fn audit(&mut self, st: &State, at: &str) {
        if !self.audit_on {
            return;
        }
        let m = st.model.clone();
        for c in self.all_cons(st) {
            let mut m2 = Model { gen: next_gen(), v: m.v.clone() };
            m2.v.resize(self.ar.nvars as usize, 0);
            if self.ar.eval(c, &m2) != 1 {
                eprintln!("AUDIT {at}: constraint {} violated", self.ar.show(c, 5));
                std::process::exit(3);
            }
        }
        let ax = self.hash_axioms(st, &Rc::new(vec![]));
        for a in ax {
            eprintln!("AUDIT {at}: axiom {}", self.ar.show(a, 5));
            let x: Vec<(u32, u32)> = self.axioms.iter().filter(|x| *x.1 == a).map(|x| *x.0).collect();
            eprintln!("AUDIT pair {x:?} {:?}", st.hashes);
            for (i, j) in x {
                for h in [i, j] {
                    let b = self.eval_bytes(h, &m);
                    let v = self.hash_value(h, &m);
                    let lo = self.ar.n[self.hash_ents[h as usize].lo as usize].k as u32;
                    eprintln!("AUDIT h{h} part {:?} {:02x?} <- {:02x?}", self.part_of(st, lo), v, b);
                }
            }
            std::process::exit(3);
        }
    }

    fn eval_bytes(&mut self, h: u32, m: &Model) -> Vec<u8> {
        let n = self.hash_ents[h as usize].bytes.len();
        let mut out = Vec::with_capacity(n);
        for k in 0..n {
            let (i, c) = self.hash_ents[h as usize].bytes[k];
            out.push(if i == 0 { c } else { self.ar.eval(i, m) as u8 });
        }
        out
    }

    /// axioms violated by this candidate model
    fn hash_axioms(&mut self, st: &State, o: &Overlay) -> Vec<Id> {
        let m = self.overlay_model(st, o);
        let mut out = vec![];
        let vals: Vec<(u32, [u8; 32], Vec<u8>)> = st
            .hashes
            .clone()
            .into_iter()
            .map(|h| {
                let (lo, hi) = (self.hash_ents[h as usize].lo, self.hash_ents[h as usize].hi);
                let mut x = [0u8; 32];
                x[..16].copy_from_slice(&self.ar.eval(lo, &m).to_le_bytes());
                x[16..].copy_from_slice(&self.ar.eval(hi, &m).to_le_bytes());
                let b = self.eval_bytes(h, &m);
                (h, x, b)
            })
            .collect();
        for i in 0..vals.len() {
            for j in 0..i {
                if (vals[i].1 == vals[j].1) != (vals[i].2 == vals[j].2) {
                    let (a, b) = (vals[j].0, vals[i].0);
                    let ax = self.pair_axiom(a, b);
                    if !out.contains(&ax) {
                        out.push(ax);
                    }
                }
            }
            let by_hash = self.known_hash.get(&vals[i].1).cloned();
            let bytes = Rc::new(vals[i].2.clone());
            let by_pre = self.known_pre.get(&bytes).copied();
            let mut want: Vec<[u8; 32]> = vec![];
            if let Some(p) = by_hash {
                if *p != vals[i].2 {
                    want.push(vals[i].1);
                }
            }
            if let Some(h) = by_pre {
                if h != vals[i].1 {
                    want.push(h);
                }
            }
            if vals[i].1 == [0; 32] {
                want.push([0; 32]);
            }
            for c in want {
                let ax = self.const_axiom(vals[i].0, c);
                if !out.contains(&ax) {
                    out.push(ax);
                }
            }
        }
        out
    }

    fn hash_eq_expr(&mut self, i: u32, j: u32) -> Id {
        let (a, b) = (self.hash_ents[i as usize].lo, self.hash_ents[j as usize].lo);
        let (c, d) = (self.hash_ents[i as usize].hi, self.hash_ents[j as usize].hi);
        let x = self.ar.eq(a, b);
        let y = self.ar.eq(c, d);
        self.ar.and(x, y)
    }

    fn pair_axiom(&mut self, i: u32, j: u32) -> Id {
        if let Some(a) = self.axioms.get(&(i, j)) {
            return *a;
        }
        let e = self.hash_eq_expr(i, j);
        let (x, y) = (self.hash_ents[i as usize].bytes.clone(), self.hash_ents[j as usize].bytes.clone());
        let ie = self.eq_bytes(&x, &y);
        let ax = self.ar.eq(e, ie);
        self.axioms.insert((i, j), ax);
        ax
    }

    fn const_axiom(&mut self, i: u32, c: [u8; 32]) -> Id {
        if let Some(a) = self.axioms_c.get(&(i, c)) {
            return *a;
        }
        let lo = self.ar.konst(128, u128::from_le_bytes(c[..16].try_into().unwrap()));
        let hi = self.ar.konst(128, u128::from_le_bytes(c[16..].try_into().unwrap()));
        let (a, b) = (self.hash_ents[i as usize].lo, self.hash_ents[i as usize].hi);
        let x = self.ar.eq(a, lo);
        let y = self.ar.eq(b, hi);
        let e = self.ar.and(x, y);
        let ie = match self.known_hash.get(&c).cloned() {
            None => self.ar.f(),
            Some(p) => {
                let q: Vec<BV> = p.iter().map(|b| (0, *b)).collect();
                let bytes = self.hash_ents[i as usize].bytes.clone();
                self.eq_bytes(&bytes, &q)
            }
        };
        let ax = self.ar.eq(e, ie);
        self.axioms_c.insert((i, c), ax);
        ax
    }

    fn add(&mut self, st: &mut State, c: Id) {
        let n = self.ar.n[c as usize];
        match n.op {
            Op::Const => return,
            Op::And => {
                self.add(st, n.a);
                self.add(st, n.b);
                return;
            }
            Op::Not => {
                let k = self.ar.n[n.a as usize];
                if k.op == Op::Or {
                    let x = self.ar.not(k.a);
                    let y = self.ar.not(k.b);
                    self.add(st, x);
                    self.add(st, y);
                    return;
                }
                Rc::make_mut(&mut st.known).insert(n.a, 0);
            }
            Op::Eq => {
                if let Some(k) = self.ar.cv(n.b) {
                    Rc::make_mut(&mut st.known).insert(n.a, k);
                    let x = self.ar.n[n.a as usize];
                    if x.op == Op::Var {
                        self.fix(st, x.k as u32);
                    }
                }
            }
            Op::Var => self.fix(st, n.k as u32),
            _ => {}
        }
        {
            let k = Rc::make_mut(&mut st.known);
            if k.get(&c) == Some(&1) {
                return;
            }
            k.insert(c, 1);
        }
        let vars = self.ext_vars(c);
        // merge parts
        let mut pids: Vec<usize> = vec![];
        for v in vars.iter() {
            if let Some(p) = self.part_of(st, *v) {
                if !pids.contains(&p) {
                    pids.push(p);
                }
            }
        }
        if st.parts.of.len() < self.ar.nvars as usize {
            st.parts.of.resize(self.ar.nvars as usize, 0);
        }
        let single = vars.len() == 1 && self.ar.var_w[vars[0] as usize] <= 8;
        if pids.len() == 1 {
            let p = pids[0];
            let mut part = st.parts.list[p].take().unwrap();
            {
                let pm = Rc::make_mut(&mut part);
                pm.cons.push(c);
                for v in vars.iter() {
                    if st.parts.of[*v as usize] == 0 {
                        st.parts.of[*v as usize] = p as u32 + 1;
                        pm.vars.push(*v);
                    }
                }
                if pm.vars.len() > 1 {
                    pm.dom = None;
                } else if single {
                    let v = vars[0];
                    let tt = self.truth(c, v);
                    let mut d = pm.dom.unwrap_or_else(|| self.full_dom(v));
                    for i in 0..4 {
                        d[i] &= tt[i];
                    }
                    pm.dom = Some(d);
                    if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                        self.fix(st, v);
                    }
                }
            }
            st.parts.list[p] = Some(part);
            return;
        }
        let mut np = Part { vars: vec![], cons: vec![], dom: None };
        for p in pids {
            let q = st.parts.list[p].take().unwrap();
            np.vars.extend(q.vars.iter().copied());
            np.cons.extend(q.cons.iter().copied());
        }
        for v in vars.iter() {
            if !np.vars.contains(v) {
                np.vars.push(*v);
            }
        }
        np.cons.push(c);
        if np.vars.len() == 1 && single {
            let v = vars[0];
            let tt = self.truth(c, v);
            np.dom = Some(tt);
            if tt.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                self.fix(st, v);
            }
        }
        let ix = st.parts.list.len() as u32 + 1;
        for v in &np.vars {
            st.parts.of[*v as usize] = ix;
        }
        st.parts.list.push(Some(Rc::new(np)));
    }

    fn fix(&mut self, st: &mut State, v: u32) {
        if st.fixed.len() <= v as usize {
            st.fixed.resize(v as usize + 1, false);
        }
        if !st.fixed[v as usize] {
            st.fixed[v as usize] = true;
            st.nfixed += 1;
        }
    }

    fn set_model(&mut self, st: &mut State, o: &Overlay) {
        if o.is_empty() {
            return;
        }
        let m = self.overlay_model(st, o);
        st.model = Rc::new(m);
        self.audit(st, "model");
    }

    fn push_fork(&mut self, st: &State, c: Id, o: &Overlay) {
        let mut s2 = st.clone();
        self.set_model(&mut s2, o);
        self.add(&mut s2, c);
        s2.depth_forks += 1;
        self.rep.forks += 1;
        self.work.push(s2);
    }

    /// decide a boolean; forks when both sides are feasible
    fn decide(&mut self, st: &mut State, c: Id) -> R<bool> {
        let c = self.simp(st, c);
        if let Some(k) = self.ar.cv(c) {
            return Ok(k == 1);
        }
        let v = self.ar.eval(c, &st.model) == 1;
        let (yes, no) = if v { (c, self.ar.not(c)) } else { (self.ar.not(c), c) };
        if let Some(o) = self.feasible(st, no)? {
            self.push_fork(st, no, &o);
            self.add(st, yes);
        } else {
            Rc::make_mut(&mut st.known).insert(c, v as u128);
        }
        Ok(v)
    }

    fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::S(i) => {
                let i = self.simp(st, *i);
                if let Some(c) = self.ar.cv(i) {
                    return Ok(c);
                }
                let v0 = self.ar.eval(i, &st.model);
                let k = self.ar.konst(w, v0);
                let e = self.ar.eq(i, k);
                let ne = self.ar.not(e);
                if let Some(o) = self.feasible(st, ne)? {
                    self.push_fork(st, ne, &o);
                    self.add(st, e);
                }
                Rc::make_mut(&mut st.known).insert(i, v0);
                Ok(v0)
            }
            _ => Err(Stop::Err("concretize aggregate".into())),
        }
    }

    // ---- memory -------------------------------------------------------

    fn rd(&self, st: &State, addr: u64, n: usize, out: &mut Vec<BV>) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let o = match st.mem.get((addr >> 32) as u32) {
            Some(o) => o,
            None => return Err(Stop::Err(format!("invalid read of {n} at {addr:#x}"))),
        };
        let off = (addr & 0xffff_ffff) as usize;
        if off + n > o.data.len() {
            return Err(Stop::Err(format!("out-of-bounds read of {n} at {addr:#x} (object size {})", o.data.len())));
        }
        if o.sym.is_empty() {
            out.extend(o.data[off..off + n].iter().map(|b| (0, *b)));
        } else {
            for i in off..off + n {
                out.push((o.sym[i], o.data[i]));
            }
        }
        Ok(())
    }

    fn rdv(&self, st: &State, addr: u64, n: usize) -> R<Vec<BV>> {
        let mut v = Vec::with_capacity(n);
        self.rd(st, addr, n, &mut v)?;
        Ok(v)
    }

    fn wr(&self, st: &mut State, addr: u64, bytes: &[BV]) -> R<()> {
        if bytes.is_empty() {
            return Ok(());
        }
        let o = match st.mem.get_mut((addr >> 32) as u32) {
            Some(o) => o,
            None => return Err(Stop::Err(format!("invalid write of {} at {addr:#x}", bytes.len()))),
        };
        if o.kind == 0 {
            return Err(Stop::Err(format!("write to constant at {addr:#x}")));
        }
        let off = (addr & 0xffff_ffff) as usize;
        if off + bytes.len() > o.data.len() {
            return Err(Stop::Err(format!("out-of-bounds write of {} at {addr:#x} (object size {})", bytes.len(), o.data.len())));
        }
        if o.sym.is_empty() {
            if bytes.iter().all(|b| b.0 == 0) {
                for (i, b) in bytes.iter().enumerate() {
                    o.data[off + i] = b.1;
                }
                return Ok(());
            }
            o.sym = vec![0; o.data.len()];
        }
        for (i, b) in bytes.iter().enumerate() {
            o.sym[off + i] = b.0;
            o.data[off + i] = b.1;
        }
        Ok(())
    }

    fn bytes_to_id(&mut self, b: &[BV]) -> Id {
        // little endian, up to 16 bytes
        let mut acc: Option<Id> = None;
        let mut i = 0;
        while i < b.len() {
            let p;
            if b[i].0 == 0 {
                let s = i;
                let mut k = 0u128;
                while i < b.len() && b[i].0 == 0 {
                    k |= (b[i].1 as u128) << (8 * (i - s));
                    i += 1;
                }
                p = self.ar.konst(8 * (i - s) as u32, k);
            } else {
                p = b[i].0;
                i += 1;
            }
            acc = Some(match acc {
                None => p,
                Some(l) => self.ar.concat(p, l),
            });
        }
        acc.unwrap()
    }

    fn id_to_bytes(&mut self, i: Id, n: usize) -> Vec<BV> {
        let w = self.ar.w(i);
        let x = if (w as usize) < n * 8 { self.ar.zext(i, n as u32 * 8) } else { i };
        (0..n)
            .map(|k| {
                let e = self.ar.extract(x, 8 * k as u32 + 7, 8 * k as u32);
                match self.ar.cv(e) {
                    Some(c) => (0, c as u8),
                    None => (e, 0),
                }
            })
            .collect()
    }

    fn load_c(&mut self, st: &State, addr: u64, ty: TyId) -> R<V> {
        let t = self.m.tys[ty as usize].clone();
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = self.m.width(ty);
                let n = (w as usize + 7) / 8;
                // fast path
                let o = match st.mem.get((addr >> 32) as u32) {
                    Some(o) => o,
                    None => {
                        return Err(Stop::Err(format!("invalid read of {n} at {addr:#x}")));
                    }
                };
                let off = (addr & 0xffff_ffff) as usize;
                if off + n > o.data.len() {
                    return Err(Stop::Err(format!("out-of-bounds read of {n} at {addr:#x} (size {})", o.data.len())));
                }
                if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
                    if n > 16 {
                        return Err(Stop::Err(format!("integer load i{w}")));
                    }
                    let mut buf = [0u8; 16];
                    buf[..n].copy_from_slice(&o.data[off..off + n]);
                    return Ok(V::C(u128::from_le_bytes(buf) & mask(w)));
                }
                if n > 16 {
                    return Err(Stop::Err(format!("symbolic integer load i{w}")));
                }
                let b = self.rdv(st, addr, n)?;
                let mut i = self.bytes_to_id(&b);
                if w % 8 != 0 {
                    i = self.ar.trunc(i, w);
                }
                let i = self.simp(st, i);
                Ok(self.v(i))
            }
            Ty::Vec(n, e) => {
                let es = self.m.store_size(e);
                let mut v = Vec::with_capacity(n as usize);
                for k in 0..n as u64 {
                    v.push(self.load_c(st, addr + k * es, e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(es, _) => {
                let mut v = vec![];
                for k in 0..es.len() {
                    let (o, t) = self.m.field_off(ty, k);
                    v.push(self.load_c(st, addr + o, t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, _) => {
                let mut v = vec![];
                for k in 0..n as usize {
                    let (o, t) = self.m.field_off(ty, k);
                    v.push(self.load_c(st, addr + o, t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            t => Err(Stop::Err(format!("load of {t:?}"))),
        }
    }

    fn store_c(&mut self, st: &mut State, addr: u64, ty: TyId, v: &V) -> R<()> {
        match v {
            V::C(c) => {
                let n = self.m.store_size(ty) as usize;
                let o = match st.mem.get_mut((addr >> 32) as u32) {
                    Some(o) => o,
                    None => return Err(Stop::Err(format!("invalid write of {n} at {addr:#x}"))),
                };
                let off = (addr & 0xffff_ffff) as usize;
                if off + n > o.data.len() || n > 16 || o.kind == 0 {
                    return Err(Stop::Err(format!("bad write of {n} at {addr:#x} (size {} kind {})", o.data.len(), o.kind)));
                }
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + n] {
                        *x = 0;
                    }
                }
                Ok(())
            }
            V::S(i) => {
                let n = self.m.store_size(ty) as usize;
                let b = self.id_to_bytes(*i, n);
                self.wr(st, addr, &b)
            }
            V::A(vs) => {
                for k in 0..vs.len() {
                    let (o, t) = self.m.field_off(ty, k);
                    self.store_c(st, addr + o, t, &vs[k])?;
                }
                Ok(())
            }
        }
    }

    /// all feasible values of a symbolic address, when few; None if too many
    fn addr_values(&mut self, st: &mut State, i: Id, limit: usize) -> R<Option<Vec<u64>>> {
        let vars = self.ext_vars(i);
        if vars.len() == 1 && self.ar.var_w[vars[0] as usize] <= 8 {
            let v = vars[0];
            let (dom, exact) = match self.part_of(st, v) {
                Some(p) => match st.parts.list[p].as_ref().unwrap().dom {
                    Some(d) => (d, true),
                    None => (self.full_dom(v), false),
                },
                None => (self.full_dom(v), true),
            };
            let mut out = BTreeSet::new();
            for k in 0..256 {
                if !exact {
                    // the byte is tied to others: ask for each value below
                    break;
                }
                if b4_get(&dom, k) {
                    let mut c = HashMap::default();
                    out.insert(self.ar.eval1(i, v, k as u128, &mut c) as u64);
                }
            }
            if exact {
                return Ok(if out.len() <= limit { Some(out.into_iter().collect()) } else { None });
            }
        }
        let mut out = vec![];
        let mut excl = self.ar.t();
        loop {
            match self.feasible_multi(st, excl)? {
                None => break,
                Some(m) => {
                    let a = self.ar.eval(i, &m) as u64;
                    out.push(a);
                    if out.len() > limit {
                        return Ok(None);
                    }
                    let k = self.ar.konst(64, a as u128);
                    let e = self.ar.eq(i, k);
                    let ne = self.ar.not(e);
                    excl = self.ar.and(excl, ne);
                }
            }
        }
        out.sort();
        Ok(Some(out))
    }

    fn feasible_multi(&mut self, st: &State, c: Id) -> R<Option<Model>> {
        Ok(match self.feasible(st, c)? {
            None => None,
            Some(o) => Some(self.overlay_model(st, &o)),
        })
    }

    fn load(&mut self, st: &mut State, p: &V, ty: TyId) -> R<V> {
        match p {
            V::C(a) => self.load_c(st, *a as u64, ty),
            V::S(i) => {
                let i = self.simp(st, *i);
                if let Some(a) = self.ar.cv(i) {
                    return self.load_c(st, a as u64, ty);
                }
                let scalar = self.m.width(ty) > 0;
                let vals = if scalar { self.addr_values(st, i, 256)? } else { None };
                match vals {
                    Some(vs) => {
                        let w = self.m.width(ty);
                        // group by value
                        let mut groups: Vec<(V, Vec<u64>)> = vec![];
                        let mut gix: HashMap<Id, usize> = HashMap::new();
                        for a in vs {
                            let x = self.load_c(st, a, ty)?;
                            let xi = self.id(&x, w);
                            match gix.get(&xi) {
                                Some(g) => groups[*g].1.push(a),
                                None => {
                                    gix.insert(xi, groups.len());
                                    groups.push((x, vec![a]));
                                }
                            }
                        }
                        groups.sort_by_key(|g| g.1.len());
                        let last = groups.pop().unwrap();
                        let mut acc = self.id(&last.0, w);
                        for (x, addrs) in groups {
                            let mut c = self.ar.f();
                            for a in addrs {
                                let k = self.ar.konst(64, a as u128);
                                let e = self.ar.eq(i, k);
                                c = self.ar.or(c, e);
                            }
                            let xi = self.id(&x, w);
                            acc = self.ar.ite(c, xi, acc);
                        }
                        Ok(self.v(acc))
                    }
                    None => {
                        let a = self.concretize(st, &V::S(i), 64)?;
                        self.load_c(st, a as u64, ty)
                    }
                }
            }
            _ => Err(Stop::Err("load via aggregate".into())),
        }
    }

    fn store(&mut self, st: &mut State, p: &V, ty: TyId, v: &V) -> R<()> {
        match p {
            V::C(a) => self.store_c(st, *a as u64, ty, v),
            V::S(i) => {
                let i = self.simp(st, *i);
                if let Some(a) = self.ar.cv(i) {
                    return self.store_c(st, a as u64, ty, v);
                }
                let w = self.m.width(ty);
                let vals = if w > 0 { self.addr_values(st, i, 32)? } else { None };
                match vals {
                    Some(vs) => {
                        let n = self.m.store_size(ty) as usize;
                        let xi = self.id(v, w);
                        let nb = self.id_to_bytes(xi, n);
                        for a in vs {
                            let k = self.ar.konst(64, a as u128);
                            let c = self.ar.eq(i, k);
                            let old = self.rdv(st, a, n)?;
                            let mut out = vec![];
                            for (o, x) in old.iter().zip(nb.iter()) {
                                let oi = if o.0 == 0 { self.ar.konst(8, o.1 as u128) } else { o.0 };
                                let ni = if x.0 == 0 { self.ar.konst(8, x.1 as u128) } else { x.0 };
                                let r = self.ar.ite(c, ni, oi);
                                out.push(match self.ar.cv(r) {
                                    Some(k) => (0, k as u8),
                                    None => (r, 0),
                                });
                            }
                            self.wr(st, a, &out)?;
                        }
                        Ok(())
                    }
                    None => {
                        let a = self.concretize(st, &V::S(i), 64)?;
                        self.store_c(st, a as u64, ty, v)
                    }
                }
            }
            _ => Err(Stop::Err("store via aggregate".into())),
        }
    }

    // ---- byte-string comparison with hash rewriting ---------------------

    fn hash_run(&self, b: &[BV]) -> Option<u32> {
        if b.len() < 32 || b[0].0 == 0 {
            return None;
        }
        let var = |i: Id| -> Option<(u32, u32)> {
            if i == 0 {
                return None;
            }
            let n = &self.ar.n[i as usize];
            if n.op != Op::Extract {
                return None;
            }
            let v = &self.ar.n[n.a as usize];
            if v.op != Op::Var {
                return None;
            }
            let (e, half) = *self.hash_var.get(&(v.k as u32))?;
            Some((e, half * 16 + n.c / 8))
        };
        let (e, o) = var(b[0].0)?;
        if o != 0 {
            return None;
        }
        for k in 1..32 {
            if var(b[k].0)? != (e, k as u32) {
                return None;
            }
        }
        Some(e)
    }

    fn eq_bytes(&mut self, a: &[BV], b: &[BV]) -> Id {
        if a.len() != b.len() {
            return self.ar.f();
        }
        let n = a.len();
        let mut acc = self.ar.t();
        let mut i = 0;
        while i < n {
            if a[i] == b[i] {
                i += 1;
                continue;
            }
            if a[i].0 == 0 && b[i].0 == 0 {
                return self.ar.f();
            }
            // hash runs may start up to here; test alignment at this position
            let (ha, hb) = if n - i >= 32 { (self.hash_run(&a[i..i + 32]), self.hash_run(&b[i..i + 32])) } else { (None, None) };
            if let (Some(x), Some(y)) = (ha, hb) {
                let (p, q) = (self.hash_ents[x as usize].bytes.clone(), self.hash_ents[y as usize].bytes.clone());
                let e = self.eq_bytes(&p, &q);
                acc = self.ar.and(acc, e);
                i += 32;
            } else if ha.is_some() || hb.is_some() {
                let (h, o) = if let Some(h) = ha { (h, &b[i..i + 32]) } else { (hb.unwrap(), &a[i..i + 32]) };
                if o.iter().all(|x| x.0 == 0) {
                    let mut c = [0u8; 32];
                    for k in 0..32 {
                        c[k] = o[k].1;
                    }
                    let e = match self.known_hash.get(&c).cloned() {
                        None => self.ar.f(),
                        Some(p) => {
                            let q: Vec<BV> = p.iter().map(|b| (0, *b)).collect();
                            let bytes = self.hash_ents[h as usize].bytes.clone();
                            self.eq_bytes(&bytes, &q)
                        }
                    };
                    acc = self.ar.and(acc, e);
                } else {
                    for k in [0, 16] {
                        let x = self.bytes_to_id(&a[i + k..i + k + 16]);
                        let y = self.bytes_to_id(&b[i + k..i + k + 16]);
                        let e = self.ar.eq(x, y);
                        acc = self.ar.and(acc, e);
                    }
                }
                i += 32;
            } else {
                let x = if a[i].0 == 0 { self.ar.konst(8, a[i].1 as u128) } else { a[i].0 };
                let y = if b[i].0 == 0 { self.ar.konst(8, b[i].1 as u128) } else { b[i].0 };
                let e = self.ar.eq(x, y);
                acc = self.ar.and(acc, e);
                i += 1;
            }
            if self.ar.cv(acc) == Some(0) {
                return acc;
            }
        }
        acc
    }

    fn simp_bytes(&mut self, st: &State, b: &mut [BV]) {
        for x in b.iter_mut() {
            if x.0 != 0 {
                let i = self.simp(st, x.0);
                if let Some(c) = self.ar.cv(i) {
                    *x = (0, c as u8);
                }
            }
        }
    }

    /// -1/0/1 as an i32 expression
    fn cmp_bytes(&mut self, a: &[BV], b: &[BV]) -> Id {
        let n = a.len();
        let mut pieces = vec![];
        let mut i = 0;
        while i < n {
            if a[i] == b[i] {
                i += 1;
                continue;
            }
            let e = (i + 16).min(n);
            let mut x: Vec<BV> = a[i..e].to_vec();
            let mut y: Vec<BV> = b[i..e].to_vec();
            x.reverse();
            y.reverse();
            let xi = self.bytes_to_id(&x);
            let yi = self.bytes_to_id(&y);
            pieces.push((xi, yi));
            if let (Some(p), Some(q)) = (self.ar.cv(xi), self.ar.cv(yi)) {
                if p != q {
                    break;
                }
            }
            i = e;
        }
        let mut acc = self.ar.konst(32, 0);
        let one = self.ar.konst(32, 1);
        let neg = self.ar.konst(32, 0xffff_ffff);
        for (x, y) in pieces.into_iter().rev() {
            let lt = self.ar.ult(x, y);
            let gt = self.ar.ult(y, x);
            let r = self.ar.ite(gt, one, acc);
            acc = self.ar.ite(lt, neg, r);
        }
        acc
    }

    // ---- hashing --------------------------------------------------------

    fn hash_value(&mut self, e: u32, m: &Model) -> [u8; 32] {
        let (lo, hi) = (self.hash_ents[e as usize].lo, self.hash_ents[e as usize].hi);
        let mut x = [0u8; 32];
        x[..16].copy_from_slice(&self.ar.eval(lo, m).to_le_bytes());
        x[16..].copy_from_slice(&self.ar.eval(hi, m).to_le_bytes());
        x
    }

    fn do_hash(&mut self, st: &mut State, mut bytes: Vec<BV>) -> R<Vec<BV>> {
        self.simp_bytes(st, &mut bytes);
        if bytes.iter().all(|b| b.0 == 0) {
            let d: Vec<u8> = bytes.iter().map(|b| b.1).collect();
            self.rep.hashes_conc += 1;
            let d = Rc::new(d);
            let h = match self.known_pre.get(&d) {
                Some(h) => *h,
                None => {
                    let h = *blake3::hash(&d).as_bytes();
                    self.known_hash.insert(h, d.clone());
                    self.known_pre.insert(d.clone(), h);
                    h
                }
            };
            // the model may give a symbolic hash of the same bytes another value
            let m = st.model.clone();
            for e in st.hashes.clone() {
                if self.hash_ents[e as usize].bytes.len() == d.len() && self.eval_bytes(e, &m) == *d {
                    let x = self.hash_value(e, &m);
                    if x != h {
                        let cons = self.all_cons(st);
                        let all = (0..st.parts.list.len()).filter(|p| st.parts.list[*p].is_some()).collect();
                        match self.solve(st, cons, true, all)? {
                            Some(o) => self.set_model(st, &o),
                            // the hash's true value contradicts what the path assumed of it
                            None => return Err(Stop::End),
                        }
                        break;
                    }
                }
            }
            return Ok(h.iter().map(|b| (0, *b)).collect());
        }
        self.rep.hashes_sym += 1;
        let e = match self.hash_ix.get(&bytes) {
            Some(e) => *e,
            None => {
                let e = self.hash_ents.len() as u32;
                let lo = self.ar.new_var(128);
                let hi = self.ar.new_var(128);
                let lv = self.ar.n[lo as usize].k as u32;
                let hv = self.ar.n[hi as usize].k as u32;
                self.hash_var.insert(lv, (e, 0));
                self.hash_var.insert(hv, (e, 1));
                self.hash_ents.push(HashEnt { bytes: bytes.clone(), lo, hi });
                self.hash_ix.insert(bytes, e);
                e
            }
        };
        if !st.hashes.contains(&e) {
            // give the model the true value, or the value it gave a hash of the same bytes
            let mut v = st.model.v.clone();
            v.resize(self.ar.nvars as usize, 0);
            let m = Model { gen: st.model.gen, v };
            let b = self.eval_bytes(e, &m);
            let mut h = *blake3::hash(&b).as_bytes();
            for f in st.hashes.clone() {
                if self.hash_ents[f as usize].bytes.len() == b.len() && self.eval_bytes(f, &m) == b {
                    h = self.hash_value(f, &m);
                    break;
                }
            }
            st.hashes.push(e);
            let mut m = m;
            let (lo, hi) = (self.hash_ents[e as usize].lo, self.hash_ents[e as usize].hi);
            let lv = self.ar.n[lo as usize].k as usize;
            let hv = self.ar.n[hi as usize].k as usize;
            m.v[lv] = u128::from_le_bytes(h[..16].try_into().unwrap());
            m.v[hv] = u128::from_le_bytes(h[16..].try_into().unwrap());
            m.gen = next_gen();
            st.model = Rc::new(m);
            self.audit(st, "hash");
        }
        let (lo, hi) = (self.hash_ents[e as usize].lo, self.hash_ents[e as usize].hi);
        let mut out = self.id_to_bytes(lo, 16);
        out.extend(self.id_to_bytes(hi, 16));
        Ok(out)
    }

    // ---- models, violations, traces --------------------------------------

    fn all_cons(&self, st: &State) -> Vec<Id> {
        let mut v = vec![];
        for p in st.parts.list.iter().flatten() {
            v.extend(p.cons.iter().copied());
        }
        v
    }

    /// a model of the whole path condition (and extra) in which every symbolic
    /// hash has its true value; None if not found
    fn concrete_model(&mut self, st: &State, extra: Option<Id>) -> R<(Option<Model>, Model)> {
        let mut cons = self.all_cons(st);
        if let Some(e) = extra {
            cons.push(e);
        }
        let m0 = match extra {
            None => Model { gen: next_gen(), v: st.model.v.clone() },
            Some(e) => match self.feasible(st, e)? {
                None => return Err(Stop::Err("infeasible extra".into())),
                Some(o) => self.overlay_model(st, &o),
            },
        };
        if st.hashes.is_empty() {
            return Ok((Some(Model { gen: next_gen(), v: m0.v.clone() }), m0));
        }
        let mut m = Model { gen: next_gen(), v: m0.v.clone() };
        m.v.resize(self.ar.nvars as usize, 0);
        let hs = st.hashes.clone();
        let known: BTreeSet<u32> = hs.iter().copied().collect();
        let mut ax: Vec<Id> = vec![];
        for ((i, j), a) in &self.axioms {
            if known.contains(i) && known.contains(j) {
                ax.push(*a);
            }
        }
        cons.extend(ax.iter().copied());
        if ax.iter().any(|a| self.ar.eval(*a, &m) != 1) {
            if let Ans::Sat(o) = self.sv.check(&mut self.ar, &cons) {
                let mut v = m.v.clone();
                v.resize(self.ar.nvars as usize, 0);
                for (k, x) in o.iter() {
                    v[*k as usize] = *x;
                }
                m = Model { gen: next_gen(), v };
            }
        }
        // does m already satisfy everything with true hashes?
        let mut fixedc: Vec<Id> = vec![];
        for h in hs {
            let b = self.eval_bytes(h, &m);
            let r = *blake3::hash(&b).as_bytes();
            let (lo, hi) = (self.hash_ents[h as usize].lo, self.hash_ents[h as usize].hi);
            let klo = u128::from_le_bytes(r[..16].try_into().unwrap());
            let khi = u128::from_le_bytes(r[16..].try_into().unwrap());
            let bytes = self.hash_ents[h as usize].bytes.clone();
            for (i, x) in bytes.iter().enumerate() {
                if x.0 != 0 {
                    let k = self.ar.konst(8, b[i] as u128);
                    let e = self.ar.eq(x.0, k);
                    fixedc.push(e);
                }
            }
            let c1 = self.ar.konst(128, klo);
            let c2 = self.ar.konst(128, khi);
            let e1 = self.ar.eq(lo, c1);
            let e2 = self.ar.eq(hi, c2);
            fixedc.push(e1);
            fixedc.push(e2);
            if self.ar.eval(lo, &m) == klo && self.ar.eval(hi, &m) == khi {
                continue;
            }
            let mut all = cons.clone();
            all.extend(fixedc.iter().copied());
            match self.sv.check(&mut self.ar, &all) {
                Ans::Sat(o) => {
                    let mut v = m.v.clone();
                    v.resize(self.ar.nvars as usize, 0);
                    for (k, x) in o.iter() {
                        v[*k as usize] = *x;
                    }
                    m = Model { gen: next_gen(), v };
                }
                _ => return Ok((None, m0)),
            }
        }
        let m = Model { gen: next_gen(), v: m.v };
        for c in &cons {
            if self.ar.eval(*c, &m) != 1 {
                return Ok((None, m0));
            }
        }
        Ok((Some(m), m0))
    }

    fn inputs_of(&mut self, st: &State, m: &Model) -> Vec<Vec<u8>> {
        st.inputs
            .iter()
            .map(|vs| {
                let mut out = vec![];
                for v in vs {
                    let w = self.ar.var_w[*v as usize] as usize;
                    let x = m.get(*v);
                    out.extend_from_slice(&x.to_le_bytes()[..(w + 7) / 8]);
                }
                out
            })
            .collect()
    }

    fn violation(&mut self, st: &State, label: String, detail: String, extra: Option<Id>) {
        let vkey = format!("{label} {detail}");
        let tries = self.viol_labels.entry(vkey.clone()).or_insert(0);
        if *tries >= 12 {
            return;
        }
        *tries += 1;
        let stack: Vec<String> = st
            .stack
            .iter()
            .map(|f| f.f.name.clone())
            .chain(std::iter::once(st.cur.f.name.clone()))
            .collect();
        let (inputs, ok) = match self.concrete_model(st, extra) {
            Ok((Some(m), _)) => (self.inputs_of(st, &m), true),
            Ok((None, m0)) => (self.inputs_of(st, &m0), false),
            Err(_) => {
                *self.rep.errors.entry("model extraction".into()).or_default() += 1;
                return;
            }
        };
        if ok {
            self.viol_labels.insert(vkey, u32::MAX);
        }
        println!("V {} {} {}", ok, inputs.iter().map(|b| b.iter().map(|x| format!("{x:02x}")).collect::<String>() + ".").collect::<String>(), label);
        let _ = std::io::Write::flush(&mut std::io::stdout());
        self.rep.violations.push(Violation { label, detail, inputs, confirmed_model: ok, stack });
    }

    fn finish_path(&mut self, st: &State) {
        self.rep.paths += 1;
        for l in &st.reached {
            let s = self.labels[*l as usize].clone();
            *self.rep.reached.entry(s).or_default() += 1;
        }
        let n = self.rep.paths;
        let want = self.rep.traces.len() < self.max_traces && (n <= self.max_traces as u64 / 2 || n.is_power_of_two() || n % 97 == 0);
        if want {
            if let Ok((Some(m), _)) = self.concrete_model(st, None) {
                let inputs = self.inputs_of(st, &m);
                let mut obs = vec![];
                for o in &st.observes {
                    let mut b = vec![];
                    for x in o.iter() {
                        b.push(if x.0 == 0 { x.1 } else { self.ar.eval(x.0, &m) as u8 });
                    }
                    obs.push(b);
                }
                self.rep.traces.push(Trace { inputs, observes: obs });
            } else {
                self.rep.unconfirmed += 1;
            }
        }
    }

    // ---- driver -----------------------------------------------------------

    pub fn run(&mut self, entry: &str, arg: u64) {
        let mem = self.init_globals();
        self.base = Some(mem.clone());
        let s = match self.m.sym_ix.get(entry) {
            Some(s) => *s,
            None => {
                *self.rep.errors.entry(format!("entry {entry} not found")).or_default() += 1;
                return;
            }
        };
        let f = match self.m.func(s) {
            Some(f) => f,
            None => {
                *self.rep.errors.entry(format!("entry {entry} has no body")).or_default() += 1;
                return;
            }
        };
        let mut regs = vec![V::C(0); f.nregs as usize];
        if f.nparams > 0 {
            regs[0] = V::C(arg as u128);
        }
        let cur = Frame { f, regs, blk: 0, ip: 0, dst: None, next: None, allocas: vec![] };
        let st = State {
            cur,
            stack: vec![],
            mem,
            parts: Parts::default(),
            known: Rc::new(HashMap::default()),
            fixed: vec![],
            nfixed: 0,
            model: Rc::new(Model { gen: next_gen(), v: vec![] }),
            inputs: vec![],
            observes: vec![],
            hashes: vec![],
            nin: 0,
            insts: 0,
            reached: vec![],
            alloc_limit: 0,
            panic_ok: None,
            depth_forks: 0,
        };
        self.work.push(st);
        let mut tick = 0u64;
        while let Some(st) = self.work.pop() {
            tick += 1;
            if let Some(d) = self.deadline {
                if Instant::now() > d {
                    self.rep.truncated += 1 + self.work.len() as u64;
                    *self.rep.errors.entry("not explored further: time limit".into()).or_default() += 1;
                    break;
                }
            }
            if tick % 256 == 0 && rss_mb() > self.max_mem_mb {
                self.rep.truncated += 1 + self.work.len() as u64;
                *self.rep.errors.entry("not explored further: memory limit".into()).or_default() += 1;
                break;
            }
            let mut st = st;
            let r = self.run_state(&mut st);
            match r {
                Stop::End => {}
                Stop::Forked => {}
                Stop::Err(e) => {
                    let top: Vec<&str> = st.stack.iter().rev().take(3).map(|f| f.f.name.as_str()).collect();
                    let msg = format!("{e} in {} < {:?}", st.cur.f.name, top);
                    *self.rep.errors.entry(msg).or_default() += 1;
                }
            }
        }
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        loop {
            match self.run_frame(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    /// runs until the current frame changes
    fn run_frame(&mut self, st: &mut State) -> R<()> {
        let f = st.cur.f.clone();
        if !self.fn_seen[f.sym as usize] {
            self.fn_seen[f.sym as usize] = true;
            self.rep.fns.insert(f.name.clone());
        }
        loop {
            let blk = &f.blocks[st.cur.blk as usize];
            let inst = &blk.insts[st.cur.ip as usize];
            st.insts += 1;
            self.rep.insts += 1;
            if st.insts & 0xffff == 0 {
                if st.insts > self.inst_limit {
                    return Err(Stop::Err("instruction limit".into()));
                }
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        return Err(Stop::Err("time limit".into()));
                    }
                }
            }
            if self.trace_on {
                eprintln!("{} b{} i{} {:?}", &f.name[f.name.len().saturating_sub(60)..], st.cur.blk, st.cur.ip, inst);
            }
            match inst {
                Inst::Bin { dst, op, ty, a, b } => {
                    let x = self.ov(&st.cur, a, *ty);
                    let y = self.ov(&st.cur, b, *ty);
                    let r = self.bin(st, *op, *ty, &x, &y)?;
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::ICmp { dst, pred, ty, a, b } => {
                    let x = self.ov(&st.cur, a, *ty);
                    let y = self.ov(&st.cur, b, *ty);
                    let r = self.icmp(*pred, *ty, &x, &y)?;
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Cast { dst, kind, from, to, a } => {
                    let x = self.ov(&st.cur, a, *from);
                    let r = self.cast(*kind, *from, *to, &x)?;
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Select { dst, c, cty, ty, a, b } => {
                    let c = self.ov(&st.cur, c, *cty);
                    let x = self.ov(&st.cur, a, *ty);
                    let y = self.ov(&st.cur, b, *ty);
                    let r = self.select(st, &c, &x, &y, *ty)?;
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Load { dst, ty, ptr } => {
                    let p = self.ov(&st.cur, ptr, self.m.ptr);
                    let r = self.load(st, &p, *ty)?;
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Store { ty, val, ptr } => {
                    let p = self.ov(&st.cur, ptr, self.m.ptr);
                    let v = self.ov(&st.cur, val, *ty);
                    self.store(st, &p, *ty, &v)?;
                }
                Inst::Alloca { dst, size, n, nty } => {
                    let n = self.ov(&st.cur, n, *nty);
                    let n = match n {
                        V::C(n) => n as u64,
                        _ => return Err(Stop::Err("symbolic alloca".into())),
                    };
                    let id = st.mem.alloc(Obj { data: vec![0; (size * n) as usize], sym: vec![], kind: 2 });
                    st.cur.allocas.push(id);
                    st.cur.regs[*dst as usize] = V::C((id as u128) << 32);
                }
                Inst::Gep { dst, base, off, terms } => {
                    let b = self.ov(&st.cur, base, self.m.ptr);
                    let r = self.gep(st, b, *off, terms)?;
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Br { to } => {
                    let to = *to;
                    self.jump(st, &f, to);
                    continue;
                }
                Inst::CondBr { c, t, f: fb } => {
                    let c = self.ov(&st.cur, c, self.m.i1);
                    let k = match c {
                        V::C(k) => k == 1,
                        V::S(i) => self.decide(st, i)?,
                        _ => return Err(Stop::Err("branch".into())),
                    };
                    let to = if k { *t } else { *fb };
                    self.jump(st, &f, to);
                    continue;
                }
                Inst::Switch { ty, v, def, cases } => {
                    let x = self.ov(&st.cur, v, *ty);
                    let to = self.switch(st, &x, *ty, *def, cases)?;
                    self.jump(st, &f, to);
                    continue;
                }
                Inst::Ret { ty, val } => {
                    let v = match val {
                        Some(o) => Some(self.ov(&st.cur, o, *ty)),
                        None => None,
                    };
                    for a in std::mem::take(&mut st.cur.allocas) {
                        st.mem.free(a);
                    }
                    match st.stack.pop() {
                        None => {
                            self.finish_path(st);
                            return Err(Stop::End);
                        }
                        Some(fr) => {
                            let (dst, next) = (st.cur.dst, st.cur.next);
                            st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                            if let (Some(d), Some(v)) = (dst, v) {
                                st.cur.regs[d as usize] = v;
                            }
                            match next {
                                None => st.cur.ip += 1,
                                Some(b) => {
                                    let f2 = st.cur.f.clone();
                                    self.jump(st, &f2, b);
                                }
                            }
                            return Ok(());
                        }
                    }
                }
                Inst::Unreachable => {
                    self.violation(st, "unreachable code reached".into(), f.name.clone(), None);
                    return Err(Stop::End);
                }
                Inst::Call { dst, ret, callee, args, next } => {
                    let target = match callee {
                        Opnd::Cst(c) => match **c {
                            Cst::Global(s) => s,
                            _ => {
                                let c = c.clone();
                                let a = self.cst_int(&c) as u64;
                                self.fn_of(a)?
                            }
                        },
                        o => {
                            let v = self.ov(&st.cur, o, self.m.ptr);
                            let a = self.concretize(st, &v, 64)? as u64;
                            self.fn_of(a)?
                        }
                    };
                    let target = self.deref_alias(target);
                    let vals: Vec<V> = args.iter().map(|(t, o)| self.ov(&st.cur, o, *t)).collect();
                    let h = self.handler(target);
                    let defined = matches!(self.m.syms[target as usize].kind, SymKind::Func { .. });
                    if h == H::None && defined {
                        let g = self.m.func(target).unwrap();
                        if st.stack.len() > 4000 {
                            return Err(Stop::Err("stack depth".into()));
                        }
                        let mut regs = vec![V::C(0); g.nregs as usize];
                        for (i, v) in vals.into_iter().enumerate() {
                            if i < g.nparams as usize {
                                regs[i] = v;
                            }
                        }
                        let fr = Frame { f: g, regs, blk: 0, ip: 0, dst: *dst, next: *next, allocas: vec![] };
                        let old = std::mem::replace(&mut st.cur, fr);
                        st.stack.push(Rc::new(old));
                        return Ok(());
                    }
                    let r = self.external(st, target, h, *ret, args, vals)?;
                    if let Some(d) = dst {
                        match r {
                            Some(v) => st.cur.regs[*d as usize] = v,
                            None => {
                                let nm = self.m.syms[target as usize].name.clone();
                                return Err(Stop::Err(format!("no result from {nm}")));
                            }
                        }
                    }
                    if let Some(b) = next {
                        let b = *b;
                        self.jump(st, &f, b);
                        continue;
                    }
                }
                Inst::ExtractValue { dst, a, idx, ty } => {
                    let mut x = self.ov(&st.cur, a, *ty);
                    for i in idx {
                        x = match x {
                            V::A(v) => v[*i as usize].clone(),
                            _ => return Err(Stop::Err("extractvalue".into())),
                        };
                    }
                    st.cur.regs[*dst as usize] = x;
                }
                Inst::InsertValue { dst, a, v, idx, ty } => {
                    let x = self.ov(&st.cur, a, *ty);
                    // element type
                    let mut t = *ty;
                    for i in idx {
                        t = self.m.field_off(t, *i as usize).1;
                    }
                    let y = self.ov(&st.cur, v, t);
                    fn put(x: V, idx: &[u32], y: V) -> V {
                        if idx.is_empty() {
                            return y;
                        }
                        match x {
                            V::A(mut r) => {
                                let e = r[idx[0] as usize].clone();
                                Rc::make_mut(&mut r)[idx[0] as usize] = put(e, &idx[1..], y);
                                V::A(r)
                            }
                            _ => panic!("insertvalue"),
                        }
                    }
                    st.cur.regs[*dst as usize] = put(x, idx, y);
                }
                Inst::ExtractElem { dst, a, i, ty } => {
                    let x = self.ov(&st.cur, a, *ty);
                    let i = self.ov(&st.cur, i, self.m.i64);
                    let i = self.concretize(st, &i, 64)?;
                    match x {
                        V::A(v) => st.cur.regs[*dst as usize] = v[i as usize].clone(),
                        _ => return Err(Stop::Err("extractelement".into())),
                    }
                }
                Inst::InsertElem { dst, a, v, i, ty } => {
                    let x = self.ov(&st.cur, a, *ty);
                    let et = self.m.field_off(*ty, 0).1;
                    let y = self.ov(&st.cur, v, et);
                    let i = self.ov(&st.cur, i, self.m.i64);
                    let i = self.concretize(st, &i, 64)?;
                    match x {
                        V::A(mut r) => {
                            Rc::make_mut(&mut r)[i as usize] = y;
                            st.cur.regs[*dst as usize] = V::A(r);
                        }
                        _ => return Err(Stop::Err("insertelement".into())),
                    }
                }
                Inst::Shuffle { dst, a, b, ty, mask } => {
                    let x = self.ov(&st.cur, a, *ty);
                    let y = self.ov(&st.cur, b, *ty);
                    match (x, y) {
                        (V::A(x), V::A(y)) => {
                            let n = x.len();
                            let r: Vec<V> = mask
                                .iter()
                                .map(|m| match m {
                                    None => V::C(0),
                                    Some(i) if (*i as usize) < n => x[*i as usize].clone(),
                                    Some(i) => y[*i as usize - n].clone(),
                                })
                                .collect();
                            st.cur.regs[*dst as usize] = V::A(Rc::new(r));
                        }
                        _ => return Err(Stop::Err("shufflevector".into())),
                    }
                }
                Inst::AtomicRmw { dst, op, ty, ptr, v } => {
                    let p = self.ov(&st.cur, ptr, self.m.ptr);
                    let x = self.ov(&st.cur, v, *ty);
                    let old = self.load(st, &p, *ty)?;
                    let new = match op.as_str() {
                        "xchg" => x,
                        "add" => self.bin(st, BinOp::Add, *ty, &old, &x)?,
                        "sub" => self.bin(st, BinOp::Sub, *ty, &old, &x)?,
                        "and" => self.bin(st, BinOp::And, *ty, &old, &x)?,
                        "or" => self.bin(st, BinOp::Or, *ty, &old, &x)?,
                        "xor" => self.bin(st, BinOp::Xor, *ty, &old, &x)?,
                        o => return Err(Stop::Err(format!("atomicrmw {o}"))),
                    };
                    self.store(st, &p, *ty, &new)?;
                    st.cur.regs[*dst as usize] = old;
                }
                Inst::CmpXchg { dst, ty, ptr, old, new } => {
                    let p = self.ov(&st.cur, ptr, self.m.ptr);
                    let o = self.ov(&st.cur, old, *ty);
                    let n = self.ov(&st.cur, new, *ty);
                    let cur = self.load(st, &p, *ty)?;
                    let e = self.icmp(Pred::Eq, *ty, &cur, &o)?;
                    let k = match e {
                        V::C(k) => k == 1,
                        V::S(i) => self.decide(st, i)?,
                        _ => false,
                    };
                    if k {
                        self.store(st, &p, *ty, &n)?;
                    }
                    st.cur.regs[*dst as usize] = V::A(Rc::new(vec![cur, V::C(k as u128)]));
                }
                Inst::Freeze { dst, ty, a } => {
                    let x = self.ov(&st.cur, a, *ty);
                    st.cur.regs[*dst as usize] = x;
                }
                Inst::Nop => {}
                Inst::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction {s}"))),
            }
            st.cur.ip += 1;
        }
    }

    fn deref_alias(&mut self, s: u32) -> u32 {
        if let SymKind::Alias(c) = &self.m.syms[s as usize].kind {
            if let Cst::Global(t) = **c {
                return t;
            }
        }
        s
    }

    fn fn_of(&self, a: u64) -> R<u32> {
        if a >= FN_BASE && (a - FN_BASE) % 16 == 0 && ((a - FN_BASE) / 16) < self.m.syms.len() as u64 {
            Ok(((a - FN_BASE) / 16) as u32)
        } else {
            Err(Stop::Err(format!("call through bad pointer {a:#x}")))
        }
    }

    fn jump(&mut self, st: &mut State, f: &Func, to: u32) {
        let from = st.cur.blk;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let p = &b.phis[0];
                let o = p.inc.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("phi pred fn {} from {from} to {to} inc {:?}", f.name, p.inc.iter().map(|x| x.0).collect::<Vec<_>>()));
                let v = self.ov(&st.cur, &o.1, p.ty);
                st.cur.regs[p.dst as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for p in &b.phis {
                    let o = p.inc.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("phi pred fn {} from {from} to {to} inc {:?}", f.name, p.inc.iter().map(|x| x.0).collect::<Vec<_>>()));
                    vals.push(self.ov(&st.cur, &o.1, p.ty));
                }
                for (p, v) in b.phis.iter().zip(vals) {
                    st.cur.regs[p.dst as usize] = v;
                }
            }
        }
        st.cur.blk = to;
        st.cur.ip = 0;
    }

    fn switch(&mut self, st: &mut State, x: &V, ty: TyId, def: u32, cases: &[(u128, u32)]) -> R<u32> {
        let w = self.m.width(ty);
        let pick = |c: u128| cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(def);
        match x {
            V::C(c) => Ok(pick(*c)),
            V::S(i) => {
                let i = self.simp(st, *i);
                if let Some(c) = self.ar.cv(i) {
                    return Ok(pick(c));
                }
                let v0 = self.ar.eval(i, &st.model);
                let t0 = pick(v0);
                let mut g = self.ar.f();
                if t0 == def {
                    for (c, t) in cases {
                        if *t != def {
                            let k = self.ar.konst(w, *c);
                            let e = self.ar.eq(i, k);
                            g = self.ar.or(g, e);
                        }
                    }
                    g = self.ar.not(g);
                } else {
                    for (c, t) in cases {
                        if *t == t0 {
                            let k = self.ar.konst(w, *c);
                            let e = self.ar.eq(i, k);
                            g = self.ar.or(g, e);
                        }
                    }
                }
                let ng = self.ar.not(g);
                if let Some(o) = self.feasible(st, ng)? {
                    self.push_fork(st, ng, &o);
                    self.add(st, g);
                }
                Ok(t0)
            }
            _ => Err(Stop::Err("switch".into())),
        }
    }

    fn gep(&mut self, st: &mut State, b: V, off: i64, terms: &[(Opnd, u32, i64)]) -> R<V> {
        let mut conc = off as u64;
        let mut sy: Option<Id> = None;
        match b {
            V::C(c) => conc = conc.wrapping_add(c as u64),
            V::S(i) => sy = Some(i),
            _ => return Err(Stop::Err("gep base".into())),
        }
        for (o, w, scale) in terms {
            let ty = self.m.i64;
            let v = self.ov(&st.cur, o, ty);
            match v {
                V::C(c) => {
                    let x = crate::expr::sext(c, *w) as i64;
                    conc = conc.wrapping_add(x.wrapping_mul(*scale) as u64);
                }
                V::S(i) => {
                    let i = self.simp(st, i);
                    let i = self.ar.sext(i, 64);
                    let k = self.ar.konst(64, *scale as u64 as u128);
                    let t = self.ar.mul(i, k);
                    sy = Some(match sy {
                        None => t,
                        Some(s) => self.ar.add(s, t),
                    });
                }
                _ => return Err(Stop::Err("gep index".into())),
            }
        }
        Ok(match sy {
            None => V::C(conc as u128),
            Some(s) => {
                let k = self.ar.konst(64, conc as u128);
                let r = self.ar.add(s, k);
                self.v(r)
            }
        })
    }

    fn bin(&mut self, st: &mut State, op: BinOp, ty: TyId, x: &V, y: &V) -> R<V> {
        match (x, y) {
            (V::C(a), V::C(b)) => {
                let w = self.m.width(ty);
                let m = mask(w);
                let (a, b) = (*a, *b);
                let r = match op {
                    BinOp::Add => a.wrapping_add(b),
                    BinOp::Sub => a.wrapping_sub(b),
                    BinOp::Mul => a.wrapping_mul(b),
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if b == 0 => return Err(Stop::Err("division by zero".into())),
                    BinOp::UDiv => a / b,
                    BinOp::URem => a % b,
                    BinOp::SDiv => sext(a, w).wrapping_div(sext(b, w)) as u128,
                    BinOp::SRem => sext(a, w).wrapping_rem(sext(b, w)) as u128,
                    BinOp::Shl => {
                        if b >= w as u128 {
                            0
                        } else {
                            a << b
                        }
                    }
                    BinOp::LShr => {
                        if b >= w as u128 {
                            0
                        } else {
                            a >> b
                        }
                    }
                    BinOp::AShr => (sext(a, w) >> b.min(w as u128 - 1)) as u128,
                    BinOp::And => a & b,
                    BinOp::Or => a | b,
                    BinOp::Xor => a ^ b,
                };
                Ok(V::C(r & m))
            }
            (V::A(a), V::A(b)) => {
                let et = self.m.field_off(ty, 0).1;
                let mut r = Vec::with_capacity(a.len());
                for i in 0..a.len() {
                    r.push(self.bin(st, op, et, &a[i], &b[i])?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => {
                let w = self.m.width(ty);
                let a = self.id(x, w);
                let b = self.id(y, w);
                let ar = &mut self.ar;
                let r = match op {
                    BinOp::Add => ar.add(a, b),
                    BinOp::Sub => ar.sub(a, b),
                    BinOp::Mul => ar.mul(a, b),
                    BinOp::UDiv => ar.udiv(a, b),
                    BinOp::URem => ar.urem(a, b),
                    BinOp::SDiv => ar.sdiv(a, b),
                    BinOp::SRem => ar.srem(a, b),
                    BinOp::Shl => ar.shl(a, b),
                    BinOp::LShr => ar.lshr(a, b),
                    BinOp::AShr => ar.ashr(a, b),
                    BinOp::And => ar.and(a, b),
                    BinOp::Or => ar.or(a, b),
                    BinOp::Xor => ar.xor(a, b),
                };
                Ok(self.v(r))
            }
        }
    }

    fn icmp(&mut self, p: Pred, ty: TyId, x: &V, y: &V) -> R<V> {
        match (x, y) {
            (V::C(a), V::C(b)) => {
                let w = self.m.width(ty);
                let (sa, sb) = (sext(*a, w), sext(*b, w));
                let r = match p {
                    Pred::Eq => a == b,
                    Pred::Ne => a != b,
                    Pred::Ult => a < b,
                    Pred::Ule => a <= b,
                    Pred::Ugt => a > b,
                    Pred::Uge => a >= b,
                    Pred::Slt => sa < sb,
                    Pred::Sle => sa <= sb,
                    Pred::Sgt => sa > sb,
                    Pred::Sge => sa >= sb,
                };
                Ok(V::C(r as u128))
            }
            (V::A(a), V::A(b)) => {
                let et = self.m.field_off(ty, 0).1;
                let mut r = Vec::with_capacity(a.len());
                for i in 0..a.len() {
                    r.push(self.icmp(p, et, &a[i], &b[i])?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => {
                let w = self.m.width(ty);
                let a = self.id(x, w);
                let b = self.id(y, w);
                let ar = &mut self.ar;
                let r = match p {
                    Pred::Eq => ar.eq(a, b),
                    Pred::Ne => {
                        let e = ar.eq(a, b);
                        ar.not(e)
                    }
                    Pred::Ult => ar.ult(a, b),
                    Pred::Ugt => ar.ult(b, a),
                    Pred::Ule => ar.ule(a, b),
                    Pred::Uge => ar.ule(b, a),
                    Pred::Slt => ar.slt(a, b),
                    Pred::Sgt => ar.slt(b, a),
                    Pred::Sle => {
                        let e = ar.slt(b, a);
                        ar.not(e)
                    }
                    Pred::Sge => {
                        let e = ar.slt(a, b);
                        ar.not(e)
                    }
                };
                Ok(self.v(r))
            }
        }
    }

    fn cast(&mut self, k: Cast, from: TyId, to: TyId, x: &V) -> R<V> {
        let (fw, tw) = (self.m.width(from), self.m.width(to));
        match x {
            V::C(c) if tw > 0 => Ok(V::C(match k {
                Cast::ZExt | Cast::Bit => *c,
                Cast::Trunc => *c & mask(tw),
                Cast::SExt => sext(*c, fw) as u128 & mask(tw),
            })),
            V::S(i) if tw > 0 => {
                let r = match k {
                    Cast::ZExt => self.ar.zext(*i, tw),
                    Cast::Bit => *i,
                    Cast::Trunc => self.ar.trunc(*i, tw),
                    Cast::SExt => self.ar.sext(*i, tw),
                };
                Ok(self.v(r))
            }
            V::A(v) => {
                if tw > 0 {
                    // vector -> integer bit cast
                    let et = self.m.field_off(from, 0).1;
                    let ew = self.m.width(et);
                    let mut acc: Option<Id> = None;
                    for e in v.iter() {
                        let i = self.id(e, ew);
                        acc = Some(match acc {
                            None => i,
                            Some(l) => self.ar.concat(i, l),
                        });
                    }
                    return Ok(self.v(acc.unwrap()));
                }
                let fe = self.m.field_off(from, 0).1;
                let te = self.m.field_off(to, 0).1;
                let n = match self.m.tys[to as usize] {
                    Ty::Vec(n, _) => n as usize,
                    _ => 0,
                };
                if k == Cast::Bit && n != v.len() {
                    // reinterpret
                    let (few, tew) = (self.m.width(fe), self.m.width(te));
                    let mut bits: Vec<Id> = vec![];
                    if tew > few {
                        let r = (tew / few) as usize;
                        for ch in v.chunks(r) {
                            let mut acc: Option<Id> = None;
                            for e in ch {
                                let i = self.id(e, few);
                                acc = Some(match acc {
                                    None => i,
                                    Some(l) => self.ar.concat(i, l),
                                });
                            }
                            bits.push(acc.unwrap());
                        }
                    } else {
                        for e in v.iter() {
                            let i = self.id(e, few);
                            for q in 0..few / tew {
                                bits.push(self.ar.extract(i, q * tew + tew - 1, q * tew));
                            }
                        }
                    }
                    return Ok(V::A(Rc::new(bits.into_iter().map(|i| self.v(i)).collect())));
                }
                let mut r = vec![];
                for e in v.iter() {
                    r.push(self.cast(k, fe, te, e)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            x => {
                // integer -> vector
                let te = self.m.field_off(to, 0).1;
                let ew = self.m.width(te);
                let i = self.id(x, fw);
                let mut r = vec![];
                for q in 0..fw / ew {
                    let e = self.ar.extract(i, q * ew + ew - 1, q * ew);
                    r.push(self.v(e));
                }
                Ok(V::A(Rc::new(r)))
            }
        }
    }

    fn select(&mut self, st: &mut State, c: &V, x: &V, y: &V, ty: TyId) -> R<V> {
        match c {
            V::C(k) => Ok(if *k == 1 { x.clone() } else { y.clone() }),
            V::A(cs) => match (x, y) {
                (V::A(a), V::A(b)) => {
                    let et = self.m.field_off(ty, 0).1;
                    let mut r = vec![];
                    for i in 0..cs.len() {
                        r.push(self.select(st, &cs[i], &a[i], &b[i], et)?);
                    }
                    Ok(V::A(Rc::new(r)))
                }
                _ => Err(Stop::Err("select".into())),
            },
            V::S(ci) => {
                let ci = self.simp(st, *ci);
                if let Some(k) = self.ar.cv(ci) {
                    return Ok(if k == 1 { x.clone() } else { y.clone() });
                }
                match (x, y) {
                    (V::A(a), V::A(b)) => {
                        let (a, b) = (a.clone(), b.clone());
                        let mut r = vec![];
                        for i in 0..a.len() {
                            let et = self.m.field_off(ty, i).1;
                            r.push(self.select(st, &V::S(ci), &a[i], &b[i], et)?);
                        }
                        Ok(V::A(Rc::new(r)))
                    }
                    _ => {
                        // pointers: fork rather than build a symbolic address
                        if ty == self.m.ptr {
                            if let (V::C(p), V::C(q)) = (x, y) {
                                if p == q {
                                    return Ok(x.clone());
                                }
                            }
                            let k = self.decide(st, ci)?;
                            return Ok(if k { x.clone() } else { y.clone() });
                        }
                        let w = self.m.width(ty);
                        let a = self.id(x, w);
                        let b = self.id(y, w);
                        let r = self.ar.ite(ci, a, b);
                        Ok(self.v(r))
                    }
                }
            }
        }
    }

    // ---- calls without a modelled body --------------------------------------

    fn handler(&mut self, s: u32) -> H {
        if let Some(h) = self.handlers.get(&s) {
            return *h;
        }
        let n = &self.m.syms[s as usize].name;
        let h = if n.starts_with("__sym_") {
            H::Api
        } else if n.starts_with("_R") || n.starts_with("_ZN") {
            let has = |p: &str| n.contains(p);
            if has("4core9panicking")
                || has("6option13unwrap_failed")
                || has("6option13expect_failed")
                || has("6result13unwrap_failed")
                || has("7raw_vec12handle_error")
                || has("18handle_alloc_error")
                || has("17capacity_overflow")
                || has("16slice_error_fail")
                || has("16slice_index_fail")
                || has("slice_start_index_len_fail")
                || has("slice_end_index_len_fail")
                || has("slice_index_order_fail")
                || has("22panic_already_borrowed")
                || has("30panic_already_mutably_borrowed")
                || has("9panicking11begin_panic")
                || has("rust_panic")
                || has("rust_begin_unwind")
                || has("rust_start_panic")
                || has("9panicking20rust_panic_with_hook")
                || has("process5abort")
                || has("cell20panic_already")
            {
                H::Panic
            } else if has("3fmt5write") && has("4core3fmt") {
                H::RetZero
            } else if has("6Hasher5write") && (has("13DefaultHasher") || has("4hash3sip")) {
                // std hash maps: any hash function is a legal one; use one that ignores the data
                H::RetZero
            } else if has("hashmap_random_keys") {
                H::RandomKeys
            } else if has("8hash_one") || has("BuildHasher8hash_one") {
                H::HashOne
            } else {
                H::None
            }
        } else {
            H::None
        };
        self.handlers.insert(s, h);
        h
    }

    fn cstr(&self, st: &State, p: u64, n: u64) -> String {
        match self.rdv(st, p, n as usize) {
            Ok(b) => b.iter().map(|x| if x.0 == 0 { x.1 as char } else { '?' }).collect(),
            Err(_) => "?".into(),
        }
    }

    fn location(&self, st: &State, vals: &[V]) -> Option<(String, u32)> {
        for v in vals.iter().rev() {
            if let V::C(a) = v {
                let a = *a as u64;
                if let Some(o) = st.mem.get((a >> 32) as u32) {
                    let off = (a & 0xffff_ffff) as usize;
                    if o.kind == 0 && o.data.len() >= off + 24 {
                        let p = u64::from_le_bytes(o.data[off..off + 8].try_into().unwrap());
                        let l = u64::from_le_bytes(o.data[off + 8..off + 16].try_into().unwrap());
                        let line = u32::from_le_bytes(o.data[off + 16..off + 20].try_into().unwrap());
                        if l > 3 && l < 300 && st.mem.get((p >> 32) as u32).is_some() {
                            let s = self.cstr(st, p, l);
                            if s.ends_with(".rs") {
                                return Some((s, line));
                            }
                        }
                    }
                }
            }
        }
        None
    }

    fn do_panic(&mut self, st: &mut State, name: &str, vals: &[V]) -> Stop {
        if let Some(l) = st.panic_ok {
            let _ = l;
            self.rep.panics_ok += 1;
            return Stop::End;
        }
        let (file, line) = self.location(st, vals).unwrap_or_else(|| ("?".into(), 0));
        let kind = name
            .rsplit(|c: char| c.is_ascii_digit())
            .find(|s| s.len() > 4)
            .unwrap_or("panic")
            .trim_start_matches('_')
            .to_string();
        let mut msg = String::new();
        // a string constant argument, if any
        for i in 0..vals.len().saturating_sub(1) {
            if let (V::C(a), V::C(n)) = (&vals[i], &vals[i + 1]) {
                let (a, n) = (*a as u64, *n as u64);
                if n > 0 && n < 400 {
                    if let Some(o) = st.mem.get((a >> 32) as u32) {
                        let off = (a & 0xffff_ffff) as usize;
                        if o.kind == 0 && o.data.len() >= off + n as usize {
                            msg = self.cstr(st, a, n);
                            break;
                        }
                    }
                }
            }
        }
        let short = file.rsplit("/ws/").next().unwrap_or(&file).to_string();
        let short = match short.find("/library/") {
            Some(p) => short[p + 1..].to_string(),
            None => short,
        };
        self.violation(st, format!("panic:{kind}@{short}"), format!("{msg} at {file}:{line}"), None);
        Stop::End
    }

    fn new_input(&mut self, st: &mut State, w: u32) -> Id {
        let k = (st.nin, w);
        st.nin += 1;
        if let Some(i) = self.in_vars.get(&k) {
            return *i;
        }
        let i = self.ar.new_var(w);
        self.in_vars.insert(k, i);
        i
    }

    fn assume(&mut self, st: &mut State, c: Id) -> R<()> {
        let c = self.simp(st, c);
        match self.ar.cv(c) {
            Some(1) => return Ok(()),
            Some(_) => {
                self.rep.killed_by_assume += 1;
                return Err(Stop::End);
            }
            None => {}
        }
        if self.ar.eval(c, &st.model) == 1 {
            self.add(st, c);
            return Ok(());
        }
        match self.feasible(st, c)? {
            None => {
                self.rep.killed_by_assume += 1;
                Err(Stop::End)
            }
            Some(o) => {
                self.set_model(st, &o);
                self.add(st, c);
                Ok(())
            }
        }
    }

    fn api(&mut self, st: &mut State, name: &str, vals: &[V]) -> R<Option<V>> {
        let n64 = |s: &mut Self, st: &mut State, v: &V| -> R<u64> { Ok(s.concretize(st, v, 64)? as u64) };
        match name {
            "__sym_bytes" => {
                let p = n64(self, st, &vals[0])?;
                let n = n64(self, st, &vals[1])?;
                let mut out = vec![];
                let mut vs = vec![];
                for _ in 0..n {
                    let i = self.new_input(st, 8);
                    vs.push(self.ar.n[i as usize].k as u32);
                    out.push((i, 0));
                }
                st.inputs.push(vs);
                self.wr(st, p, &out)?;
                Ok(None)
            }
            "__sym_u8" | "__sym_u16" | "__sym_u32" | "__sym_u64" | "__sym_u128" => {
                let w: u32 = name[7..].parse().unwrap();
                let i = self.new_input(st, w);
                st.inputs.push(vec![self.ar.n[i as usize].k as u32]);
                Ok(Some(V::S(i)))
            }
            "__sym_bool" => {
                let i = self.new_input(st, 1);
                st.inputs.push(vec![self.ar.n[i as usize].k as u32]);
                Ok(Some(V::S(i)))
            }
            "__sym_choose" => {
                let n = n64(self, st, &vals[0])?;
                if n == 0 {
                    return Err(Stop::Err("choose(0)".into()));
                }
                let i = self.new_input(st, 8);
                if n > 256 {
                    return Err(Stop::Err("choose>256".into()));
                }
                st.inputs.push(vec![self.ar.n[i as usize].k as u32]);
                let var = self.ar.n[i as usize].k as u32;
                // other values: separate states resuming after this call
                for k in (1..n).rev() {
                    let mut s2 = st.clone();
                    let c = self.ar.konst(8, k as u128);
                    let e = self.ar.eq(i, c);
                    let o: Overlay = Rc::new(vec![(var, k as u128)]);
                    self.set_model(&mut s2, &o);
                    self.add(&mut s2, e);
                    s2.fixed.resize(s2.fixed.len().max(var as usize + 1), false);
                    // resume: write result register and advance
                    if let Inst::Call { dst, next, .. } = &s2.cur.f.clone().blocks[s2.cur.blk as usize].insts[s2.cur.ip as usize] {
                        if let Some(d) = dst {
                            s2.cur.regs[*d as usize] = V::C(k as u128);
                        }
                        match next {
                            None => s2.cur.ip += 1,
                            Some(b) => {
                                let f2 = s2.cur.f.clone();
                                self.jump(&mut s2, &f2, *b);
                            }
                        }
                    }
                    s2.depth_forks += 1;
                    self.rep.forks += 1;
                    self.work.push(s2);
                }
                let c = self.ar.konst(8, 0);
                let e = self.ar.eq(i, c);
                let o: Overlay = Rc::new(vec![(var, 0)]);
                self.set_model(st, &o);
                self.add(st, e);
                Ok(Some(V::C(0)))
            }
            "__sym_assume" => {
                let c = self.id(&vals[0], 1);
                self.assume(st, c)?;
                Ok(None)
            }
            "__sym_check" => {
                let p = n64(self, st, &vals[1])?;
                let n = n64(self, st, &vals[2])?;
                let label = self.cstr(st, p, n);
                *self.rep.checks.entry(label.clone()).or_default() += 1;
                let c = self.id(&vals[0], 1);
                let c = self.simp(st, c);
                match self.ar.cv(c) {
                    Some(1) => return Ok(None),
                    Some(_) => {
                        self.violation(st, format!("check:{label}"), "condition is false".into(), None);
                        return Err(Stop::End);
                    }
                    None => {}
                }
                self.rep.checks_sym += 1;
                let nc = self.ar.not(c);
                if self.feasible(st, nc)?.is_some() {
                    self.violation(st, format!("check:{label}"), "condition can be false".into(), Some(nc));
                    // continue on the side where it holds
                    self.assume(st, c)?;
                } else {
                    Rc::make_mut(&mut st.known).insert(c, 1);
                }
                Ok(None)
            }
            "__sym_reach" => {
                let p = n64(self, st, &vals[0])?;
                let n = n64(self, st, &vals[1])?;
                let label = self.cstr(st, p, n);
                let l = self.label(&label);
                if !st.reached.contains(&l) {
                    st.reached.push(l);
                }
                Ok(None)
            }
            "__sym_observe" => {
                let p = n64(self, st, &vals[0])?;
                let n = n64(self, st, &vals[1])?;
                let b = self.rdv(st, p, n as usize)?;
                st.observes.push(Rc::new(b));
                Ok(None)
            }
            "__sym_hash" => {
                let p = n64(self, st, &vals[0])?;
                let n = n64(self, st, &vals[1])?;
                let o = n64(self, st, &vals[2])?;
                let b = self.rdv(st, p, n as usize)?;
                let h = self.do_hash(st, b)?;
                self.wr(st, o, &h)?;
                Ok(None)
            }
            "__sym_alloc_limit" => {
                st.alloc_limit = n64(self, st, &vals[0])?;
                Ok(None)
            }
            "__sym_concretize" => {
                let v = self.concretize(st, &vals[0], 64)?;
                Ok(Some(V::C(v)))
            }
            "__sym_panic_ok" => {
                let v = n64(self, st, &vals[0])?;
                st.panic_ok = if v != 0 { Some(0) } else { None };
                Ok(None)
            }
            "__sym_is_symbolic" => Ok(Some(V::C(1))),
            n => Err(Stop::Err(format!("unknown api {n}"))),
        }
    }

    fn do_alloc(&mut self, st: &mut State, size: &V) -> R<V> {
        let n = match size {
            V::C(n) => *n as u64,
            V::S(i) => {
                let i = self.simp(st, *i);
                match self.ar.cv(i) {
                    Some(c) => c as u64,
                    None => {
                        let cap = if st.alloc_limit > 0 { st.alloc_limit } else { 1 << 22 };
                        let k = self.ar.konst(64, cap as u128);
                        let over = self.ar.ult(k, i);
                        if self.feasible(st, over)?.is_some() {
                            if st.alloc_limit > 0 {
                                self.violation(st, "allocation exceeds limit".into(), format!("limit {cap}"), Some(over));
                            } else {
                                *self.rep.errors.entry("symbolic allocation above 4 MiB".into()).or_default() += 1;
                            }
                            let ok = self.ar.not(over);
                            self.assume(st, ok)?;
                        }
                        // smallest power of two (by search) bounding the size
                        let (_, hi) = self.ar.range(i);
                        let mut up = (hi.min(cap as u128) as u64).max(1);
                        let mut c = 16u64;
                        while c < up {
                            let k = self.ar.konst(64, c as u128);
                            let over = self.ar.ult(k, i);
                            if self.feasible(st, over)?.is_none() {
                                up = c;
                                break;
                            }
                            c *= 4;
                        }
                        up
                    }
                }
            }
            _ => return Err(Stop::Err("alloc".into())),
        };
        if st.alloc_limit > 0 && n > st.alloc_limit {
            self.violation(st, "allocation exceeds limit".into(), format!("{n} > {}", st.alloc_limit), None);
            return Err(Stop::End);
        }
        // a huge block is backed by its first bytes only: touching more of it is an
        // out-of-bounds error of the run (never a silent pass)
        let n = if n > 1 << 24 { 1 << 16 } else { n };
        let id = st.mem.alloc(Obj { data: vec![0; n as usize], sym: vec![], kind: 3 });
        Ok(V::C((id as u128) << 32))
    }

    fn do_free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        match st.mem.get((p >> 32) as u32) {
            Some(o) if o.kind == 3 && p & 0xffff_ffff == 0 => {
                st.mem.free((p >> 32) as u32);
                Ok(())
            }
            _ => Err(Stop::Err(format!("bad free {p:#x}"))),
        }
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        // fast concrete path
        if let Some(o) = st.mem.get((s >> 32) as u32) {
            let off = (s & 0xffff_ffff) as usize;
            if o.sym.is_empty() && off + n as usize <= o.data.len() {
                let tmp = o.data[off..off + n as usize].to_vec();
                if let Some(t) = st.mem.get_mut((d >> 32) as u32) {
                    let toff = (d & 0xffff_ffff) as usize;
                    if t.kind != 0 && toff + n as usize <= t.data.len() {
                        t.data[toff..toff + n as usize].copy_from_slice(&tmp);
                        if !t.sym.is_empty() {
                            for x in &mut t.sym[toff..toff + n as usize] {
                                *x = 0;
                            }
                        }
                        return Ok(());
                    }
                }
            }
        }
        let b = self.rdv(st, s, n as usize)?;
        self.wr(st, d, &b)
    }

    fn external(&mut self, st: &mut State, s: u32, h: H, ret: TyId, args: &[(TyId, Opnd)], vals: Vec<V>) -> R<Option<V>> {
        let name = self.m.syms[s as usize].name.clone();
        match h {
            H::Api => return self.api(st, &name, &vals),
            H::Panic => return Err(self.do_panic(st, &name, &vals)),
            H::RetZero => return Ok(Some(V::C(0))),
            H::RandomKeys => return Ok(Some(V::A(Rc::new(vec![V::C(1), V::C(2)])))),
            H::HashOne => return Ok(Some(V::C(0x1234_5678_9abc_def0))),
            H::None => {}
        }
        let n64 = |s: &mut Self, st: &mut State, v: &V| -> R<u64> { Ok(s.concretize(st, v, 64)? as u64) };
        match name.as_str() {
            "malloc" => return Ok(Some(self.do_alloc(st, &vals[0])?)),
            "calloc" => {
                let x = self.bin(st, BinOp::Mul, self.m.i64, &vals[0], &vals[1])?;
                return Ok(Some(self.do_alloc(st, &x)?));
            }
            "aligned_alloc" | "memalign" => return Ok(Some(self.do_alloc(st, &vals[1])?)),
            "posix_memalign" => {
                let p = n64(self, st, &vals[0])?;
                let a = self.do_alloc(st, &vals[2])?;
                self.store_c(st, p, self.m.ptr, &a)?;
                return Ok(Some(V::C(0)));
            }
            "realloc" => {
                let p = n64(self, st, &vals[0])?;
                let a = self.do_alloc(st, &vals[1])?;
                let na = match a {
                    V::C(x) => x as u64,
                    _ => unreachable!(),
                };
                if p != 0 {
                    let old = st.mem.get((p >> 32) as u32).map(|o| o.data.len()).unwrap_or(0);
                    let new = st.mem.get((na >> 32) as u32).map(|o| o.data.len()).unwrap_or(0);
                    self.copy(st, na, p, old.min(new) as u64)?;
                    self.do_free(st, p)?;
                }
                return Ok(Some(V::C(na as u128)));
            }
            "free" => {
                let p = n64(self, st, &vals[0])?;
                self.do_free(st, p)?;
                return Ok(None);
            }
            "memcmp" | "bcmp" => {
                let n = n64(self, st, &vals[2])?;
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let a = n64(self, st, &vals[0])?;
                let b = n64(self, st, &vals[1])?;
                let mut x = self.rdv(st, a, n as usize)?;
                let mut y = self.rdv(st, b, n as usize)?;
                self.simp_bytes(st, &mut x);
                self.simp_bytes(st, &mut y);
                if name == "bcmp" {
                    let e = self.eq_bytes(&x, &y);
                    let ne = self.ar.not(e);
                    let r = self.ar.zext(ne, 32);
                    return Ok(Some(self.v(r)));
                }
                let r = self.cmp_bytes(&x, &y);
                return Ok(Some(self.v(r)));
            }
            "memcpy" | "memmove" => {
                let n = n64(self, st, &vals[2])?;
                let d = n64(self, st, &vals[0])?;
                let s = n64(self, st, &vals[1])?;
                self.copy(st, d, s, n)?;
                return Ok(Some(V::C(d as u128)));
            }
            "memset" => {
                self.memset(st, &vals)?;
                return Ok(Some(vals[0].clone()));
            }
            "strlen" => {
                let p = n64(self, st, &vals[0])?;
                let mut k = 0;
                loop {
                    let b = self.rdv(st, p + k, 1)?[0];
                    if b.0 != 0 {
                        return Err(Stop::Err("symbolic strlen".into()));
                    }
                    if b.1 == 0 {
                        return Ok(Some(V::C(k as u128)));
                    }
                    k += 1;
                }
            }
            "__cxa_thread_atexit_impl" => return Ok(Some(V::C(0))),
            "abort" | "llvm.trap" | "__assert_fail" => return Err(self.do_panic(st, "5abort", &vals)),
            _ => {}
        }
        if let Some(r) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, r, ret, args, vals);
        }
        Err(Stop::Err(format!("call to unmodelled function {name}")))
    }

    fn memset(&mut self, st: &mut State, vals: &[V]) -> R<()> {
        let n = self.concretize(st, &vals[2], 64)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.concretize(st, &vals[0], 64)? as u64;
        let b = match &vals[1] {
            V::C(c) => (0, *c as u8),
            V::S(i) => {
                let e = self.ar.trunc(*i, 8);
                (e, 0)
            }
            _ => return Err(Stop::Err("memset".into())),
        };
        let v = vec![b; n as usize];
        self.wr(st, d, &v)
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, ret: TyId, args: &[(TyId, Opnd)], vals: Vec<V>) -> R<Option<V>> {
        let base: String = {
            // strip type suffix
            let mut parts: Vec<&str> = name.split('.').collect();
            while parts.len() > 1 {
                let l = parts[parts.len() - 1];
                let b = l.as_bytes();
                let is_ty = (b[0] == b'i' || b[0] == b'v' || b[0] == b'p' || b[0] == b'f') && b.len() > 1 && b[1].is_ascii_digit();
                if is_ty {
                    parts.pop();
                } else {
                    break;
                }
            }
            parts.join(".")
        };
        match base.as_str() {
            "memcpy" | "memmove" | "memcpy.inline" => {
                let n = self.concretize(st, &vals[2], 64)? as u64;
                if n == 0 {
                    return Ok(None);
                }
                let d = self.concretize(st, &vals[0], 64)? as u64;
                let s = self.concretize(st, &vals[1], 64)? as u64;
                self.copy(st, d, s, n)?;
                return Ok(None);
            }
            "memset" | "memset.inline" => {
                self.memset(st, &vals)?;
                return Ok(None);
            }
            "threadlocal.address" => return Ok(Some(vals[0].clone())),
            "is.constant" => return Ok(Some(V::C(0))),
            "expect" | "expect.with.probability" => return Ok(Some(vals[0].clone())),
            "trap" | "debugtrap" => return Err(self.do_panic(st, "4trap", &vals)),
            "load.relative" => {
                let b = self.concretize(st, &vals[0], 64)? as u64;
                let off = vals[1].clone();
                let p = self.bin(st, BinOp::Add, self.m.i64, &V::C(b as u128), &off)?;
                let i32t = self.m.ty(Ty::Int(32));
                let rel = self.load(st, &p, i32t)?;
                let rel = self.cast(Cast::SExt, i32t, self.m.i64, &rel)?;
                return Ok(Some(self.bin(st, BinOp::Add, self.m.i64, &V::C(b as u128), &rel)?));
            }
            "stacksave" => return Ok(Some(V::C(0))),
            "stackrestore" | "va_start" | "va_end" | "donothing" | "sideeffect" => return Ok(None),
            "x86.sse2.pause" => return Ok(None),
            _ => {}
        }
        let aty = args[0].0;
        // element-wise for vectors
        if let Ty::Vec(n, e) = self.m.tys[aty as usize].clone() {
            if base.starts_with("vector.reduce.") {
                let op = base["vector.reduce.".len()..].to_string();
                let vs = match &vals[0] {
                    V::A(v) => v.clone(),
                    _ => return Err(Stop::Err("reduce".into())),
                };
                let mut acc = vs[0].clone();
                for x in vs.iter().skip(1) {
                    acc = match op.as_str() {
                        "add" => self.bin(st, BinOp::Add, e, &acc, x)?,
                        "mul" => self.bin(st, BinOp::Mul, e, &acc, x)?,
                        "or" => self.bin(st, BinOp::Or, e, &acc, x)?,
                        "and" => self.bin(st, BinOp::And, e, &acc, x)?,
                        "xor" => self.bin(st, BinOp::Xor, e, &acc, x)?,
                        o => {
                            let w = self.m.width(e);
                            self.scalar(st, o, w, &[acc.clone(), x.clone()])?
                        }
                    };
                }
                return Ok(Some(acc));
            }
            let w = self.m.width(e);
            let mut out = vec![];
            for k in 0..n as usize {
                let vs: Vec<V> = vals
                    .iter()
                    .map(|v| match v {
                        V::A(a) => a[k].clone(),
                        x => x.clone(),
                    })
                    .collect();
                out.push(self.scalar(st, &base, w, &vs)?);
            }
            return Ok(Some(V::A(Rc::new(out))));
        }
        let w = self.m.width(aty);
        let _ = ret;
        Ok(Some(self.scalar(st, &base, w, &vals)?))
    }

    fn scalar(&mut self, st: &mut State, base: &str, w: u32, vals: &[V]) -> R<V> {
        let m = mask(w);
        if let (Some(V::C(a)), b) = (vals.get(0), vals.get(1)) {
            let a = *a;
            let bc = match b {
                Some(V::C(b)) => Some(*b),
                None => Some(0),
                _ => None,
            };
            if let Some(b) = bc {
                let (sa, sb) = (sext(a, w), sext(b, w));
                let pair = |v: u128, o: bool| V::A(Rc::new(vec![V::C(v & m), V::C(o as u128)]));
                let smax = (m >> 1) as i128;
                let smin = -smax - 1;
                let r = match base {
                    "umin" => V::C(a.min(b)),
                    "umax" => V::C(a.max(b)),
                    "smin" => V::C(sa.min(sb) as u128 & m),
                    "smax" => V::C(sa.max(sb) as u128 & m),
                    "abs" => V::C(sa.wrapping_abs() as u128 & m),
                    "uadd.with.overflow" => {
                        let (r, o) = a.overflowing_add(b);
                        pair(r, o || r > m)
                    }
                    "usub.with.overflow" => pair(a.wrapping_sub(b), a < b),
                    "umul.with.overflow" => {
                        let (r, o) = a.overflowing_mul(b);
                        pair(r, o || r > m)
                    }
                    "sadd.with.overflow" => {
                        let (r, o) = sa.overflowing_add(sb);
                        pair(r as u128, o || r > smax || r < smin)
                    }
                    "ssub.with.overflow" => {
                        let (r, o) = sa.overflowing_sub(sb);
                        pair(r as u128, o || r > smax || r < smin)
                    }
                    "smul.with.overflow" => {
                        let (r, o) = sa.overflowing_mul(sb);
                        pair(r as u128, o || r > smax || r < smin)
                    }
                    "uadd.sat" => {
                        let (r, o) = a.overflowing_add(b);
                        V::C(if o || r > m { m } else { r })
                    }
                    "usub.sat" => V::C(a.saturating_sub(b)),
                    "sadd.sat" => V::C(sa.saturating_add(sb).clamp(smin, smax) as u128 & m),
                    "ssub.sat" => V::C(sa.saturating_sub(sb).clamp(smin, smax) as u128 & m),
                    "bswap" => {
                        let n = w / 8;
                        let mut r = 0u128;
                        for k in 0..n {
                            r |= ((a >> (8 * k)) & 0xff) << (8 * (n - 1 - k));
                        }
                        V::C(r)
                    }
                    "bitreverse" => V::C(a.reverse_bits() >> (128 - w)),
                    "ctlz" => V::C((a.leading_zeros() - (128 - w)) as u128),
                    "cttz" => V::C((a.trailing_zeros().min(w)) as u128),
                    "ctpop" => V::C(a.count_ones() as u128),
                    "ucmp" => V::C(if a < b { 0xff } else { (a > b) as u128 }),
                    "scmp" => V::C(if sa < sb { 0xff } else { (sa > sb) as u128 }),
                    "fshl" | "fshr" => return self.fsh(base, w, vals),
                    "assume" => V::C(0),
                    o => return Err(Stop::Err(format!("intrinsic {o}"))),
                };
                return Ok(r);
            }
        }
        if base == "fshl" || base == "fshr" {
            return self.fsh(base, w, vals);
        }
        let a = self.id(&vals[0], w);
        let a = self.simp(st, a);
        let two = vals.len() > 1 && !matches!(base, "ctlz" | "cttz" | "abs" | "ctpop" | "bswap" | "bitreverse");
        let b = if two {
            let b = self.id(&vals[1], w);
            self.simp(st, b)
        } else {
            0
        };
        let ar = &mut self.ar;
        let r = match base {
            "umin" | "umax" => {
                let c = ar.ult(a, b);
                if base == "umin" {
                    ar.ite(c, a, b)
                } else {
                    ar.ite(c, b, a)
                }
            }
            "smin" | "smax" => {
                let c = ar.slt(a, b);
                if base == "smin" {
                    ar.ite(c, a, b)
                } else {
                    ar.ite(c, b, a)
                }
            }
            "abs" => {
                let z = ar.konst(w, 0);
                let c = ar.slt(a, z);
                let n = ar.neg(a);
                ar.ite(c, n, a)
            }
            "uadd.with.overflow" => {
                let s = ar.add(a, b);
                let o = uadd_ovf(ar, a, b, s);
                let (s, o) = (self.v(s), self.v(o));
                return Ok(V::A(Rc::new(vec![s, o])));
            }
            "usub.with.overflow" => {
                let s = ar.sub(a, b);
                let o = ar.ult(a, b);
                let (s, o) = (self.v(s), self.v(o));
                return Ok(V::A(Rc::new(vec![s, o])));
            }
            "umul.with.overflow" => {
                if w > 64 {
                    return Err(Stop::Err("symbolic 128-bit umul.with.overflow".into()));
                }
                // constant multiplier: x*c overflows iff x > max/c
                if let Some(c) = ar.cv(b).or(ar.cv(a)) {
                    let x = if ar.cv(b).is_some() { a } else { b };
                    let s = ar.mul(a, b);
                    let o = if c == 0 {
                        ar.f()
                    } else {
                        let k = ar.konst(w, m / c);
                        ar.ult(k, x)
                    };
                    let (s, o) = (self.v(s), self.v(o));
                    return Ok(V::A(Rc::new(vec![s, o])));
                }
                let x = ar.zext(a, 2 * w);
                let y = ar.zext(b, 2 * w);
                let p = ar.mul(x, y);
                let s = ar.trunc(p, w);
                let hi = ar.extract(p, 2 * w - 1, w);
                let z = ar.konst(w, 0);
                let e = ar.eq(hi, z);
                let o = ar.not(e);
                let (s, o) = (self.v(s), self.v(o));
                return Ok(V::A(Rc::new(vec![s, o])));
            }
            "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" | "sadd.sat" | "ssub.sat" => {
                let ww = if base.starts_with("smul") { 2 * w } else { w + 1 };
                if ww > 128 {
                    return Err(Stop::Err(format!("symbolic i{w} {base}")));
                }
                let x = ar.sext(a, ww);
                let y = ar.sext(b, ww);
                let p = if base.starts_with("sadd") {
                    ar.add(x, y)
                } else if base.starts_with("ssub") {
                    ar.sub(x, y)
                } else {
                    ar.mul(x, y)
                };
                let s = ar.trunc(p, w);
                let back = ar.sext(s, ww);
                let e = ar.eq(back, p);
                let o = ar.not(e);
                if base.ends_with("sat") {
                    let neg = ar.extract(p, ww - 1, ww - 1);
                    let mn = ar.konst(w, 1u128 << (w - 1));
                    let mx = ar.konst(w, m >> 1);
                    let sat = ar.ite(neg, mn, mx);
                    ar.ite(o, sat, s)
                } else {
                    let (s, o) = (self.v(s), self.v(o));
                    return Ok(V::A(Rc::new(vec![s, o])));
                }
            }
            "uadd.sat" => {
                let s = ar.add(a, b);
                let o = uadd_ovf(ar, a, b, s);
                let k = ar.konst(w, m);
                ar.ite(o, k, s)
            }
            "usub.sat" => {
                let s = ar.sub(a, b);
                let o = ar.ult(a, b);
                let k = ar.konst(w, 0);
                ar.ite(o, k, s)
            }
            "bswap" => {
                let n = w / 8;
                let mut acc: Option<Id> = None;
                for k in 0..n {
                    let e = ar.extract(a, 8 * k + 7, 8 * k);
                    acc = Some(match acc {
                        None => e,
                        Some(h) => ar.concat(h, e),
                    });
                }
                acc.unwrap()
            }
            "bitreverse" => {
                let mut acc: Option<Id> = None;
                for k in 0..w {
                    let e = ar.extract(a, k, k);
                    acc = Some(match acc {
                        None => e,
                        Some(h) => ar.concat(h, e),
                    });
                }
                acc.unwrap()
            }
            "ctpop" => {
                // summed narrowly, the constant bits apart
                let nw = (u32::BITS - w.leading_zeros()).min(w);
                let (mut acc, mut c) = (ar.konst(nw, 0), 0);
                for k in 0..w {
                    let e = ar.extract(a, k, k);
                    match ar.cv(e) {
                        Some(x) => c += x,
                        None => {
                            let z = if nw == 1 { e } else { ar.zext(e, nw) };
                            acc = ar.add(acc, z);
                        }
                    }
                }
                let x = if nw == w { acc } else { ar.zext(acc, w) };
                let c = ar.konst(w, c);
                ar.add(x, c)
            }
            "ctlz" => {
                let mut acc = ar.konst(w, w as u128);
                for k in 0..w {
                    let e = ar.extract(a, k, k);
                    let v = ar.konst(w, (w - 1 - k) as u128);
                    acc = ar.ite(e, v, acc);
                }
                acc
            }
            "cttz" => {
                let mut acc = ar.konst(w, w as u128);
                for k in (0..w).rev() {
                    let e = ar.extract(a, k, k);
                    let v = ar.konst(w, k as u128);
                    acc = ar.ite(e, v, acc);
                }
                acc
            }
            "ucmp" | "scmp" => {
                let lt = if base == "ucmp" { ar.ult(a, b) } else { ar.slt(a, b) };
                let e = ar.eq(a, b);
                let n1 = ar.konst(8, 0xff);
                let p1 = ar.konst(8, 1);
                let z = ar.konst(8, 0);
                let r = ar.ite(lt, n1, p1);
                ar.ite(e, z, r)
            }
            o => return Err(Stop::Err(format!("intrinsic {o}"))),
        };
        Ok(self.v(r))
    }

    fn fsh(&mut self, base: &str, w: u32, vals: &[V]) -> R<V> {
        if let (V::C(a), V::C(b), V::C(s)) = (&vals[0], &vals[1], &vals[2]) {
            let s = (*s % w as u128) as u32;
            let m = mask(w);
            let r = if base == "fshl" {
                if s == 0 {
                    *a
                } else {
                    ((*a << s) | (*b >> (w - s))) & m
                }
            } else if s == 0 {
                *b
            } else {
                ((*a << (w - s)) | (*b >> s)) & m
            };
            return Ok(V::C(r));
        }
        let a = self.id(&vals[0], w);
        let b = self.id(&vals[1], w);
        match &vals[2] {
            V::C(s) => {
                let s = (*s % w as u128) as u32;
                let s = if base == "fshl" { s } else { (w - s) % w };
                if s == 0 {
                    return Ok(self.v(if base == "fshl" { a } else { b }));
                }
                let x = self.ar.extract(a, w - 1 - s, 0);
                let y = self.ar.extract(b, w - 1, w - s);
                let r = self.ar.concat(x, y);
                Ok(self.v(r))
            }
            _ => {
                let s = self.id(&vals[2], w);
                let kw = self.ar.konst(w, w as u128);
                let s = self.ar.urem(s, kw);
                let inv = self.ar.sub(kw, s);
                let r = if base == "fshl" {
                    let x = self.ar.shl(a, s);
                    let y = self.ar.lshr(b, inv);
                    self.ar.or(x, y)
                } else {
                    let x = self.ar.shl(a, inv);
                    let y = self.ar.lshr(b, s);
                    self.ar.or(x, y)
                };
                Ok(self.v(r))
            }
        }
    }
}

fn uadd_ovf(ar: &mut Arena, a: Id, b: Id, s: Id) -> Id {
    let w = ar.w(a);
    if let Some(c) = ar.cv(b) {
        let k = ar.konst(w, mask(w) - c);
        return ar.ult(k, a);
    }
    if let Some(c) = ar.cv(a) {
        let k = ar.konst(w, mask(w) - c);
        return ar.ult(k, b);
    }
    let (_, x) = ar.range(a);
    let (_, y) = ar.range(b);
    if x.checked_add(y).map(|t| t <= mask(w)).unwrap_or(false) {
        return ar.f();
    }
    ar.ult(s, a)
}

pub fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    let p: u64 = s.split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    p * 4096 / (1 << 20)
}

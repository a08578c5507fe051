//! Hash-consed bit-vector expressions (widths 1..=128) with construction-time
//! simplification. Id 0 is reserved.

use crate::ir::mask;
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    ZExt,
    SExt,
    Extract, // c = lo
    Concat,  // a high, b low
    Eq,
    Ult,
    Slt,
    Not, // width 1
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

pub struct Arena {
    pub n: Vec<Node>,
    ix: HashMap<Node, Id, FxB>,
    // support
    sup: Vec<u32>,
    pub sup_pool: Vec<Rc<[u32]>>,
    sup_ix: HashMap<Rc<[u32]>, u32>,
    sup_un: HashMap<(u32, u32), u32, FxB>,
    rng: Vec<Option<(u128, u128)>>,
    // evaluation memo
    memo: Vec<(u64, u128)>,
    pub nvars: u32,
    pub var_w: Vec<u16>,
    pub var_id: Vec<Id>,
}

#[derive(Clone, Default)]
pub struct FxH(u64);
pub type FxB = std::hash::BuildHasherDefault<FxH>;
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

pub struct Model {
    pub gen: u64,
    pub v: Vec<u128>,
}

impl Model {
    pub fn get(&self, i: u32) -> u128 {
        self.v.get(i as usize).copied().unwrap_or(0)
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            n: vec![],
            ix: HashMap::default(),
            sup: vec![],
            sup_pool: vec![],
            sup_ix: HashMap::new(),
            sup_un: HashMap::default(),
            rng: vec![],
            memo: vec![],
            nvars: 0,
            var_w: vec![],
            var_id: vec![],
        };
        let e: Rc<[u32]> = Rc::from(vec![]);
        a.sup_pool.push(e.clone());
        a.sup_ix.insert(e, 0);
        a.n.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a.sup.push(0);
        a.rng.push(None);
        a.memo.push((0, 0));
        a
    }

    fn mk(&mut self, n: Node) -> Id {
        if let Some(i) = self.ix.get(&n) {
            return *i;
        }
        debug_assert!(n.w >= 1 && n.w <= 128, "{n:?}");
        let i = self.n.len() as Id;
        self.n.push(n);
        self.ix.insert(n, i);
        let s = match n.op {
            Op::Const => 0,
            Op::Var => {
                let v: Rc<[u32]> = Rc::from(vec![n.k as u32]);
                self.sup_intern(v)
            }
            _ => {
                let mut s = self.sup[n.a as usize];
                if n.b != 0 {
                    s = self.sup_union(s, self.sup[n.b as usize]);
                }
                if n.c != 0 && n.op == Op::Ite {
                    s = self.sup_union(s, self.sup[n.c as usize]);
                }
                s
            }
        };
        self.sup.push(s);
        self.rng.push(None);
        self.memo.push((0, 0));
        i
    }

    fn sup_intern(&mut self, v: Rc<[u32]>) -> u32 {
        if let Some(i) = self.sup_ix.get(&v) {
            return *i;
        }
        let i = self.sup_pool.len() as u32;
        self.sup_pool.push(v.clone());
        self.sup_ix.insert(v, i);
        i
    }

    pub fn sup_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(i) = self.sup_un.get(&k) {
            return *i;
        }
        let mut v: Vec<u32> = self.sup_pool[a as usize].iter().chain(self.sup_pool[b as usize].iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        let r = self.sup_intern(Rc::from(v));
        self.sup_un.insert(k, r);
        r
    }

    pub fn sup_id(&self, i: Id) -> u32 {
        self.sup[i as usize]
    }

    pub fn support(&self, i: Id) -> Rc<[u32]> {
        self.sup_pool[self.sup[i as usize] as usize].clone()
    }

    #[inline]
    pub fn w(&self, i: Id) -> u32 {
        self.n[i as usize].w as u32
    }

    #[inline]
    pub fn cv(&self, i: Id) -> Option<u128> {
        let n = &self.n[i as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    pub fn konst(&mut self, w: u32, v: u128) -> Id {
        self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: v & mask(w) })
    }

    pub fn t(&mut self) -> Id {
        self.konst(1, 1)
    }

    pub fn f(&mut self) -> Id {
        self.konst(1, 0)
    }

    pub fn new_var(&mut self, w: u32) -> Id {
        let k = self.nvars;
        self.nvars += 1;
        self.var_w.push(w as u16);
        let id = self.mk(Node { op: Op::Var, w: w as u16, a: 0, b: 0, c: 0, k: k as u128 });
        self.var_id.push(id);
        id
    }

    /// unsigned range
    pub fn range(&mut self, i: Id) -> (u128, u128) {
        if let Some(r) = self.rng[i as usize] {
            return r;
        }
        let n = self.n[i as usize];
        let m = mask(n.w as u32);
        let r = match n.op {
            Op::Const => (n.k, n.k),
            Op::ZExt => self.range(n.a),
            Op::Concat => {
                let (a, b) = self.range(n.a);
                let (c, d) = self.range(n.b);
                let s = self.w(n.b);
                ((a << s) | c, (b << s) | d)
            }
            Op::Extract => {
                let (a, b) = self.range(n.a);
                if n.c == 0 {
                    if b <= m {
                        (a, b)
                    } else {
                        (0, m)
                    }
                } else if n.c as u32 + n.w as u32 == self.w(n.a) {
                    (a >> n.c, b >> n.c)
                } else {
                    (0, (b >> n.c).min(m))
                }
            }
            Op::And => {
                let (_, b) = self.range(n.a);
                let (_, d) = self.range(n.b);
                (0, b.min(d))
            }
            Op::Or => {
                let (a, b) = self.range(n.a);
                let (c, d) = self.range(n.b);
                let hb = 128 - (b | d).leading_zeros();
                (a.max(c), mask(hb))
            }
            Op::Add => {
                let (a, b) = self.range(n.a);
                let (c, d) = self.range(n.b);
                match b.checked_add(d) {
                    Some(h) if h <= m => (a + c, h),
                    _ => (0, m),
                }
            }
            Op::Mul => {
                let (a, b) = self.range(n.a);
                let (c, d) = self.range(n.b);
                match b.checked_mul(d) {
                    Some(h) if h <= m => (a * c, h),
                    _ => (0, m),
                }
            }
            Op::UDiv => {
                let (a, b) = self.range(n.a);
                let (c, d) = self.range(n.b);
                if c > 0 {
                    (a / d, b / c)
                } else {
                    (0, m)
                }
            }
            Op::URem => {
                let (_, b) = self.range(n.a);
                let (c, d) = self.range(n.b);
                if c > 0 {
                    (0, b.min(d - 1))
                } else {
                    (0, m)
                }
            }
            Op::Ite => {
                let (a, b) = self.range(n.b);
                let (c, d) = self.range(n.c);
                (a.min(c), b.max(d))
            }
            _ => (0, m),
        };
        self.rng[i as usize] = Some(r);
        r
    }

    // ---- constructors -------------------------------------------------

    pub fn add(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.konst(w, x.wrapping_add(y)),
            (Some(_), None) => return self.add(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                let n = self.n[a as usize];
                if n.op == Op::Add {
                    if let Some(c) = self.cv(n.b) {
                        let k = self.konst(w, c.wrapping_add(y));
                        return self.add(n.a, k);
                    }
                }
                // a constant low part that takes the sum without a carry
                if n.op == Op::Concat {
                    let wl = self.w(n.b);
                    if let Some(c) = self.cv(n.b) {
                        if y <= mask(wl) && c + y <= mask(wl) {
                            let k = self.konst(wl, c + y);
                            return self.concat(n.a, k);
                        }
                    }
                }
                if n.op == Op::ZExt {
                    let m = self.n[n.a as usize];
                    if m.op == Op::Concat {
                        let wl = self.w(m.b);
                        if let Some(c) = self.cv(m.b) {
                            if y <= mask(wl) && c + y <= mask(wl) {
                                let k = self.konst(wl, c + y);
                                let x = self.concat(m.a, k);
                                return self.zext(x, w);
                            }
                        }
                    }
                }
                // distribute into constant ites
                if n.op == Op::Ite {
                    if let (Some(p), Some(q)) = (self.cv(n.b), self.cv(n.c)) {
                        let p = self.konst(w, p.wrapping_add(y));
                        let q = self.konst(w, q.wrapping_add(y));
                        return self.ite(n.a, p, q);
                    }
                }
            }
            _ => {
                if a > b {
                    return self.add(b, a);
                }
                // x + (-x) handled through mul by -1: (y * -1) + y
                let nb = self.n[b as usize];
                let na = self.n[a as usize];
                let neg = |s: &Self, n: Node| if n.op == Op::Mul && s.cv(n.b) == Some(mask(w)) { Some(n.a) } else { None };
                if neg(self, nb) == Some(a) || neg(self, na) == Some(b) {
                    return self.konst(w, 0);
                }
                // (x + y) + (-x)
                if let Some(x) = neg(self, nb) {
                    if na.op == Op::Add {
                        if na.a == x {
                            return na.b;
                        }
                        if na.b == x {
                            return na.a;
                        }
                    }
                }
                if let Some(x) = neg(self, na) {
                    if nb.op == Op::Add {
                        if nb.a == x {
                            return nb.b;
                        }
                        if nb.b == x {
                            return nb.a;
                        }
                    }
                }
                // pull constants outward
                if na.op == Op::Add && self.cv(na.b).is_some() {
                    let s = self.add(na.a, b);
                    return self.add(s, na.b);
                }
                if nb.op == Op::Add && self.cv(nb.b).is_some() {
                    let s = self.add(a, nb.a);
                    return self.add(s, nb.b);
                }
                if let Some(r) = self.disjoint_or(a, b) {
                    return r;
                }
            }
        }
        if self.cv(b).is_some() {
            if let Some(r) = self.disjoint_or(a, b) {
                return r;
            }
        }
        if self.cv(b).is_none() {
            let is_lin = |s: &Self, n: Node| n.op == Op::Add || n.op == Op::Mul && s.cv(n.b).is_some();
            if is_lin(self, self.n[a as usize]) || is_lin(self, self.n[b as usize]) {
                let mut t = vec![];
                let mut k = 0;
                if self.lin(a, 1, w, &mut t, &mut k) && self.lin(b, 1, w, &mut t, &mut k) {
                    return self.unlin(t, k, w);
                }
            }
        }
        self.mk(Node { op: Op::Add, w: w as u16, a, b, c: 0, k: 0 })
    }

    /// a as a sum of terms with coefficients; false when it gets too long
    fn lin(&self, a: Id, coef: u128, w: u32, t: &mut Vec<(Id, u128)>, k: &mut u128) -> bool {
        let n = self.n[a as usize];
        if let Some(c) = self.cv(a) {
            *k = k.wrapping_add(c.wrapping_mul(coef)) & mask(w);
            return true;
        }
        if t.len() > 24 {
            return false;
        }
        match n.op {
            Op::Add => self.lin(n.a, coef, w, t, k) && self.lin(n.b, coef, w, t, k),
            Op::Mul if self.cv(n.b).is_some() => {
                let c = self.cv(n.b).unwrap();
                self.lin(n.a, coef.wrapping_mul(c) & mask(w), w, t, k)
            }
            _ => {
                match t.iter_mut().find(|x| x.0 == a) {
                    Some(x) => x.1 = x.1.wrapping_add(coef) & mask(w),
                    None => t.push((a, coef & mask(w))),
                }
                true
            }
        }
    }

    fn unlin(&mut self, mut t: Vec<(Id, u128)>, k: u128, w: u32) -> Id {
        t.retain(|x| x.1 != 0);
        t.sort_unstable();
        let mut acc = None;
        for (i, c) in t {
            let kc = self.konst(w, c);
            let x = if c == 1 { i } else { self.mul(i, kc) };
            acc = Some(match acc {
                None => x,
                Some(y) => self.mk(Node { op: Op::Add, w: w as u16, a: y, b: x, c: 0, k: 0 }),
            });
        }
        let kk = self.konst(w, k);
        match acc {
            None => kk,
            Some(x) if k == 0 => x,
            Some(x) => self.mk(Node { op: Op::Add, w: w as u16, a: x, b: kk, c: 0, k: 0 }),
        }
    }

    /// a - b as a sum when that shows a >= b: every term counts positively and nothing wraps
    fn clearly_ge(&mut self, a: Id, b: Id, w: u32) -> bool {
        if self.n[a as usize].op != Op::Add {
            return false;
        }
        let (mut t, mut k) = (vec![], 0);
        let (mut u, mut l) = (vec![], 0);
        if !self.lin(a, 1, w, &mut t, &mut k) || !self.lin(b, 1, w, &mut u, &mut l) || k < l {
            return false;
        }
        let mut hi = k;
        for (i, c) in &t {
            let d = u.iter().find(|x| x.0 == *i).map_or(0, |x| x.1);
            let (_, h) = self.range(*i);
            match c.checked_mul(h).and_then(|x| hi.checked_add(x)) {
                Some(x) if *c >= d => hi = x,
                _ => return false,
            }
        }
        hi <= mask(w) && u.iter().all(|x| t.iter().any(|y| y.0 == x.0))
    }

    pub fn neg(&mut self, a: Id) -> Id {
        let w = self.w(a);
        if let Some(x) = self.cv(a) {
            return self.konst(w, x.wrapping_neg());
        }
        let n = self.n[a as usize];
        if n.op == Op::Add {
            if let Some(c) = self.cv(n.b) {
                let k = self.konst(w, c.wrapping_neg());
                let x = self.neg(n.a);
                return self.add(x, k);
            }
        }
        let m = self.konst(w, mask(w));
        self.mul(a, m)
    }

    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            let w = self.w(a);
            return self.konst(w, 0);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }

    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.konst(w, x.wrapping_mul(y)),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) if y.is_power_of_two() => {
                let k = self.konst(w, y.trailing_zeros() as u128);
                return self.shl(a, k);
            }
            (None, Some(y)) => {
                let n = self.n[a as usize];
                if n.op == Op::Mul {
                    if let Some(c) = self.cv(n.b) {
                        let k = self.konst(w, c.wrapping_mul(y));
                        return self.mul(n.a, k);
                    }
                }
            }
            _ => {
                if a > b {
                    return self.mul(b, a);
                }
            }
        }
        self.mk(Node { op: Op::Mul, w: w as u16, a, b, c: 0, k: 0 })
    }

    pub fn udiv(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst(w, if y == 0 { mask(w) } else { x / y });
        }
        if let Some(y) = self.cv(b) {
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.konst(w, y.trailing_zeros() as u128);
                return self.lshr(a, k);
            }
            let (_, hi) = self.range(a);
            if y > 0 && hi < y {
                return self.konst(w, 0);
            }
            let n = self.n[a as usize];
            if n.op == Op::ZExt && y <= mask(self.w(n.a)) {
                let k = self.konst(self.w(n.a), y);
                let d = self.udiv(n.a, k);
                return self.zext(d, w);
            }
        }
        self.mk(Node { op: Op::UDiv, w: w as u16, a, b, c: 0, k: 0 })
    }

    pub fn urem(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst(w, if y == 0 { x } else { x % y });
        }
        if let Some(y) = self.cv(b) {
            if y.is_power_of_two() {
                let m = self.konst(w, y - 1);
                return self.and(a, m);
            }
            let (_, hi) = self.range(a);
            if hi < y {
                return a;
            }
            let n = self.n[a as usize];
            if n.op == Op::ZExt && y <= mask(self.w(n.a)) && y > 0 {
                let k = self.konst(self.w(n.a), y);
                let d = self.urem(n.a, k);
                return self.zext(d, w);
            }
        }
        self.mk(Node { op: Op::URem, w: w as u16, a, b, c: 0, k: 0 })
    }

    pub fn sdiv(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (sext(x, w), sext(y, w));
            let r = if y == 0 { if x < 0 { 1 } else { -1 } } else { x.wrapping_div(y) };
            return self.konst(w, r as u128);
        }
        self.mk(Node { op: Op::SDiv, w: w as u16, a, b, c: 0, k: 0 })
    }

    pub fn srem(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (sext(x, w), sext(y, w));
            let r = if y == 0 { x } else { x.wrapping_rem(y) };
            return self.konst(w, r as u128);
        }
        self.mk(Node { op: Op::SRem, w: w as u16, a, b, c: 0, k: 0 })
    }

    pub fn and(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.konst(w, x & y),
            (Some(_), None) => return self.and(b, a),
            (None, Some(0)) => return b,
            (None, Some(y)) if y == mask(w) => return a,
            (None, Some(y)) => {
                // split into runs
                let mut runs = vec![]; // (bit, len) from low
                let mut pos = 0;
                while pos < w {
                    let bit = (y >> pos) & 1;
                    let mut e = pos + 1;
                    while e < w && (y >> e) & 1 == bit {
                        e += 1;
                    }
                    runs.push((bit, pos, e));
                    pos = e;
                }
                if runs.len() <= 5 {
                    let mut acc: Option<Id> = None;
                    for (bit, s, e) in runs {
                        let p = if bit == 1 { self.extract(a, e - 1, s) } else { self.konst(e - s, 0) };
                        acc = Some(match acc {
                            None => p,
                            Some(l) => self.concat(p, l),
                        });
                    }
                    return acc.unwrap();
                }
            }
            _ => {
                if a > b {
                    return self.and(b, a);
                }
                if w == 1 {
                    let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                    if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                        return self.konst(1, 0);
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return b;
                    }
                    if let (Some((p, q, n1)), Some((r, s, n2))) = (self.as_ult(a), self.as_ult(b)) {
                        if p == s && q == r {
                            match (n1, n2) {
                                (false, false) => return self.konst(1, 0),
                                (false, true) => return a,
                                (true, false) => return b,
                                (true, true) => return self.eq(p, q),
                            }
                        }
                    }
                    for (x, y) in [(a, b), (b, a)] {
                        // p < q and p != q; p <= q and p == q; p < q and p == q ...
                        if let Some((p, q, n1)) = self.as_ult(x) {
                            let (z, n2) = match self.n[y as usize].op {
                                Op::Not => (self.n[y as usize].a, true),
                                _ => (y, false),
                            };
                            let m = self.n[z as usize];
                            if m.op == Op::Eq && (m.a == p && m.b == q || m.a == q && m.b == p) {
                                match (n1, n2) {
                                    (false, true) => return x,
                                    (false, false) => return self.konst(1, 0),
                                    (true, false) => return y,
                                    (true, true) => return self.mk(Node { op: Op::Ult, w: 1, a: q, b: p, c: 0, k: 0 }),
                                }
                            }
                        }
                    }
                }
            }
        }
        self.mk(Node { op: Op::And, w: w as u16, a, b, c: 0, k: 0 })
    }

    /// flatten into (expr) segments, low first
    fn segs(&mut self, a: Id, out: &mut Vec<Id>, depth: u32) {
        let n = self.n[a as usize];
        match n.op {
            Op::Concat if depth < 40 => {
                self.segs(n.b, out, depth + 1);
                self.segs(n.a, out, depth + 1);
            }
            Op::ZExt => {
                self.segs(n.a, out, depth + 1);
                let z = self.konst(n.w as u32 - self.w(n.a), 0);
                out.push(z);
            }
            _ => out.push(a),
        }
    }

    fn is_splitty(&self, a: Id) -> bool {
        matches!(self.n[a as usize].op, Op::Concat | Op::ZExt | Op::Const)
    }

    /// a | b when no bit position is possibly set in both
    fn disjoint_or(&mut self, a: Id, b: Id) -> Option<Id> {
        if !self.is_splitty(a) && !self.is_splitty(b) {
            return None;
        }
        if !self.is_splitty(a) || !self.is_splitty(b) {
            return None;
        }
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa, 0);
        self.segs(b, &mut sb, 0);
        // constant segments: further split at zero runs is not attempted except whole zero
        let mut out: Vec<Id> = vec![];
        let (mut i, mut j) = (0, 0);
        let (mut ra, mut rb): (Option<Id>, Option<Id>) = (None, None);
        loop {
            if ra.is_none() {
                if i >= sa.len() {
                    break;
                }
                ra = Some(sa[i]);
                i += 1;
            }
            if rb.is_none() {
                rb = Some(sb[j]);
                j += 1;
            }
            let (x, y) = (ra.unwrap(), rb.unwrap());
            let (wx, wy) = (self.w(x), self.w(y));
            let m = wx.min(wy);
            let zx = self.cv(x) == Some(0);
            let zy = self.cv(y) == Some(0);
            let (xl, xr) = if wx > m { (self.extract(x, m - 1, 0), Some(self.extract(x, wx - 1, m))) } else { (x, None) };
            let (yl, yr) = if wy > m { (self.extract(y, m - 1, 0), Some(self.extract(y, wy - 1, m))) } else { (y, None) };
            let xz = zx || self.cv(xl) == Some(0);
            let yz = zy || self.cv(yl) == Some(0);
            if xz {
                out.push(yl);
            } else if yz {
                out.push(xl);
            } else if let (Some(p), Some(q)) = (self.cv(xl), self.cv(yl)) {
                if p & q != 0 {
                    return None;
                }
                let k = self.konst(m, p | q);
                out.push(k);
            } else {
                return None;
            }
            ra = xr;
            rb = yr;
        }
        let mut it = out.into_iter();
        let mut acc = it.next().unwrap();
        for x in it {
            acc = self.concat(x, acc);
        }
        Some(acc)
    }

    pub fn or(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.konst(w, x | y),
            (Some(_), None) => return self.or(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == mask(w) => return b,
            _ => {}
        }
        if let Some(r) = self.disjoint_or(a, b) {
            return r;
        }
        if self.cv(b).is_none() && a > b {
            return self.or(b, a);
        }
        if w == 1 {
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                return self.konst(1, 1);
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return a;
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return b;
            }
            let cmp = |s: &Self, x: Id| {
                let n = s.n[x as usize];
                let n = if n.op == Op::Not { s.n[n.a as usize] } else { n };
                matches!(n.op, Op::Ult | Op::Eq)
            };
            if cmp(self, a) && cmp(self, b) {
                // by De Morgan, through the rules of and()
                let (x, y) = (self.not(a), self.not(b));
                let r = self.and(x, y);
                let n = self.n[r as usize];
                if !(n.op == Op::And && (n.a == x && n.b == y || n.a == y && n.b == x)) {
                    return self.not(r);
                }
            }
        }
        self.mk(Node { op: Op::Or, w: w as u16, a, b, c: 0, k: 0 })
    }

    pub fn xor(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.konst(w, x ^ y),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(1)) if w == 1 => return self.not(a),
            (None, Some(y)) => {
                let n = self.n[a as usize];
                if n.op == Op::Xor {
                    if let Some(c) = self.cv(n.b) {
                        let k = self.konst(w, c ^ y);
                        return self.xor(n.a, k);
                    }
                }
            }
            _ => {
                if w == 1 {
                    let e = self.eq(a, b);
                    return self.not(e);
                }
                if a > b {
                    return self.xor(b, a);
                }
            }
        }
        if let Some(r) = self.disjoint_or(a, b) {
            return r;
        }
        self.mk(Node { op: Op::Xor, w: w as u16, a, b, c: 0, k: 0 })
    }

    pub fn bnot(&mut self, a: Id) -> Id {
        let w = self.w(a);
        if w == 1 {
            return self.not(a);
        }
        let m = self.konst(w, mask(w));
        self.xor(a, m)
    }

    pub fn shl(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.konst(w, 0);
            }
            let s = s as u32;
            let hi = self.extract(a, w - 1 - s, 0);
            let z = self.konst(s, 0);
            return self.concat(hi, z);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Node { op: Op::Shl, w: w as u16, a, b, c: 0, k: 0 })
    }

    pub fn lshr(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.konst(w, 0);
            }
            let s = s as u32;
            let e = self.extract(a, w - 1, s);
            return self.zext(e, w);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Node { op: Op::LShr, w: w as u16, a, b, c: 0, k: 0 })
    }

    pub fn ashr(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            let s = (s.min(w as u128 - 1)) as u32;
            if s == 0 {
                return a;
            }
            let e = self.extract(a, w - 1, s);
            return self.sext(e, w);
        }
        self.mk(Node { op: Op::AShr, w: w as u16, a, b, c: 0, k: 0 })
    }

    /// an if-then-else tree whose leaves are all constants
    fn const_tree(&self, a: Id, depth: u32) -> bool {
        let n = self.n[a as usize];
        match n.op {
            Op::Const => true,
            Op::Ite if depth > 0 => self.const_tree(n.b, depth - 1) && self.const_tree(n.c, depth - 1),
            _ => false,
        }
    }

    /// (x, y, negated) of a possibly negated x < y
    fn as_ult(&self, a: Id) -> Option<(Id, Id, bool)> {
        let n = self.n[a as usize];
        match n.op {
            Op::Ult => Some((n.a, n.b, false)),
            Op::Not => {
                let m = self.n[n.a as usize];
                if m.op == Op::Ult {
                    Some((m.a, m.b, true))
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let n = self.n[a as usize];
        if n.w as u32 == w {
            return a;
        }
        debug_assert!((n.w as u32) < w);
        match n.op {
            Op::Const => self.konst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.const_tree(a, 6) => {
                let p = self.zext(n.b, w);
                let q = self.zext(n.c, w);
                self.ite(n.a, p, q)
            }
            _ => self.mk(Node { op: Op::ZExt, w: w as u16, a, b: 0, c: 0, k: 0 }),
        }
    }

    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let n = self.n[a as usize];
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(w, sext(n.k, n.w as u32) as u128),
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            Op::Ite if self.const_tree(a, 6) => {
                let p = self.sext(n.b, w);
                let q = self.sext(n.c, w);
                self.ite(n.a, p, q)
            }
            _ if n.w == 1 => {
                let p = self.konst(w, mask(w));
                let q = self.konst(w, 0);
                self.ite(a, p, q)
            }
            _ => {
                let top = self.extract(a, n.w as u32 - 1, n.w as u32 - 1);
                if self.cv(top) == Some(0) {
                    return self.zext(a, w);
                }
                self.mk(Node { op: Op::SExt, w: w as u16, a, b: 0, c: 0, k: 0 })
            }
        }
    }

    pub fn trunc(&mut self, a: Id, w: u32) -> Id {
        if self.w(a) == w {
            return a;
        }
        self.extract(a, w - 1, 0)
    }

    pub fn extract(&mut self, a: Id, hi: u32, lo: u32) -> Id {
        let n = self.n[a as usize];
        let w = hi - lo + 1;
        if w == n.w as u32 {
            return a;
        }
        debug_assert!(hi < n.w as u32);
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, hi + n.c, lo + n.c),
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                let h = self.extract(n.a, hi - lw, 0);
                let l = self.extract(n.b, lw - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo >= iw {
                    return self.konst(w, 0);
                }
                let l = self.extract(n.a, iw - 1, lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo < iw {
                    let l = self.extract(n.a, iw - 1, lo);
                    return self.sext(l, w);
                }
                let l = self.extract(n.a, iw - 1, iw - 1);
                return self.sext(l, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return if n.op == Op::Add { self.add(x, y) } else { self.mul(x, y) };
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() || w == 1 {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        let (_, mx) = self.range(a);
        if lo > 0 && mx >> lo == 0 {
            return self.konst(w, 0);
        }
        self.mk(Node { op: Op::Extract, w: w as u16, a, b: 0, c: lo, k: 0 })
    }

    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w as u32 + nb.w as u32;
        if na.op == Op::Const {
            if nb.op == Op::Const {
                return self.konst(w, (na.k << nb.w) | nb.k);
            }
            if na.k == 0 {
                return self.zext(b, w);
            }
            if nb.op == Op::Concat {
                if let Some(k2) = self.cv(nb.a) {
                    let w2 = self.w(nb.a);
                    let k = self.konst(na.w as u32 + w2, (na.k << w2) | k2);
                    return self.concat(k, nb.b);
                }
            }
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                let zw = nb.w as u32 - iw;
                let k = self.konst(na.w as u32 + zw, na.k << zw);
                return self.concat(k, nb.a);
            }
        }
        if na.op == Op::Concat {
            let t = self.concat(na.b, b);
            return self.concat(na.a, t);
        }
        if na.op == Op::ZExt {
            let t = self.concat(na.a, b);
            return self.zext(t, w);
        }
        if let Some(m) = self.merge_ext(a, b) {
            return m;
        }
        if nb.op == Op::Concat {
            if let Some(m) = self.merge_ext(a, nb.a) {
                return self.concat(m, nb.b);
            }
        }
        self.mk(Node { op: Op::Concat, w: w as u16, a, b, c: 0, k: 0 })
    }

    fn merge_ext(&mut self, a: Id, b: Id) -> Option<Id> {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && nb.c + nb.w as u32 == na.c {
            return Some(self.extract(na.a, na.c + na.w as u32 - 1, nb.c));
        }
        // ite(c,x1,y1) ++ ite(c,x2,y2) with constants
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let all = [na.b, na.c, nb.b, nb.c].iter().all(|i| self.cv(*i).is_some());
            if all {
                let x = self.concat(na.b, nb.b);
                let y = self.concat(na.c, nb.c);
                return Some(self.ite(na.a, x, y));
            }
        }
        None
    }

    pub fn not(&mut self, a: Id) -> Id {
        let n = self.n[a as usize];
        debug_assert_eq!(n.w, 1);
        match n.op {
            Op::Const => self.konst(1, 1 ^ n.k),
            Op::Not => n.a,
            _ => self.mk(Node { op: Op::Not, w: 1, a, b: 0, c: 0, k: 0 }),
        }
    }

    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.t();
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        debug_assert_eq!(na.w, nb.w);
        let w = na.w as u32;
        if na.op == Op::Const {
            if nb.op == Op::Const {
                return self.konst(1, (na.k == nb.k) as u128);
            }
            return self.eq(b, a);
        }
        if nb.op == Op::Const {
            let k = nb.k;
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            let (lo, hi) = self.range(a);
            if k < lo || k > hi {
                return self.f();
            }
            match na.op {
                Op::ZExt => {
                    let kk = self.konst(self.w(na.a), k);
                    return self.eq(na.a, kk);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    if sext(k & mask(iw), iw) as u128 & mask(w) == k {
                        let kk = self.konst(iw, k);
                        return self.eq(na.a, kk);
                    }
                    return self.f();
                }
                Op::Concat => {
                    let lw = self.w(na.b);
                    let kh = self.konst(w - lw, k >> lw);
                    let kl = self.konst(lw, k);
                    let x = self.eq(na.a, kh);
                    if self.cv(x) == Some(0) {
                        return x;
                    }
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                Op::Add => {
                    if let Some(c) = self.cv(na.b) {
                        let kk = self.konst(w, k.wrapping_sub(c));
                        return self.eq(na.a, kk);
                    }
                }
                Op::Xor => {
                    if let Some(c) = self.cv(na.b) {
                        let kk = self.konst(w, k ^ c);
                        return self.eq(na.a, kk);
                    }
                }
                Op::Mul => {
                    if let Some(c) = self.cv(na.b) {
                        if c == mask(w) {
                            let kk = self.konst(w, k.wrapping_neg());
                            return self.eq(na.a, kk);
                        }
                    }
                }
                Op::Ite => {
                    let x = self.cv(na.b);
                    let y = self.cv(na.c);
                    if x.is_some() || y.is_some() {
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                _ => {}
            }
        } else {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (x, y) = (self.w(na.a), self.w(nb.a));
                if x == y {
                    return self.eq(na.a, nb.a);
                }
                if x < y {
                    let z = self.zext(na.a, y);
                    return self.eq(z, nb.a);
                }
                let z = self.zext(nb.a, x);
                return self.eq(na.a, z);
            }
            if (na.op == Op::Concat || na.op == Op::ZExt) && (nb.op == Op::Concat || nb.op == Op::ZExt) {
                // split at the low segment boundary of whichever is smaller
                let la = if na.op == Op::Concat { self.w(na.b) } else { self.w(na.a) };
                let lb = if nb.op == Op::Concat { self.w(nb.b) } else { self.w(nb.a) };
                if la == lb || (na.op == Op::Concat && nb.op == Op::Concat) {
                    let m = la.min(lb);
                    let (al, ah) = (self.extract(a, m - 1, 0), self.extract(a, w - 1, m));
                    let (bl, bh) = (self.extract(b, m - 1, 0), self.extract(b, w - 1, m));
                    let x = self.eq(ah, bh);
                    if self.cv(x) == Some(0) {
                        return x;
                    }
                    let y = self.eq(al, bl);
                    return self.and(x, y);
                }
            }
            // x + c1 == x + c2 etc.
            if na.op == Op::Add && nb.op == Op::Add {
                if na.b == nb.b {
                    return self.eq(na.a, nb.a);
                }
                if na.a == nb.a {
                    return self.eq(na.b, nb.b);
                }
            }
            if na.op == Op::Add && na.a == b {
                let z = self.konst(w, 0);
                return self.eq(na.b, z);
            }
            if nb.op == Op::Add && nb.a == a {
                let z = self.konst(w, 0);
                return self.eq(nb.b, z);
            }
            let ra = self.range(a);
            let rb = self.range(b);
            if ra.1 < rb.0 || rb.1 < ra.0 {
                return self.f();
            }
            if w == 1 {
                if na.op == Op::Not && nb.op == Op::Not {
                    return self.eq(na.a, nb.a);
                }
                if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                    return self.f();
                }
            }
            if a > b {
                return self.mk(Node { op: Op::Eq, w: 1, a: b, b: a, c: 0, k: 0 });
            }
        }
        self.mk(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 })
    }

    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.f();
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        debug_assert_eq!(na.w, nb.w);
        let w = na.w as u32;
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl {
            return self.t();
        }
        if al >= bh {
            return self.f();
        }
        if let Some(k) = self.cv(b) {
            if k == 1 {
                let z = self.konst(w, 0);
                return self.eq(a, z);
            }
            if k == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
            if na.op == Op::ZExt {
                let kk = self.konst(self.w(na.a), k);
                return self.ult(na.a, kk);
            }
            if na.op == Op::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
                let x = self.ult(na.b, b);
                let y = self.ult(na.c, b);
                return self.ite(na.a, x, y);
            }
            if na.op == Op::Concat {
                // compare high part when low part of k is zero
                let lw = self.w(na.b);
                if k & mask(lw) == 0 {
                    let kk = self.konst(w - lw, k >> lw);
                    return self.ult(na.a, kk);
                }
            }
        }
        if let Some(k) = self.cv(a) {
            if k == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if k == mask(w) - 1 {
                let kk = self.konst(w, mask(w));
                return self.eq(b, kk);
            }
            if nb.op == Op::ZExt {
                let kk = self.konst(self.w(nb.a), k);
                return self.ult(kk, nb.a);
            }
            if nb.op == Op::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
                let x = self.ult(a, nb.b);
                let y = self.ult(a, nb.c);
                return self.ite(nb.a, x, y);
            }
            if nb.op == Op::Concat {
                let lw = self.w(nb.b);
                if k & mask(lw) == mask(lw) {
                    let kk = self.konst(w - lw, k >> lw);
                    return self.ult(kk, nb.a);
                }
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            let x = self.zext(na.a, m);
            let y = self.zext(nb.a, m);
            return self.ult(x, y);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            if na.a == nb.a {
                return self.ult(na.b, nb.b);
            }
            if na.b == nb.b {
                return self.ult(na.a, nb.a);
            }
        }
        if self.clearly_ge(a, b, w) {
            return self.f();
        }
        self.mk(Node { op: Op::Ult, w: 1, a, b, c: 0, k: 0 })
    }

    pub fn ule(&mut self, a: Id, b: Id) -> Id {
        let x = self.ult(b, a);
        self.not(x)
    }

    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst(1, (sext(x, w) < sext(y, w)) as u128);
        }
        if w == 1 {
            // signed 1-bit: 1 is -1
            let nb = self.not(b);
            return self.and(a, nb);
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, w - 1);
        }
        if self.cv(a) == Some(mask(w)) {
            let t = self.extract(b, w - 1, w - 1);
            return self.not(t);
        }
        let half = 1u128 << (w - 1);
        let (_, ah) = self.range(a);
        let (_, bh) = self.range(b);
        if ah < half && bh < half {
            return self.ult(a, b);
        }
        let na = self.n[a as usize];
        if na.op == Op::Ite && self.cv(b).is_some() && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
            let x = self.slt(na.b, b);
            let y = self.slt(na.c, b);
            return self.ite(na.a, x, y);
        }
        let nb = self.n[b as usize];
        if nb.op == Op::Ite && self.cv(a).is_some() && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
            let x = self.slt(a, nb.b);
            let y = self.slt(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.mk(Node { op: Op::Slt, w: 1, a, b, c: 0, k: 0 })
    }

    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.cv(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n[c as usize];
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            let o = self.or(c, nb.a);
            return self.ite(o, a, nb.c);
        }
        // ite(x == k, k, x) = x
        if nc.op == Op::Eq && nc.a == b && nc.b == a {
            return b;
        }
        if nc.op == Op::Eq && nc.b == b && nc.a == a {
            return b;
        }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }

    // ---- evaluation ---------------------------------------------------

    pub fn eval(&mut self, i: Id, m: &Model) -> u128 {
        {
            let n = &self.n[i as usize];
            match n.op {
                Op::Const => return n.k,
                Op::Var => return m.get(n.k as u32),
                _ => {}
            }
            let (g, v) = self.memo[i as usize];
            if g == m.gen {
                return v;
            }
        }
        let n = self.n[i as usize];
        let w = n.w as u32;
        let v = match n.op {
            Op::Ite => {
                if self.eval(n.a, m) == 1 {
                    self.eval(n.b, m)
                } else {
                    self.eval(n.c, m)
                }
            }
            Op::And if w == 1 => {
                if self.eval(n.a, m) == 0 {
                    0
                } else {
                    self.eval(n.b, m)
                }
            }
            _ => {
                let a = self.eval(n.a, m);
                let b = if n.b != 0 { self.eval(n.b, m) } else { 0 };
                let wa = self.w(n.a);
                apply(n.op, w, wa, n.c, a, b, if n.b != 0 { self.w(n.b) } else { 0 })
            }
        };
        self.memo[i as usize] = (m.gen, v);
        v
    }

    /// evaluate with a single variable overridden (no memo on the arena), small DAGs
    pub fn eval1(&self, i: Id, var: u32, val: u128, cache: &mut HashMap<Id, u128, FxB>) -> u128 {
        let n = self.n[i as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => {
                debug_assert_eq!(n.k as u32, var);
                return val;
            }
            _ => {}
        }
        if let Some(v) = cache.get(&i) {
            return *v;
        }
        let w = n.w as u32;
        let v = match n.op {
            Op::Ite => {
                if self.eval1(n.a, var, val, cache) == 1 {
                    self.eval1(n.b, var, val, cache)
                } else {
                    self.eval1(n.c, var, val, cache)
                }
            }
            _ => {
                let a = self.eval1(n.a, var, val, cache);
                let b = if n.b != 0 { self.eval1(n.b, var, val, cache) } else { 0 };
                apply(n.op, w, self.w(n.a), n.c, a, b, if n.b != 0 { self.w(n.b) } else { 0 })
            }
        };
        cache.insert(i, v);
        v
    }

    pub fn show(&self, i: Id, depth: u32) -> String {
        let n = &self.n[i as usize];
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}:{}", n.k, n.w),
            _ if depth == 0 => "..".into(),
            _ => {
                let mut s = format!("({:?}", n.op);
                if n.op == Op::Extract {
                    s += &format!("[{}:{}]", n.c + n.w as u32 - 1, n.c);
                }
                for x in [n.a, n.b] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, depth - 1);
                    }
                }
                if n.op == Op::Ite {
                    s += " ";
                    s += &self.show(n.c, depth - 1);
                }
                s + ")"
            }
        }
    }
}

pub fn apply(op: Op, w: u32, wa: u32, c: u32, a: u128, b: u128, wb: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            (if y == 0 { if x < 0 { 1 } else { -1 } } else { x.wrapping_div(y) }) as u128 & m
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            (if y == 0 { x } else { x.wrapping_rem(y) }) as u128 & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => (sext(a, w) >> (b.min(w as u128 - 1))) as u128 & m,
        Op::ZExt => a,
        Op::SExt => sext(a, wa) as u128 & m,
        Op::Extract => (a >> c) & m,
        Op::Concat => (a << wb) | b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, wa) < sext(b, wa)) as u128,
        Op::Not => 1 ^ a,
        Op::Const | Op::Var | Op::Ite => unreachable!(),
    }
}

//! A quick, sound refutation procedure for conjunctions of unsigned comparisons
//! and equalities: transitive closure over the terms compared, with
//! lexicographic propagation through concatenations and unit propagation of
//! disjunctions. Says "unsatisfiable" or nothing; whatever it does not refute
//! goes to Z3. (SYMIR_XCHECK=1 sends its refutations to Z3 as well.)
use crate::expr::*;
use std::collections::HashMap;

const N: usize = 48;

struct G<'a> {
    ar: &'a Arena,
    ix: HashMap<Id, usize, FxB>,
    ids: Vec<Id>,
    atoms: Vec<Vec<usize>>, // flattened concatenation, high to low (empty: not a concat)
    le: Vec<[u8; N]>,       // 0 unknown, 1 <=, 2 <
    ne: Vec<(usize, usize)>,
    ors: Vec<Id>,
    bools: HashMap<Id, bool, FxB>,
    bad: bool,
    full: bool,
}

impl<'a> G<'a> {
    fn strip(&self, mut t: Id) -> Id {
        while self.ar.n[t as usize].op == Op::ZExt {
            t = self.ar.n[t as usize].a;
        }
        t
    }
    fn flat(&self, t: Id, out: &mut Vec<Id>) {
        let n = self.ar.n[t as usize];
        if n.op == Op::Concat {
            self.flat(n.a, out);
            self.flat(n.b, out);
        } else {
            out.push(t);
        }
    }
    fn term(&mut self, t: Id) -> Option<usize> {
        let t = self.strip(t);
        if let Some(i) = self.ix.get(&t) {
            return Some(*i);
        }
        if self.ids.len() >= N {
            self.full = true;
            return None;
        }
        let i = self.ids.len();
        self.ids.push(t);
        self.ix.insert(t, i);
        self.le.push([0; N]);
        self.le[i][i] = 1;
        self.atoms.push(vec![]);
        let n = self.ar.n[t as usize];
        if n.op == Op::Concat {
            let mut f = vec![];
            self.flat(t, &mut f);
            let mut a = vec![];
            for x in f {
                match self.term(x) {
                    Some(k) => a.push(k),
                    None => return Some(i),
                }
            }
            self.atoms[i] = a;
        }
        Some(i)
    }
    fn edge(&mut self, a: usize, b: usize, s: u8) {
        if self.le[a][b] < s {
            self.le[a][b] = s;
        }
    }
    fn add(&mut self, c: Id, pos: bool) {
        if let Some(v) = self.bools.get(&c) {
            if *v != pos {
                self.bad = true;
            }
            return;
        }
        let n = self.ar.n[c as usize];
        match n.op {
            Op::Not => return self.add(n.a, !pos),
            Op::And if n.w == 1 => {
                if pos {
                    self.add(n.a, true);
                    self.add(n.b, true);
                    return;
                }
                self.ors.push(c);
            }
            Op::Or if n.w == 1 => {
                if !pos {
                    self.add(n.a, false);
                    self.add(n.b, false);
                    return;
                }
                self.ors.push(c);
            }
            Op::Const => {
                if (n.k == 1) != pos {
                    self.bad = true;
                }
                return;
            }
            Op::Ult => {
                if let (Some(a), Some(b)) = (self.term(n.a), self.term(n.b)) {
                    if pos {
                        self.edge(a, b, 2);
                    } else {
                        self.edge(b, a, 1);
                    }
                }
            }
            Op::Eq if self.ar.w(n.a) > 1 => {
                if let (Some(a), Some(b)) = (self.term(n.a), self.term(n.b)) {
                    if pos {
                        self.edge(a, b, 1);
                        self.edge(b, a, 1);
                    } else {
                        self.ne.push((a, b));
                    }
                }
            }
            _ => {}
        }
        self.bools.insert(c, pos);
    }
    /// what the closure says about a comparison: Some(truth) or None
    fn status(&self, c: Id) -> Option<bool> {
        if let Some(v) = self.bools.get(&c) {
            return Some(*v);
        }
        let n = self.ar.n[c as usize];
        match n.op {
            Op::Not => self.status(n.a).map(|x| !x),
            Op::And if n.w == 1 => match (self.status(n.a), self.status(n.b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or if n.w == 1 => match (self.status(n.a), self.status(n.b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Op::Ult => {
                let (a, b) = (*self.ix.get(&self.strip(n.a))?, *self.ix.get(&self.strip(n.b))?);
                if self.le[a][b] == 2 {
                    Some(true)
                } else if self.le[b][a] >= 1 {
                    Some(false)
                } else {
                    None
                }
            }
            Op::Eq if self.ar.w(n.a) > 1 => {
                let (a, b) = (*self.ix.get(&self.strip(n.a))?, *self.ix.get(&self.strip(n.b))?);
                if self.le[a][b] == 2 || self.le[b][a] == 2 {
                    Some(false)
                } else if self.le[a][b] == 1 && self.le[b][a] == 1 {
                    Some(true)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn close(&mut self) {
        let n = self.ids.len();
        for k in 0..n {
            for i in 0..n {
                let a = self.le[i][k];
                if a == 0 {
                    continue;
                }
                for j in 0..n {
                    let b = self.le[k][j];
                    if b != 0 {
                        let s = a.max(b);
                        if self.le[i][j] < s {
                            self.le[i][j] = s;
                        }
                    }
                }
            }
        }
        for i in 0..n {
            if self.le[i][i] == 2 {
                self.bad = true;
                return;
            }
        }
    }
    fn lex(&mut self) -> bool {
        let n = self.ids.len();
        let mut ch = false;
        for i in 0..n {
            if self.atoms[i].is_empty() {
                continue;
            }
            for j in 0..n {
                if i == j || self.atoms[j].len() != self.atoms[i].len() {
                    continue;
                }
                let m = self.atoms[i].len();
                if (0..m).any(|k| self.ar.w(self.ids[self.atoms[i][k]]) != self.ar.w(self.ids[self.atoms[j][k]])) {
                    continue;
                }
                let mut k = 0;
                while k < m {
                    let (x, y) = (self.atoms[i][k], self.atoms[j][k]);
                    if x == y || (self.le[x][y] == 1 && self.le[y][x] == 1) {
                        k += 1;
                    } else {
                        break;
                    }
                }
                if k == m {
                    if self.le[i][j] < 1 {
                        self.le[i][j] = 1;
                        ch = true;
                    }
                    continue;
                }
                let (x, y) = (self.atoms[i][k], self.atoms[j][k]);
                if self.le[x][y] == 2 && self.le[i][j] < 2 {
                    self.le[i][j] = 2;
                    ch = true;
                }
                if k == m - 1 && self.le[x][y] > self.le[i][j] {
                    self.le[i][j] = self.le[x][y];
                    ch = true;
                }
                if self.le[i][j] >= 1 {
                    let s = if k == m - 1 { self.le[i][j] } else { 1 };
                    if self.le[x][y] < s {
                        self.le[x][y] = s;
                        ch = true;
                    }
                }
            }
        }
        ch
    }
}

pub fn refutes(ar: &Arena, cons: &[Id]) -> bool {
    let mut g = G {
        ar,
        ix: HashMap::default(),
        ids: vec![],
        atoms: vec![],
        le: vec![],
        ne: vec![],
        ors: vec![],
        bools: HashMap::default(),
        bad: false,
        full: false,
    };
    for c in cons {
        g.add(*c, true);
    }
    let mut consts_done = 0;
    for _ in 0..12 {
        if g.bad {
            return true;
        }
        // order of the constants, and their byte decomposition is left to Z3
        let n = g.ids.len();
        if consts_done < n {
            for i in 0..n {
                for j in 0..n {
                    if let (Some(a), Some(b)) = (ar.cv(g.ids[i]), ar.cv(g.ids[j])) {
                        if a < b {
                            g.edge(i, j, 2);
                        } else if a == b {
                            g.edge(i, j, 1);
                        }
                    }
                }
            }
            consts_done = n;
        }
        g.close();
        if g.bad {
            return true;
        }
        let mut ch = g.lex();
        let ne = std::mem::take(&mut g.ne);
        for (a, b) in &ne {
            let (x, y) = (g.le[*a][*b], g.le[*b][*a]);
            if a == b || (x >= 1 && y >= 1) {
                return true;
            }
            if x == 1 {
                g.le[*a][*b] = 2;
                ch = true;
            }
            if y == 1 {
                g.le[*b][*a] = 2;
                ch = true;
            }
        }
        g.ne.extend(ne);
        let ors = std::mem::take(&mut g.ors);
        let mut keep = vec![];
        for c in ors {
            // an Or that is true, or an And that is false
            let nd = ar.n[c as usize];
            let isor = nd.op == Op::Or;
            let (sa, sb) = (g.status(nd.a), g.status(nd.b));
            let (da, db) = (sa == Some(!isor), sb == Some(!isor)); // this side cannot be the reason
            if da && db {
                return true;
            } else if sa == Some(isor) || sb == Some(isor) {
                // satisfied
            } else if da {
                g.add(nd.b, isor);
                ch = true;
            } else if db {
                g.add(nd.a, isor);
                ch = true;
            } else {
                keep.push(c);
            }
        }
        g.ors.extend(keep);
        if !ch {
            break;
        }
    }
    g.bad
}

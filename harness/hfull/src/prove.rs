//! Proofs the database makes are accepted and say what is in it.
use grovedb::{reference_path::ReferencePathType, query_result_type::{QueryResultElement, QueryResultType}, Element, GroveDb, PathQuery, Query, SizedQuery};
use grovedb_query::{QueryItem, SubqueryBranch};
use grovedb_version::version::{GroveVersion, GROVE_VERSIONS};
use std::ops::{RangeFrom, RangeFull, RangeInclusive, RangeTo};
use symapi::*;

use crate::model::*;
use crate::ops::{fresh, small, v};

type Shown = (Vec<Vec<u8>>, Vec<u8>, Option<Element>);

#[derive(Clone, Copy)]
enum Ask<'a> {
    /// the first of these keys, and below it the rest and the query
    Path(&'a [Vec<u8>], Option<&'a Query>),
    Q(&'a Query),
}
fn within(i: &QueryItem, k: &[u8]) -> bool {
    match i {
        QueryItem::Key(x) => x.as_slice() == k,
        QueryItem::RangeFull(_) => true,
        QueryItem::Range(r) => r.start.as_slice() <= k && k < r.end.as_slice(),
        QueryItem::RangeInclusive(r) => r.start().as_slice() <= k && k <= r.end().as_slice(),
        QueryItem::RangeFrom(r) => r.start.as_slice() <= k,
        QueryItem::RangeTo(r) => k < r.end.as_slice(),
        QueryItem::RangeToInclusive(r) => k <= r.end.as_slice(),
        QueryItem::RangeAfter(r) => r.start.as_slice() < k,
        QueryItem::RangeAfterTo(r) => r.start.as_slice() < k && k < r.end.as_slice(),
        QueryItem::RangeAfterToInclusive(r) => r.start().as_slice() < k && k <= r.end().as_slice(),
    }
}
fn below<'a>(b: &'a SubqueryBranch) -> Option<Ask<'a>> {
    match (&b.subquery_path, &b.subquery) {
        (Some(p), q) if !p.is_empty() => Some(Ask::Path(p, q.as_deref())),
        (_, Some(q)) => Some(Ask::Q(q)),
        _ => None,
    }
}
/// what an entry is shown as: references are followed
fn target<'a>(root: &'a Node, m: &'a M) -> &'a M {
    match m {
        M::El(Element::Reference(ReferencePathType::AbsolutePathReference(p), ..)) => {
            let mut n = root;
            for s in &p[..p.len() - 1] {
                match n.get(s) {
                    Some(M::Tree(t, _)) => n = t,
                    _ => return m,
                }
            }
            n.get(&p[p.len() - 1]).map_or(m, |x| target(root, x))
        }
        _ => m,
    }
}
pub struct Eval<'a> {
    pub root: &'a Node,
    pub limit: Option<u16>,
    /// what a query of the database itself gives
    pub direct: bool,
    /// a path leads nowhere
    pub broken: bool,
    pub out: Vec<Shown>,
}
impl Eval<'_> {
    fn dec(&mut self) {
        if let Some(l) = &mut self.limit {
            *l = l.saturating_sub(1);
        }
    }
    fn go(&mut self, ask: Ask, n: &Node, path: &[Vec<u8>]) {
        let mut want: Vec<&(Vec<u8>, M)> = n
            .e
            .iter()
            .filter(|(k, _)| match ask {
                Ask::Path(p, _) => p[0] == *k,
                Ask::Q(q) => q.items.iter().any(|i| within(i, k)),
            })
            .collect();
        if matches!(ask, Ask::Q(q) if !q.left_to_right) {
            want.reverse();
        }
        if let Some(l) = self.limit {
            want.truncate(l as usize);
        }
        if let Ask::Path(p, q) = ask {
            self.broken |= (p.len() > 1 || q.is_some()) && !want.iter().any(|w| matches!(w.1, M::Tree(..) | M::App(..)));
        }
        if want.is_empty() {
            return self.dec();
        }
        for (k, m) in want {
            let next = match ask {
                Ask::Path(p, q) => {
                    if p.len() > 1 {
                        Some(Ask::Path(&p[1..], q))
                    } else {
                        q.map(Ask::Q)
                    }
                }
                Ask::Q(q) => {
                    let c = q.conditional_subquery_branches.as_ref().and_then(|c| c.iter().find(|(i, _)| within(i, k)));
                    below(c.map_or(&q.default_subquery_branch, |c| c.1))
                }
            };
            match (m, next) {
                (M::Tree(t, _), Some(a)) if !t.e.is_empty() => {
                    let mut p = path.to_vec();
                    p.push(k.clone());
                    if matches!(ask, Ask::Q(q) if q.add_parent_tree_on_subquery) {
                        self.out.push((p.clone(), k.clone(), Some(m.shown())));
                    }
                    self.go(a, t, &p);
                }
                // an empty tree uses up the limit
                (M::Tree(..) | M::App(..), Some(_)) => self.dec(),
                (M::Tree(t, _), None) if t.kind == NORMAL && t.e.is_empty() && !self.direct => self.dec(),
                // a path that leads through something that is not a tree: a proof shows that, a query gives nothing
                (M::El(_), Some(_)) if self.direct && matches!(ask, Ask::Path(..)) => {}
                _ => {
                    self.out.push((path.to_vec(), k.clone(), Some(target(self.root, m).shown())));
                    self.dec();
                }
            }
            if self.limit == Some(0) {
                break;
            }
        }
    }
}
pub fn eval<'a>(root: &'a Node, pq: &PathQuery, direct: bool) -> Eval<'a> {
    let mut e = Eval { root, limit: pq.query.limit, direct, broken: false, out: vec![] };
    if pq.path.is_empty() {
        e.go(Ask::Q(&pq.query.query), root, &[]);
    } else {
        e.go(Ask::Path(&pq.path, Some(&pq.query.query)), root, &[]);
    }
    e
}

pub fn put(db: &GroveDb, m: &mut Node, path: &[Vec<u8>], k: &[u8], e: Element, n: M) {
    db.insert(slices(path).as_slice(), k, e, None, None, v()).unwrap().unwrap();
    m.find(path).unwrap().put(k, n);
}
pub fn put_el(db: &GroveDb, m: &mut Node, path: &[Vec<u8>], k: &[u8], e: Element) {
    put(db, m, path, k, e.clone(), M::El(e));
}
pub fn put_tree(db: &GroveDb, m: &mut Node, path: &[Vec<u8>], k: &[u8], kind: u8) -> Vec<Vec<u8>> {
    let (e, t) = empty(kind, None);
    put(db, m, path, k, e, t);
    let mut p = path.to_vec();
    p.push(k.to_vec());
    p
}
fn a() -> Vec<Vec<u8>> {
    vec![b"a".to_vec()]
}
/// an entry of the tree "a" by its code
pub fn entry(db: &GroveDb, m: &mut Node, k: &[u8], code: usize, sums: bool) {
    match code {
        0 => put_el(db, m, &a(), k, Element::Item(bytes::<1>().to_vec(), None)),
        1 if sums => put_el(db, m, &a(), k, Element::SumItem(small(), None)),
        1 => put_el(db, m, &a(), k, Element::Item(vec![], Some(bytes::<1>().to_vec()))),
        2 => {
            put_tree(db, m, &a(), k, NORMAL);
        }
        3 => {
            let p = put_tree(db, m, &a(), k, NORMAL);
            put_el(db, m, &p, &bytes::<1>(), Element::Item(bytes::<1>().to_vec(), None));
        }
        4 => put_el(db, m, &a(), k, Element::Reference(ReferencePathType::AbsolutePathReference(vec![b"r".to_vec()]), None, None)),
        5 => {
            let p = put_tree(db, m, &a(), k, PCOUNTSUM);
            put_el(db, m, &p, b"s", Element::SumItem(small(), None));
            put_el(db, m, &p, b"t", Element::Item(bytes::<1>().to_vec(), None));
        }
        6 => {
            put_tree(db, m, &a(), k, SUM);
        }
        7 => {
            let p = put_tree(db, m, &a(), k, COUNT);
            let p = put_tree(db, m, &p, b"s", NORMAL);
            put_el(db, m, &p, b"u", Element::Item(bytes::<1>().to_vec(), None));
        }
        _ => put_el(db, m, &a(), k, Element::Reference(ReferencePathType::AbsolutePathReference(vec![b"q".to_vec()]), None, Some(vec![1]))),
    }
}
fn all() -> Query {
    Query { items: vec![QueryItem::RangeFull(RangeFull)], left_to_right: true, ..Default::default() }
}
fn of(items: Vec<QueryItem>) -> Query {
    Query { items, left_to_right: true, ..Default::default() }
}
fn sub(mut q: Query, path: Option<Vec<Vec<u8>>>, s: Option<Query>) -> Query {
    q.default_subquery_branch = SubqueryBranch { subquery_path: path, subquery: s.map(Box::new) };
    q
}
pub fn queries(shape: usize, keys: &[Vec<u8>]) -> (Vec<Vec<u8>>, Query) {
    let k = || vec![symapi::u8()];
    let s = || Some(vec![b"s".to_vec()]);
    let (mut q, path) = match shape % 16 {
        0 => (all(), a()),
        1 => {
            let (x, y) = (k(), k());
            assume(x <= y);
            (of(vec![QueryItem::RangeInclusive(RangeInclusive::new(x, y))]), a())
        }
        2 => (of(vec![QueryItem::Key(k())]), a()),
        3 => (sub(all(), None, Some(all())), a()),
        4 => (sub(all(), s(), None), a()),
        5 => (sub(of(vec![QueryItem::Key(keys[0].clone()), QueryItem::Key(keys[keys.len() - 1].clone())]), s(), Some(all())), a()),
        6 => {
            let (x, y) = (k(), k());
            assume(x < y);
            (of(vec![QueryItem::Key(x), QueryItem::Key(y)]), a())
        }
        7 => (sub(of(vec![QueryItem::RangeAfter(RangeFrom { start: k() })]), None, Some(all())), a()),
        8 => {
            let mut q = sub(all(), None, Some(all()));
            q.add_parent_tree_on_subquery = true;
            (q, a())
        }
        9 => (sub(of(vec![QueryItem::Key(b"a".to_vec())]), None, Some(sub(all(), None, Some(all())))), vec![]),
        10 => {
            let mut q = sub(all(), None, Some(all()));
            q.conditional_subquery_branches = Some([(QueryItem::Key(keys[0].clone()), SubqueryBranch { subquery_path: s(), subquery: None })].into_iter().collect());
            (q, a())
        }
        11 => (all(), vec![]),
        12 => (sub(of(vec![QueryItem::RangeTo(RangeTo { end: k() })]), None, Some(of(vec![QueryItem::Key(b"s".to_vec())]))), a()),
        13 => (all(), vec![b"a".to_vec(), keys[0].clone()]),
        14 => (all(), vec![b"a".to_vec(), b"none".to_vec()]),
        _ => (sub(all(), Some(vec![b"s".to_vec(), b"u".to_vec()]), None), a()),
    };
    if shape >= 16 {
        q.left_to_right = false;
        if let Some(s) = &mut q.default_subquery_branch.subquery {
            s.left_to_right = false;
        }
    }
    (path, q)
}
fn flat(got: &[Shown]) -> Vec<Shown> {
    got.iter().map(|(p, k, e)| (p.clone(), k.clone(), e.as_ref().map(|e| bare(e).0))).collect()
}
/// cfg: kind of the tree "a" + 10 * contents (three codes, base 10, 9: nothing) + 10000 * query (32) + 1000000 * limit (0..3)
///   + 10000000 * (version 0 of proofs)
pub fn honest(cfg: u64) {
    let c = cfg as usize;
    let (kind, content, shape, lim, old) = (c % 10, c / 10 % 1000, c / 10000 % 100, c / 1000000 % 10, c / 10000000 % 10);
    crate::ops::PLAIN.set(kind == BIG as usize);
    let version: &GroveVersion = if old == 1 { &GROVE_VERSIONS[1] } else { v() };
    let db = fresh();
    let mut m = Node::new(NORMAL);
    put_tree(&db, &mut m, &[], b"a", kind as u8);
    // keys in order; "q" refers to "r"
    put_el(&db, &mut m, &[], b"r", Element::Item(bytes::<1>().to_vec(), None));
    put_el(&db, &mut m, &[], b"q", Element::Reference(ReferencePathType::AbsolutePathReference(vec![b"r".to_vec()]), None, None));
    let codes: Vec<usize> = [content / 100, content / 10 % 10, content % 10].into_iter().filter(|c| *c != 9).collect();
    let keys: Vec<Vec<u8>> = (0..codes.len()).map(|i| vec![[0u8, 7, 255][i]]).collect();
    // inserted with the middle one first
    for i in [1, 0, 2] {
        if let Some(code) = codes.get(i) {
            entry(&db, &mut m, &keys[i], *code, summing(kind as u8));
        }
    }
    let (path, q) = queries(shape, &keys);
    let pq = PathQuery::new(path, SizedQuery::new(q, (lim > 0).then_some(lim as u16), None));
    let proof = match db.prove_query(&pq, None, version).unwrap() {
        Ok(p) => p,
        Err(_e) => {
            #[cfg(feature = "native")]
            eprintln!("{_e}");
            // a path that leads through something that is not a tree
            check(false, "a proof is made");
            return;
        }
    };
    let want = eval(&m, &pq, false).out;
    match GroveDb::verify_query(&proof, &pq, version) {
        Err(_e) => {
            #[cfg(feature = "native")]
            eprintln!("{_e}");
            check(false, "a proof the database makes is accepted");
        }
        Ok((root, got)) => {
            check(root == db.root_hash(None, version).unwrap().unwrap(), "a proof gives the root hash");
            check(flat(&got) == want, "a proof shows what the query selects");
            reach("proved");
        }
    }
    match GroveDb::verify_subset_query(&proof, &pq, version) {
        Err(_) => check(false, "a proof the database makes is accepted as a subset"),
        Ok((_, got)) => check(flat(&got) == want, "a proof shows the subset"),
    }
    // the database answers the same itself
    let r = db.query(&pq, true, true, false, QueryResultType::QueryPathKeyElementTrioResultType, None, version).unwrap();
    let raw = db.query_raw(&pq, true, true, false, QueryResultType::QueryPathKeyElementTrioResultType, None, version).unwrap();
    let Eval { out: whole, broken, .. } = eval(&m, &PathQuery::new_unsized(pq.path.clone(), pq.query.query.clone()), true);
    if pq.query.query.add_parent_tree_on_subquery {
        return;
    }
    match raw {
        Err(_) => check(broken, "a query is answered"),
        Ok((els, _)) => {
            let got: Vec<Shown> = els
                .elements
                .into_iter()
                .filter_map(|e| match e {
                    QueryResultElement::PathKeyElementTrioResultItem((p, k, e)) => Some((p, k, Some(bare(&e).0))),
                    _ => None,
                })
                .collect();
            if lim == 0 {
                check(got.len() == whole.len(), "a query without limit gives all");
            }
            check(lim == 0 || got.len() <= lim, "a query keeps its limit");
            for (g, w) in got.iter().zip(&whole) {
                check(g.0 == w.0 && g.1 == w.1, "a query gives the entries in order");
                let here = m.clone().find(&w.0).and_then(|n| n.get(&w.1).cloned());
                check(here.is_some_and(|x| x.shown() == *g.2.as_ref().unwrap()), "a raw query gives the entries as they are");
            }
            reach("raw query");
        }
    }
    if let Ok((els, _)) = r {
        let got: Vec<Shown> = els
            .elements
            .into_iter()
            .filter_map(|e| match e {
                QueryResultElement::PathKeyElementTrioResultItem((p, k, e)) => Some((p, k, Some(bare(&e).0))),
                _ => None,
            })
            .collect();
        check(lim > 0 || got.len() == whole.len(), "a query without limit gives all followed");
        check(got.iter().zip(&whole).all(|(g, w)| g == w), "a query follows references");
        reach("query");
    } else {
        check(broken || whole.iter().any(|w| !w.2.as_ref().unwrap().is_any_item()), "a query without trees among its results is answered");
    }
}

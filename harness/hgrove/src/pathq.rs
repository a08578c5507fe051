//! C24: what a path query means: the level query at every path, terminal keys, parent
//! trees and merges, against the definition of subqueries, subquery paths and conditional
//! branches (the first conditional item that has the key decides, else the default).
use grovedb::{AggregateSumPathQuery, Error, PathQuery, SizedQuery};
use grovedb_merk::proofs::query::{Query, QueryItem, SubqueryBranch};
use grovedb_version::version::GroveVersion;
use indexmap::IndexMap;
use symapi::*;

#[derive(Clone)]
struct B {
    path: Option<Vec<u8>>,
    sub: Option<Box<Q>>,
}
#[derive(Clone)]
struct Q {
    items: Vec<(u8, u8)>,
    default: B,
    cond: Vec<((u8, u8), B)>,
    parent: bool,
}
const NONE: B = B { path: None, sub: None };

fn item(r: &(u8, u8)) -> QueryItem {
    if r.0 == r.1 { QueryItem::Key(vec![r.0]) } else { QueryItem::RangeInclusive(vec![r.0]..=vec![r.1]) }
}
impl B {
    fn real(&self) -> SubqueryBranch {
        SubqueryBranch { subquery_path: self.path.as_ref().map(|p| keys(p)), subquery: self.sub.as_ref().map(|s| Box::new(s.real())) }
    }
    fn empty(&self) -> bool {
        self.path.is_none() && self.sub.is_none()
    }
}
impl Q {
    fn real(&self) -> Query {
        let cond: IndexMap<_, _> = self.cond.iter().map(|(i, b)| (item(i), b.real())).collect();
        Query {
            items: self.items.iter().map(item).collect(),
            default_subquery_branch: self.default.real(),
            conditional_subquery_branches: if cond.is_empty() { None } else { Some(cond) },
            left_to_right: true,
            add_parent_tree_on_subquery: self.parent,
        }
    }
    fn has(&self, k: u8) -> bool {
        self.items.iter().any(|(a, b)| *a <= k && k <= *b)
    }
    fn branch(&self, k: u8) -> &B {
        self.cond.iter().find(|((a, b), _)| *a <= k && k <= *b).map_or(&self.default, |x| &x.1)
    }
}
fn keys(p: &[u8]) -> Vec<Vec<u8>> {
    p.iter().map(|k| vec![*k]).collect()
}
/// where a path leads: a query, or on the way down a path
#[derive(Clone)]
enum At<'a> {
    Q(&'a Q),
    P(&'a [u8], Option<&'a Q>),
    Nowhere,
}
fn go<'a>(p: &'a [u8], q: Option<&'a Q>) -> At<'a> {
    match (p, q) {
        ([], Some(q)) => At::Q(q),
        ([], None) => At::Nowhere,
        _ => At::P(p, q),
    }
}
fn step<'a>(at: At<'a>, k: u8) -> At<'a> {
    match at {
        At::Q(q) => {
            let b = q.branch(k);
            go(b.path.as_deref().unwrap_or(&[]), b.sub.as_deref())
        }
        At::P(p, q) if p[0] == k => go(&p[1..], q),
        _ => At::Nowhere,
    }
}

fn branch(shape: usize, sub: &Q, sym: bool) -> B {
    let p = |n: usize| if sym { vec(n) } else { b"cde"[..n].to_vec() };
    let s = || Some(Box::new(sub.clone()));
    match shape {
        0 => NONE,
        1 => B { path: Some(p(1)), sub: None },
        2 => B { path: Some(p(2)), sub: None },
        3 => B { path: None, sub: s() },
        4 => B { path: Some(p(1)), sub: s() },
        5 => B { path: Some(p(2)), sub: s() },
        6 => B { path: Some(vec![]), sub: s() },
        _ => B { path: Some(p(3)), sub: s() },
    }
}
fn range(sym: bool, c: (u8, u8)) -> (u8, u8) {
    if !sym {
        return c;
    }
    let (a, b) = (u8(), u8());
    assume(a <= b);
    (a, b)
}
/// digits of cfg: default branch, conditional items (none, a key, a range, a key inside a range), their
/// branches (two), default branch one layer down, conditional branch one layer down + 1
fn make(c: usize, sym: bool) -> Q {
    let d = |i: u32| c / 10usize.pow(i) % 10;
    let leaf = Q { items: vec![range(sym, (b'e', b'f'))], default: NONE, cond: vec![], parent: d(7) == 1 };
    let mut inner = Q { items: vec![range(sym, (b'd', b'd')), (b'f', b'f')], default: branch(d(4), &leaf, sym), cond: vec![], parent: d(7) % 2 == 0 };
    if d(5) > 0 {
        inner.cond.push(((b'd', b'd'), branch(d(5) - 1, &leaf, sym)));
    }
    let mut q = Q { items: vec![range(sym, (b'b', b'd'))], default: branch(d(0), &inner, sym), cond: vec![], parent: d(7) > 1 };
    let (one, two) = (branch(d(2), &inner, sym), branch(d(3), &leaf, sym));
    match d(1) {
        0 => {}
        1 => q.cond.push(((b'c', b'c'), one)),
        2 => q.cond.push(((b'c', b'e'), one)),
        3 => q.cond.extend([((b'd', b'd'), one), ((b'c', b'e'), two)]),
        _ => q.cond.extend([((b'c', b'd'), one), ((b'd', b'e'), two)]),
    }
    q
}

/// the level query at every path and key
/// cfg = the query (8 digits) + 10^8 * (length of the query's path)
pub fn level(cfg: u64) {
    let c = cfg as usize;
    let q = make(c % 100_000_000, true);
    let base = b"ab"[..c / 100_000_000].to_vec();
    let v = GroveVersion::latest();
    let pq = PathQuery::new(keys(&base), SizedQuery::new(q.real(), None, None));
    let n = choose(base.len() + 6);
    let path = vec(n);
    let mut at = go(&base, Some(&q));
    // what a layer selects is descended into, nothing else
    let mut asked = true;
    for k in &path {
        asked &= match &at {
            At::Q(q) => q.has(*k),
            At::P(p, _) => p[0] == *k,
            At::Nowhere => false,
        };
        at = step(at, *k);
    }
    if !asked {
        return;
    }
    let kp = keys(&path);
    let ks: Vec<&[u8]> = kp.iter().map(|k| k.as_slice()).collect();
    let got = pq.query_items_at_path(&ks, v).unwrap();
    let parent = pq.should_add_parent_tree_at_path(&ks, v).unwrap();
    check(got.is_none() == matches!(at, At::Nowhere), "a path is part of a query exactly when the query leads there");
    let Some(got) = got else {
        check(!parent, "no parent tree is added where the query does not lead");
        return;
    };
    reach("level");
    let k = u8();
    let asks = got.items.iter().any(|i| i.contains(&[k]));
    let down = got.has_subquery_or_matching_in_path_on_key(&[k]);
    match at {
        At::Q(q) => {
            check(asks == q.has(k), "a layer asks for the keys of its query");
            check(!q.has(k) || down != q.branch(k).empty(), "a layer descends below a key exactly when its branch leads on");
            check(got.left_to_right, "the direction is that of the query");
            check(parent == q.parent, "a parent tree is added where the query says");
        }
        At::P(p, s) => {
            check(asks == (k == p[0]), "on the way down a layer asks for the next key");
            check(down == (k == p[0] && (p.len() > 1 || s.is_some())), "a layer descends below a key exactly when the way leads on");
            check(!parent, "no parent tree is added on the way down a path");
        }
        At::Nowhere => {}
    }
}

fn terminal(q: &Q, path: &[u8], out: &mut Vec<(Vec<u8>, u8)>) {
    for k in b'a'..=b'h' {
        if !q.has(k) {
            continue;
        }
        let b = q.branch(k);
        let mut p = path.to_vec();
        match (&b.path, &b.sub) {
            (None, None) => out.push((p, k)),
            (way, Some(s)) => {
                p.push(k);
                p.extend(way.iter().flatten());
                terminal(s, &p, out);
            }
            (Some(way), None) => {
                p.push(k);
                p.extend(way);
                let k = p.pop().unwrap();
                out.push((p, k));
            }
        }
    }
}
/// the terminal keys of a query; cfg as above
pub fn terminals(cfg: u64) {
    let c = cfg as usize;
    let q = make(c % 100_000_000, false);
    let base = b"ab"[..c / 100_000_000].to_vec();
    let pq = PathQuery::new(keys(&base), SizedQuery::new(q.real(), None, None));
    let mut want = vec![];
    terminal(&q, &base, &mut want);
    let max = u8() as usize;
    match pq.terminal_keys(max, GroveVersion::latest()) {
        Err(_) => check(want.len() > max, "terminal keys are given when they are within the limit"),
        Ok(got) => {
            check(got.len() <= max, "no more terminal keys than the limit");
            check(got.len() == want.len(), "there are as many terminal keys as the query has");
            for (p, k) in &want {
                check(got.iter().filter(|g| g.0 == keys(p) && g.1 == [*k]).count() == 1, "every key the query ends at is a terminal key, once");
            }
            reach("terminal");
        }
    }
}

/// does the query ask for the key at the path
fn asks(pq: &PathQuery, path: &[u8], k: u8) -> bool {
    let v = GroveVersion::latest();
    let kp = keys(path);
    let ks: Vec<&[u8]> = kp.iter().map(|k| k.as_slice()).collect();
    for i in 0..ks.len() {
        let Some(l) = pq.query_items_at_path(&ks[..i], v).unwrap() else { return false };
        if !l.items.iter().any(|x| x.contains(ks[i])) || !l.has_subquery_or_matching_in_path_on_key(ks[i]) {
            return false;
        }
    }
    pq.query_items_at_path(&ks, v).unwrap().is_some_and(|l| l.items.iter().any(|x| x.contains(&[k])))
}
fn small(c: usize) -> Q {
    let leaf = Q { items: vec![(b'c', b'd')], default: NONE, cond: vec![], parent: false };
    let leaf2 = Q { items: vec![(b'd', b'e')], default: NONE, cond: vec![], parent: false };
    let q = |items: Vec<(u8, u8)>, default: B, cond: Vec<((u8, u8), B)>| Q { items, default, cond, parent: false };
    match c {
        0 => q(vec![(b'a', b'a')], NONE, vec![]),
        1 => q(vec![(b'b', b'd')], NONE, vec![]),
        2 => q(vec![(b'a', b'b')], branch(3, &leaf, false), vec![]),
        3 => q(vec![(b'b', b'c')], branch(4, &leaf, false), vec![]),
        4 => q(vec![(b'b', b'b')], branch(1, &leaf, false), vec![]),
        5 => q(vec![(b'a', b'c')], NONE, vec![((b'b', b'b'), branch(3, &leaf2, false))]),
        6 => q(vec![(b'b', b'b'), (b'd', b'd')], branch(3, &leaf2, false), vec![((b'b', b'b'), branch(4, &leaf, false))]),
        _ => q(vec![(b'b', b'b')], branch(3, &q(vec![(b'c', b'c')], branch(3, &leaf2, false), vec![]), false), vec![]),
    }
}
/// merging path queries selects what any of them does
/// cfg = query 1 + 10 * path 1 + 100 * query 2 + 1000 * path 2 [+ 10000 * (query 3 + 1) + 100000 * path 3]
pub fn merge(cfg: u64) {
    let c = cfg as usize;
    let d = |i: u32| c / 10usize.pow(i) % 10;
    let paths: [&[u8]; 6] = [b"", b"a", b"b", b"ab", b"bc", b"abc"];
    let mk = |q: usize, p: usize| PathQuery::new(keys(paths[p]), SizedQuery::new(small(q).real(), None, None));
    let mut all = vec![mk(d(0), d(1)), mk(d(2), d(3))];
    if d(4) > 0 {
        all.push(mk(d(4) - 1, d(5)));
    }
    let v = GroveVersion::latest();
    let refs: Vec<&PathQuery> = all.iter().collect();
    let m = match PathQuery::merge(refs, v) {
        Ok(m) => m,
        Err(e) => {
            check(matches!(e, Error::NotSupported(_)), "path queries without limits can be merged");
            return;
        }
    };
    check(m.query.limit.is_none() && m.query.offset.is_none(), "a merge has no limit");
    reach("merged");
    let n = choose(6);
    let (path, k) = (vec(n), u8());
    let any = all.iter().any(|q| asks(q, &path, k));
    check(asks(&m, &path, k) == any, "a merged query asks for what one of the queries asks for, and nothing else");
}

/// limits and offsets stop a merge; one query is its own merge; aggregate sum path queries
pub fn merge_limits(cfg: u64) {
    let v = GroveVersion::latest();
    let opt = |b: bool| if b { Some(u16()) } else { None };
    let (l, o) = (opt(cfg % 2 == 1), opt(cfg / 2 % 2 == 1));
    let a = PathQuery::new(keys(b"a"), SizedQuery::new(small(1).real(), l, o));
    let b = PathQuery::new(keys(b"a"), SizedQuery::new(small(2).real(), None, None));
    check(PathQuery::merge(vec![&a], v).unwrap() == a, "a single query is its own merge");
    check(PathQuery::merge(vec![], v).is_err(), "there is no merge of nothing");
    let bad = l.is_some() || o.is_some();
    check(PathQuery::merge(vec![&a, &b], v).is_err() == bad, "queries with limits or offsets are not merged");
    check(PathQuery::merge(vec![&b, &a], v).is_err() == bad, "queries with limits or offsets are not merged");
    // aggregate sums
    let s = |p: &[u8], i: QueryItem| AggregateSumPathQuery::new_single_query_item(keys(p), i, u64(), None);
    let (i1, i2) = (range(true, (0, 0)), range(true, (0, 0)));
    let (x, y) = (s(b"a", item(&i1)), s(b"a", item(&i2)));
    let z = s(b"b", item(&i2));
    check(AggregateSumPathQuery::merge(vec![&x, &z], v).is_err(), "aggregate sums of different paths are not merged");
    check(AggregateSumPathQuery::merge(vec![&x], v).unwrap() == x, "a single query is its own merge");
    if let Ok(m) = AggregateSumPathQuery::merge(vec![&x, &y], v) {
        reach("sums merged");
        let k = u8();
        let has = |q: &AggregateSumPathQuery| q.aggregate_sum_query.items.iter().any(|i| i.contains(&[k]));
        check(m.path == x.path && has(&m) == (has(&x) || has(&y)), "a merged aggregate sum asks for the keys of both");
    }
}

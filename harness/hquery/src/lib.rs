//! Properties of grovedb-query (C01, C02, C03).
use grovedb_costs::{CostContext, CostsExt, OperationCost};
use grovedb_query::{AggregateSumQuery, ProofItems, Query, QueryItem, SubqueryBranch};
use grovedb_storage::RawIterator;
use indexmap::IndexMap;
use std::ops::RangeFull;
use symapi::*;

/// An item as the specification sees it: a lower and an upper end.
#[derive(Clone)]
pub struct Spec {
    lo: Option<(Vec<u8>, bool)>, // (key, inclusive)
    hi: Option<(Vec<u8>, bool)>,
}

fn in_spec(s: &Spec, k: &[u8]) -> bool {
    (match &s.lo {
        None => true,
        Some((b, true)) => k >= b.as_slice(),
        Some((b, false)) => k > b.as_slice(),
    }) & (match &s.hi {
        None => true,
        Some((b, true)) => k <= b.as_slice(),
        Some((b, false)) => k < b.as_slice(),
    })
}

fn key(lo: usize, hi: usize) -> Vec<u8> {
    vec_upto(lo, hi)
}

/// one item of the given kind over fresh symbolic keys; start <= end as callers must ensure
fn item(kind: usize, lo: usize, hi: usize) -> (QueryItem, Spec) {
    let two = matches!(kind, 1 | 2 | 8 | 9);
    let a = if kind != 3 { key(lo, hi) } else { vec![] };
    let b = if two { key(lo, hi) } else { vec![] };
    if two {
        assume(if kind == 2 { a <= b } else { a < b });
    }
    let i = |x: &Vec<u8>| Some((x.clone(), true));
    let e = |x: &Vec<u8>| Some((x.clone(), false));
    match kind {
        0 => (QueryItem::Key(a.clone()), Spec { lo: i(&a), hi: i(&a) }),
        1 => (QueryItem::Range(a.clone()..b.clone()), Spec { lo: i(&a), hi: e(&b) }),
        2 => (QueryItem::RangeInclusive(a.clone()..=b.clone()), Spec { lo: i(&a), hi: i(&b) }),
        3 => (QueryItem::RangeFull(RangeFull), Spec { lo: None, hi: None }),
        4 => (QueryItem::RangeFrom(a.clone()..), Spec { lo: i(&a), hi: None }),
        5 => (QueryItem::RangeTo(..a.clone()), Spec { lo: None, hi: e(&a) }),
        6 => (QueryItem::RangeToInclusive(..=a.clone()), Spec { lo: None, hi: i(&a) }),
        7 => (QueryItem::RangeAfter(a.clone()..), Spec { lo: e(&a), hi: None }),
        8 => (QueryItem::RangeAfterTo(a.clone()..b.clone()), Spec { lo: e(&a), hi: e(&b) }),
        _ => (QueryItem::RangeAfterToInclusive(a.clone()..=b.clone()), Spec { lo: e(&a), hi: i(&b) }),
    }
}

fn in_item(q: &Option<QueryItem>, k: &[u8]) -> bool {
    match q {
        None => false,
        Some(q) => q.contains(k),
    }
}


/// storage iterator over one subtree's sorted keys inside a larger key space: position -1 and n
/// are records of the neighbouring subtrees, or nothing at all when `last` (no record follows)
struct Mock<'a> {
    keys: &'a [Vec<u8>],
    pos: isize,
    last: bool,
    off: bool,
}
fn nil(_: ()) -> CostContext<()> {
    ().wrap_with_cost(OperationCost::default())
}
impl RawIterator for Mock<'_> {
    fn seek_to_first(&mut self) -> CostContext<()> {
        self.pos = 0;
        self.off = self.last && self.keys.is_empty();
        nil(())
    }
    fn seek_to_last(&mut self) -> CostContext<()> {
        self.pos = self.keys.len() as isize - 1;
        self.off = false;
        nil(())
    }
    fn seek<K: AsRef<[u8]>>(&mut self, key: K) -> CostContext<()> {
        let k = key.as_ref();
        self.pos = self.keys.iter().position(|x| x.as_slice() >= k).unwrap_or(self.keys.len()) as isize;
        self.off = self.last && self.pos == self.keys.len() as isize;
        nil(())
    }
    fn seek_for_prev<K: AsRef<[u8]>>(&mut self, key: K) -> CostContext<()> {
        let k = key.as_ref();
        self.pos = self.keys.iter().rposition(|x| x.as_slice() <= k).map_or(-1, |p| p as isize);
        self.off = false;
        nil(())
    }
    fn next(&mut self) -> CostContext<()> {
        if !self.off && self.pos < self.keys.len() as isize {
            self.pos += 1;
            self.off = self.last && self.pos == self.keys.len() as isize;
        }
        nil(())
    }
    fn prev(&mut self) -> CostContext<()> {
        if !self.off && self.pos >= 0 {
            self.pos -= 1;
        }
        nil(())
    }
    fn value(&self) -> CostContext<Option<&[u8]>> {
        self.key()
    }
    fn key(&self) -> CostContext<Option<&[u8]>> {
        let k = if self.pos >= 0 { self.keys.get(self.pos as usize).map(|k| k.as_slice()) } else { None };
        k.wrap_with_cost(OperationCost::default())
    }
    fn valid(&self) -> CostContext<bool> {
        (self.pos >= 0 && (self.pos as usize) < self.keys.len()).wrap_with_cost(OperationCost::default())
    }
}

fn sorted_keys(n: usize, lo: usize, hi: usize) -> Vec<Vec<u8>> {
    let v: Vec<Vec<u8>> = (0..n).map(|_| key(lo, hi)).collect();
    for i in 1..n {
        assume(v[i - 1] < v[i]);
    }
    v
}

fn in_any(items: &[QueryItem], k: &[u8]) -> bool {
    let mut r = false;
    for i in items {
        r |= i.contains(k);
    }
    r
}

fn cmp_code(o: std::cmp::Ordering) -> u8 {
    o as i8 as u8
}

/// the walk a range query does over a subtree
fn walk(q: &QueryItem, keys: &[Vec<u8>], l2r: bool, last: bool) -> Vec<Vec<u8>> {
    let mut it = Mock { keys, pos: 0, last, off: last && keys.is_empty() };
    let _ = q.seek_for_iter(&mut it, l2r);
    let mut got = vec![];
    while q.iter_is_valid_for_type(&it, None, None, l2r).value {
        got.push(it.key().value.unwrap().to_vec());
        if q.is_key() {
            break;
        }
        let _ = if l2r { it.next() } else { it.prev() };
    }
    got
}

fn leaf(id: u8) -> SubqueryBranch {
    SubqueryBranch { subquery_path: None, subquery: Some(Box::new(Query::new_single_key(vec![id]))) }
}
/// which of the marker keys 0..8 a branch selects below a key
fn marks(b: &SubqueryBranch) -> u8 {
    let mut m = 0;
    if let Some(q) = &b.subquery {
        for i in 0..8u8 {
            if in_any(&q.items, &[i]) {
                m |= 1 << i;
            }
        }
    }
    m
}
/// the branch a key is routed to: the first matching conditional, else none
fn route<'a>(m: &'a Option<IndexMap<QueryItem, SubqueryBranch>>, k: &[u8]) -> Option<&'a SubqueryBranch> {
    m.as_ref().and_then(|m| m.iter().find(|(i, _)| i.contains(k)).map(|(_, b)| b))
}
fn eff(q: &Query, k: &[u8]) -> u8 {
    marks(route(&q.conditional_subquery_branches, k).unwrap_or(&q.default_subquery_branch))
}
/// does the branch select exactly the element at this path below the key?
fn selects(b: &SubqueryBranch, p: &[Vec<u8>]) -> bool {
    let mut rest = p;
    if let Some(sp) = &b.subquery_path {
        for k in sp {
            match rest.split_first() {
                Some((a, r)) if a == k => rest = r,
                _ => return false,
            }
        }
    }
    match &b.subquery {
        None => rest.is_empty(),
        Some(q) => match rest.split_first() {
            None => false,
            Some((a, r)) => {
                in_any(&q.items, a)
                    && selects(route(&q.conditional_subquery_branches, a).unwrap_or(&q.default_subquery_branch), r)
            }
        },
    }
}
/// branch of total depth `depth`, `path` levels of it as a fixed path
fn branch(depth: usize, path: usize) -> SubqueryBranch {
    let sp: Vec<Vec<u8>> = (0..path).map(|_| vec(1)).collect();
    let mut sub = None;
    for d in path..depth {
        let mut q = Query::new_single_key(vec(1));
        if d == path && bool() {
            q.insert_key(vec(1));
        }
        if let Some(s) = sub {
            q.set_subquery(s);
        }
        sub = Some(q);
    }
    SubqueryBranch { subquery_path: if path > 0 { Some(sp) } else { None }, subquery: sub.map(Box::new) }
}

entries! {
    /// C01: membership of a key in an item agrees with the mathematical set
    fn h_contains(kind: u64) {
        let (q, s) = item(kind as usize, 0, 2);
        let k = key(0, 3);
        let c = q.contains(&k);
        check(c == in_spec(&s, &k), "contains is set membership");
        observe(&[c as u8]);
        reach("contains");
    }

    /// C01: intersection parts are exactly the set intersection and differences
    fn h_intersect(cfg: u64) {
        let (ka, kb) = ((cfg / 10) as usize, (cfg % 10) as usize);
        let (a, sa) = item(ka, 0, 2);
        let (b, sb) = item(kb, 0, 2);
        let k = key(0, 2);
        let r = a.intersect(&b);
        let (ina, inb) = (in_spec(&sa, &k), in_spec(&sb, &k));
        check(in_item(&r.in_both, &k) == (ina & inb), "in_both is the set intersection");
        check(
            (in_item(&r.ours_left, &k) | in_item(&r.ours_right, &k)) == (ina & !inb),
            "ours is the set difference",
        );
        check(
            (in_item(&r.theirs_left, &k) | in_item(&r.theirs_right, &k)) == (inb & !ina),
            "theirs is the set difference",
        );
        observe(&[in_item(&r.in_both, &k) as u8, in_item(&r.ours_left, &k) as u8]);
        reach("intersect");
    }

    /// C01: merging overlapping items gives exactly their union; colliding means sharing a gap-free overlap
    fn h_merge(cfg: u64) {
        let (ka, kb) = ((cfg / 10) as usize, (cfg % 10) as usize);
        let (a, sa) = item(ka, 0, 2);
        let (b, sb) = item(kb, 0, 2);
        let k = key(0, 2);
        let (ina, inb) = (in_spec(&sa, &k), in_spec(&sb, &k));
        let hit = a.collides_with(&b);
        check(!(ina & inb) | hit, "items sharing a key collide");
        check(hit == b.collides_with(&a), "collision is symmetric");
        let m = a.merge(&b);
        check(!(ina | inb) | m.contains(&k), "merge covers both");
        check(!hit | (m.contains(&k) == (ina | inb)), "merge of overlapping items adds nothing");
        observe(&[m.contains(&k) as u8, hit as u8]);
        reach("merge");
    }

    /// C01: bounds, direction tests and the order of items agree with the set they denote
    fn h_bounds(cfg: u64) {
        let (q, s) = item(cfg as usize, 0, 2);
        let k = key(0, 2);
        check(q.lower_unbounded() == s.lo.is_none(), "lower_unbounded");
        check(q.upper_unbounded() == s.hi.is_none(), "upper_unbounded");
        let (l, lx) = q.lower_bound();
        let (u, ui) = q.upper_bound();
        check(l == s.lo.as_ref().map(|x| x.0.as_slice()) && (s.lo.is_none() || lx == !s.lo.as_ref().unwrap().1), "lower bound");
        check(u == s.hi.as_ref().map(|x| x.0.as_slice()) && (s.hi.is_none() || ui == s.hi.as_ref().unwrap().1), "upper bound");
        let r = q.to_range_set_borrowed().unwrap();
        let c = r.could_contain_key(&k);
        check(c.included == in_spec(&s, &k), "containment in proofs");
        check(!c.on_bounds_not_included | !c.included, "an excluded bound is not included");
        let k2 = key(0, 2);
        use grovedb_query::query_item::intersect::Direction;
        if in_spec(&s, &k2) {
            check(!(k2 < k) | r.could_have_items_in_direction(&k, Direction::LeftOf), "no member is missed to the left");
            check(!(k2 > k) | r.could_have_items_in_direction(&k, Direction::RightOf), "no member is missed to the right");
        }
        check(cmp_code(QueryItem::compare(&k, &k2)) == cmp_code(k.cmp(&k2)), "compare is the key order");
        observe(&[c.included as u8, c.on_bounds_not_included as u8]);
        reach("bounds");
    }

    /// C01: the order on items is total and agrees with equality, and sorts disjoint items by position
    fn h_order(cfg: u64) {
        use std::cmp::Ordering::*;
        let (a, sa) = item((cfg / 10) as usize, 1, 1);
        let (b, sb) = item((cfg % 10) as usize, 1, 1);
        let o = a.cmp(&b);
        check(o == b.cmp(&a).reverse(), "order is antisymmetric");
        check(!(a == b) | (o == Equal), "equal items compare equal");
        let (ka, kb) = (key(1, 2), key(1, 2));
        if in_spec(&sa, &ka) && in_spec(&sb, &kb) && !a.collides_with(&b) {
            check((ka < kb) == (o == Less), "disjoint items are ordered by position");
        }
        let (c, _) = item(choose(10), 1, 1);
        let (ab, bc, ac) = (o, b.cmp(&c), a.cmp(&c));
        check(!(ab != Greater && bc != Greater) | (ac != Greater), "order is transitive");
        observe(&[cmp_code(o)]);
        reach("order");
    }

    /// C01: splitting a list of items by another list loses and invents nothing
    fn h_many(cfg: u64) {
        let (a, sa) = item((cfg / 10) as usize, 1, 1);
        let (b, sb) = item((cfg % 10) as usize, 1, 1);
        let (c, sc) = item(choose(10), 1, 1);
        let k = key(1, 1);
        // two disjoint items against one
        assume(!b.collides_with(&c));
        let (b, c) = if b < c { (b, c) } else { (c, b) };
        let (ina, inbc) = (in_spec(&sa, &k), in_spec(&sb, &k) | in_spec(&sc, &k));
        let r = QueryItem::intersect_many_ordered(&mut vec![a.clone()], vec![b.clone(), c.clone()]);
        check(in_any(r.in_both.as_deref().unwrap_or(&[]), &k) == (ina & inbc), "shared part of one item against many");
        check(in_any(r.ours.as_deref().unwrap_or(&[]), &k) == (ina & !inbc), "rest of one item against many");
        let r = QueryItem::intersect_many_ordered(&mut vec![b, c], vec![a]);
        check(in_any(r.in_both.as_deref().unwrap_or(&[]), &k) == (ina & inbc), "shared part of many items against one");
        check(in_any(r.ours.as_deref().unwrap_or(&[]), &k) == (inbc & !ina), "rest of many items against one");
        observe(&[ina as u8, inbc as u8]);
        reach("many");
    }

    /// C01: the distinct keys of a one-byte range
    fn h_keys(cfg: u64) {
        let kind = cfg as usize;
        let (q, s) = item(kind, 0, 2);
        // one-byte ranges of at most four keys; the loop runs once per key
        if let (Some((a, _)), Some((b, _))) = (&s.lo, &s.hi) {
            let a0 = a.first().copied().unwrap_or(0);
            let b0 = b.first().copied().unwrap_or(0);
            assume(b0 as u16 <= a0 as u16 + 3);
        }
        let r = q.keys();
        let r2 = q.clone().keys_consume();
        check(r.is_ok() == r2.is_ok(), "keys and keys_consume agree");
        if let (Ok(r), Ok(r2)) = (r, r2) {
            check(r == r2, "keys and keys_consume agree");
            check(!q.is_unbounded_range(), "only bounded items have distinct keys");
            let k = key(0, 1);
            let mut n = 0;
            for x in &r {
                n += (*x == k) as u8;
                check(in_spec(&s, x), "every key listed belongs to the item");
            }
            check((n == 1) == in_spec(&s, &k) && n <= 1, "every one-byte member is listed once");
            observe(&[r.len() as u8]);
            reach("keys");
        } else {
            check(!q.is_key(), "a key lists itself");
        }
    }

    /// C01: walking storage for an item yields exactly its members, in direction order
    fn h_iter(cfg: u64) {
        let kind = (cfg % 10) as usize;
        let l2r = cfg / 10 % 2 == 0;
        let last = cfg / 20 == 1;
        let (q, s) = item(kind, 1, 1 + !last as usize);
        let n = choose(4);
        let keys = sorted_keys(n, 1, 1);
        let got = walk(&q, &keys, l2r, last);
        let mut want: Vec<Vec<u8>> = vec![];
        for k in &keys {
            if in_spec(&s, k) {
                want.push(k.clone());
            }
        }
        if !l2r {
            want.reverse();
        }
        // (the known finding: an exclusive upper end past the last record of the whole store)
        let past_end = last && !l2r && matches!(kind, 1 | 5 | 8) && keys.iter().all(|k| *k < s.hi.as_ref().unwrap().0);
        check(got == want, if past_end { "a descending walk from past the last record visits the members" } else { "a walk visits exactly the members in order" });
        let it = Mock { keys: &keys, pos: 0, last, off: false };
        let (l, a) = (u16(), i64());
        let v = q.iter_is_valid_for_type(&it, Some(l), Some(a), l2r).value;
        check(!v | (l > 0 && a > 0), "nothing is visited past the limit");
        observe(&[got.len() as u8]);
        reach("iter");
    }

    /// C02: a query built from any items covers exactly their union, as sorted disjoint items
    fn h_insert(cfg: u64) {
        let n = 3;
        let k = key(1, 1);
        let mut q = Query::new();
        let mut g = AggregateSumQuery::new_with_query_items(vec![], 1, None);
        let mut want = false;
        for i in 0..n {
            let (it, s) = item(if i == 0 { cfg as usize } else { choose(10) }, 1, 1);
            want |= in_spec(&s, &k);
            q.insert_item(it.clone());
            g.insert_item(it);
        }
        check(in_any(&q.items, &k) == want, "inserted items cover their union");
        check(q.items == g.items, "aggregate queries build the same item list");
        for w in q.items.windows(2) {
            check(w[0] < w[1], "items are sorted");
            check(!w[0].collides_with(&w[1]), "items are disjoint");
        }
        observe(&[q.items.len() as u8, want as u8]);
        reach("insert");
    }

    /// C02: adding a conditional branch changes routing exactly on its keys
    fn h_cond(cfg: u64) {
        let mut q = Query::new();
        let (i1, _) = item((cfg % 10) as usize, 1, 1);
        let (i2, _) = item(choose(10), 1, 1);
        q.add_conditional_subquery(i1, None, leaf(1).subquery.map(|b| *b));
        q.add_conditional_subquery(i2, None, leaf(2).subquery.map(|b| *b));
        let k = key(1, 1);
        let before = route(&q.conditional_subquery_branches, &k).map(marks);
        let (i3, s3) = item((cfg / 10 % 10) as usize, 1, 1);
        q.merge_conditional_boxed_subquery(i3, leaf(3));
        let after = route(&q.conditional_subquery_branches, &k).map(marks);
        let want = if in_spec(&s3, &k) { Some(before.unwrap_or(0) | 8) } else { before };
        check(after == want, "a merged conditional branch applies to exactly its keys and keeps the earlier one");
        observe(&[after.unwrap_or(255)]);
        reach("cond");
    }

    /// C02: merging two subquery branches selects exactly what either selects
    fn h_branch(cfg: u64) {
        let depth = 1 + (cfg / 16) as usize;
        let (pa, pb) = ((cfg / 4 % 4) as usize, (cfg % 4) as usize);
        if pa > depth || pb > depth {
            return;
        }
        let (a, b) = (branch(depth, pa), branch(depth, pb));
        let m = a.merge(&b);
        let p: Vec<Vec<u8>> = (0..depth).map(|_| vec(1)).collect();
        check(selects(&m, &p) == (selects(&a, &p) | selects(&b, &p)), "a merged branch selects the union");
        observe(&[selects(&m, &p) as u8]);
        reach("branch");
    }

    /// C02: merging whole queries keeps both queries' items and subqueries
    fn h_mergeq(cfg: u64) {
        let k = key(1, 1);
        let (d1, d2) = (cfg / 100 % 2 == 1, cfg / 200 % 2 == 1);
        let mut q1 = Query::new();
        let (i1, s1) = item((cfg % 10) as usize, 1, 1);
        q1.insert_item(i1);
        if d1 {
            q1.default_subquery_branch = leaf(0);
        }
        let (c1, _) = item([0, 2, 3, 6][choose(4)], 1, 1);
        if bool() {
            q1.add_conditional_subquery(c1, None, leaf(1).subquery.map(|b| *b));
        }
        let mut q2 = Query::new();
        let (i2, s2) = item((cfg / 10 % 10) as usize, 1, 1);
        q2.insert_item(i2);
        if d2 {
            q2.default_subquery_branch = leaf(2);
        }
        let c = bool();
        if c {
            let (c2, _) = item(0, 1, 1);
            q2.add_conditional_subquery(c2, None, leaf(3).subquery.map(|b| *b));
        }
        let (in1, in2) = (in_spec(&s1, &k), in_spec(&s2, &k));
        let (e1, e2) = (eff(&q1, &k), eff(&q2, &k));
        let m = if bool() {
            let mut m = q1.clone();
            m.merge_with(q2);
            m
        } else {
            Query::merge_multiple(vec![q1, q2])
        };
        check(in_any(&m.items, &k) == (in1 | in2), "merged queries select the union of the keys");
        let e = eff(&m, &k);
        if in1 {
            check(e & e1 == e1, "the first query's subquery survives the merge");
        }
        if in2 {
            check(e & e2 == e2, "the second query's subquery survives the merge");
        }
        if in1 | in2 {
            check(e & !(e1 | e2) == 0, "a merge invents no subquery");
        }
        observe(&[e]);
        reach("mergeq");
    }
}

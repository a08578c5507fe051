//! C03: the query codec.
use grovedb_query::{AggregateSumQuery, Query, QueryItem, SubqueryBranch};
use indexmap::IndexMap;
use std::ops::RangeFull;
use symapi::*;

fn cfg_() -> impl bincode::config::Config {
    bincode::config::standard().with_big_endian().with_no_limit()
}
/// decoders of untrusted bytes set a byte limit, as Element::deserialize does
fn ucfg() -> impl bincode::config::Config {
    bincode::config::standard().with_big_endian().with_limit::<{ 1 << 20 }>()
}
fn udec<T: bincode::Decode<()>>(b: &[u8]) -> Option<(T, usize)> {
    bincode::decode_from_slice(b, ucfg()).ok()
}
fn ubdec<'a, T: bincode::BorrowDecode<'a, ()>>(b: &'a [u8]) -> Option<(T, usize)> {
    bincode::borrow_decode_from_slice(b, ucfg()).ok()
}
fn enc<T: bincode::Encode>(v: &T) -> Vec<u8> {
    bincode::encode_to_vec(v, cfg_()).unwrap()
}
fn dec<T: bincode::Decode<()>>(b: &[u8]) -> Option<(T, usize)> {
    bincode::decode_from_slice(b, cfg_()).ok()
}
fn bdec<'a, T: bincode::BorrowDecode<'a, ()>>(b: &'a [u8]) -> Option<(T, usize)> {
    bincode::borrow_decode_from_slice(b, cfg_()).ok()
}

fn key(out: &mut Vec<u8>, k: &[u8]) {
    // lengths below 251 take one byte
    out.push(k.len() as u8);
    out.extend_from_slice(k);
}

fn mk_item(kind: usize, hi: usize, out: &mut Vec<u8>) -> QueryItem {
    let two = matches!(kind, 1 | 2 | 8 | 9);
    out.push(kind as u8);
    let a = if kind != 3 { vec_upto(0, hi) } else { vec![] };
    if kind != 3 {
        key(out, &a);
    }
    let b = if two { vec_upto(0, hi) } else { vec![] };
    if two {
        key(out, &b);
    }
    match kind {
        0 => QueryItem::Key(a),
        1 => QueryItem::Range(a..b),
        2 => QueryItem::RangeInclusive(a..=b),
        3 => QueryItem::RangeFull(RangeFull),
        4 => QueryItem::RangeFrom(a..),
        5 => QueryItem::RangeTo(..a),
        6 => QueryItem::RangeToInclusive(..=a),
        7 => QueryItem::RangeAfter(a..),
        8 => QueryItem::RangeAfterTo(a..b),
        _ => QueryItem::RangeAfterToInclusive(a..=b),
    }
}

/// one query item: cfg = kind (both decoders, exact bytes)
pub fn item(cfg: u64) {
    let mut want = vec![];
    let it = mk_item(cfg as usize, 2, &mut want);
    let got = enc(&it);
    check(got == want, "query item format");
    match (dec::<QueryItem>(&got), bdec::<QueryItem>(&got)) {
        (Some((a, n)), Some((b, m))) => {
            check(a == it && b == it, "query item round trip");
            check(n == got.len() && m == n, "query item consumes its encoding");
        }
        _ => check(false, "an encoded query item decodes"),
    }
    reach("query item");
}

fn mk_branch(shape: usize, kind: usize, out: &mut Vec<u8>) -> SubqueryBranch {
    let path = match shape % 3 {
        0 => None,
        1 => Some(vec![]),
        _ => Some(vec![vec_upto(0, 2), vec(1)]),
    };
    match &path {
        None => out.push(0),
        Some(p) => {
            out.push(1);
            out.push(p.len() as u8);
            for s in p {
                key(out, s);
            }
        }
    }
    let subquery = if shape / 3 % 2 == 1 {
        out.push(1);
        Some(Box::new(mk_query(1 + kind / 5 % 2, kind, 0, 0, out)))
    } else {
        out.push(0);
        None
    };
    SubqueryBranch { subquery_path: path, subquery }
}

/// a query with `n` items of kind `kind`.., default branch of shape `shape`, `conds` conditional
/// branches (0: none, 1: an empty map, 2.. : that many minus one)
fn mk_query(n: usize, kind: usize, shape: usize, conds: usize, out: &mut Vec<u8>) -> Query {
    out.push(1);
    out.push(n as u8);
    let items = (0..n).map(|i| mk_item((kind + i * 3) % 10, 1, out)).collect();
    let default_subquery_branch = mk_branch(shape, (kind + 3) % 10, out);
    let conditional_subquery_branches = if conds == 0 {
        out.push(0);
        None
    } else {
        out.push(1);
        out.push(conds as u8 - 1);
        let mut m = IndexMap::new();
        for i in 0..conds - 1 {
            // distinct concrete keys: hashing symbolic keys is outside the solver's reach
            let k = [QueryItem::Key(vec![i as u8]), QueryItem::RangeFrom(vec![7]..), QueryItem::RangeFull(RangeFull)][i % 3].clone();
            out.extend_from_slice(&enc(&k));
            let b = mk_branch(shape + i + 1, (kind + i) % 10, out);
            m.insert(k, b);
        }
        Some(m)
    };
    let (l, p) = (bool(), bool());
    out.push(l as u8);
    out.push(p as u8);
    Query { items, default_subquery_branch, conditional_subquery_branches, left_to_right: l, add_parent_tree_on_subquery: p }
}

/// whole queries: cfg = kind + 10 * n + 100 * shape + 1000 * conds
pub fn codec(cfg: u64) {
    let c = cfg as usize;
    let mut want = vec![];
    let q = mk_query(c / 10 % 10, c % 10, c / 100 % 10, c / 1000 % 10, &mut want);
    let got = enc(&q);
    check(got == want, "query format");
    match (dec::<Query>(&got), bdec::<Query>(&got)) {
        (Some((a, n)), Some((b, m))) => {
            check(a == q, "query round trip");
            check(b == q, "borrowed query round trip");
            check(n == got.len() && m == n, "query consumes its encoding");
        }
        _ => check(false, "an encoded query decodes"),
    }
    let bb = enc(&q.default_subquery_branch);
    check(matches!(dec::<SubqueryBranch>(&bb), Some((x, n)) if x == q.default_subquery_branch && n == bb.len()), "branch round trip");
    check(matches!(bdec::<SubqueryBranch>(&bb), Some((x, n)) if x == q.default_subquery_branch && n == bb.len()), "borrowed branch round trip");
    reach("query codec");
}

/// arbitrary bytes: cfg = length + 100 * prefix kind
pub fn total(cfg: u64) {
    alloc_limit(16 << 20);
    let (n, kind) = ((cfg % 100) as usize, cfg / 100);
    let mut b: Vec<u8> = match kind {
        0 => vec![],
        1 => vec![1],                   // version
        2 => vec![1, 0],                // no items
        3 => vec![1, 0, 0, 0],          // no items, empty default branch
        4 => vec![1, 0, 0, 0, 1, 1, 3], // one conditional branch for the full range
        5 => vec![1, 0, 0, 1],          // nested query
        _ => vec![1, 1],                // one item
    };
    b.extend_from_slice(&vec(n));
    let a = udec::<Query>(&b);
    let c = ubdec::<Query>(&b);
    match (a, c) {
        (None, None) => reach("query rejected"),
        (Some((q, n)), Some((r, m))) => {
            reach("query accepted");
            check(q == r && n == m, "both decoders give the same query");
            check(n <= b.len(), "consumed bytes");
            let e = enc(&q);
            check(matches!(dec::<Query>(&e), Some((s, k)) if s == q && k == e.len()), "an accepted query survives another round trip");
        }
        _ => check(false, "both decoders accept the same bytes"),
    }
}

/// announced sizes and nesting: cfg 0: items length, 1: conditional length, 2: nesting depth
pub fn limits(cfg: u64) {
    alloc_limit(16 << 20);
    match cfg {
        0 | 1 => {
            // an 8-byte length marker with any announced length, followed by nothing
            let n = u64();
            let mut b = if cfg == 0 { vec![1] } else { vec![1, 0, 0, 0, 1] };
            b.push(253);
            b.extend_from_slice(&n.to_be_bytes());
            // the announced elements are all the full range (3) for items
            check(udec::<Query>(&b).is_none() && ubdec::<Query>(&b).is_none(), "a length without content is rejected");
            reach("query limits");
        }
        _ => {
            // nested `depth` times: 2 inside default branches, 3 inside conditional branches,
            // 4 alternating, 5 from a branch rather than a query
            let depth = [0usize, 1, 63, 64, 65, 66][choose(6)];
            let cond = |i: usize| cfg == 3 || cfg == 4 && i % 2 == 1;
            let mut b = vec![];
            if cfg == 5 {
                b.extend_from_slice(&[0, 1]);
            }
            for i in 0..depth {
                if cond(i) {
                    b.extend_from_slice(&[1, 0, 0, 0, 1, 1, 3, 0, 1]);
                } else {
                    b.extend_from_slice(&[1, 0, 0, 1]);
                }
            }
            b.extend_from_slice(&[1, 0, 0, 0, 0, 1, 0]);
            for i in (0..depth).rev() {
                if !cond(i) {
                    b.push(0);
                }
                b.extend_from_slice(&[1, 0]);
            }
            if cfg == 5 {
                check(dec::<SubqueryBranch>(&b).is_some() == (depth < 64), "branch nesting limit");
                check(bdec::<SubqueryBranch>(&b).is_some() == (depth < 64), "borrowed branch nesting limit");
            } else {
                check(dec::<Query>(&b).is_some() == (depth <= 64), "nesting is accepted up to the limit and not beyond");
                check(bdec::<Query>(&b).is_some() == (depth <= 64), "borrowed nesting limit");
            }
            reach("query limits");
        }
    }
}

/// aggregate sum queries: cfg = kind + 10 * n
pub fn sum(cfg: u64) {
    let c = cfg as usize;
    let n = c / 10 % 10;
    let mut w = vec![n as u8];
    let items: Vec<QueryItem> = (0..n).map(|i| mk_item((c + i * 3) % 10, 1, &mut w)).collect();
    let lim = bool();
    let q = AggregateSumQuery { items, left_to_right: bool(), sum_limit: u64(), limit_of_items_to_check: if lim { Some(u16()) } else { None } };
    let b = enc(&q);
    check(b.len() > w.len() && b[..w.len()] == w[..], "aggregate sum query format");
    check(matches!(dec::<AggregateSumQuery>(&b), Some((r, k)) if r == q && k == b.len()), "aggregate sum query round trip");
    check(matches!(bdec::<AggregateSumQuery>(&b), Some((r, k)) if r == q && k == b.len()), "borrowed aggregate sum query round trip");
    reach("query sum");
}

//! Batches against the map they are documented to change: all of it or nothing.
use grovedb::batch::{BatchApplyOptions, QualifiedGroveDbOp, SubelementsDeletionBehavior as Sub};
use grovedb::{reference_path::ReferencePathType, Element, Error, GroveDb, TransactionArg};
use grovedb_merk::TreeType;
use symapi::*;

use crate::model::*;
use crate::ops::{fresh, item, v, PLAIN};

type Path = Vec<Vec<u8>>;
fn p(s: &[&[u8]]) -> Path {
    s.iter().map(|x| x.to_vec()).collect()
}
const T: &[u8] = &[0x60];
/// where an operation can be: every relation to what is there and to the other operations
fn place(i: usize) -> (Path, Vec<u8>) {
    let (path, key): (&[&[u8]], &[u8]) = match i {
        0 => (&[b"a"], &[0x10]),
        1 => (&[b"a"], &[0x30]),
        2 => (&[b"a"], T),
        3 => (&[b"a"], &[0x90]),
        4 => (&[b"a", T], b"s"),
        5 => (&[b"a", T], b"t"),
        6 => (&[b"a", T], b"u"),
        7 => (&[b"a", T, b"t"], b"x"),
        8 => (&[b"a", T, b"t"], b"y"),
        9 => (&[b"a", &[0x90]], b"x"),
        10 => (&[b"a", &[0x10]], b"x"),
        11 => (&[b"a", &[0x30]], b"x"),
        12 => (&[], b"a"),
        13 => (&[], b"b"),
        15 => (&[], b"d"),
        16 => (&[b"d"], b"c"),
        _ => (&[b"a", &[0x10], b"x"], b"y"),
    };
    (p(path), key.to_vec())
}
pub const PLACES: usize = 15;
/// and where trees can be deleted: a tree with nothing but a tree that has an entry
const DELETED: usize = 17;

fn put(db: &GroveDb, m: &mut Node, path: &[&[u8]], key: &[u8], e: Element, t: M) {
    db.insert(path, key, e, None, None, v()).unwrap().unwrap();
    m.find(&p(path)).unwrap().put(key, t);
}
fn put_el(db: &GroveDb, m: &mut Node, path: &[&[u8]], key: &[u8], e: Element) {
    put(db, m, path, key, e.clone(), M::El(e));
}
/// the database before the batch
pub fn before(kind: u8) -> (GroveDb, Node) {
    before_with(kind, symapi::u8())
}
pub fn before_with(kind: u8, flag: u8) -> (GroveDb, Node) {
    let db = fresh();
    let mut m = Node::new(NORMAL);
    let (e, t) = empty(kind, None);
    put(&db, &mut m, &[], b"a", e, t);
    let flags = Some(vec![7, flag]);
    let e = if summing(kind) || kind == BIG { Element::SumItem(4, None) } else { Element::Item(vec![1], None) };
    put_el(&db, &mut m, &[b"a"], &[0x30], e);
    let (e, t) = empty(SUM, flags);
    put(&db, &mut m, &[b"a"], T, e, t);
    let (e, t) = empty(COUNT, None);
    put(&db, &mut m, &[b"a"], &[0x90], e, t);
    put_el(&db, &mut m, &[b"a", T], b"s", Element::SumItem(9, None));
    let (e, t) = empty(COUNTSUM, Some(vec![1]));
    put(&db, &mut m, &[b"a", T], b"t", e, t);
    put_el(&db, &mut m, &[b"a", T, b"t"], b"x", Element::SumItem(5, None));
    (db, m)
}

/// what references lead to
fn target(i: usize) -> Path {
    let (mut p, k) = place([1, 4, 0][i]);
    p.push(k);
    p
}
/// the element a reference leads to in the end, within the hops it allows
fn follow(m: &Node, path: &Path, hops: u8) -> Option<Element> {
    if hops == 0 {
        return None;
    }
    let (k, at) = path.split_last()?;
    match m.clone().find(at)?.get(k)? {
        M::El(Element::Reference(ReferencePathType::AbsolutePathReference(p), ..)) => follow(m, p, hops - 1),
        M::El(e) => Some(e.clone()),
        _ => None,
    }
}
#[derive(Clone)]
enum Do {
    /// must be absent; else an error or nothing
    New(M, bool),
    Put(M),
    Del,
    /// of a tree, of the kind given, and what to do if it has entries
    DelTree(u8, Sub),
}
type Op = (Path, Vec<u8>, Do);

fn tree_type(kind: u8) -> TreeType {
    match kind {
        NORMAL => TreeType::NormalTree,
        SUM => TreeType::SumTree,
        BIG => TreeType::BigSumTree,
        COUNT => TreeType::CountTree,
        COUNTSUM => TreeType::CountSumTree,
        PCOUNT => TreeType::ProvableCountTree,
        _ => TreeType::ProvableCountSumTree,
    }
}
/// an operation of a sort, and what it means
fn op(m: &mut Node, kind: u8, sort: usize, at: usize, first: &[Op]) -> (QualifiedGroveDbOp, Op) {
    let (path, key) = place(at);
    let made = first.iter().find_map(|(p, k, d)| match d {
        Do::Put(M::Tree(t, _)) | Do::New(M::Tree(t, _), _) if path.split_last().is_some_and(|(l, r)| r == p.as_slice() && l == k) => Some(t.kind),
        _ => None,
    });
    let there = m.find(&path);
    let exists = there.is_some();
    let parent = made.or(there.map(|n| n.kind)).unwrap_or(if path == p(&[b"a"]) { kind } else { NORMAL });
    let old = m.find(&path).and_then(|n| n.get(&key).cloned());
    let _ = exists;
    let el = |n: usize| item(if summing(parent) || parent == BIG { n } else { 0 });
    let tr = |n: usize| {
        empty([SUM, NORMAL, PCOUNT, COUNTSUM, BIG, PCOUNTSUM][n], Some(vec![3]))
    };
    let (pp, kk) = (path.clone(), key.clone());
    let (q, d) = match sort {
        0 => {
            let e = el(1);
            (QualifiedGroveDbOp::insert_or_replace_op(pp, kk, e.clone()), Do::Put(M::El(e)))
        }
        1 | 2 => {
            let (e, t) = tr(if sort == 1 { choose(2) } else { [2, 3][choose(2)] });
            (QualifiedGroveDbOp::insert_or_replace_op(pp, kk, e), Do::Put(t))
        }
        13 => {
            let (e, t) = tr(4);
            (QualifiedGroveDbOp::insert_or_replace_op(pp, kk, e), Do::Put(t))
        }
        14 => {
            let e = Element::Reference(ReferencePathType::AbsolutePathReference(target(choose(3))), if first.iter().any(|o| matches!(o.2, Do::Put(M::El(Element::Reference(..))))) { None } else { [None, Some(1)][choose(2)] }, None);
            (QualifiedGroveDbOp::insert_or_replace_op(pp, kk, e.clone()), Do::Put(M::El(e)))
        }
        3 => {
            let e = el(2);
            (QualifiedGroveDbOp::insert_if_not_exists_op(pp, kk, e.clone()), Do::New(M::El(e), true))
        }
        4 => {
            let e = el(0);
            (QualifiedGroveDbOp::insert_if_not_exists_or_skip_op(pp, kk, e.clone()), Do::New(M::El(e), false))
        }
        5 => {
            let (e, t) = tr(1);
            (QualifiedGroveDbOp::insert_if_not_exists_op(pp, kk, e), Do::New(t, true))
        }
        6 => {
            let (e, t) = tr(0);
            (QualifiedGroveDbOp::insert_if_not_exists_or_skip_op(pp, kk, e), Do::New(t, false))
        }
        7 => {
            // of what is there and no tree: the caller has to know
            assume(matches!(old, Some(M::El(_))));
            (QualifiedGroveDbOp::delete_op(pp, kk), Do::Del)
        }
        8 | 9 | 10 => {
            let Some(M::Tree(t, _)) = &old else {
                assume(false);
                unreachable!()
            };
            let (s, s2) = match sort {
                8 => (Sub::Error, Sub::Error),
                9 => (Sub::DeleteChildren, Sub::DeleteChildren),
                _ => (Sub::Skip, Sub::Skip),
            };
            (QualifiedGroveDbOp::delete_tree_op(pp, kk, tree_type(t.kind), s), Do::DelTree(t.kind, s2))
        }
        11 => {
            assume(matches!(old, Some(M::El(_))));
            let e = el(1);
            (QualifiedGroveDbOp::replace_op(pp, kk, e.clone()), Do::Put(M::El(e)))
        }
        _ => {
            assume(old.is_none());
            let e = el(0);
            (QualifiedGroveDbOp::insert_only_op(pp, kk, e.clone()), Do::Put(M::El(e)))
        }
    };
    (q, (path, key, d))
}
fn is_below(path: &Path, of: &Op) -> bool {
    path.len() > of.0.len() && path.starts_with(&of.0) && path[of.0.len()] == of.1
}
/// what a batch makes of the contents, if it can be done: the order of the operations does not matter
fn result(m: &Node, ops: &[Op], keep: bool, keep_trees: bool, lax: bool) -> Option<Node> {
    let mut m = m.clone();
    for (i, o) in ops.iter().enumerate() {
        for q in &ops[i + 1..] {
            if o.0 == q.0 && o.1 == q.1 {
                return None;
            }
        }
        if matches!(o.2, Do::Put(_) | Do::New(..)) && ops.iter().any(|d| matches!(d.2, Do::Del | Do::DelTree(..)) && is_below(&o.0, d)) {
            return None;
        }
    }
    let pre = m.clone();
    let mut live: Vec<&Op> = vec![];
    for o in ops {
        if let Do::DelTree(_, s @ (Sub::Error | Sub::Skip)) = &o.2 {
            let mut at = o.0.clone();
            at.push(o.1.clone());
            let t = pre.clone().find(&at).unwrap().clone();
            let left = t.e.iter().any(|(k, _)| !ops.iter().any(|d| d.0 == at && &d.1 == k && matches!(d.2, Do::Del | Do::DelTree(_, Sub::Error | Sub::DeleteChildren))));
            if left {
                if matches!(s, Sub::Error) {
                    return None;
                }
                continue;
            }
        }
        live.push(o);
    }
    let mut by_depth: Vec<usize> = (0..live.len()).collect();
    by_depth.sort_by_key(|&i| live[i].0.len());
    for &i in by_depth.iter().rev() {
        let o = live[i];
        if matches!(o.2, Do::Del | Do::DelTree(..)) {
            if live.iter().any(|l| is_below(&l.0, o)) {
                // what is deleted with entries left is not changed in the same batch
                if let Some(M::Tree(t, _)) = m.find(&o.0)?.get(&o.1) {
                    if !t.e.is_empty() {
                        return None;
                    }
                }
            }
            m.find(&o.0)?.del(&o.1);
        }
    }
    for &i in &by_depth {
        let o = live[i];
        let (new, absent, err) = match &o.2 {
            Do::Put(n) => (n, keep, true),
            Do::New(n, err) => (n, true, *err || keep),
            _ => continue,
        };
        let n = m.find(&o.0)?;
        if let Some(old) = n.get(&o.1) {
            if keep_trees && !matches!(old, M::El(_)) {
                return None;
            }
            if absent {
                if err {
                    return None;
                }
                continue;
            }
        }
        n.put(&o.1, new.clone());
    }
    for o in ops {
        if let Do::Put(M::El(Element::Reference(ReferencePathType::AbsolutePathReference(p), hops, _))) = &o.2 {
            if lax && *hops == Some(1) {
                let (k, at) = p.split_last()?;
                m.clone().find(at)?.get(k)?;
            } else {
                follow(&m, p, hops.unwrap_or(10))?;
            }
        }
    }
    Some(m)
}

/// cfg: kind of "a" + 8 * mode + 64 * (number of operations) + 256 * first sort + 4096 * second + 65536 * third
pub fn batch(cfg: u64) {
    let kind = (cfg & 7) as u8;
    let mode = (cfg >> 3) & 7;
    let n = (cfg >> 6) & 3;
    PLAIN.set(kind == BIG || (0..3).any(|i| (cfg >> (8 + 4 * i)) & 15 == 13));
    let (db, mut m) = before(kind);
    let deletes = |i: u64| i < n && matches!((cfg >> (8 + 4 * i)) & 15, 8..=10);
    if (0..3).any(deletes) {
        let (e, t) = empty(NORMAL, None);
        put(&db, &mut m, &[], b"d", e, t);
        let (e, t) = empty(SUM, None);
        put(&db, &mut m, &[b"d"], b"c", e, t);
        put_el(&db, &mut m, &[b"d", b"c"], b"x", Element::SumItem(1, None));
    }
    let mut ops = vec![];
    let mut qs = vec![];
    let mut mm = m.clone();
    for i in 0..n {
        let at = choose(if deletes(i) { DELETED } else { PLACES });
        let (q, o) = op(&mut mm, kind, (cfg >> (8 + 4 * i)) as usize & 15, at, &ops);
        qs.push(q);
        ops.push(o);
    }
    let keep = (cfg >> 20) & 1 == 1;
    let options = BatchApplyOptions { validate_insertion_does_not_override: keep, validate_insertion_does_not_override_tree: true, ..Default::default() };
    let want = result(&m, &ops, keep, true, false);
    let lax = result(&m, &ops, keep, true, true);
    #[cfg(feature = "native")]
    if std::env::var("SHOW").is_ok() {
        eprintln!("{qs:?}");
    }
    let tx = if matches!(mode, 1 | 2) { Some(db.start_transaction()) } else { None };
    let arg: TransactionArg = tx.as_ref();
    let got = if mode == 3 || mode == 4 {
        // paused at a height, nothing added
        let o = BatchApplyOptions { batch_pause_height: Some(mode as u8 - 2), ..options };
        db.apply_partial_batch(qs, Some(o), |_, _| Ok(vec![]), arg, v()).unwrap()
    } else {
        db.apply_batch(qs, Some(options), arg, v()).unwrap()
    };
    if got.is_ok() && want.is_none() && lax.is_some() {
        check(false, "a reference that allows one hop leads to no tree or reference");
        return;
    }
    if got.is_ok() {
        check(want.is_some(), "a batch that cannot be done is refused");
        reach("batch");
    } else {
        check(want.is_none(), "a batch that can be done is done");
        reach("refused");
    }
    let after = match want {
        Some(w) if got.is_ok() => w,
        _ => m.clone(),
    };
    let Some(tx) = tx else {
        same(&db, &after, None);
        sound(&db, &after);
        for o in ops.iter().filter(|_| got.is_ok()) {
            if let Do::Put(M::El(Element::Reference(ReferencePathType::AbsolutePathReference(p), ..))) = &o.2 {
                let e = follow(&after, p, 10).unwrap();
                check(binds(&o.0, &o.1, &e), "a reference binds what it leads to");
                check(matches!(db.get(slices(&o.0).as_slice(), &o.1, None, v()).unwrap(), Ok(x) if x == e), "a reference is followed");
                reach("reference");
            }
        }
        return;
    };
    same(&db, &after, Some(&tx));
    same(&db, &m, None);
    sound(&db, &m);
    if mode == 1 {
        db.commit_transaction(tx).unwrap().unwrap();
        same(&db, &after, None);
        sound(&db, &after);
        reach("committed");
    } else {
        db.rollback_transaction(&tx).unwrap();
        same(&db, &m, Some(&tx));
        drop(tx);
        same(&db, &m, None);
        sound(&db, &m);
        reach("rolled back");
    }
}

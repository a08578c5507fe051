//! Operations of GroveDB against the map they are documented to be.
use grovedb::operations::{delete::{ClearOptions, DeleteOptions, DeleteUpTreeOptions}, insert::InsertOptions};
use grovedb::{Element, Error, GroveDb, TransactionArg};
use grovedb_version::version::GroveVersion;
use symapi::*;

use crate::model::*;

pub fn v() -> &'static GroveVersion {
    GroveVersion::latest()
}
pub fn key() -> Vec<u8> {
    vec![symapi::u8()]
}
thread_local! {
    pub static PLAIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// the executor does not do 128-bit arithmetic on symbolic values: with big sums the amounts are
/// two given ones
pub fn small() -> i64 {
    if PLAIN.get() {
        return [-3, 1 << 50][choose(2)];
    }
    (symapi::u8() & 31) as i64 - 16
}
pub fn fresh() -> GroveDb {
    rocksdb::forget_all();
    GroveDb::open("a").unwrap()
}
pub fn item(which: usize) -> Element {
    match which {
        0 => Element::Item(bytes::<1>().to_vec(), None),
        1 => Element::SumItem(small(), None),
        2 => Element::ItemWithSumItem(bytes::<1>().to_vec(), small(), Some(bytes::<1>().to_vec())),
        _ => Element::Item(bytes::<1>().to_vec(), Some(bytes::<2>().to_vec())),
    }
}
/// one operation at a path of the model (chosen), on database and model; what they answer is the same
pub fn step(db: &GroveDb, m: &mut Node, op: usize, tx: TransactionArg) {
    let mut paths = vec![];
    m.paths(vec![], &mut paths);
    let at = choose(paths.len() + 1);
    let (path, exists) = match paths.get(at) {
        Some(p) => (p.clone(), true),
        None => (vec![b"a".to_vec(), b"none".to_vec()], false),
    };
    if !exists {
        // the wrong path: only one of the kinds of keys
        if op > 5 {
            return;
        }
    }
    let sp = slices(&path);
    let sp = sp.as_slice();
    let k = key();
    let kind = m.find(&path).map_or(NORMAL, |n| n.kind);
    let old = m.find(&path).and_then(|n| n.get(&k).cloned());
    match op {
        0..=4 => {
            let (e, new) = match op {
                0 | 1 | 2 => {
                    let e = item(op);
                    (e.clone(), M::El(e))
                }
                3 => empty([SUM, COUNTSUM, NORMAL, PCOUNTSUM][choose(4)], Some(bytes::<1>().to_vec())),
                _ => {
                    let k = [BIG, COUNT, PCOUNT, MMR][choose(4)];
                    if k == BIG {
                        PLAIN.set(true);
                    }
                    empty(k, None)
                }
            };
            let over = op == 0 && symapi::bool();
            let r = db.insert(sp, &k, e, over.then(|| InsertOptions { validate_insertion_does_not_override: true, ..Default::default() }), tx, v()).unwrap();
            if !exists {
                check(r.is_err(), "no insertion into a tree that is not there");
            } else if old.as_ref().is_some_and(|o| over || !matches!(o, M::El(_))) {
                check(matches!(r, Err(Error::OverrideNotAllowed(_))), "an insertion does not override what it must not");
            } else if matches!(op, 1 | 2) && !summing(kind) && kind != BIG {
                check(r.is_err(), "items with sums go into trees with sums");
            } else {
                check(r.is_ok(), "an insertion is done");
                m.find(&path).unwrap().put(&k, new);
                reach("insert");
            }
        }
        5 | 6 => {
            let o = DeleteOptions { allow_deleting_non_empty_trees: op == 6, ..Default::default() };
            let r = db.delete(sp, &k, Some(o), tx, v()).unwrap();
            match old {
                None => check(r.is_err(), "nothing to delete"),
                Some(M::Tree(t, _)) if op == 5 && !t.e.is_empty() => check(matches!(r, Err(Error::DeletingNonEmptyTree(_))), "a tree with entries is not deleted unasked"),
                Some(_) => {
                    check(r.is_ok(), "a deletion is done");
                    m.find(&path).unwrap().del(&k);
                    reach("delete");
                }
            }
        }
        7 => {
            let r = db.delete_if_empty_tree(sp, &k, tx, v()).unwrap();
            match old {
                None => check(r.is_err(), "nothing to delete"),
                Some(M::Tree(t, _)) if !t.e.is_empty() => check(matches!(r, Ok(false)), "a tree with entries is left"),
                Some(_) => {
                    check(matches!(r, Ok(true)), "what is empty is deleted");
                    m.find(&path).unwrap().del(&k);
                }
            }
        }
        8 => {
            let (allow, err) = [(false, true), (false, false), (true, false)][choose(3)];
            let r = db.clear_subtree(sp, Some(ClearOptions { check_for_subtrees: true, allow_deleting_subtrees: allow, trying_to_clear_with_subtrees_returns_error: err }), tx, v());
            let n = m.find(&path).unwrap();
            if n.has_trees() && !allow {
                check(if err { matches!(r, Err(Error::ClearingTreeWithSubtreesNotAllowed(_))) } else { matches!(r, Ok(false)) }, "trees are not cleared unasked");
            } else {
                check(matches!(r, Ok(true)), "a tree is cleared");
                n.e.clear();
                reach("clear");
            }
        }
        9 => {
            let e = item(if summing(kind) || kind == BIG { choose(2) } else { 0 });
            let r = db.insert_if_not_exists(sp, &k, e.clone(), tx, v()).unwrap();
            check(matches!(r, Ok(x) if x == old.is_none()), "inserted if not there");
            if old.is_none() {
                m.find(&path).unwrap().put(&k, M::El(e));
            }
        }
        10 => {
            let e = match choose(3) {
                0 => item(0),
                1 => item(3),
                _ if summing(kind) || kind == BIG => item(1),
                _ => return,
            };
            let r = db.insert_if_changed_value(sp, &k, e.clone(), tx, v()).unwrap();
            match old {
                Some(M::El(o)) if o == e => check(matches!(r, Ok((false, None))), "nothing to change"),
                Some(M::El(o)) => {
                    check(matches!(r, Ok((true, Some(x))) if x == o), "changed");
                    m.find(&path).unwrap().put(&k, M::El(e));
                }
                Some(_) => check(r.is_err(), "an insertion does not override a tree"),
                None => {
                    check(matches!(r, Ok((true, None))), "new");
                    m.find(&path).unwrap().put(&k, M::El(e));
                }
            }
        }
        11 => {
            let e = item(if summing(kind) || kind == BIG { choose(2) } else { 0 });
            let r = db.insert_if_not_exists_return_existing_element(sp, &k, e.clone(), tx, v()).unwrap();
            match old {
                Some(o) => check(matches!(r, Ok(Some(x)) if bare(&x).0 == o.shown()), "what is there is returned"),
                None => {
                    check(matches!(r, Ok(None)), "inserted");
                    m.find(&path).unwrap().put(&k, M::El(e));
                }
            }
        }
        13 => {
            let e = Element::SumItem([i64::MAX, i64::MIN, i64::MAX - 5][choose(3)], None);
            let r = db.insert(sp, &k, e.clone(), None, tx, v()).unwrap();
            let mut after = m.clone();
            if let Some(n) = after.find(&path) {
                n.put(&k, M::El(e));
            }
            if !exists || matches!(old, Some(M::Tree(..) | M::App(..))) || !(summing(kind) || kind == BIG) || after.over() {
                check(r.is_err(), "an amount that does not fit is refused");
                reach("refused");
            } else if r.is_ok() {
                *m = after;
                reach("big amount");
            } else {
                // may only be for a sum of some of the entries that does not fit
                check(kind != BIG && !m.find(&path).unwrap().e.is_empty(), "an amount that fits is taken");
            }
        }
        _ => {
            let stop = choose(2);
            let r = db.delete_up_tree_while_empty(sp, &k, &DeleteUpTreeOptions { stop_path_height: Some(stop as u16), ..Default::default() }, tx, v()).unwrap();
            match old {
                _ if path.is_empty() || path.len() == stop => check(r.is_err(), "nothing is deleted at the height to stop at"),
                None => check(r.is_err(), "nothing to delete"),
                Some(M::Tree(t, _)) if !t.e.is_empty() => check(r.is_err(), "a tree with entries is not deleted"),
                Some(_) => {
                    m.find(&path).unwrap().del(&k);
                    let mut n = 1;
                    let mut p = path.clone();
                    while p.len() > stop + 1 && m.find(&p).unwrap().e.is_empty() {
                        let last = p.pop().unwrap();
                        m.find(&p).unwrap().del(&last);
                        n += 1;
                    }
                    check(matches!(r, Ok(x) if x == n), "the emptied trees above are deleted too");
                    reach("delete up");
                }
            }
        }
    }
}
/// cfg: kind of the tree "a" + 16 * (operations) + 256 * (the first operation) + 4096 * (entries before)
/// + 65536 * (the second operation + 1, 0: any)
pub fn history(cfg: u64) {
    let db = fresh();
    let mut m = Node::new(NORMAL);
    let (kind, n, first, before) = ((cfg & 15) as u8, (cfg >> 4) & 15, (cfg >> 8) as usize & 15, (cfg >> 12) & 15);
    PLAIN.set(kind == BIG);
    let none: &[&[u8]] = &[];
    let (e, t) = empty(kind, None);
    db.insert(none, b"a", e, None, None, v()).unwrap().unwrap();
    m.put(b"a", t);
    for i in 0..before {
        let k = vec![(0x30 * (i + 1)) as u8];
        let (e, t) = if i == 1 {
            empty(SUM, None)
        } else {
            let e = if summing(kind) || kind == BIG { Element::SumItem(i as i64 + 1, None) } else { Element::Item(vec![i as u8], None) };
            (e.clone(), M::El(e))
        };
        db.insert([b"a".as_slice()].as_ref(), &k, e, None, None, v()).unwrap().unwrap();
        m.find(&[b"a".to_vec()]).unwrap().put(&k, t);
        if i == 1 {
            let e = Element::SumItem(9, None);
            db.insert([b"a".as_slice(), &k].as_ref(), b"s", e.clone(), None, None, v()).unwrap().unwrap();
            m.find(&[b"a".to_vec(), k]).unwrap().put(b"s", M::El(e));
        }
    }
    for i in 0..n {
        let second = (cfg >> 16) as usize & 15;
        let op = match i {
            0 => first,
            1 if second > 0 => second - 1,
            _ => choose(13),
        };
        step(&db, &mut m, op, None);
    }
    same(&db, &m, None);
    sound(&db, &m);
}

//! An operation during which the storage fails at any point is done whole or not at all, and what
//! is read is never wrong: the error is told.
use grovedb::batch::{QualifiedGroveDbOp, SubelementsDeletionBehavior as Sub};
use grovedb::operations::delete::{ClearOptions, DeleteOptions, DeleteUpTreeOptions};
use grovedb::{query_result_type::QueryResultType, reference_path::ReferencePathType, Element, GroveDb, PathQuery, Query, SizedQuery, TransactionArg};
use grovedb_merk::TreeType;
use symapi::*;

use crate::batch::before_with;
use crate::model::*;
use crate::ops::{v, PLAIN};

const A: &[u8] = b"a";
const T: &[u8] = &[0x60];
const MM: &[u8] = &[0xA0];
const BU: &[u8] = &[0xB0];
const DE: &[u8] = &[0xC0];

fn reference(to: &[&[u8]]) -> Element {
    Element::Reference(ReferencePathType::AbsolutePathReference(to.iter().map(|s| s.to_vec()).collect()), None, None)
}
fn setup(kind: u8) -> GroveDb {
    let (db, _) = before_with(kind, 5);
    let none: &[&[u8]] = &[];
    let put = |path: &[&[u8]], key: &[u8], e: Element| db.insert(path, key, e, None, None, v()).unwrap().unwrap();
    put(&[A], &[0x40], reference(&[A, T, b"s"]));
    put(&[A, T, b"t"], b"i", Element::Item(vec![8], None));
    put(&[A], &[0x50], Element::ProvableCountTree(None, 0, None));
    put(&[A, &[0x50]], b"x", Element::Item(vec![8], None));
    put(none, MM, Element::MmrTree(0, None));
    put(none, BU, Element::BulkAppendTree(0, 1, None));
    put(none, DE, Element::DenseAppendOnlyFixedSizeTree(0, 2, None));
    for i in 0..2u8 {
        db.mmr_tree_append(none, MM, vec![i], None, v()).unwrap().unwrap();
        db.dense_tree_insert(none, DE, vec![i], None, v()).unwrap().unwrap();
    }
    for i in 0..3u8 {
        db.bulk_append(none, BU, vec![i], None, v()).unwrap().unwrap();
    }
    db.put_aux(b"k", b"old", None, None).unwrap().unwrap();
    db
}
pub const WRITES: usize = 26;
/// a writing operation: was it done?
fn write(db: &GroveDb, kind: u8, op: usize, tx: TransactionArg) -> bool {
    let none: &[&[u8]] = &[];
    let at = |p: &[&'static [u8]]| p.to_vec();
    let el = |n: u8| if summing(kind) || kind == BIG { Element::SumItem(n as i64, None) } else { Element::Item(vec![n], None) };
    let new: &[u8] = &[0x10];
    match op {
        0 => db.insert(at(&[A]).as_slice(), new, el(3), None, tx, v()).unwrap().is_ok(),
        1 => db.insert(at(&[A]).as_slice(), &[0x30], el(8), None, tx, v()).unwrap().is_ok(),
        2 => db.insert(at(&[A]).as_slice(), new, Element::CountSumTree(None, 0, 0, Some(vec![1])), None, tx, v()).unwrap().is_ok(),
        3 => db.insert(at(&[A, T, b"t"]).as_slice(), b"y", Element::SumItem(6, None), None, tx, v()).unwrap().is_ok(),
        4 => db.insert(at(&[A]).as_slice(), new, reference(&[A, &[0x40]]), None, tx, v()).unwrap().is_ok(),
        5 => db.insert_if_not_exists(at(&[A]).as_slice(), new, el(3), tx, v()).unwrap().is_ok(),
        6 => db.insert_if_changed_value(at(&[A]).as_slice(), &[0x30], el(8), tx, v()).unwrap().is_ok(),
        7 => db.insert_if_not_exists_return_existing_element(at(&[A]).as_slice(), new, el(3), tx, v()).unwrap().is_ok(),
        8 => db.delete(at(&[A]).as_slice(), &[0x30], None, tx, v()).unwrap().is_ok(),
        9 => db.delete(at(&[A]).as_slice(), T, Some(DeleteOptions { allow_deleting_non_empty_trees: true, ..Default::default() }), tx, v()).unwrap().is_ok(),
        10 => db.delete_if_empty_tree(at(&[A]).as_slice(), &[0x90], tx, v()).unwrap().is_ok(),
        11 => db.clear_subtree(at(&[A, T]).as_slice(), Some(ClearOptions { check_for_subtrees: true, allow_deleting_subtrees: true, trying_to_clear_with_subtrees_returns_error: true }), tx, v()).is_ok(),
        12 => db.delete_up_tree_while_empty(at(&[A, &[0x50]]).as_slice(), b"x", &DeleteUpTreeOptions { stop_path_height: Some(1), ..Default::default() }, tx, v()).unwrap().is_ok(),
        13 => {
            let p = vec![A.to_vec()];
            let q = vec![A.to_vec(), new.to_vec()];
            let ops = vec![
                QualifiedGroveDbOp::insert_or_replace_op(p.clone(), new.to_vec(), Element::SumTree(None, 0, Some(vec![4]))),
                QualifiedGroveDbOp::insert_or_replace_op(q, b"z".to_vec(), Element::SumItem(2, None)),
                QualifiedGroveDbOp::delete_op(p, vec![0x30]),
            ];
            db.apply_batch(ops, None, tx, v()).unwrap().is_ok()
        }
        14 => {
            let p = vec![A.to_vec()];
            let ops = vec![
                QualifiedGroveDbOp::delete_tree_op(p.clone(), T.to_vec(), TreeType::SumTree, Sub::DeleteChildren),
                QualifiedGroveDbOp::insert_if_not_exists_op(p.clone(), new.to_vec(), el(1)),
                QualifiedGroveDbOp::insert_or_replace_op(p, vec![0x20], reference(&[A, &[0x30]])),
            ];
            db.apply_batch(ops, None, tx, v()).unwrap().is_ok()
        }
        15 => {
            let p = vec![A.to_vec()];
            let ops = vec![
                QualifiedGroveDbOp::delete_tree_op(p.clone(), vec![0x90], TreeType::CountTree, Sub::Error),
                QualifiedGroveDbOp::replace_op(p, vec![0x30], el(9)),
            ];
            db.apply_partial_batch(ops, None, |_, _| Ok(vec![]), tx, v()).unwrap().is_ok()
        }
        16 => db.mmr_tree_append(none, MM, vec![9], tx, v()).unwrap().is_ok(),
        17 => db.bulk_append(none, BU, vec![9], tx, v()).unwrap().is_ok(),
        18 => db.dense_tree_insert(none, DE, vec![9], tx, v()).unwrap().is_ok(),
        19 => {
            let ops = vec![
                QualifiedGroveDbOp::mmr_tree_append_op(vec![MM.to_vec()], vec![9]),
                QualifiedGroveDbOp::bulk_append_op(vec![BU.to_vec()], vec![9]),
                QualifiedGroveDbOp::dense_tree_insert_op(vec![DE.to_vec()], vec![9]),
            ];
            db.apply_batch(ops, None, tx, v()).unwrap().is_ok()
        }
        20 => db.put_aux(b"k", b"new", None, tx).unwrap().is_ok(),
        21 => db.delete_aux(b"k", None, tx).unwrap().is_ok(),
        // what is there is not overwritten because it could not be read
        22 => db.insert_if_not_exists(at(&[A, T, b"t"]).as_slice(), b"x", Element::SumItem(6, None), tx, v()).unwrap().is_ok(),
        23 => db.insert_if_not_exists_return_existing_element(at(&[A, T, b"t"]).as_slice(), b"x", Element::SumItem(6, None), tx, v()).unwrap().is_ok(),
        24 => db.insert_if_changed_value(at(&[A, T, b"t"]).as_slice(), b"x", Element::SumItem(5, None), tx, v()).unwrap().is_ok(),
        _ => db.delete_if_empty_tree(at(&[A]).as_slice(), T, tx, v()).unwrap().is_ok(),
    }
}
pub const READS: usize = 18;
/// what a reading operation tells; None: an error
fn read(db: &GroveDb, op: usize, tx: TransactionArg) -> Option<Vec<u8>> {
    let none: &[&[u8]] = &[];
    let at = |p: &[&'static [u8]]| p.to_vec();
    let ser = |e: Element| e.serialize(v()).unwrap();
    let all = |path: &[&[u8]], sub: bool| {
        let mut q = Query::new();
        q.insert_all();
        if sub {
            let mut s = Query::new();
            s.insert_all();
            q.set_subquery(s);
        }
        PathQuery::new(path.iter().map(|s| s.to_vec()).collect(), SizedQuery::new(q, None, None))
    };
    let one = |path: &[&[u8]], at: &[u8], key: &[u8]| {
        let mut q = Query::new();
        q.insert_key(at.to_vec());
        let mut s = Query::new();
        s.insert_key(key.to_vec());
        q.set_subquery(s);
        PathQuery::new(path.iter().map(|s| s.to_vec()).collect(), SizedQuery::new(q, None, None))
    };
    let opt = |e: Option<Element>| e.map_or(vec![0], ser);
    match op {
        0 => db.get(at(&[A]).as_slice(), &[0x30], tx, v()).unwrap().ok().map(ser),
        1 => db.get(at(&[A]).as_slice(), &[0x40], tx, v()).unwrap().ok().map(ser),
        2 => db.get_raw(at(&[A, T]).as_slice().into(), b"s", tx, v()).unwrap().ok().map(ser),
        3 => db.get_raw_optional(at(&[A, T, b"t"]).as_slice().into(), b"x", tx, v()).unwrap().ok().map(opt),
        4 => db.get_raw_optional(at(&[A]).as_slice().into(), b"nope", tx, v()).unwrap().ok().map(opt),
        5 => db.has_raw(at(&[A, T]).as_slice(), b"s", tx, v()).unwrap().ok().map(|b| vec![b as u8]),
        6 => db.is_empty_tree(at(&[A, T]).as_slice(), tx, v()).unwrap().ok().map(|b| vec![b as u8]),
        7 => db.root_hash(tx, v()).unwrap().ok().map(|h| h.to_vec()),
        8 => db.query_raw(&all(&[A, T], true), true, true, true, QueryResultType::QueryElementResultType, tx, v()).unwrap().ok().map(|(r, _)| r.to_elements().into_iter().flat_map(ser).collect()),
        9 => db.query(&all(&[A], true), true, true, true, QueryResultType::QueryElementResultType, tx, v()).unwrap().ok().map(|(r, _)| r.to_elements().into_iter().flat_map(ser).collect()),
        10 => db.query_raw_keys_optional(
            &{
                let mut q = Query::new();
                q.insert_key(vec![0x30]);
                q.insert_key(vec![0x31]);
                PathQuery::new(vec![A.to_vec()], SizedQuery::new(q, Some(4), None))
            },
            true, true, true, tx, v(),
        ).unwrap().ok().map(|r| r.into_iter().flat_map(|(_, k, e)| [k, opt(e)].concat()).collect()),
        11 => db.get_aux(b"k", tx).unwrap().ok().map(|o| o.unwrap_or(vec![])),
        12 => db.mmr_tree_get_value(none, MM, 1, tx, v()).unwrap().ok().map(|o| o.unwrap_or(vec![])),
        13 => db.bulk_get_value(none, BU, 0, tx, v()).unwrap().ok().map(|o| o.unwrap_or(vec![])),
        // asked to take what is not there for empty
        14 => db.query_raw(&all(&[A, T], true), true, true, false, QueryResultType::QueryElementResultType, tx, v()).unwrap().ok().map(|(r, _)| r.to_elements().into_iter().flat_map(ser).collect()),
        15 => db.query(&all(&[A], true), true, true, false, QueryResultType::QueryElementResultType, tx, v()).unwrap().ok().map(|(r, _)| r.to_elements().into_iter().flat_map(ser).collect()),
        16 => db.query_item_value(&one(&[A, T], b"t", b"i"), true, true, false, tx, v()).unwrap().ok().map(|(r, _)| r.concat()),
        _ => db.query_sums(&one(&[A, T], b"t", b"x"), true, true, false, tx, v()).unwrap().ok().map(|(r, _)| r.into_iter().flat_map(|s| s.to_be_bytes()).collect()),
    }
}
type All = Vec<Vec<(Vec<u8>, Vec<u8>)>>;
fn stored() -> All {
    (0..4).map(|c| rocksdb::records("a", c)).collect()
}
fn inject() {
    let n = symapi::u8();
    assume(n > 0);
    rocksdb::faults().fail_in.set(n as u64);
}
fn inject_moves() {
    let n = symapi::u8();
    assume(n > 0);
    rocksdb::faults().move_in.set(n as u64);
}
fn end_moves() -> bool {
    let f = rocksdb::faults().move_in.replace(0);
    f == 0
}
/// did it happen?
fn end() -> bool {
    let f = rocksdb::faults().fail_in.get();
    rocksdb::faults().fail_in.set(0);
    f == 0
}
/// cfg: kind of "a" + 8 * operation + 512 * mode
/// modes 7 and 8: reading and writing while an iterator fails to move;
/// modes: 0 alone, 1 in a transaction that is then committed, 2 as second operation of one,
/// 3 committing fails, 4 rolled back, 5 reading, 6 reading in a transaction with changes
pub fn fault(cfg: u64) {
    let kind = (cfg & 7) as u8;
    let op = (cfg >> 3) as usize & 63;
    let mode = (cfg >> 9) & 15;
    PLAIN.set(kind == BIG);
    let f = rocksdb::faults();
    f.fail_in.set(0);
    f.move_in.set(0);
    // what comes out without a fault: with nothing more done, and with the operation done
    let (base, want) = if mode < 3 || mode == 8 {
        let db = setup(kind);
        if mode == 2 {
            check(write(&db, kind, 20, None), "done");
        }
        let base = stored();
        check(write(&db, kind, op, None), "done");
        (base, stored())
    } else {
        (vec![], vec![])
    };
    let db = setup(kind);
    let old = stored();
    let tx = (!matches!(mode, 0 | 5 | 7 | 8)).then(|| db.start_transaction());
    match mode {
        0..=2 => {
            if mode == 2 {
                check(write(&db, kind, 20, tx.as_ref()), "done");
            }
            inject();
            let ok = write(&db, kind, op, tx.as_ref());
            let hit = end();
            if let Some(tx) = tx {
                // the direct operations that write in two steps say that a transaction in which
                // they fail is to be rolled back
                if !ok && matches!(op, 11 | 16 | 17 | 18) {
                    check(db.rollback_transaction(&tx).is_ok(), "rolled back");
                    check(stored() == old, "what fails changes nothing");
                    reach("failed");
                    return;
                }
                check(stored() == old, "what is done in a transaction is not done before it is committed");
                check(db.commit_transaction(tx).unwrap().is_ok(), "committed");
            }
            check(ok || hit, "without a fault it is done");
            let now = stored();
            check(now == if ok { want } else { base }, if ok { "what is told to be done is done, all of it" } else { "what fails changes nothing" });
            reach(if ok { "done" } else { "failed" });
            let h = db.root_hash(None, v()).unwrap().unwrap();
            let again = GroveDb::open("a").unwrap();
            check(again.root_hash(None, v()).unwrap().unwrap() == h, "the database reopened is the same");
            check(again.verify_grovedb(None, !(ok && matches!(op, 9 | 11 | 14)), false, v()).unwrap().is_empty(), "the database is in order");
        }
        8 => {
            inject_moves();
            let ok = write(&db, kind, op, None);
            let hit = end_moves();
            check(ok || hit, "without a fault it is done");
            let now = stored();
            check(now == if ok { want } else { base }, "an iterator that fails is not taken for one at its end by what writes");
            reach("moved");
        }
        7 => {
            let want = read(&db, op, None);
            check(want.is_some(), "read");
            inject_moves();
            let got = read(&db, op, None);
            let hit = end_moves();
            check(got == want || (hit && got.is_none()), "an iterator that fails is not taken for one at its end by what reads");
            reach("moved");
        }
        3 => {
            check(write(&db, kind, op, tx.as_ref()), "done");
            f.fail_in.set(1);
            let r = db.commit_transaction(tx.unwrap()).unwrap();
            check(end() && r.is_err(), "a failed commit is told");
            check(stored() == old, "a failed commit changes nothing");
            reach("commit failed");
        }
        4 => {
            let tx = tx.unwrap();
            check(write(&db, kind, op, Some(&tx)), "done");
            check(db.rollback_transaction(&tx).is_ok(), "rolled back");
            check(read(&db, 7, Some(&tx)) == read(&db, 7, None), "what is rolled back is gone");
            check(db.commit_transaction(tx).unwrap().is_ok(), "committed");
            check(stored() == old, "what is rolled back is gone");
            reach("rolled back");
        }
        _ => {
            if let Some(tx) = &tx {
                check(write(&db, kind, 0, Some(tx)), "done");
            }
            let want = read(&db, op, tx.as_ref());
            check(want.is_some(), "read");
            inject();
            let got = read(&db, op, tx.as_ref());
            let hit = end();
            check(got == want || (hit && got.is_none()), "what is read is right, or an error is told");
            reach(if got.is_none() { "error told" } else { "read" });
            drop(tx);
            check(stored() == old, "reading changes nothing");
        }
    }
}

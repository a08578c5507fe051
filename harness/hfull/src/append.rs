//! Append-only trees in the database: every value appended, directly or by batches, is there at
//! its position, is proved, and nothing is left of a tree that is deleted.
use grovedb::batch::{QualifiedGroveDbOp, SubelementsDeletionBehavior as Sub};
use grovedb::operations::delete::DeleteOptions;
use grovedb::{Element, Error, GroveDb, PathQuery, Query, SizedQuery, TransactionArg};
use grovedb_merk::TreeType;
use grovedb_query::QueryItem;
use std::ops::{RangeFrom, RangeFull, RangeInclusive};
use symapi::*;

use crate::model::*;
use crate::ops::{fresh, v, PLAIN};

const K: &[u8] = &[0x50];
struct T {
    kind: u8,
    /// the path of the tree it is in, and its own
    at: Vec<Vec<u8>>,
    path: Vec<Vec<u8>>,
    flags: Option<Vec<u8>>,
}
impl T {
    fn value(&self) -> Vec<u8> {
        if self.kind == COMMIT {
            // commitment, nullifier, encrypted note
            let mut b = vec![0; 64 + 216];
            b[5] = 7;
            b[40] = symapi::u8();
            b[100] = symapi::u8();
            return b;
        }
        vec![symapi::u8(), 3]
    }
    fn op(&self, x: &[u8]) -> QualifiedGroveDbOp {
        let p = self.path.clone();
        match self.kind {
            MMR => QualifiedGroveDbOp::mmr_tree_append_op(p, x.to_vec()),
            BULK => QualifiedGroveDbOp::bulk_append_op(p, x.to_vec()),
            DENSE => QualifiedGroveDbOp::dense_tree_insert_op(p, x.to_vec()),
            _ => QualifiedGroveDbOp::commitment_tree_insert_op(p, x[..32].try_into().unwrap(), x[32..64].try_into().unwrap(), x[64..].to_vec()),
        }
    }
    /// one value; the position it is told to have
    fn direct(&self, db: &GroveDb, x: &[u8], tx: TransactionArg) -> Result<u64, Error> {
        let at = slices(&self.at);
        let at = at.as_slice();
        match self.kind {
            MMR => db.mmr_tree_append(at, K, x.to_vec(), tx, v()).unwrap().map(|r| r.1),
            BULK => db.bulk_append(at, K, x.to_vec(), tx, v()).unwrap().map(|r| r.1),
            DENSE => db.dense_tree_insert(at, K, x.to_vec(), tx, v()).unwrap().map(|r| r.1 as u64),
            _ => {
                let n = self.count(db, tx);
                db.apply_batch(vec![self.op(x)], None, tx, v()).unwrap().map(|_| n)
            }
        }
    }
    fn get(&self, db: &GroveDb, i: u64, tx: TransactionArg) -> Option<Vec<u8>> {
        let at = slices(&self.at);
        let at = at.as_slice();
        let r = match self.kind {
            MMR => db.mmr_tree_get_value(at, K, i, tx, v()).unwrap(),
            BULK => db.bulk_get_value(at, K, i, tx, v()).unwrap(),
            DENSE => db.dense_tree_get(at, K, i as u16, tx, v()).unwrap(),
            _ => db.commitment_tree_get_value(at, K, i, tx, v()).unwrap(),
        };
        // past the end: nothing, or an error
        r.unwrap_or(None)
    }
    fn count(&self, db: &GroveDb, tx: TransactionArg) -> u64 {
        let at = slices(&self.at);
        let at = at.as_slice();
        match self.kind {
            MMR => db.mmr_tree_leaf_count(at, K, tx, v()).unwrap().unwrap(),
            BULK => db.bulk_count(at, K, tx, v()).unwrap().unwrap(),
            DENSE => db.dense_tree_count(at, K, tx, v()).unwrap().unwrap() as u64,
            _ => db.commitment_tree_count(at, K, tx, v()).unwrap().unwrap(),
        }
    }
    /// how many go in
    fn room(&self) -> usize {
        if self.kind == DENSE { 3 } else { 99 }
    }
    fn holds(&self, db: &GroveDb, vals: &[Vec<u8>], tx: TransactionArg) {
        let n = vals.len() as u64;
        check(self.count(db, tx) == n, "the count is that of the values appended");
        for (i, x) in vals.iter().enumerate() {
            check(self.get(db, i as u64, tx).as_ref() == Some(x), "a value appended is at its position");
        }
        check(self.get(db, n, tx).is_none(), "there is nothing past the last value");
        let e = db.get_raw(slices(&self.at).as_slice().into(), K, tx, v()).unwrap();
        check(matches!(e, Ok(e) if e == app_element(self.kind, n, self.flags.clone())), "the element has the count, and keeps its flags");
    }
    fn proved(&self, db: &GroveDb, vals: &[Vec<u8>]) {
        let n = vals.len() as u64;
        let key = |p: u64| if self.kind == DENSE { (p as u16).to_be_bytes().to_vec() } else { p.to_be_bytes().to_vec() };
        let a = choose(vals.len() + 1) as u64;
        let (item, lo, hi) = match choose(4) {
            0 => (QueryItem::RangeFull(RangeFull), 0, n),
            1 => (QueryItem::Key(key(a)), a, a + 1),
            2 => (QueryItem::RangeFrom(RangeFrom { start: key(a) }), a, n),
            _ => (QueryItem::RangeInclusive(RangeInclusive::new(key(0), key(a))), 0, a + 1),
        };
        let limit = [None, Some(1)][choose(2)];
        let pq = PathQuery::new(self.path.clone(), SizedQuery::new(Query { items: vec![item], left_to_right: true, ..Default::default() }, limit, None));
        let Ok(proof) = db.prove_query(&pq, None, v()).unwrap() else {
            check(n == 0 || lo >= n, "a proof is made");
            reach("no proof");
            return;
        };
        match GroveDb::verify_query(&proof, &pq, v()) {
            Err(_e) => {
                #[cfg(feature = "native")]
                eprintln!("{_e} {lo} {hi} {n}");
                check(n == 0 || lo >= n, "a proof the database makes is accepted");
                reach("not accepted");
            }
            Ok((root, got)) => {
                check(root == db.root_hash(None, v()).unwrap().unwrap(), "a proof gives the root hash");
                let mut want: Vec<_> = (lo..hi.min(n)).map(|i| (self.path.clone(), key(i), Some(Element::new_item(vals[i as usize].clone())))).collect();
                want.truncate(limit.unwrap_or(99) as usize);
                check(got == want, "a proof shows the values at the positions asked for");
                reach("proved");
            }
        }
    }
    /// a value more
    fn step(&self, db: &GroveDb, vals: &mut Vec<Vec<u8>>, op: usize) {
        let fits = |n: usize| vals.len() + n <= self.room();
        match op {
            0 => {
                let x = self.value();
                let r = self.direct(db, &x, None);
                if fits(1) {
                    check(matches!(r, Ok(i) if i == vals.len() as u64), "a value is appended and its position told");
                    vals.push(x);
                    reach("append");
                } else {
                    check(r.is_err(), "a full tree takes nothing");
                    reach("full");
                }
            }
            1 | 2 => {
                // with an entry beside it, and above
                let new: Vec<_> = (0..op).map(|_| self.value()).collect();
                let mut ops: Vec<_> = new.iter().map(|x| self.op(x)).collect();
                ops.insert(op - 1, QualifiedGroveDbOp::insert_or_replace_op(self.at.clone(), vec![0x51], Element::Item(vec![vals.len() as u8], None)));
                let r = db.apply_batch(ops, None, None, v()).unwrap();
                #[cfg(feature = "native")]
                if let Err(e) = &r {
                    eprintln!("{e}");
                }
                if fits(op) {
                    check(r.is_ok(), "a batch appends");
                    vals.extend(new);
                    reach("batch");
                } else {
                    check(r.is_err(), "a full tree takes nothing");
                    let i = db.get(slices(&self.at).as_slice(), &[0x51], None, v()).unwrap();
                    check(!matches!(i, Ok(Element::Item(x, _)) if x == [vals.len() as u8]), "a refused batch does nothing");
                }
            }
            3 | 4 => {
                let tx = db.start_transaction();
                let x = self.value();
                let r = self.direct(db, &x, Some(&tx));
                if !fits(1) {
                    check(r.is_err(), "a full tree takes nothing");
                    return;
                }
                check(r.is_ok(), "a value is appended");
                let mut more = vals.clone();
                more.push(x);
                self.holds(db, &more, Some(&tx));
                self.holds(db, vals, None);
                if op == 3 {
                    db.commit_transaction(tx).unwrap().unwrap();
                    *vals = more;
                } else {
                    db.rollback_transaction(&tx).unwrap();
                    reach("rolled back");
                }
            }
            5 => {
                // gone, and made again
                let filled = !vals.is_empty();
                if filled {
                    let r = db.delete(slices(&self.at).as_slice(), K, None, None, v()).unwrap();
                    check(matches!(r, Err(Error::DeletingNonEmptyTree(_))), "a tree with values is not deleted unasked");
                }
                let r = if choose(2) == 0 {
                    db.delete(slices(&self.at).as_slice(), K, Some(DeleteOptions { allow_deleting_non_empty_trees: true, ..Default::default() }), None, v()).unwrap()
                } else {
                    let t = match self.kind {
                        MMR => TreeType::MmrTree,
                        BULK => TreeType::BulkAppendTree(1),
                        DENSE => TreeType::DenseAppendOnlyFixedSizeTree(2),
                        _ => TreeType::CommitmentTree(1),
                    };
                    db.apply_batch(vec![QualifiedGroveDbOp::delete_tree_op(self.at.clone(), K.to_vec(), t, Sub::DeleteChildren)], None, None, v()).unwrap()
                };
                check(r.is_ok(), "a tree is deleted when asked to");
                let p = grovedb_storage::rocksdb_storage::RocksDbStorage::build_prefix(slices(&self.path).as_slice().into()).unwrap();
                check((0..4).all(|c| rocksdb::records("a", c).iter().all(|(k, _)| !k.starts_with(&p))), "nothing is left of a deleted tree");
                self.make(db);
                vals.clear();
                reach("deleted");
            }
            _ => {
                // made and filled in one batch (after the old one is gone)
                db.delete(slices(&self.at).as_slice(), K, Some(DeleteOptions { allow_deleting_non_empty_trees: true, ..Default::default() }), None, v()).unwrap().unwrap();
                vals.clear();
                let x = self.value();
                let e = app_element(self.kind, 0, self.flags.clone());
                let r = db.apply_batch(vec![QualifiedGroveDbOp::insert_or_replace_op(self.at.clone(), K.to_vec(), e), self.op(&x)], None, None, v()).unwrap();
                if r.is_ok() {
                    vals.push(x);
                    reach("made in a batch");
                } else {
                    reach("not made in a batch");
                    self.make(db);
                }
            }
        }
    }
    fn make(&self, db: &GroveDb) {
        db.insert(slices(&self.at).as_slice(), K, app_element(self.kind, 0, self.flags.clone()), None, None, v()).unwrap().unwrap();
    }
}
/// cfg: kind (0: MMR, 1: bulk, 2: dense, 3: commitment) + 4 * (kind of the tree it is in)
/// + 32 * (values before) + 256 * (first step) + 2048 * (second step + 1)
pub fn append(cfg: u64) {
    let kind = MMR + (cfg & 3) as u8;
    let parent = ((cfg >> 2) & 7) as u8;
    let before = (cfg >> 5) & 7;
    let (one, two) = ((cfg >> 8) as usize & 7, (cfg >> 11) as usize & 7);
    PLAIN.set(parent == BIG);
    let db = fresh();
    let none: &[&[u8]] = &[];
    db.insert(none, b"a", empty(parent, Some(vec![1])).0, None, None, v()).unwrap().unwrap();
    let t = T { kind, at: vec![b"a".to_vec()], path: vec![b"a".to_vec(), K.to_vec()], flags: (cfg & 4 == 0).then(|| vec![9, symapi::u8()]) };
    t.make(&db);
    let mut vals = vec![];
    for _ in 0..before {
        t.step(&db, &mut vals, 0);
    }
    t.step(&db, &mut vals, one);
    if two > 0 {
        t.step(&db, &mut vals, two - 1);
    }
    t.holds(&db, &vals, None);
    let issues = db.verify_grovedb(None, true, false, v()).unwrap();
    check(issues.is_empty(), "the database is in order");
    t.proved(&db, &vals);
    // the tree above
    let a = db.get_raw(none.into(), b"a", None, v()).unwrap().unwrap();
    let more = db.get_raw_optional([b"a".as_slice()].as_ref().into(), &[0x51], None, v()).unwrap().unwrap().is_some() as u64;
    let w = W(1 + more, 0, 0, 0);
    check(bare(&a).0 == tree_element(parent, w, Some(vec![1])), "the tree above counts it");
}

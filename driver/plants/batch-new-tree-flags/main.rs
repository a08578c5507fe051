use grovedb::{batch::*, Element, GroveDb, PathQuery, Query, SizedQuery, Error};
use grovedb_version::version::GroveVersion;
#[allow(dead_code)]
fn fl(n: u8) -> Option<Vec<u8>> { Some(vec![n]) }
fn main() {
    let db = GroveDb::open("a").unwrap();
    let v = GroveVersion::latest();
    let none: &[&[u8]] = &[];
    let a: &[&[u8]] = &[b"a"];
    let b: &[&[u8]] = &[b"b"];
    let _ = (a, b);
    let e = Element::new_count_sum_tree_with_flags(None, fl(7));
    db.apply_batch(vec![
        QualifiedGroveDbOp::insert_or_replace_op(vec![], b"a".to_vec(), e),
        QualifiedGroveDbOp::insert_or_replace_op(vec![b"a".to_vec()], b"x".to_vec(), Element::new_item(vec![1])),
    ], None, None, v).unwrap().unwrap();
    let g = db.get(none, b"a", None, v).unwrap().unwrap();
    println!("{g:?}");
    assert_eq!(g.get_flags_owned(), fl(7));
}

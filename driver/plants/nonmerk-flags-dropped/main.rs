use grovedb::{batch::*, Element, GroveDb, PathQuery, Query, SizedQuery, Error};
use grovedb_version::version::GroveVersion;
#[allow(dead_code)]
fn fl(n: u8) -> Option<Vec<u8>> { Some(vec![n]) }
fn main() {
    let db = GroveDb::open("a").unwrap();
    let v = GroveVersion::latest();
    let none: &[&[u8]] = &[];
    let a: &[&[u8]] = &[b"a"];
    let b: &[&[u8]] = &[b"b"];
    let _ = (a, b);
    db.insert(none, b"a", Element::empty_bulk_append_tree_with_flags(1, fl(9)).unwrap(), None, None, v).unwrap().unwrap();
    for i in 0..5u8 {
        db.apply_batch(vec![QualifiedGroveDbOp::bulk_append_op(vec![b"a".to_vec()], vec![i])], None, None, v).unwrap().unwrap();
        let g = db.get(none, b"a", None, v).unwrap().unwrap();
        println!("{g:?}");
        assert_eq!(g.get_flags_owned(), fl(9));
    }
}

use grovedb::{batch::*, Element, GroveDb, PathQuery, Query, SizedQuery, Error};
use grovedb_version::version::GroveVersion;
#[allow(dead_code)]
fn fl(n: u8) -> Option<Vec<u8>> { Some(vec![n]) }
fn main() {
    let db = GroveDb::open("a").unwrap();
    let v = GroveVersion::latest();
    let none: &[&[u8]] = &[];
    let a: &[&[u8]] = &[b"a"];
    let b: &[&[u8]] = &[b"b"];
    let _ = (a, b);
    db.insert(none, b"a", Element::empty_tree(), None, None, v).unwrap().unwrap();
    db.insert(a, b"b", Element::empty_tree(), None, None, v).unwrap().unwrap();
    let ab: &[&[u8]] = &[b"a", b"b"];
    db.insert(ab, b"x", Element::new_item(vec![1]), None, None, v).unwrap().unwrap();
    let before = db.root_hash(None, v).unwrap().unwrap();
    let t = grovedb::TreeType::NormalTree;
    let ops = vec![
        QualifiedGroveDbOp::delete_tree_op(vec![], b"a".to_vec(), t, SubelementsDeletionBehavior::Error),
        QualifiedGroveDbOp::delete_tree_op(vec![b"a".to_vec()], b"b".to_vec(), t, SubelementsDeletionBehavior::Skip),
    ];
    let r = db.apply_batch(ops, None, None, v).unwrap();
    println!("{r:?}");
    assert!(matches!(r, Err(Error::DeletingNonEmptyTree(_))));
    assert_eq!(db.root_hash(None, v).unwrap().unwrap(), before);
    assert_eq!(db.get(ab, b"x", None, v).unwrap().unwrap(), Element::new_item(vec![1]));
}

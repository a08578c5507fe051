use grovedb::{batch::*, Element, GroveDb, PathQuery, Query, SizedQuery, Error};
use grovedb_version::version::GroveVersion;
#[allow(dead_code)]
fn fl(n: u8) -> Option<Vec<u8>> { Some(vec![n]) }
fn main() {
    let db = GroveDb::open("a").unwrap();
    let v = GroveVersion::latest();
    let none: &[&[u8]] = &[];
    let a: &[&[u8]] = &[b"a"];
    let b: &[&[u8]] = &[b"b"];
    let _ = (a, b);
    db.insert(none, b"a", Element::empty_tree(), None, None, v).unwrap().unwrap();
    db.insert(a, b"k", Element::new_item_with_flags(vec![1], fl(1)), None, None, v).unwrap().unwrap();
    let e = Element::new_item_with_flags(vec![1], fl(2));
    let r = db.insert_if_changed_value(a, b"k", e.clone(), None, v).unwrap().unwrap();
    assert!(r.0);
    assert_eq!(db.get(a, b"k", None, v).unwrap().unwrap(), e);
    assert!(!db.insert_if_changed_value(a, b"k", e.clone(), None, v).unwrap().unwrap().0);
}

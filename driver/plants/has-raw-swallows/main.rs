use grovedb::{batch::*, Element, GroveDb, PathQuery, Query, SizedQuery, Error};
use grovedb_version::version::GroveVersion;
#[allow(dead_code)]
fn fl(n: u8) -> Option<Vec<u8>> { Some(vec![n]) }
fn main() {
    let db = GroveDb::open("a").unwrap();
    let v = GroveVersion::latest();
    let none: &[&[u8]] = &[];
    let a: &[&[u8]] = &[b"a"];
    let b: &[&[u8]] = &[b"b"];
    let _ = (a, b);
    db.insert(none, b"a", Element::empty_tree(), None, None, v).unwrap().unwrap();
    db.insert(a, b"k", Element::new_item(vec![1]), None, None, v).unwrap().unwrap();
    for n in 0..10 {
        // the n-th storage call fails: what is there is found, or an error is told
        rocksdb::faults().fail_in.set(n);
        let r = db.has_raw(a, b"k", None, v).unwrap();
        rocksdb::faults().fail_in.set(0);
        println!("{n} {r:?}");
        assert!(!matches!(r, Ok(false)));
    }
    assert!(!db.has_raw(a, b"nope", None, v).unwrap().unwrap());
}

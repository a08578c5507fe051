use grovedb::{batch::*, Element, GroveDb, PathQuery, Query, SizedQuery, Error};
use grovedb_version::version::GroveVersion;
#[allow(dead_code)]
fn fl(n: u8) -> Option<Vec<u8>> { Some(vec![n]) }
fn main() {
    let db = GroveDb::open("a").unwrap();
    let v = GroveVersion::latest();
    let none: &[&[u8]] = &[];
    let a: &[&[u8]] = &[b"a"];
    let b: &[&[u8]] = &[b"b"];
    let _ = (a, b);
    db.insert(none, b"a", Element::empty_provable_count_tree(), None, None, v).unwrap().unwrap();
    for k in [b"x", b"y", b"z"] { db.insert(a, k, Element::new_item(k.to_vec()), None, None, v).unwrap().unwrap(); }
    for ltr in [true, false] {
        let mut q = Query::new_with_direction(ltr);
        q.insert_all();
        let pq = PathQuery::new(vec![b"a".to_vec()], SizedQuery::new(q, None, None));
        let p = db.prove_query(&pq, None, v).unwrap().unwrap();
        let (h, r) = GroveDb::verify_query(&p, &pq, v).expect("an honest proof");
        assert_eq!(h, db.root_hash(None, v).unwrap().unwrap());
        assert_eq!(r.len(), 3);
        let want: Vec<&[u8]> = if ltr { vec![b"x", b"y", b"z"] } else { vec![b"z", b"y", b"x"] };
        assert_eq!(r.iter().map(|x| x.1.as_slice()).collect::<Vec<_>>(), want);
    }
}

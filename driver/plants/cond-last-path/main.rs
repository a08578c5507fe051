use grovedb::*;
use grovedb_version::version::GroveVersion;
fn main() {
    let mut q = Query::new_range_full();
    q.add_conditional_subquery(QueryItem::Key(b"k".to_vec()), Some(vec![b"c".to_vec()]), None);
    let q = PathQuery::new_unsized(vec![], q);
    let l = q.query_items_at_path(&[b"k"], GroveVersion::latest()).unwrap().unwrap();
    // the query ends at k/c, it does not go below it
    assert!(!l.has_subquery_or_matching_in_path_on_key(b"c"));
}

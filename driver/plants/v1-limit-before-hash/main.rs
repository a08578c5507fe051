use grovedb::operations::proof::*;
use grovedb::*;
use grovedb_merk::proofs::{encoding::encode_into, Node, Op};
use grovedb_version::version::GroveVersion;
use std::collections::BTreeMap;
fn enc(ops: &[Op]) -> Vec<u8> { let mut o = vec![]; encode_into(ops.iter(), &mut o); o }
fn ser(e: &Element) -> Vec<u8> { e.serialize(GroveVersion::latest()).unwrap() }
fn wrap(top: Vec<u8>, key: &[u8], low: ProofBytes) -> Vec<u8> {
    let low = LayerProof { merk_proof: low, lower_layers: BTreeMap::new() };
    let p = GroveDBProof::V1(GroveDBProofV1 { root_layer: LayerProof { merk_proof: ProofBytes::Merk(top), lower_layers: BTreeMap::from([(key.to_vec(), low)]) } });
    bincode::encode_to_vec(p, bincode::config::standard().with_big_endian().with_no_limit()).unwrap()
}
fn under(key: &[u8], sub: Query, limit: Option<u16>) -> PathQuery {
    let mut q = Query::new();
    q.insert_key(key.to_vec());
    q.set_subquery(sub);
    PathQuery::new(vec![], SizedQuery::new(q, limit, None))
}
fn vh(v: &[u8]) -> [u8; 32] { let mut b = vec![v.len() as u8]; b.extend_from_slice(v); h(&b) }
fn h(b: &[u8]) -> [u8; 32] { *blake3::hash(b).as_bytes() }
fn kv(k: &[u8], v: &[u8; 32]) -> [u8; 32] { let mut b = vec![k.len() as u8]; b.extend_from_slice(k); b.extend_from_slice(v); h(&b) }
fn cat(p: &[&[u8]]) -> [u8; 32] { h(&p.concat()) }
fn main() {
    let top = |root: [u8; 32]| {
        let t = ser(&Element::new_tree(Some(b"k".to_vec())));
        let c = cat(&[&vh(&t), &root]);
        enc(&[Op::Push(Node::KVValueHash(b"t".to_vec(), t, c))])
    };
    let low = |v: &[u8]| enc(&[Op::Push(Node::KV(b"k".to_vec(), ser(&Element::new_item(v.to_vec()))))]);
    let z = [0; 32];
    let root = cat(&[&kv(b"k", &vh(&ser(&Element::new_item(b"true".to_vec())))), &z, &z]);
    let q = under(b"t", Query::new_single_key(b"k".to_vec()), Some(1));
    let v = GroveVersion::latest();
    GroveDb::verify_query(&wrap(top(root), b"t", ProofBytes::Merk(low(b"true"))), &q, v).expect("the honest proof");
    let r = GroveDb::verify_query(&wrap(top(root), b"t", ProofBytes::Merk(low(b"forged"))), &q, v);
    assert!(r.is_err(), "{:?}", r.unwrap().1);
}

use grovedb::operations::proof::*;
use grovedb::*;
use grovedb_merk::proofs::{encoding::encode_into, Node, Op};
use grovedb_version::version::GroveVersion;
use std::collections::BTreeMap;
fn enc(ops: &[Op]) -> Vec<u8> { let mut o = vec![]; encode_into(ops.iter(), &mut o); o }
fn ser(e: &Element) -> Vec<u8> { e.serialize(GroveVersion::latest()).unwrap() }
fn wrap(top: Vec<u8>, key: &[u8], low: ProofBytes) -> Vec<u8> {
    let low = LayerProof { merk_proof: low, lower_layers: BTreeMap::new() };
    let p = GroveDBProof::V1(GroveDBProofV1 { root_layer: LayerProof { merk_proof: ProofBytes::Merk(top), lower_layers: BTreeMap::from([(key.to_vec(), low)]) } });
    bincode::encode_to_vec(p, bincode::config::standard().with_big_endian().with_no_limit()).unwrap()
}
fn under(key: &[u8], sub: Query, limit: Option<u16>) -> PathQuery {
    let mut q = Query::new();
    q.insert_key(key.to_vec());
    q.set_subquery(sub);
    PathQuery::new(vec![], SizedQuery::new(q, limit, None))
}
fn vh(v: &[u8]) -> [u8; 32] { let mut b = vec![v.len() as u8]; b.extend_from_slice(v); h(&b) }
fn h(b: &[u8]) -> [u8; 32] { *blake3::hash(b).as_bytes() }
fn kv(k: &[u8], v: &[u8; 32]) -> [u8; 32] { let mut b = vec![k.len() as u8]; b.extend_from_slice(k); b.extend_from_slice(v); h(&b) }
fn cat(p: &[&[u8]]) -> [u8; 32] { h(&p.concat()) }
use grovedb_merkle_mountain_range::*;
fn main() {
    let store = MemStore::default();
    let mut mmr = MMR::new(0, &store);
    for i in 0..2u8 { mmr.push(MmrNode::leaf(vec![i])).unwrap().unwrap(); }
    mmr.commit().unwrap().unwrap();
    let root = mmr.get_root().unwrap().unwrap().hash();
    let size = mmr.mmr_size;
    let proof = |ix: &[u64]| MmrTreeProof::generate(size, ix, |pos| Ok(MMRStoreReadOps::element_at_position(&&store, pos).unwrap().unwrap())).unwrap().encode_to_vec().unwrap();
    let t = ser(&Element::new_mmr_tree(size, None));
    let c = cat(&[&vh(&t), &root]);
    let top = enc(&[Op::Push(Node::KVValueHash(b"t".to_vec(), t, c))]);
    let q = under(b"t", Query::new_range_full(), Some(1));
    let v = GroveVersion::latest();
    let (_, r) = GroveDb::verify_query(&wrap(top.clone(), b"t", ProofBytes::MMR(proof(&[0, 1]))), &q, v).expect("the honest proof");
    assert_eq!(r[0].1, 0u64.to_be_bytes());
    let r = GroveDb::verify_query(&wrap(top, b"t", ProofBytes::MMR(proof(&[1]))), &q, v);
    assert!(r.is_err(), "the first leaf is hidden: {:?}", r.unwrap().1);
}

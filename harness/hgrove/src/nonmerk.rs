//! C21: contents of trees that are not merks (MMR, dense, bulk append, commitment) under a
//! layered proof: an accepted proof gives all the positions the query selects, with the
//! values the database has there.
use crate::layer::*;
use grovedb::operations::proof::{GroveDBProof, GroveDBProofV1, LayerProof, ProofBytes};
use grovedb::{Element, PathQuery, SizedQuery};
use grovedb_bulk_append_tree::BulkAppendTreeProof;
use grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof;
use grovedb_merk::proofs::query::{Query, QueryItem, VerifyOptions};
use grovedb_merk::proofs::{encoding::encode_into, Node, Op};
use grovedb_merkle_mountain_range::MmrTreeProof;
use grovedb_version::version::GroveVersion;
use std::collections::BTreeMap;
use symapi::*;

fn leaf(v: &[u8]) -> H {
    hash_parts(&[&[0], v])
}
fn perfect(leaves: &[Vec<u8>]) -> H {
    if leaves.len() == 1 {
        return leaf(&leaves[0]);
    }
    let (l, r) = leaves.split_at(leaves.len() / 2);
    hash_parts(&[&[1], &perfect(l), &perfect(r)])
}
fn mmr_root(leaves: &[Vec<u8>]) -> H {
    let (mut lo, mut peaks) = (0, vec![]);
    for k in (0..16).rev() {
        if leaves.len() >> k & 1 == 1 {
            peaks.push(perfect(&leaves[lo..lo + (1 << k)]));
            lo += 1 << k;
        }
    }
    let Some(mut r) = peaks.pop() else { return NULL };
    while let Some(p) = peaks.pop() {
        r = hash_parts(&[&[1], &r, &p]);
    }
    r
}
fn mmr_size(n: usize) -> u64 {
    2 * n as u64 - n.count_ones() as u64
}
fn dense_root(vals: &[Vec<u8>]) -> H {
    fn node(vals: &[Vec<u8>], p: usize) -> H {
        if p >= vals.len() {
            return NULL;
        }
        hash_parts(&[&hash_parts(&[&vals[p]]), &node(vals, 2 * p + 1), &node(vals, 2 * p + 2)])
    }
    node(vals, 0)
}
fn bulk_blobs(height: u8, vals: &[Vec<u8>]) -> (Vec<Vec<u8>>, usize) {
    let e = 1usize << height;
    let full = vals.len() / e;
    let blob = |c: usize| {
        let mut b = vec![1];
        b.extend_from_slice(&(e as u32).to_be_bytes());
        b.extend_from_slice(&1u32.to_be_bytes());
        vals[c * e..(c + 1) * e].iter().for_each(|x| b.extend_from_slice(x));
        b
    };
    ((0..full).map(blob).collect(), full * e)
}
fn bulk_root(height: u8, vals: &[Vec<u8>]) -> H {
    let (blobs, start) = bulk_blobs(height, vals);
    hash_parts(&[b"bulk_state", &mmr_root(&blobs), &dense_root(&vals[start..])])
}
fn item(kind: u64, a: Vec<u8>, b: Vec<u8>) -> QueryItem {
    match kind {
        0 => QueryItem::Key(a),
        1 => QueryItem::Range(a..b),
        2 => QueryItem::RangeInclusive(a..=b),
        3 => QueryItem::RangeFull(..),
        4 => QueryItem::RangeFrom(a..),
        5 => QueryItem::RangeTo(..a),
        6 => QueryItem::RangeToInclusive(..=a),
        7 => QueryItem::RangeAfter(a..),
        8 => QueryItem::RangeAfterTo(a..b),
        _ => QueryItem::RangeAfterToInclusive(a..=b),
    }
}
fn selects(kind: u64, a: u64, b: u64, p: u64) -> bool {
    match kind {
        0 => p == a,
        1 => a <= p && p < b,
        2 => a <= p && p <= b,
        3 => true,
        4 => a <= p,
        5 => p < a,
        6 => p <= a,
        7 => a < p,
        8 => a < p && p < b,
        _ => a < p && p <= b,
    }
}
fn element(kind: usize, n: usize, height: u8, flags: &[u8]) -> Element {
    let f = Some(flags.to_vec());
    match kind {
        0 => Element::MmrTree(mmr_size(n), f),
        1 => Element::DenseAppendOnlyFixedSizeTree(n as u16, height, f),
        2 => Element::BulkAppendTree(n as u64, height, f),
        _ => Element::CommitmentTree(n as u64, height, f),
    }
}
fn claimed_mmr(n: usize, size: u64, leaves: usize, items: usize, len: usize) -> MmrTreeProof {
    let lv = (0..leaves).map(|_| (choose(n + 1) as u64, vec(len))).collect();
    MmrTreeProof::new(size, lv, (0..items).map(|_| bytes::<32>()).collect())
}
fn claimed_dense(n: usize, e: usize, v: usize, h: usize) -> DenseTreeProof {
    let p = || choose(n + 1) as u16;
    DenseTreeProof {
        entries: (0..e).map(|_| (p(), vec(1))).collect(),
        node_value_hashes: (0..v).map(|_| (p(), bytes::<32>())).collect(),
        node_hashes: (0..h).map(|_| (p(), bytes::<32>())).collect(),
    }
}

/// cfg digits: tree kind, values, query item, attack counts (3), what the element may be, options
pub fn nonmerk(cfg: u64) {
    let d = |k: u32| (cfg / 10u64.pow(k) % 10) as usize;
    let (kind, n, qk, x, y, z, em, opt) = (d(0), d(1), d(2) as u64, d(3), d(4), d(5), d(6), d(7));
    let height = if kind == 1 { 2 } else { 1 };
    let vals: Vec<Vec<u8>> = (0..n).map(|_| vec(1)).collect();
    let flags = vec(1);
    let root = match kind {
        0 => mmr_root(&vals),
        1 => dense_root(&vals),
        2 => bulk_root(height, &vals),
        _ => hash_parts(&[b"ct_state", &bytes::<32>(), &bulk_root(height, &vals)]),
    };
    let t = vec![TNode::over(b'b', element(kind, n, height, &flags), &root)];
    let root = root_hash(&t);

    // the query
    let (a, b) = (choose(n + 1) as u64, if [1, 2, 8, 9].contains(&qk) { choose(n + 1) as u64 } else { 0 });
    let key = |p: u64| if kind == 1 { (p as u16).to_be_bytes().to_vec() } else { p.to_be_bytes().to_vec() };
    let mut items = vec![item(qk, key(a), key(b))];
    let mut sel: Vec<bool> = (0..n as u64).map(|p| selects(qk, a, b, p)).collect();
    if opt == 1 {
        // a second, single position
        let c = choose(n + 1);
        items.push(QueryItem::Key(key(c as u64)));
        if c < n {
            sel[c] = true;
        }
    }
    let limit = [None, Some(1), Some(2)][if opt == 2 { 1 + choose(2) } else { choose(3) }];
    let q = Query { items, left_to_right: true, ..Default::default() };
    let query = PathQuery::new(vec![b"b".to_vec()], SizedQuery::new(q, limit, None));

    // the claimed proof
    let (en, eh, ek) = match em {
        0 => (n, height, kind),
        1 => ([n, n + 1, n - 1][choose(3)], height, kind),
        2 => (n, [height, height + 1][choose(2)], kind),
        _ => (n, height, choose(4)),
    };
    let claimed = element(ek, en, eh, &vec(1));
    let size = if em == 1 { [mmr_size(n), mmr_size(n + 1), mmr_size(n - 1)][choose(3)] } else { mmr_size(n) };
    let bulk = || {
        let chunks = n >> height;
        BulkAppendTreeProof { chunk_proof: claimed_mmr(chunks, mmr_size(chunks), x, y, 9 + (1 << height)), buffer_proof: claimed_dense(n - (chunks << height), z, choose(2), 0) }
            .encode_to_vec()
            .unwrap()
    };
    let lower = match if em == 3 { choose(4) } else { kind } {
        0 => ProofBytes::MMR(claimed_mmr(n, size, x, y, 1).encode_to_vec().unwrap()),
        1 => ProofBytes::DenseTree(claimed_dense(n, x, y, z).encode_to_vec().unwrap()),
        2 => ProofBytes::BulkAppendTree(bulk()),
        _ => {
            let mut p = bytes::<32>().to_vec();
            p.extend_from_slice(&bulk());
            ProofBytes::CommitmentTree(p)
        }
    };
    let node = Node::KVValueHash(vec![b'b'], ser(&claimed), bytes::<32>());
    let mut top = vec![];
    encode_into([Op::Push(node)].iter(), &mut top);
    let mut lower_layers = BTreeMap::new();
    lower_layers.insert(b"b".to_vec(), LayerProof { merk_proof: lower, lower_layers: BTreeMap::new() });
    let proof = GroveDBProof::V1(GroveDBProofV1 { root_layer: LayerProof { merk_proof: ProofBytes::Merk(top), lower_layers } });
    let options = VerifyOptions {
        absence_proofs_for_non_existing_searched_keys: opt == 2,
        verify_proof_succinctness: choose(2) == 1,
        include_empty_trees_in_result: false,
    };
    let Ok((got, res)) = proof.verify_with_options(&query, options, GroveVersion::latest()) else {
        reach("contents rejected");
        return;
    };
    if got != root {
        reach("contents of another root");
        return;
    }
    reach("contents accepted");
    let path = vec![b"b".to_vec()];
    let mut want: Vec<Shown> = (0..n).filter(|p| sel[*p]).map(|p| (path.clone(), key(p as u64), Some(Element::new_item(vals[p].clone())))).collect();
    want.truncate(limit.unwrap_or(9) as usize);
    if opt == 2 {
        // absence: a single key is asked for
        want = vec![(path, key(a), want.pop().and_then(|w| w.2))];
    }
    check(res.len() == want.len(), "an accepted proof gives every position the query selects");
    for (r, w) in res.iter().zip(&want) {
        check(r.0 == w.0 && r.1 == w.1, "the positions are those of the query, in order");
        check(r.2 == w.2, "a value shown by an accepted proof is the tree's");
    }
}

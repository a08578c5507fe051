//! The MMR crate. The reference is written from the definition: a leaf's hash is
//! H(00 || value), a parent's H(01 || left || right); n leaves form perfect trees of
//! the sizes in n's binary notation, left to right from the largest; the root folds
//! the peaks from the right.
use grovedb_costs::{CostResult, CostsExt, OperationCost};
use grovedb_merkle_mountain_range::*;
use std::cell::RefCell;
use symapi::*;

fn h(tag: u8, parts: &[&[u8]]) -> [u8; 32] {
    let mut b = vec![tag];
    for p in parts {
        b.extend_from_slice(p);
    }
    *blake3_of(&b)
}
fn blake3_of(b: &[u8]) -> Box<[u8; 32]> {
    // leaf_hash(v) is H(00 || v), blake3_merge H(01 || l || r); both are compared with this in h_mmr_node
    Box::new(if b[0] == 0 { leaf_hash(&b[1..]) } else { blake3_merge(b[1..33].try_into().unwrap(), b[33..].try_into().unwrap()) })
}

/// nodes of a perfect tree over leaves[lo..lo+2^k] in position order
fn perfect(leaves: &[Vec<u8>], lo: usize, k: u32, out: &mut Vec<[u8; 32]>) -> [u8; 32] {
    let r = if k == 0 {
        h(0, &[&leaves[lo]])
    } else {
        let l = perfect(leaves, lo, k - 1, out);
        let r = perfect(leaves, lo + (1 << (k - 1)), k - 1, out);
        h(1, &[&l, &r])
    };
    out.push(r);
    r
}

/// all nodes by position, the peaks
pub fn reference(leaves: &[Vec<u8>]) -> (Vec<[u8; 32]>, Vec<[u8; 32]>) {
    let (mut nodes, mut peaks) = (vec![], vec![]);
    let mut lo = 0;
    for k in (0..32).rev() {
        if leaves.len() >> k & 1 == 1 {
            peaks.push(perfect(leaves, lo, k, &mut nodes));
            lo += 1 << k;
        }
    }
    (nodes, peaks)
}
pub fn bag(peaks: &[[u8; 32]]) -> [u8; 32] {
    let mut r = *peaks.last().unwrap();
    for p in peaks.iter().rev().skip(1) {
        r = h(1, &[&r, p]);
    }
    r
}
pub fn root_of(leaves: &[Vec<u8>]) -> [u8; 32] {
    bag(&reference(leaves).1)
}

pub fn leaves(n: usize, len: usize) -> Vec<Vec<u8>> {
    (0..n).map(|_| vec(len)).collect()
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    fill(&mut v);
    v
}

/// C10: position arithmetic; cfg is the number of bits of the index
pub fn positions(cfg: u64) {
    // an index with t trailing one bits
    let t = choose(cfg as usize + 1) as u64;
    let i = if cfg == t { (1 << t) - 1 } else { (u64() & ((1 << (cfg - t - 1)) - 1)) << (t + 1) | ((1 << t) - 1) };
    let n = i + 1;
    let size = leaf_index_to_mmr_size(i);
    check(hash_count_for_push(i) as u64 == 1 + t, "a push makes one leaf and one parent per trailing one bit");
    // n leaves make perfect trees of the sizes in n's binary notation: 2n - ones(n) nodes
    check(size + n.count_ones() as u64 == 2 * n, "the size is that of the perfect trees");
    let pos = leaf_index_to_pos(i);
    check(pos + i.count_ones() as u64 == 2 * i, "a leaf is placed at the end of the tree before it");
    check(pos + hash_count_for_push(i) as u64 == size, "the size grows by the nodes a push makes");
    if cfg <= 8 {
        check(mmr_size_to_leaf_count(size) == n, "the size tells the number of leaves");
    }
    reach("positions");
}

/// C10: storage keys are injective and ordered
pub fn keys(cfg: u64) {
    let (a, b) = (u64(), u64());
    match cfg {
        0 => {
            assume(a < 1 << 63 && b < 1 << 63);
            let (x, y) = (mmr_node_key_sized(a, MmrKeySize::U64).unwrap(), mmr_node_key_sized(b, MmrKeySize::U64).unwrap());
            check((x.as_ref() == y.as_ref()) == (a == b), "keys are injective");
            check((x.as_ref() < y.as_ref()) == (a < b), "keys are ordered");
            check(x.as_ref().len() == 8, "eight bytes");
            let (x, y) = (mmr_node_key(a), mmr_node_key(b));
            check((x == y) == (a == b) && (x < y) == (a < b), "keys are injective and ordered");
        }
        _ => {
            let (x, y) = (mmr_node_key_sized(a, MmrKeySize::U32), mmr_node_key_sized(b, MmrKeySize::U32));
            check(x.is_ok() == (a < MAX_U32_MMR_POSITION), "a short key holds positions below 2^31");
            if let (Ok(x), Ok(y)) = (x, y) {
                check((x.as_ref() == y.as_ref()) == (a == b), "keys are injective");
                check((x.as_ref() < y.as_ref()) == (a < b), "keys are ordered");
                check(x.as_ref().len() == 4, "four bytes");
            }
        }
    }
    reach("keys");
}

/// C10: nodes hash as defined and survive storage
pub fn node(cfg: u64) {
    let v = vec(cfg as usize);
    let n = MmrNode::leaf(v.clone());
    let mut b = vec![0u8];
    b.extend_from_slice(&v);
    check(n.hash() == *HASH(&b), "a leaf hashes as H(00 || value)");
    let (mut l, mut r) = ([0; 32], [0; 32]);
    fill(&mut l);
    fill(&mut r);
    let mut b = vec![1u8];
    b.extend_from_slice(&l);
    b.extend_from_slice(&r);
    check(MmrNode::merge(&MmrNode::internal(l), &MmrNode::internal(r)).hash() == *HASH(&b), "a parent hashes as H(01 || left || right)");
    for n in [n, MmrNode::internal(l)] {
        let s = n.serialize().unwrap();
        check(s.len() as u64 == n.serialized_size(), "the announced size is the written size");
        let m = MmrNode::deserialize(&s).unwrap();
        check(m.hash() == n.hash() && m.value() == n.value(), "a node survives storage");
        check(m.serialize().unwrap() == s, "and is written the same again");
    }
    reach("node");
}
#[allow(non_snake_case)]
fn HASH(b: &[u8]) -> Box<[u8; 32]> {
    Box::new(*blake3::hash(b).as_bytes())
}

/// C10: reading any bytes as a node
pub fn node_total(cfg: u64) {
    let b = vec(cfg as usize);
    alloc_limit(1 << 16);
    match MmrNode::deserialize(&b) {
        Err(_) => reach("node rejected"),
        Ok(n) => {
            check(n.serialize().unwrap() == b, "a node has one encoding");
            if b[0] == 1 {
                check(n.hash() == leaf_hash(n.value().unwrap()), "a stored leaf's hash is checked");
            }
            reach("node accepted");
        }
    }
}

/// a store that remembers only whole commits
#[derive(Default)]
struct Store(RefCell<Vec<Option<MmrNode>>>);
impl MMRStoreReadOps for &Store {
    fn element_at_position(&self, pos: u64) -> CostResult<Option<MmrNode>, Error> {
        Ok(self.0.borrow().get(pos as usize).cloned().flatten()).wrap_with_cost(OperationCost::default())
    }
}
impl MMRStoreWriteOps for &Store {
    fn append(&mut self, pos: u64, elems: Vec<MmrNode>) -> CostResult<(), Error> {
        let mut s = self.0.borrow_mut();
        for (i, e) in elems.into_iter().enumerate() {
            let p = pos as usize + i;
            if s.len() <= p {
                s.resize(p + 1, None);
            }
            s[p] = Some(e);
        }
        Ok(()).wrap_with_cost(OperationCost::default())
    }
}

/// C10: whatever is pushed, and whenever it is committed and reopened, positions and root follow the definition
pub fn push(cfg: u64) {
    let n = cfg as usize;
    let ls = leaves(n, 1);
    let store = Store::default();
    let mem = MemStore::default();
    let mut m = MMR::new(0, &store);
    let mut m2 = MMR::new(0, &mem);
    check(m.is_empty() && m.get_root().unwrap().is_err(), "an empty tree has no root");
    for i in 0..n {
        let p = m.push(MmrNode::leaf(ls[i].clone())).unwrap().unwrap();
        check(p == leaf_index_to_pos(i as u64), "the leaf's position");
        check(m2.push(MmrNode::leaf(ls[i].clone())).unwrap().unwrap() == p, "same position in the other store");
        check(m.mmr_size == leaf_index_to_mmr_size(i as u64), "the size follows");
        let want = root_of(&ls[..i + 1]);
        check(m.get_root().unwrap().unwrap().hash() == want, "the root is the definition's");
        match choose(3) {
            0 => {}
            1 => {
                m.commit().unwrap().unwrap();
                m = MMR::new(leaf_index_to_mmr_size(i as u64), &store);
            }
            _ => {
                let o = m.batch.take_overlay();
                m = MMR::new_with_overlay(leaf_index_to_mmr_size(i as u64), &store, o);
            }
        }
        check(m.get_root().unwrap().unwrap().hash() == want, "the root survives reopening");
    }
    m.commit().unwrap().unwrap();
    m2.commit().unwrap().unwrap();
    let (nodes, _) = reference(&ls);
    for (p, want) in nodes.iter().enumerate() {
        let e = (&store).element_at_position(p as u64).unwrap().unwrap();
        check(e.map(|e| e.hash()) == Some(*want), "every stored node is the definition's");
        let e = (&mem).element_at_position(p as u64).unwrap().unwrap();
        check(e.map(|e| e.hash()) == Some(*want), "every node in memory is the definition's");
    }
    check(store.0.borrow().len() == nodes.len(), "nothing else is stored");
    reach("push");
}

fn built(ls: &[Vec<u8>]) -> Store {
    let store = Store::default();
    let mut m = MMR::new(0, &store);
    for l in ls {
        m.push(MmrNode::leaf(l.clone())).unwrap().unwrap();
    }
    m.commit().unwrap().unwrap();
    store
}

/// C11: an honest proof of any leaves, in any order, verifies and yields exactly them
pub fn complete(cfg: u64) {
    let n = (cfg % 100) as usize;
    let ls = leaves(n, 1);
    let store = built(&ls);
    let size = leaf_index_to_mmr_size(n as u64 - 1);
    let mut idx: Vec<u64> = (0..n as u64).filter(|_| bool()).collect();
    let get = |p: u64| -> Result<Option<MmrNode>> { Ok(store.0.borrow().get(p as usize).cloned().flatten()) };
    if idx.is_empty() {
        check(MmrTreeProof::generate(size, &idx, get).is_err(), "nothing to prove");
        return;
    }
    match cfg / 100 {
        1 => idx.reverse(),
        2 => {
            let k = choose(idx.len());
            idx.rotate_left(k);
        }
        3 => {
            let mut bad = idx.clone();
            bad.push(idx[0]);
            check(MmrTreeProof::generate(size, &bad, get).is_err(), "a leaf asked for twice");
            let mut bad = idx.clone();
            let x = u64();
            assume(x >= n as u64);
            bad.push(x);
            check(MmrTreeProof::generate(size, &bad, get).is_err(), "a leaf that is not there");
        }
        _ => {}
    }
    let proof = MmrTreeProof::generate(size, &idx, get).unwrap();
    let proof = MmrTreeProof::decode_from_slice(&proof.encode_to_vec().unwrap()).unwrap();
    let root = root_of(&ls);
    let want: Vec<(u64, Vec<u8>)> = idx.iter().map(|&i| (i, ls[i as usize].clone())).collect();
    check(proof.mmr_size() == size, "the proof tells the size");
    check(proof.verify(&root).ok() == Some(want.clone()), "an honest proof verifies and yields its leaves");
    check(proof.verify_and_get_root().ok() == Some((root, want)), "and leads to the root");
    // the lower-level proof
    let m = MMR::new(size, &store);
    let pos: Vec<u64> = idx.iter().map(|&i| leaf_index_to_pos(i)).collect();
    let mp = m.gen_proof(pos.clone()).unwrap().unwrap();
    let pl = idx.iter().map(|&i| (leaf_index_to_pos(i), MmrNode::leaf(ls[i as usize].clone()))).collect::<Vec<_>>();
    check(mp.verify(MmrNode::internal(root), pl.clone()).ok() == Some(true), "the position proof verifies");
    let mut other = [0; 32];
    fill(&mut other);
    check(mp.verify(MmrNode::internal(other), pl.clone()).ok() == Some(other == root), "against the tree's root only");
    // appending one leaf
    let new = vec(1);
    let mut all = ls.clone();
    all.push(new.clone());
    let r = mp.calculate_root_with_new_leaf(pl, leaf_index_to_pos(n as u64), MmrNode::leaf(new), leaf_index_to_mmr_size(n as u64));
    if idx.len() == n {
        check(r.map(|x| x.hash()).ok() == Some(root_of(&all)), "the root with one more leaf");
    } else if let Ok(x) = r {
        check(x.hash() == root_of(&all), "the root with one more leaf");
    }
    reach("complete");
}

/// C11: from the old peaks and the new leaves to the new root; nothing else passes
pub fn incremental(cfg: u64) {
    let (n, d) = ((cfg % 100) as usize, (cfg / 100) as usize);
    let ls = leaves(n + d, 1);
    let (all, prev) = (root_of(&ls), root_of(&ls[..n]));
    let (_, peaks) = reference(&ls[..n]);
    let store = built(&ls);
    let m = MMR::new(leaf_index_to_mmr_size((n + d) as u64 - 1), &store);
    let proof = m.gen_proof((n..n + d).map(|i| leaf_index_to_pos(i as u64)).collect()).unwrap().unwrap();
    let inc: Vec<MmrNode> = ls[n..].iter().map(|l| MmrNode::leaf(l.clone())).collect();
    if proof.proof_items().len() == peaks.len() {
        check(proof.verify_incremental(MmrNode::internal(all), MmrNode::internal(prev), inc.clone()).ok() == Some(true), "the extension verifies");
        reach("incremental");
    }
    // any claimed predecessor, leaves and items for the true root
    let mut p = [0; 32];
    fill(&mut p);
    let items: Vec<MmrNode> = (0..peaks.len()).map(|_| MmrNode::internal({
        let mut b = [0; 32];
        fill(&mut b);
        b
    })).collect();
    let claimed = leaves(d, 1);
    let fake = MerkleProof::new(m.mmr_size, items);
    let inc = claimed.iter().map(|l| MmrNode::leaf(l.clone())).collect();
    if let Ok(true) = fake.verify_incremental(MmrNode::internal(all), MmrNode::internal(p), inc) {
        check(claimed == ls[n..], "only the true new leaves are accepted");
        check(p == prev, "and only the true predecessor");
        reach("incremental accepted");
    }
}

/// C12: against the true root and size, whatever a proof yields is a leaf of the tree
pub fn sound(cfg: u64) {
    let (n, k, m) = ((cfg % 100) as usize, (cfg / 100 % 10) as usize, (cfg / 1000) as usize);
    let ls = leaves(n, 1);
    let root = root_of(&ls);
    let size = leaf_index_to_mmr_size(n as u64 - 1);
    let lv: Vec<(u64, Vec<u8>)> = (0..k)
        .map(|_| {
            let i = u64();
            (if i < n as u64 { concretize(i) } else { i }, vec(1))
        })
        .collect();
    let items: Vec<[u8; 32]> = (0..m)
        .map(|_| {
            let mut b = [0; 32];
            fill(&mut b);
            b
        })
        .collect();
    let p = MmrTreeProof::new(size, lv.clone(), items);
    match p.verify(&root) {
        Err(_) => reach("rejected"),
        Ok(got) => {
            reach("accepted");
            for (i, v) in &got {
                check(*i < n as u64, "a proven leaf is inside the tree");
                let i = concretize(*i);
                check(i < n as u64 && *v == ls[i as usize], "a proven leaf has the tree's value");
            }
            for (i, _) in &lv {
                check(got.iter().any(|g| g.0 == *i), "no leaf of the proof is dropped silently");
            }
            check(p.verify_and_get_root().ok() == Some((root, got)), "both ways of verifying agree");
        }
    }
}

/// C12: no proof makes the verifier panic
pub fn total(cfg: u64) {
    let (case, k, m) = (cfg % 10, (cfg / 10 % 10) as usize, (cfg / 100) as usize);
    let s = u64();
    let size = match case {
        0 => {
            assume(s < 64);
            s
        }
        1 => {
            assume(s < 4);
            u64::MAX - s
        }
        2 => {
            assume(s < 8);
            (1 << 63) - 4 + s
        }
        3 => {
            assume(s < 4);
            (1 << 62) - 2 + s
        }
        _ => {
            assume(s < 64);
            (s << 32) + 5
        }
    };
    let size = concretize(size);
    let lv: Vec<(u64, Vec<u8>)> = (0..k)
        .map(|_| {
            let i = u64();
            let j = match choose(3) {
                0 => {
                    assume(i < 4);
                    i
                }
                1 => {
                    assume(i < 4);
                    (1u64 << 63) - 1 - i
                }
                _ => {
                    assume(i < 4);
                    mmr_size_to_leaf_count(size).wrapping_sub(i)
                }
            };
            (concretize(j), vec(1))
        })
        .collect();
    let items = vec![[7; 32]; m];
    let p = MmrTreeProof::new(size, lv, items);
    let a = p.verify(&[1; 32]);
    check(a.is_err(), "and it does not verify");
    let _ = p.verify_and_get_root();
    reach("total");
}

/// C12: reading any bytes as a proof
pub fn decode(cfg: u64) {
    let b = vec(cfg as usize);
    alloc_limit(100 << 20);
    match MmrTreeProof::decode_from_slice(&b) {
        Err(_) => reach("proof rejected"),
        Ok(p) => {
            let e = p.encode_to_vec().unwrap();
            check(e.len() <= b.len(), "no encoding is shorter");
            let q = MmrTreeProof::decode_from_slice(&e).unwrap();
            check(q.mmr_size() == p.mmr_size() && q.leaves() == p.leaves() && q.proof_items() == p.proof_items(), "a proof survives re-encoding");
            reach("proof accepted");
        }
    }
}

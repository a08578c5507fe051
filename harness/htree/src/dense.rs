//! The dense fixed-size tree: node p holds the p-th value, its children are 2p+1 and 2p+2, its
//! hash is H(H(value) || left || right), a missing child counts as 32 zero bytes.
use crate::mmr::vec;
use crate::store::Store;
use grovedb_dense_fixed_sized_merkle_tree::*;
use grovedb_query::{Query, QueryItem};
use symapi::*;

type Tree = DenseFixedSizedMerkleTree<Store>;
type Entries = Vec<(u16, Vec<u8>)>;

fn H(b: &[u8]) -> [u8; 32] {
    *blake3::hash(b).as_bytes()
}
pub fn spec_root(vals: &[Vec<u8>]) -> [u8; 32] {
    fn node(vals: &[Vec<u8>], p: usize) -> [u8; 32] {
        if p >= vals.len() {
            return [0; 32];
        }
        let mut b = H(&vals[p]).to_vec();
        b.extend_from_slice(&node(vals, 2 * p + 1));
        b.extend_from_slice(&node(vals, 2 * p + 2));
        H(&b)
    }
    node(vals, 0)
}
fn hash() -> [u8; 32] {
    let mut b = [0; 32];
    fill(&mut b);
    b
}

/// C13: histories of insertions, reloads, resets and storage faults
pub fn history(cfg: u64) {
    let (height, steps) = ((cfg % 10) as u8, cfg / 10 % 10);
    let faults = cfg / 100 % 10 == 1;
    let store = Store::default();
    let mut t = Tree::new(height, store.clone()).unwrap();
    let cap = (1usize << height) - 1;
    let mut vals: Vec<Vec<u8>> = vec![];
    check(t.capacity() as usize == cap && t.height() == height, "the capacity follows the height");
    let mut fault_left = faults;
    for _ in 0..steps {
        match choose(4) {
            0 => {
                // reload from storage
                t = Tree::from_state(height, vals.len() as u16, store.clone()).unwrap();
            }
            1 if !vals.is_empty() => {
                t.reset();
                vals.clear();
            }
            k => {
                let v = vec(1);
                if fault_left && bool() {
                    store.0.fail_in.set(1 + choose(3) as u64);
                    store.0.failed.set(false);
                    fault_left = false;
                }
                let r = if k == 2 { t.insert(&v).unwrap().map(Some) } else { t.try_insert(&v).unwrap() };
                store.0.fail_in.set(0);
                if store.0.failed.replace(false) {
                    check(r.is_err(), "a storage fault is reported");
                    reach("dense fault");
                } else if vals.len() == cap {
                    check(if k == 2 { matches!(r, Err(DenseMerkleError::TreeFull { .. })) } else { matches!(r, Ok(None)) }, "a full tree takes nothing");
                } else {
                    vals.push(v);
                    check(r.ok() == Some(Some((spec_root(&vals), vals.len() as u16 - 1))), "an insertion yields position and root");
                }
            }
        }
        check(t.count() as usize == vals.len(), "the count");
        check(t.root_hash().unwrap().ok() == Some(spec_root(&vals)), "the root is the definition's");
        for p in 0..=cap {
            check(t.get(p as u16).unwrap().ok() == Some(vals.get(p).cloned()), "every position yields its value");
        }
    }
    let p = u16();
    assume(p as usize >= vals.len());
    check(matches!(t.get(p).unwrap(), Ok(None)), "nothing beyond the count");
    check(Tree::from_state(height, cap as u16, store.clone()).is_ok() && (height == 16 || Tree::from_state(height, cap as u16 + 1, store.clone()).is_err()), "no state beyond the capacity");
    check(Tree::new(0, store.clone()).is_err() && Tree::new(17, store).is_err(), "heights 1 to 16");
    reach("dense history");
}

fn built(height: u8, vals: &[Vec<u8>]) -> Tree {
    let mut t = Tree::new(height, Store::default()).unwrap();
    for v in vals {
        t.insert(v).unwrap().unwrap();
    }
    t
}

/// C14: an honest proof of any positions verifies and yields exactly them
pub fn complete(cfg: u64) {
    let (height, n) = ((cfg % 10) as u8, (cfg / 10) as usize);
    let vals: Vec<Vec<u8>> = (0..n).map(|_| vec(1)).collect();
    let t = built(height, &vals);
    let mut pos: Vec<u16> = (0..n as u16).filter(|_| bool()).collect();
    let want: Entries = pos.iter().map(|&p| (p, vals[p as usize].clone())).collect();
    if bool() {
        pos.reverse();
    }
    if n == 0 {
        return;
    }
    let p = DenseTreeProof::generate(&t, &pos).unwrap().unwrap();
    let p = DenseTreeProof::decode_from_slice(&p.encode_to_vec().unwrap()).unwrap();
    let root = spec_root(&vals);
    if pos.is_empty() {
        // nothing proved: the proof carries nothing
        reach("dense complete");
        return;
    }
    check(p.verify_against_expected_root::<Entries>(&root, height, n as u16).ok() == Some(want.clone()), "an honest proof verifies and yields its values");
    check(p.verify_and_get_root::<Entries>(height, n as u16).ok() == Some((root, want)), "and leads to the root");
    let other = hash();
    check(p.verify_against_expected_root::<Entries>(&other, height, n as u16).is_ok() == (other == root), "against the tree's root only");
    let bad = u16();
    assume(bad as usize >= n);
    pos.push(bad);
    check(DenseTreeProof::generate(&t, &pos).unwrap().is_err(), "positions beyond the count are refused");
    reach("dense complete");
}

pub fn item(kind: u64, a: Vec<u8>, b: Vec<u8>) -> QueryItem {
    match kind {
        0 => QueryItem::Key(a),
        1 => QueryItem::Range(a..b),
        2 => QueryItem::RangeInclusive(a..=b),
        3 => QueryItem::RangeFull(..),
        4 => QueryItem::RangeFrom(a..),
        5 => QueryItem::RangeTo(..a),
        6 => QueryItem::RangeToInclusive(..=a),
        7 => QueryItem::RangeAfter(a..),
        8 => QueryItem::RangeAfterTo(a..b),
        _ => QueryItem::RangeAfterToInclusive(a..=b),
    }
}
pub fn selects(kind: u64, a: u64, b: u64, p: u64) -> bool {
    match kind {
        0 => p == a,
        1 => a <= p && p < b,
        2 => a <= p && p <= b,
        3 => true,
        4 => a <= p,
        5 => p < a,
        6 => p <= a,
        7 => a < p,
        8 => a < p && p < b,
        _ => a < p && p <= b,
    }
}
/// a position bound as a query writes it; small, or any
fn bound(n: usize) -> (u64, Vec<u8>) {
    match choose(3) {
        0 => {
            let b = u8();
            assume(b as usize <= n + 1);
            let b = concretize(b as u64);
            (b, vec![b as u8])
        }
        1 => {
            let b = u8();
            assume(b as usize <= n + 1);
            let b = concretize(b as u64);
            (b, vec![0, b as u8])
        }
        _ => {
            let b = u16();
            assume(b as usize > n);
            // far beyond: only the extremes
            assume(b == 256 || b == 65535);
            let b = concretize(b as u64);
            (b, (b as u16).to_be_bytes().to_vec())
        }
    }
}

/// C14: a query selects the positions its items say, no more, no less, and the proof shows it
pub fn query(cfg: u64) {
    let (kind, n, kind2) = (cfg % 10, (cfg / 10 % 10) as usize, cfg / 100);
    let height = if n < 2 { 1 } else if n < 4 { 2 } else { 3 };
    let vals: Vec<Vec<u8>> = (0..n).map(|_| vec(1)).collect();
    let t = built(height, &vals);
    let (a, ab) = bound(n);
    let (b, bb) = bound(n);
    let mut items = vec![item(kind, ab, bb)];
    let mut sel: Vec<bool> = (0..n).map(|p| selects(kind, a, b, p as u64)).collect();
    if kind2 < 10 {
        let (c, cb) = bound(n);
        items.push(item(kind2, cb.clone(), cb));
        for (p, s) in sel.iter_mut().enumerate() {
            *s |= selects(kind2, c, c, p as u64);
        }
    }
    let mut q = Query::new();
    q.items = items;
    let want: Entries = (0..n).filter(|&p| sel[p]).map(|p| (p as u16, vals[p].clone())).collect();
    let proof = DenseTreeProof::generate_for_query(&t, &q).unwrap();
    match proof {
        Ok(p) => {
            let p = DenseTreeProof::decode_from_slice(&p.encode_to_vec().unwrap()).unwrap();
            check(p.entries == want, "the proof carries exactly the selected positions");
            let r = p.verify_for_query::<Entries>(&q, height, n as u16);
            if want.is_empty() {
                if let Ok((_, e)) = r {
                    check(e.is_empty(), "nothing selected, nothing yielded");
                }
            } else {
                check(r.ok() == Some((spec_root(&vals), want)), "and it verifies for the query");
            }
            reach("dense query");
        }
        Err(_) => check(false, "every query can be proved"),
    }
}

fn claimed(n: usize, e: usize, v: usize, h: usize) -> DenseTreeProof {
    let mut at = || {
        let p = u16();
        (if (p as usize) < n + 2 { concretize(p as u64) as u16 } else { p }) as u16
    };
    DenseTreeProof {
        entries: (0..e).map(|_| (at(), vec(1))).collect(),
        node_value_hashes: (0..v).map(|_| (at(), hash())).collect(),
        node_hashes: (0..h).map(|_| (at(), hash())).collect(),
    }
}

/// C15: against the true root, height and count every yielded value is the tree's
pub fn sound(cfg: u64) {
    let (n, e, v, h) = ((cfg % 10) as usize, (cfg / 10 % 10) as usize, (cfg / 100 % 10) as usize, (cfg / 1000) as usize);
    let height = if n < 2 { 1 } else if n < 4 { 2 } else { 3 };
    let vals: Vec<Vec<u8>> = (0..n).map(|_| vec(1)).collect();
    let root = spec_root(&vals);
    let p = claimed(n, e, v, h);
    match p.verify_against_expected_root::<Entries>(&root, height, n as u16) {
        Err(_) => reach("dense rejected"),
        Ok(got) => {
            reach("dense accepted");
            check(got == p.entries, "what is yielded is what is claimed");
            for (p, x) in &got {
                check((*p as usize) < n, "inside the tree");
                check(*x == vals[*p as usize], "a proven value is the tree's");
            }
            // and a query gets all it selects, or nothing
            let k = choose(4) as u64;
            let mut q = Query::new();
            let kind = [0, 2, 4, 3][k as usize];
            let a = choose(n);
            q.items = vec![item(kind, vec![0, a as u8], vec![0, n as u8])];
            if let Ok((r, got)) = p.verify_for_query::<Entries>(&q, height, n as u16) {
                check(r == root, "same root");
                let mut got: Vec<u16> = got.iter().map(|x| x.0).collect();
                got.sort();
                let want: Vec<u16> = (0..n as u16).filter(|&p| selects(kind, a as u64, n as u64, p as u64)).collect();
                check(got == want, "a proof accepted for a query yields exactly its positions");
                reach("dense query accepted");
            }
        }
    }
}

/// C15: any proof against any height and count gets an answer
pub fn total(cfg: u64) {
    let (e, v, h) = ((cfg % 10) as usize, (cfg / 10 % 10) as usize, (cfg / 100) as usize);
    let height = u8();
    assume(height <= 4 || height >= 16);
    let height = concretize(height as u64) as u8;
    let count = u16();
    assume(count <= 3 || count >= 65534 || count == 255);
    let count = concretize(count as u64) as u16;
    let p = claimed(3, e, v, h);
    if let Ok((_, got)) = p.verify_and_get_root::<Entries>(height, count) {
        check((1..=16).contains(&height) && count as u32 <= (1 << height) - 1, "only trees that can be");
        for (p, _) in got {
            check(p < count, "only positions inside");
        }
        reach("dense total");
    }
}

/// C15: reading any bytes as a proof
pub fn decode(cfg: u64) {
    let b = vec(cfg as usize);
    alloc_limit(100 << 20);
    match DenseTreeProof::decode_from_slice(&b) {
        Err(_) => reach("dense proof rejected"),
        Ok(p) => {
            let e = p.encode_to_vec().unwrap();
            check(e.len() <= b.len(), "no encoding is shorter");
            let q = DenseTreeProof::decode_from_slice(&e).unwrap();
            check(q.entries == p.entries && q.node_value_hashes == p.node_value_hashes && q.node_hashes == p.node_hashes, "a proof survives re-encoding");
            reach("dense proof accepted");
        }
    }
}

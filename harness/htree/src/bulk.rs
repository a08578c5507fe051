//! The bulk append tree: values fill a dense tree of 2^height - 1; the value that no longer fits
//! is packed with them into a chunk blob, a leaf of an MMR, and the dense tree starts empty. The
//! state root is H("bulk_state" || MMR root || dense root), an empty part counting as zeros.
use crate::dense::{item, selects, spec_root};
use crate::mmr::{leaves, root_of, vec};
use crate::store::Store;
use grovedb_bulk_append_tree::*;
use grovedb_merkle_mountain_range::MmrTreeProof;
use grovedb_query::Query;
use symapi::*;

type Tree = BulkAppendTree<Store>;
type Got = Vec<(u64, Vec<u8>)>;

fn spec_blob(v: &[Vec<u8>]) -> Vec<u8> {
    let mut b;
    if v.iter().all(|x| x.len() == v[0].len()) {
        b = vec![1];
        b.extend_from_slice(&(v.len() as u32).to_be_bytes());
        b.extend_from_slice(&(v[0].len() as u32).to_be_bytes());
        v.iter().for_each(|x| b.extend_from_slice(x));
    } else {
        b = vec![0];
        for x in v {
            b.extend_from_slice(&(x.len() as u32).to_be_bytes());
            b.extend_from_slice(x);
        }
    }
    b
}
fn spec_blobs(height: u8, vals: &[Vec<u8>]) -> (Vec<Vec<u8>>, usize) {
    let e = 1usize << height;
    let full = vals.len() / e;
    ((0..full).map(|c| spec_blob(&vals[c * e..(c + 1) * e])).collect(), full * e)
}
fn spec_state(height: u8, vals: &[Vec<u8>]) -> [u8; 32] {
    let (blobs, start) = spec_blobs(height, vals);
    let mut b = b"bulk_state".to_vec();
    b.extend_from_slice(&if blobs.is_empty() { [0; 32] } else { root_of(&blobs) });
    b.extend_from_slice(&spec_root(&vals[start..]));
    *blake3::hash(&b).as_bytes()
}
fn hash() -> [u8; 32] {
    let mut b = [0; 32];
    fill(&mut b);
    b
}

fn same(t: &Tree, height: u8, vals: &[Vec<u8>]) {
    let (blobs, start) = spec_blobs(height, vals);
    check(t.total_count == vals.len() as u64 && t.chunk_count() == blobs.len() as u64, "the counts");
    check(t.buffer_count() as usize == vals.len() - start, "the buffer holds the rest");
    check(t.mmr_size() == 2 * blobs.len() as u64 - (blobs.len() as u64).count_ones() as u64, "the MMR holds the chunks");
    check(t.compute_current_state_root().ok() == Some(spec_state(height, vals)), "the state root is the definition's");
    for p in 0..1usize << height {
        check(t.get_buffer_value(p as u16).ok() == Some(vals.get(start + p).cloned()), "every buffered value is there");
    }
    for c in 0..=blobs.len() {
        check(t.get_chunk_value(c as u64).ok() == Some(blobs.get(c).cloned()), "every chunk is there");
    }
}

/// C16: histories of appends, commits, reloads and storage faults.
/// cfg: height, steps, faults, values appended before (they are committed)
pub fn history(cfg: u64) {
    let (height, steps, faults, before) = ((cfg % 10) as u8, cfg / 10 % 10, cfg / 100 % 10, cfg / 1000);
    let store = Store::default();
    let mut t = Tree::new(height, store.clone()).unwrap();
    let cap = (1usize << height) - 1;
    check(t.capacity() as usize == cap && t.height() == height && t.epoch_size() == cap as u64 + 1, "the capacity follows the height");
    let mut vals: Vec<Vec<u8>> = vec![];
    for _ in 0..before {
        vals.push(vec(1));
        t.append(vals.last().unwrap()).unwrap();
    }
    t.commit_mmr().unwrap();
    let mut fault_left = faults;
    for _ in 0..steps {
        let op = choose(4);
        if fault_left > 0 && op < 3 && bool() {
            store.0.fail_in.set(1 + choose(3) as u64);
            fault_left -= 1;
        }
        store.0.failed.set(false);
        match op {
            0 | 1 => {
                let v = vec(1 + op);
                let r = t.append(&v);
                store.0.fail_in.set(0);
                if store.0.failed.get() {
                    check(r.is_err(), "a storage fault is reported");
                    reach("bulk fault");
                } else {
                    let full = vals.len() % (cap + 1) == cap;
                    let chunks = vals.len() as u64 / (cap as u64 + 1);
                    let hashes = 1 + if full { 1 + chunks.trailing_ones() } else { 2 * (vals.len() % (cap + 1) + 1) as u32 };
                    vals.push(v);
                    match r {
                        Ok(r) => {
                            check(r.state_root == spec_state(height, &vals), "an append yields the state root");
                            check(r.global_position == vals.len() as u64 - 1, "and the position");
                            check(r.compacted == full, "and whether it completed a chunk");
                            check(r.hash_count == hashes, "and how many hashes it took");
                        }
                        Err(_) => check(false, "an append succeeds"),
                    }
                }
            }
            k => {
                let r = t.commit_mmr();
                store.0.fail_in.set(0);
                if store.0.failed.get() {
                    check(r.is_err(), "a storage fault is reported");
                    reach("bulk commit fault");
                } else {
                    check(r.is_ok(), "a commit succeeds");
                    if k == 3 {
                        t = Tree::from_state(vals.len() as u64, height, store.clone()).unwrap();
                    }
                }
            }
        }
        same(&t, height, &vals);
    }
    check(t.commit_mmr().is_ok(), "a last commit succeeds");
    let t = Tree::from_state(vals.len() as u64, height, store.clone()).unwrap();
    same(&t, height, &vals);
    let p = u16();
    assume(p as usize >= vals.len() % (cap + 1));
    check(matches!(t.get_buffer_value(p), Ok(None)), "nothing beyond the buffer");
    let c = u64();
    assume(c >= t.chunk_count());
    check(matches!(t.get_chunk_value(c), Ok(None)), "no chunk beyond the last");
    check(Tree::new(0, store.clone()).is_err() && Tree::new(17, store.clone()).is_err() && Tree::from_state(0, 0, store.clone()).is_err() && Tree::from_state(0, 17, store).is_err(), "heights 1 to 16");
    reach("bulk history");
}

fn built(height: u8, vals: &[Vec<u8>]) -> Tree {
    let mut t = Tree::new(height, Store::default()).unwrap();
    for v in vals {
        t.append(v).unwrap();
    }
    t
}

/// a global position as a query writes it: 1, 2 or 8 bytes; small, or huge
fn bound(n: usize) -> (u64, Vec<u8>) {
    let b = choose(n + 4) as u64;
    if b < n as u64 + 2 {
        (b, [0, b as u8][(b % 2) as usize..].to_vec())
    } else if b == n as u64 + 2 {
        (n as u64, (n as u64).to_be_bytes().to_vec())
    } else {
        (u64::MAX, [255; 8].to_vec())
    }
}

/// C17: any query over any tree can be proved, and the proof yields exactly what it selects.
/// cfg: kind, n, height, second kind (10: none)
pub fn complete(cfg: u64) {
    let (kind, n, height, kind2) = (cfg % 10, (cfg / 10 % 10) as usize, (cfg / 100 % 10) as u8, cfg / 1000);
    let vals: Vec<Vec<u8>> = (0..n).map(|i| vec(1 + (i == 1) as usize)).collect();
    let mut t = built(height, &vals);
    if kind % 2 == 1 {
        t.commit_mmr().unwrap();
    }
    let two = matches!(kind, 1 | 2 | 8 | 9);
    let (a, ab) = bound(n);
    let (b, bb) = if two { bound(n) } else { (0, vec![0]) };
    let mut items = vec![item(kind, ab, bb)];
    let mut sel: Vec<bool> = (0..n).map(|p| selects(kind, a, b, p as u64)).collect();
    if kind2 < 10 {
        let (c, d) = (choose(n + 2) as u64, choose(n + 2) as u64);
        items.push(item(kind2, vec![c as u8], vec![d as u8]));
        for (p, s) in sel.iter_mut().enumerate() {
            *s |= selects(kind2, c, d, p as u64);
        }
    }
    let mut q = Query::new();
    q.items = items;
    let want: Got = (0..n).filter(|&p| sel[p]).map(|p| (p as u64, vals[p].clone())).collect();
    let root = spec_state(height, &vals);
    match BulkAppendTreeProof::generate(&q, &t) {
        Err(_) => check(false, "every query can be proved"),
        Ok(p) => {
            let p = BulkAppendTreeProof::decode_from_slice(&p.encode_to_vec().unwrap()).unwrap();
            check(p.verify_against_query::<Got>(&root, height, n as u64, &q).ok() == Some(want), "the proof yields exactly the selected values");
            match p.verify(&root, height, n as u64) {
                Ok(r) => {
                    let all: Vec<u64> = r.values_in_range(0, u64::MAX).unwrap().into_iter().map(|x| x.0).collect();
                    check((0..n).all(|p| !sel[p] || all.contains(&(p as u64))), "and verifies");
                    let (s, e) = if kind == 3 { (choose(n + 1) as u64, choose(n + 2) as u64) } else { (a, b) };
                    let part = r.values_in_range(s, e).unwrap();
                    let spec: Got = all.iter().filter(|&&p| s <= p && p < e).map(|&p| (p, vals[p as usize].clone())).collect();
                    check(part == spec, "a range of a proof's values is the tree's values in the range");
                }
                Err(_) => check(false, "and verifies"),
            }
            let other = hash();
            check(p.verify_against_query::<Got>(&other, height, n as u64, &q).is_ok() == (other == root), "against the tree's root only");
            reach("bulk complete");
        }
    }
}

/// C17: the chunk and buffer queries of the tree itself
pub fn queries(cfg: u64) {
    let (n, height) = ((cfg % 10) as usize, (cfg / 10) as u8);
    let vals: Vec<Vec<u8>> = (0..n).map(|_| vec(1)).collect();
    let t = built(height, &vals);
    let (blobs, start) = spec_blobs(height, &vals);
    let mut idx: Vec<u64> = (0..blobs.len() as u64).filter(|_| bool()).collect();
    if bool() {
        idx.reverse();
    }
    let r = t.query_chunks(&idx).unwrap();
    check(r.chunks.len() == idx.len(), "every chunk asked for");
    for (k, (i, vs)) in r.chunks.iter().enumerate() {
        let s = (*i as usize) << height;
        check(*i == idx[k] && vs[..] == vals[s..s + (1 << height)], "a chunk yields its values");
    }
    if !idx.is_empty() {
        check(r.mmr_root == root_of(&blobs), "and the chunks' root");
        let p = MmrTreeProof::new(t.mmr_size(), idx.iter().map(|&i| (i, blobs[i as usize].clone())).collect(), r.mmr_proof_items);
        check(p.verify(&r.mmr_root).is_ok(), "the chunks' proof verifies");
    }
    let bad = u64();
    assume(bad >= blobs.len() as u64);
    idx.push(bad);
    check(t.query_chunks(&idx).is_err(), "a chunk that is not there is an error");
    let k = choose(10) as u64;
    let (a, b) = (choose(4) as u64, choose(4) as u64);
    let mut q = Query::new();
    q.items = vec![item(k, vec![a as u8], vec![b as u8])];
    let r = t.query_buffer(&q).unwrap();
    let m = n - start;
    let want: Vec<(u16, Vec<u8>)> = (0..m).filter(|&p| selects(k, a, b, p as u64)).map(|p| (p as u16, vals[start + p].clone())).collect();
    check(r.entries == want, "a buffer query yields the selected values");
    if !want.is_empty() {
        check(r.proof.verify_and_get_root::<Vec<(u16, Vec<u8>)>>(height, m as u16).ok() == Some((spec_root(&vals[start..]), want)), "and its proof verifies");
    }
    reach("bulk queries");
}

fn claimed(n: usize, height: u8, c: usize, items: usize, e: usize, v: usize, h: usize) -> BulkAppendTreeProof {
    let chunks = n >> height;
    let mut lv: Got = vec![];
    for _ in 0..c {
        let i = u64();
        let i = if i < chunks as u64 { concretize(i) } else { i };
        // as long as a chunk of one-byte values, or a short one
        let len = if bool() { 9 + (1 << height) } else { 1 };
        lv.push((i, vec(len)));
    }
    let size = u64();
    let real = 2 * chunks as u64 - (chunks as u64).count_ones() as u64;
    let size = if size == real { real } else { size };
    assume(size < 64);
    let size = concretize(size);
    let mut at = || {
        let p = u16();
        if p < 4 { concretize(p as u64) as u16 } else { p }
    };
    BulkAppendTreeProof {
        chunk_proof: MmrTreeProof::new(size, lv, (0..items).map(|_| hash()).collect()),
        buffer_proof: DenseTreeProof {
            entries: (0..e).map(|_| (at(), vec(1))).collect(),
            node_value_hashes: (0..v).map(|_| (at(), hash())).collect(),
            node_hashes: (0..h).map(|_| (at(), hash())).collect(),
        },
    }
}

/// C17: whatever an accepted proof yields is the tree's, and all of what the query selects.
/// cfg: n, chunk leaves, items, entries, value hashes, hashes, height
pub fn sound(cfg: u64) {
    let d = |k: u32| (cfg / 10u64.pow(k) % 10) as usize;
    let (n, c, m, e, v, h, height) = (d(0), d(1), d(2), d(3), d(4), d(5), 1 + d(6) as u8);
    let vals = leaves(n, 1);
    let root = spec_state(height, &vals);
    let (blobs, start) = spec_blobs(height, &vals);
    let p = claimed(n, height, c, m, e, v, h);
    match p.verify(&root, height, n as u64) {
        Err(_) => {
            let mut q = Query::new();
            q.items = vec![item(3, vec![], vec![])];
            check(p.verify_against_query::<Got>(&root, height, n as u64, &q).is_err(), "no query accepts what does not verify");
            reach("bulk rejected")
        }
        Ok(r) => {
            reach("bulk accepted");
            for (i, b) in &r.chunk_blobs {
                check((*i as usize) < blobs.len(), "inside the tree");
                check(*b == blobs[*i as usize], "a proven chunk is the tree's");
            }
            for (i, x) in &r.dense_entries {
                check((*i as usize) < n - start, "inside the buffer");
                check(*x == vals[start + *i as usize], "a proven value is the tree's");
            }
            let kind = [0, 2, 4, 3, 7][choose(5)];
            let (a, b) = (choose(n + 1), choose(n + 1));
            let mut q = Query::new();
            q.items = vec![item(kind, vec![0, a as u8], vec![0, b as u8])];
            if let Ok(got) = p.verify_against_query::<Got>(&root, height, n as u64, &q) {
                let want: Got = (0..n).filter(|&p| selects(kind, a as u64, b as u64, p as u64)).map(|p| (p as u64, vals[p].clone())).collect();
                check(got == want, "a proof accepted for a query yields exactly what it selects");
                reach("bulk query accepted");
            }
        }
    }
}

/// C17: any proof against any height, count and query gets an answer
pub fn total(cfg: u64) {
    let (c, e, which) = ((cfg % 10) as usize, (cfg / 10 % 10) as usize, cfg / 100);
    let height = u8();
    assume(height <= 2 || height == 16 || height == 17 || height == 255);
    let height = concretize(height as u64) as u8;
    let s = u64();
    let count = match which {
        0 => {
            assume(s < 6);
            s
        }
        1 => {
            assume(s < 3);
            u64::MAX - s
        }
        2 => {
            assume(s < 4);
            65534 + s
        }
        _ => {
            assume(s < 3);
            (1 << 63) - 1 + s
        }
    };
    let count = concretize(count);
    let chunks = if height == 0 { 0 } else { count.checked_shr(height as u32).unwrap_or(0) };
    let size = if chunks == 0 || bool() { leaf_count_to_mmr_size(chunks) } else { leaf_count_to_mmr_size(chunks) ^ 1 };
    let lv = (0..c as u64).map(|k| (if bool() { chunks.wrapping_sub(1 + k) } else { k }, vec(1))).collect();
    let p = BulkAppendTreeProof {
        chunk_proof: MmrTreeProof::new(size, lv, vec![[3; 32]; choose(3)]),
        buffer_proof: DenseTreeProof { entries: (0..e as u16).map(|k| (k, vec(1))).collect(), node_value_hashes: vec![], node_hashes: vec![] },
    };
    let a = p.verify(&[9; 32], height, count);
    check(a.is_err(), "and it does not verify");
    let r = p.verify_and_compute_root(height, count);
    if let Ok((_, r)) = &r {
        check((1..=16).contains(&height), "only heights that can be");
        let _ = r.values_in_range(0, u64::MAX);
    }
    let kind = choose(10) as u64;
    let (x, y) = (vec![255; [0, 1, 8, 9][choose(4)]], vec![choose(2) as u8; [1, 2, 8, 9][choose(4)]]);
    let mut q = Query::new();
    q.items = vec![item(kind, x, y)];
    if let Ok((root, _)) = r {
        let _ = p.verify_against_query::<Got>(&root, height, count, &q);
    }
    reach("bulk total");
}

/// C17: reading any bytes as a proof
pub fn decode(cfg: u64) {
    let b = vec(cfg as usize);
    alloc_limit(100 << 20);
    match BulkAppendTreeProof::decode_from_slice(&b) {
        Err(_) => reach("bulk proof rejected"),
        Ok(p) => {
            let e = p.encode_to_vec().unwrap();
            check(e.len() <= b.len(), "no encoding is shorter");
            let q = BulkAppendTreeProof::decode_from_slice(&e).unwrap();
            check(q.chunk_proof.mmr_size() == p.chunk_proof.mmr_size() && q.chunk_proof.leaves() == p.chunk_proof.leaves() && q.chunk_proof.proof_items() == p.chunk_proof.proof_items(), "the chunk proof survives re-encoding");
            check(q.buffer_proof.entries == p.buffer_proof.entries && q.buffer_proof.node_value_hashes == p.buffer_proof.node_value_hashes && q.buffer_proof.node_hashes == p.buffer_proof.node_hashes, "the buffer proof survives re-encoding");
            reach("bulk proof accepted");
        }
    }
}

/// C18: a chunk blob gives back the values it was made of and is what the format says
pub fn chunk_codec(cfg: u64) {
    let n = cfg as usize;
    let lens: Vec<usize> = (0..n).map(|_| choose(4)).collect();
    let vals: Vec<Vec<u8>> = lens.iter().map(|&l| vec(l)).collect();
    let b = serialize_chunk_blob(&vals).unwrap();
    check(b == if n == 0 { vec![] } else { spec_blob(&vals) }, "the format");
    check(deserialize_chunk_blob(&b).ok() == Some(vals), "a chunk gives back its values");
    reach("chunk codec");
}

/// C18: reading any bytes as a chunk
pub fn chunk_total(cfg: u64) {
    let b = vec(cfg as usize);
    alloc_limit(32 << 20);
    if b.len() == 9 && b[0] == 1 {
        // only empty values: as many as the blob says; bound: 4 of them or more than the limit
        let n = u32::from_be_bytes(b[1..5].try_into().unwrap());
        assume(n <= 4 || n > 1 << 20);
    }
    match deserialize_chunk_blob(&b) {
        Err(_) => reach("chunk rejected"),
        Ok(vs) => {
            check(vs.len() <= 1 << 20, "at most 2^20 values");
            let total: usize = vs.iter().map(|v| v.len()).sum();
            check(total <= b.len(), "all values come from the bytes");
            if b.len() > 9 && vs.len() < 8 {
                let e = serialize_chunk_blob(&vs).unwrap();
                check(deserialize_chunk_blob(&e).ok() == Some(vs), "values survive re-encoding");
            }
            reach("chunk accepted");
        }
    }
}

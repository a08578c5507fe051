//! C20: trunk and branch chunk proofs of count trees: what they show is the tree's, a key
//! they do not account for is not in the tree, and honest chunks put the whole tree together.
use crate::layer::{attack_element, hash_parts, item, kvhash, ser, vhash, H, NULL};
use grovedb::operations::proof::{GroveDBProof, GroveDBProofV0, GroveDBProofV1, LayerProof, MerkOnlyLayerProof, ProofBytes, ProveOptions};
use grovedb::{Element, GroveDb, GroveTrunkQueryResult, LeafInfo, PathBranchChunkQuery, PathTrunkChunkQuery};
use grovedb_merk::proofs::{branch::depth::*, encoding::encode_into, Node, Op};
use grovedb_merk::TreeFeatureType;
use grovedb_version::version::GroveVersion;
use std::collections::BTreeMap;
use symapi::*;

/// a node of the true count tree
struct T {
    key: u8,
    el: Element,
    vh: H,
    l: Option<Box<T>>,
    r: Option<Box<T>>,
    count: u64,
    hash: H,
}
fn build(lo: usize, hi: usize, bias: usize, provable: bool, tree_at: usize, sym: usize) -> Option<Box<T>> {
    if lo >= hi {
        return None;
    }
    let m = lo + (hi - lo - bias) / 2;
    let (l, r) = (build(lo, m, bias, provable, tree_at, sym), build(m + 1, hi, bias, provable, tree_at, sym));
    let key = b'a' + 2 * m as u8 + 1;
    let (el, vh) = if m == tree_at {
        let el = Element::Tree(Some(vec(1)), None);
        let vh = hash_parts(&[&vhash(&ser(&el)), &bytes::<32>()]);
        (el, vh)
    } else {
        let el = if m < sym { item() } else { Element::new_item(vec![m as u8]) };
        let vh = vhash(&ser(&el));
        (el, vh)
    };
    let count = 1 + l.as_ref().map_or(0, |x| x.count) + r.as_ref().map_or(0, |x| x.count);
    let (lh, rh) = (l.as_ref().map_or(NULL, |x| x.hash), r.as_ref().map_or(NULL, |x| x.hash));
    let kv = kvhash(&[key], &vh);
    let hash = if provable { hash_parts(&[&kv, &lh, &rh, &count.to_be_bytes()]) } else { hash_parts(&[&kv, &lh, &rh]) };
    Some(Box::new(T { key, el, vh, l, r, count, hash }))
}
fn path<'a>(t: &'a T, key: u8, out: &mut Vec<&'a T>) -> bool {
    out.push(t);
    match key.cmp(&t.key) {
        std::cmp::Ordering::Equal => true,
        std::cmp::Ordering::Less => t.l.as_ref().is_some_and(|x| path(x, key, out)),
        _ => t.r.as_ref().is_some_and(|x| path(x, key, out)),
    }
}
fn keys(t: &T, out: &mut Vec<u8>) {
    if let Some(x) = &t.l {
        keys(x, out);
    }
    out.push(t.key);
    if let Some(x) = &t.r {
        keys(x, out);
    }
}
fn count_element(kind: usize, root: Option<Vec<u8>>, count: u64) -> Element {
    match kind {
        0 => Element::CountTree(root, count, None),
        1 => Element::ProvableCountTree(root, count, None),
        2 => Element::CountSumTree(root, count, 3, None),
        _ => Element::ProvableCountSumTree(root, count, 3, None),
    }
}
/// the chunk an honest prover makes: whole nodes down to a depth, then hashes
fn chunk(t: &T, depth: usize, provable: bool, ops: &mut Vec<Op>) {
    if depth == 0 {
        return ops.push(Op::Push(Node::Hash(t.hash)));
    }
    if let Some(l) = &t.l {
        chunk(l, depth - 1, provable, ops);
    }
    let (k, v) = (vec![t.key], ser(&t.el));
    ops.push(Op::Push(match (t.el.is_any_tree(), provable) {
        (false, false) => Node::KV(k, v),
        (false, true) => Node::KVCount(k, v, t.count),
        (true, false) => Node::KVValueHash(k, v, t.vh),
        (true, true) => Node::KVValueHashFeatureType(k, v, t.vh, TreeFeatureType::ProvableCountedMerkNode(t.count)),
    }));
    if t.l.is_some() {
        ops.push(Op::Parent);
    }
    if let Some(r) = &t.r {
        chunk(r, depth - 1, provable, ops);
        ops.push(Op::Child);
    }
}
fn enc(ops: &[Op]) -> Vec<u8> {
    let mut b = vec![];
    encode_into(ops.iter(), &mut b);
    b
}
fn attack_node(k: usize, keys: &[u8], els: usize) -> Node {
    let key = || vec![keys[choose(keys.len())]];
    let val = || ser(&attack_element(choose(els)));
    let h = || bytes::<32>();
    match k {
        0 => Node::Hash(h()),
        1 => Node::KV(key(), val()),
        2 => Node::KVCount(key(), val(), u64()),
        3 => Node::KVValueHash(key(), val(), h()),
        4 => Node::KVValueHashFeatureType(key(), val(), h(), TreeFeatureType::BasicMerkNode),
        5 => Node::KVValueHashFeatureType(key(), val(), h(), TreeFeatureType::ProvableCountedMerkNode(u64() >> 58)),
        6 => Node::KVValueHashFeatureTypeWithChildHash(key(), val(), h(), TreeFeatureType::BasicMerkNode, h()),
        7 => Node::KVValueHashFeatureTypeWithChildHash(key(), val(), h(), TreeFeatureType::ProvableCountedSummedMerkNode(u64() >> 58, 2), h()),
        8 => Node::KVRefValueHash(key(), val(), h()),
        9 => Node::KVHash(h()),
        10 => Node::KVHashCount(h(), u64()),
        11 => Node::KVDigest(key(), h()),
        12 => Node::KVValueHashFeatureType(key(), val(), h(), TreeFeatureType::CountedMerkNode(u64() >> 58)),
        _ => unreachable!(),
    }
}
fn loose(ops: &[Op]) -> Vec<Vec<u8>> {
    ops.iter()
        .filter_map(|o| match o {
            Op::Push(Node::KVValueHash(k, ..) | Node::KVValueHashFeatureType(k, ..)) => Some(k.clone()),
            _ => None,
        })
        .collect()
}
fn attack(pat: usize, keys: &[u8], provable: bool) -> (Vec<u8>, Vec<Vec<u8>>) {
    let p: &[u8] = [&b"p"[..], b"ppa", b"ppapa", b"pppaa"][pat];
    let all: Vec<usize> = (0..13).collect();
    let nodes: &[usize] = match (pat, provable) {
        (0, _) => &all,
        (1, false) => &[0, 1, 3, 4, 6, 9, 11],
        (1, true) => &[0, 2, 5, 7, 10],
        (_, false) => &[0, 1, 3],
        (_, true) => &[0, 2, 5],
    };
    let mut ops = vec![];
    for x in p {
        ops.push(if *x == b'p' {
            Op::Push(attack_node(nodes[choose(nodes.len())], if pat > 1 { &keys[..keys.len() - 1] } else { keys }, if pat > 1 { 2 } else { 3 }))
        } else if choose(2) == 0 {
            Op::Parent
        } else {
            Op::Child
        });
    }
    (enc(&ops), loose(&ops))
}
fn wrap(v0: bool, top: Vec<u8>, low: Vec<u8>) -> Vec<u8> {
    let proof = if v0 {
        let m = |merk_proof, lower_layers| MerkOnlyLayerProof { merk_proof, lower_layers };
        let root_layer = m(top, BTreeMap::from([(b"b".to_vec(), m(low, BTreeMap::new()))]));
        GroveDBProof::V0(GroveDBProofV0 { root_layer, prove_options: ProveOptions::default() })
    } else {
        let m = |b, lower_layers| LayerProof { merk_proof: ProofBytes::Merk(b), lower_layers };
        GroveDBProof::V1(GroveDBProofV1 { root_layer: m(top, BTreeMap::from([(b"b".to_vec(), m(low, BTreeMap::new()))])) })
    };
    bincode::encode_to_vec(&proof, bincode::config::standard().with_big_endian()).unwrap()
}

/// what an accepted chunk under the true hash says
struct Said<'a> {
    /// keys in nodes whose value hash does not bind the value of a tree element
    loose: &'a [Vec<u8>],
    elements: &'a BTreeMap<Vec<u8>, Element>,
    leaves: &'a BTreeMap<Vec<u8>, LeafInfo>,
    trace: &'a dyn Fn(&[u8]) -> Option<(Vec<u8>, LeafInfo)>,
    ancestor: &'a dyn Fn(&[u8], u64) -> Option<(u8, u64, Vec<u8>, H)>,
}
fn judge(s: Said, t: &T, provable: bool, depth: usize) {
    let mut all = vec![];
    keys(t, &mut all);
    for (k, e) in s.elements {
        check(k.len() == 1 && all.contains(&k[0]), "a key shown by a chunk is in the tree");
        let mut p = vec![];
        if k.len() != 1 || !path(t, k[0], &mut p) {
            continue;
        }
        let n = p[p.len() - 1];
        check(p.len() <= depth + 1, "a chunk is no deeper than the query says");
        if e.is_any_tree() && s.loose.contains(k) {
            check(*e == n.el, "a tree element in a chunk's value hash node is the tree's");
        } else if e.is_any_tree() {
            check(*e == n.el, "a tree element shown by a chunk is the tree's");
        } else {
            check(*e == n.el, "an item shown by a chunk is the tree's");
        }
    }
    for (k, i) in s.leaves {
        let mut p = vec![];
        check(k.len() == 1 && path(t, k[0], &mut p), "a leaf of a chunk is in the tree");
        let Some(n) = p.last() else { continue };
        check(i.hash == n.hash, "the hash of a leaf is the tree's");
        if provable {
            check(i.count.is_none_or(|c| c == n.count), "the count of a leaf of a provable count tree is the tree's");
        }
        // ancestors of the leaf, none of them the root
        for min in [0, 2, 3, 100] {
            let got = (s.ancestor)(k, min);
            let (last, first) = (p.len() - 1, 1);
            let at = (first..last).rev().find(|i| provable && p[*i].count >= min).or((first < last).then_some(first));
            match (got, at) {
                (None, None) => {}
                (Some((up, c, key, h)), Some(at)) => {
                    check(up as usize == last - at && key == [p[at].key] && h == p[at].hash, "the ancestor of a leaf is the nearest one with the count asked for");
                    check(!provable || c == p[at].count, "the count of an ancestor is the tree's");
                }
                _ => check(false, "a leaf has an ancestor when it is deep enough"),
            }
        }
    }
    for k in b'a'..=b'a' + 2 * all.len() as u8 {
        let there = all.contains(&k);
        let shown = s.elements.contains_key(&vec![k]);
        match (s.trace)(&[k]) {
            Some((l, i)) => {
                check(!shown, "a key that is shown is not looked for elsewhere");
                check(s.leaves.get(&l) == Some(&i), "a key leads to a leaf");
                if there {
                    let mut p = vec![];
                    path(t, k, &mut p);
                    check(p.iter().any(|n| [n.key] == l[..]), "a key leads to the leaf above it");
                }
            }
            None => check(shown || !there, "a key a chunk neither shows nor leads to is not in the tree"),
        }
    }
}
fn judge_trunk(res: &GroveTrunkQueryResult, t: &Option<Box<T>>, count: u64, chunks: &[u8], provable: bool, loose: &[Vec<u8>]) {
    check(res.chunk_depths == chunks, "the chunk depths are those of the tree's count");
    check(res.max_tree_depth == if count == 0 { 0 } else { max_height(count) }, "the depth is that of the tree's count");
    let Some(t) = t else {
        check(res.elements.is_empty() && res.leaf_keys.is_empty(), "an empty tree has no elements");
        check(res.trace_key_to_leaf(b"b").is_none(), "an empty tree has no keys");
        return;
    };
    let said = Said {
        loose,
        elements: &res.elements,
        leaves: &res.leaf_keys,
        trace: &|k| res.trace_key_to_leaf(k),
        ancestor: &|k, c| res.get_ancestor(k, c),
    };
    judge(said, t, provable, chunks.first().copied().unwrap_or(0) as usize);
}
/// the height of the deepest AVL tree of so many nodes
fn max_height(count: u64) -> u8 {
    let (mut a, mut b, mut h) = (0u128, 1u128, 0);
    // a nodes at least for height h, b for h + 1
    while b <= count as u128 {
        (a, b) = (b, a + b + 1);
        h += 1;
    }
    h
}
fn split(depth: u8, max: u8) -> Vec<u8> {
    let n = depth.div_ceil(max);
    (0..n).map(|i| depth / n + (i < depth % n) as u8).collect()
}

/// cfg = nodes + 10 * shape + 100 * kind of count tree + 1000 * (version 0) + 10000 * pattern
///   + 100000 * (a subtree in it) + 1000000 * (depth - 1) + 10000000 * (the element is attacked, the chunk honest)
pub fn attacked(cfg: u64) {
    let c = cfg as usize;
    let (n, bias, kind, v0, pat, sub, depth, top) =
        (c % 10, c / 10 % 10, c / 100 % 10, c / 1000 % 10 == 1, c / 10000 % 10, c / 100000 % 10 == 1, 1 + c / 1000000 % 10, c / 10000000 == 1);
    let provable = kind % 2 == 1;
    let t = build(0, n, bias, provable, if sub { 0 } else { 99 }, 9);
    let lower = t.as_ref().map_or(NULL, |x| x.hash);
    let el = count_element(kind, t.as_ref().map(|x| vec![x.key]), n as u64);
    let vh = hash_parts(&[&vhash(&ser(&el)), &lower]);
    let root = hash_parts(&[&kvhash(b"b", &vh), &NULL, &NULL]);
    let mut ks = vec![];
    if let Some(t) = &t {
        keys(t, &mut ks);
    }
    let (low, lk) = if top {
        let mut o = vec![];
        if let Some(t) = &t {
            chunk(t, depth, provable, &mut o);
        }
        if choose(2) == 0 { (enc(&o), loose(&o)) } else { (vec![], vec![]) }
    } else {
        ks.push(b'a');
        attack(pat, &ks, provable)
    };
    let top = if top {
        let e = match choose(6) {
            0 => el,
            1 => count_element(kind, None, 0),
            2 => count_element(kind, t.as_ref().map(|x| vec![x.key]), 0),
            3 => count_element(choose(4), t.as_ref().map(|x| vec![x.key]), 5),
            4 => count_element(0, Some(vec(1)), u64() >> 58),
            _ => attack_element(1 + choose(8)),
        };
        let (k, v, h) = (b"b".to_vec(), ser(&e), bytes::<32>());
        enc(&[Op::Push(match choose(6) {
            0 => Node::KV(k, v),
            1 => Node::KVValueHash(k, v, h),
            2 => Node::KVValueHashFeatureType(k, v, h, TreeFeatureType::BasicMerkNode),
            3 => Node::KVValueHashFeatureTypeWithChildHash(k, v, h, TreeFeatureType::BasicMerkNode, bytes::<32>()),
            4 => Node::KVRefValueHash(k, v, h),
            _ => Node::KVDigest(k, h),
        })])
    } else {
        enc(&[Op::Push(Node::KVValueHash(b"b".to_vec(), ser(&el), vh))])
    };
    let q = PathTrunkChunkQuery::new(vec![b"b".to_vec()], depth as u8);
    let Ok((got, res)) = GroveDb::verify_trunk_chunk_proof(&wrap(v0, top, low), &q, GroveVersion::latest()) else {
        reach("chunk rejected");
        return;
    };
    if got != root {
        reach("chunk other root");
        return;
    }
    reach("chunk accepted");
    let chunks = if n == 0 { vec![] } else { split(max_height(n as u64), depth as u8) };
    judge_trunk(&res, &t, n as u64, &chunks, provable, &lk);
}

/// cfg = nodes + 10 * shape + 100 * (provable) + 10000 * pattern + 100000 * (a subtree in it) + 1000000 * (depth - 1)
pub fn branch(cfg: u64) {
    let c = cfg as usize;
    let (n, bias, provable, pat, sub, depth) = (c % 10, c / 10 % 10, c / 100 % 10 == 1, c / 10000 % 10, c / 100000 % 10 == 1, 1 + c / 1000000 % 10);
    let t = build(0, n, bias, provable, if sub { 0 } else { 99 }, 9).unwrap();
    let mut ks = vec![];
    keys(&t, &mut ks);
    ks.push(b'a');
    let q = PathBranchChunkQuery::new(vec![], vec![t.key], depth as u8);
    let (ops, lk) = attack(pat, &ks, provable);
    let Ok(res) = GroveDb::verify_branch_chunk_proof(&ops, &q, t.hash, GroveVersion::latest()) else {
        reach("branch rejected");
        return;
    };
    reach("branch accepted");
    check(res.branch_root_hash == t.hash, "a branch has the hash asked for");
    let said = Said {
        loose: &lk,
        elements: &res.elements,
        leaves: &res.leaf_keys,
        trace: &|k| res.trace_key_to_leaf(k),
        ancestor: &|k, c| res.get_ancestor(k, c),
    };
    judge(said, &t, provable, depth);
}

/// honest chunks: the trunk and all branches put the tree together
/// cfg = nodes + 100 * kind of count tree + 1000 * (version 0) + 10000 * max depth + 100000 * min depth
///   + 1000000 * (shape) + 10000000 * (a subtree in it)
pub fn honest(cfg: u64) {
    let c = cfg as usize;
    let (n, kind, v0, max, min, bias, sub) =
        (c % 100, c / 100 % 10, c / 1000 % 10 == 1, c / 10000 % 10, c / 100000 % 10, c / 1000000 % 10, c / 10000000 == 1);
    let provable = kind % 2 == 1;
    let t = build(0, n, bias, provable, if sub { n / 2 } else { 99 }, 3);
    let lower = t.as_ref().map_or(NULL, |x| x.hash);
    let el = count_element(kind, t.as_ref().map(|x| vec![x.key]), n as u64);
    let vh = hash_parts(&[&vhash(&ser(&el)), &lower]);
    let root = hash_parts(&[&kvhash(b"b", &vh), &NULL, &NULL]);
    let depth = max_height(n as u64);
    // a minimum is for provable count trees only
    let chunks = match min {
        _ if n == 0 => vec![],
        0 => split(depth, max as u8),
        m if provable => calculate_chunk_depths_with_minimum(depth, max as u8, m as u8).unwrap(),
        _ => split(depth, max as u8),
    };
    let mut o = vec![];
    if let Some(t) = &t {
        chunk(t, chunks[0] as usize, provable, &mut o);
    }
    let top = enc(&[Op::Push(Node::KVValueHash(b"b".to_vec(), ser(&el), vh))]);
    let p = vec![b"b".to_vec()];
    let q = if min > 0 { PathTrunkChunkQuery::new_with_min_depth(p.clone(), max as u8, min as u8) } else { PathTrunkChunkQuery::new(p.clone(), max as u8) };
    let v = GroveVersion::latest();
    let Ok((got, res)) = GroveDb::verify_trunk_chunk_proof(&wrap(v0, top, enc(&o)), &q, v) else {
        check(false, "an honest trunk proof is accepted");
        return;
    };
    reach("honest trunk");
    check(got == root, "an honest trunk proof gives the root hash");
    judge_trunk(&res, &t, n as u64, &chunks, provable, &[]);
    let Some(t) = t else { return };
    let mut elements = res.elements.clone();
    let mut todo: Vec<(Vec<u8>, LeafInfo, usize)> = res.leaf_keys.into_iter().map(|(k, i)| (k, i, 1)).collect();
    while let Some((k, i, level)) = todo.pop() {
        let mut p = vec![];
        path(&t, k[0], &mut p);
        let n = p[p.len() - 1];
        // the leaf itself is the root of the next chunk
        let d = 1 + chunks.get(level).copied().unwrap_or(1) as usize;
        let mut o = vec![];
        chunk(n, d, provable, &mut o);
        let q = PathBranchChunkQuery::new(vec![b"b".to_vec()], k.clone(), d as u8);
        let Ok(r) = GroveDb::verify_branch_chunk_proof(&enc(&o), &q, i.hash, v) else {
            check(false, "an honest branch proof is accepted under its leaf's hash");
            return;
        };
        elements.extend(r.elements);
        todo.extend(r.leaf_keys.into_iter().map(|(k, i)| (k, i, level + 1)));
    }
    let mut all = vec![];
    keys(&t, &mut all);
    check(elements.len() == all.len(), "trunk and branches have every key");
    for k in all {
        let mut p = vec![];
        path(&t, k, &mut p);
        check(elements.get(&vec![k]) == Some(&p[p.len() - 1].el), "trunk and branches have every element");
    }
}

/// the depths of trees and chunks, for every count and depth
/// cfg 0: height of a count; otherwise the maximum depth of a chunk
pub fn depths(cfg: u64) {
    if cfg == 0 {
        let c = u64();
        let h = calculate_max_tree_depth_from_count(c);
        let h = concretize(h as u64) as usize;
        let mut need = vec![0u128, 1];
        while need.len() < 95 {
            let k = need.len();
            need.push(need[k - 1] + need[k - 2] + 1);
        }
        check(h < 94 && need[h] <= c as u128, "the height is possible with the count");
        check(need[h + 1] > c as u128 || need[h + 1] > u64::MAX as u128, "no greater height is possible");
        reach("height");
        return;
    }
    let (lo, hi) = (cfg as u8, cfg as u8 + 7);
    let d = choose(93) as u8;
    let max = lo + choose((hi - lo + 1) as usize) as u8;
    let Ok(ch) = calculate_chunk_depths(d, max) else {
        check(false, "a maximum depth of at least one is accepted");
        return;
    };
    let n = ch.len();
    check(ch.iter().map(|x| *x as u64).sum::<u64>() == d as u64, "the chunks make up the depth");
    check(ch.iter().all(|x| *x <= max), "no chunk is deeper than the maximum");
    check(n == 1 || (n - 1) * (max as usize) < d as usize, "there are no more chunks than needed");
    check(n > 0 && ch[0] - ch[n - 1] <= 1, "the chunks are even");
    let min = u8();
    match calculate_chunk_depths_with_minimum(d, max, min) {
        Err(_) => check(min == 0 || min > max, "a minimum up to the maximum is accepted"),
        Ok(ch) => {
            check(min > 0 && min <= max, "a minimum of zero or above the maximum is refused");
            check(ch.iter().map(|x| *x as u64).sum::<u64>() == d as u64, "the chunks make up the depth");
            check(ch.iter().all(|x| *x <= max), "no chunk is deeper than the maximum");
            check(ch.len() == n, "a minimum does not make more chunks");
            check(ch.len() == 1 || ch[0] >= min, "the first chunk has the minimum depth");
            check(ch.len() == 1 || ch[1..].windows(2).all(|w| w[0] >= w[1] && w[0] - w[1] <= 1), "the other chunks are even");
            reach("depths");
        }
    }
}

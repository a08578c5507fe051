//! C19: what a merk query proof proves. The reference tree is written from the
//! definition of the hashes: value hash H(varint(len) || value), kv hash
//! H(varint(keylen) || key || value hash), node hash H(kv || left || right), with the
//! count appended for provable count trees.
use grovedb_merk::proofs::query::{Query, QueryItem, QueryProofVerify};
use grovedb_merk::proofs::{encoding::encode_into, execute, Node, Op, Tree};
use grovedb_merk::tree::hash;
use grovedb_merk::TreeFeatureType;
use std::ops::RangeFull;
use symapi::*;

pub type H = [u8; 32];

pub fn hash_parts(parts: &[&[u8]]) -> H {
    let mut b = Vec::with_capacity(160);
    for p in parts {
        b.extend_from_slice(p);
    }
    *blake3::hash(&b).as_bytes()
}
pub fn vhash(v: &[u8]) -> H {
    hash_parts(&[&[v.len() as u8], v])
}
pub fn kvhash(k: &[u8], vh: &H) -> H {
    hash_parts(&[&[k.len() as u8], k, vh])
}

/// a node of the true tree
#[derive(Clone)]
pub struct True {
    pub key: Vec<u8>,
    pub value: Vec<u8>,
    /// the value hash is combined with this (a subtree's root or a referenced value's hash)
    pub other: Option<H>,
    pub vh: H,
    pub count: u64,
}

/// shape 0: one node; 1: root with a left child; 2: root with a right child; 3: root with both;
/// 4: root with both, the left one having a right child
pub fn shape_size(s: usize) -> usize {
    [1, 2, 2, 3, 4][s]
}

pub fn node_hash(t: &True, l: &H, r: &H, counted: bool) -> H {
    let kv = kvhash(&t.key, &t.vh);
    if counted {
        hash_parts(&[&kv, l, r, &t.count.to_be_bytes()])
    } else {
        hash_parts(&[&kv, l, r])
    }
}
pub const NULL: H = [0; 32];
pub fn root_hash(n: &[True], s: usize, c: bool) -> H {
    match s {
        0 => node_hash(&n[0], &NULL, &NULL, c),
        1 => node_hash(&n[1], &node_hash(&n[0], &NULL, &NULL, c), &NULL, c),
        2 => node_hash(&n[0], &NULL, &node_hash(&n[1], &NULL, &NULL, c), c),
        3 => node_hash(&n[1], &node_hash(&n[0], &NULL, &NULL, c), &node_hash(&n[2], &NULL, &NULL, c), c),
        _ => {
            let l = node_hash(&n[0], &NULL, &node_hash(&n[1], &NULL, &NULL, c), c);
            node_hash(&n[2], &l, &node_hash(&n[3], &NULL, &NULL, c), c)
        }
    }
}

/// a true tree of the given shape over increasing symbolic one-byte keys
pub fn true_tree(s: usize, counted: bool, combined: bool) -> (Vec<True>, H) {
    let n = shape_size(s);
    let keys = vec(n);
    for i in 1..n {
        assume(keys[i - 1] < keys[i]);
    }
    let t: Vec<True> = keys
        .iter()
        .map(|k| {
            let value = vec(2);
            let mut vh = vhash(&value);
            let other = if combined { Some(bytes::<32>()) } else { None };
            if let Some(o) = &other {
                vh = hash_parts(&[&vh, o]);
            }
            True { key: vec![*k], value, other, vh, count: if counted { u64() } else { 0 } }
        })
        .collect();
    let r = root_hash(&t, s, counted);
    (t, r)
}

/// a node of kind `k` with fresh symbolic content
pub fn fresh(k: usize) -> Node {
    let key = || vec(1);
    let val = || vec(2);
    let h = || bytes::<32>();
    match k {
        0 => Node::Hash(h()),
        1 => Node::KVHash(h()),
        2 => Node::KV(key(), val()),
        3 => Node::KVDigest(key(), h()),
        4 => Node::KVValueHash(key(), val(), h()),
        5 => Node::KVRefValueHash(key(), val(), h()),
        6 => Node::KVValueHashFeatureType(key(), val(), h(), TreeFeatureType::BasicMerkNode),
        7 => Node::KVValueHashFeatureTypeWithChildHash(key(), val(), h(), TreeFeatureType::SummedMerkNode(5), h()),
        8 => Node::KVCount(key(), val(), u64()),
        9 => Node::KVHashCount(h(), u64()),
        10 => Node::KVDigestCount(key(), h(), u64()),
        11 => Node::KVRefValueHashCount(key(), val(), h(), u64()),
        12 => Node::KVValueHashFeatureType(key(), val(), h(), TreeFeatureType::ProvableCountedMerkNode(u64() >> 58)),
        13 => Node::KVValueHashFeatureTypeWithChildHash(key(), val(), h(), TreeFeatureType::ProvableCountedSummedMerkNode(u64() >> 58, 3), h()),
        _ => unreachable!(),
    }
}

/// what the node claims: key, (value, how it is bound), value hash it yields, count
struct Claim {
    key: Vec<u8>,
    value: Option<Vec<u8>>,
    count: Option<u64>,
}
fn claim(n: &Node) -> Option<Claim> {
    let mk = |k: &Vec<u8>, v: Option<&Vec<u8>>, c: Option<u64>| Some(Claim { key: k.clone(), value: v.cloned(), count: c });
    match n {
        Node::Hash(_) | Node::KVHash(_) | Node::KVHashCount(..) => None,
        Node::KV(k, v) => mk(k, Some(v), None),
        Node::KVDigest(k, _) => mk(k, None, None),
        Node::KVDigestCount(k, _, c) => mk(k, None, Some(*c)),
        Node::KVCount(k, v, c) => mk(k, Some(v), Some(*c)),
        Node::KVValueHash(k, v, _) | Node::KVRefValueHash(k, v, _) => mk(k, Some(v), None),
        Node::KVRefValueHashCount(k, v, _, c) => mk(k, Some(v), Some(*c)),
        Node::KVValueHashFeatureType(k, v, _, f) | Node::KVValueHashFeatureTypeWithChildHash(k, v, _, f, _) => mk(
            k,
            Some(v),
            match f {
                TreeFeatureType::ProvableCountedMerkNode(c) | TreeFeatureType::ProvableCountedSummedMerkNode(c, _) => Some(*c),
                _ => None,
            },
        ),
    }
}

pub struct Bound {
    lo: Option<(Vec<u8>, bool)>,
    hi: Option<(Vec<u8>, bool)>,
}
pub fn in_bound(s: &Bound, k: &[u8]) -> bool {
    (match &s.lo {
        None => true,
        Some((b, true)) => k >= b.as_slice(),
        Some((b, false)) => k > b.as_slice(),
    }) & (match &s.hi {
        None => true,
        Some((b, true)) => k <= b.as_slice(),
        Some((b, false)) => k < b.as_slice(),
    })
}
pub fn item(kind: usize) -> (QueryItem, Bound) {
    let two = matches!(kind, 1 | 2 | 8 | 9);
    let a = if kind != 3 { vec(1) } else { vec![] };
    let b = if two { vec(1) } else { vec![] };
    if two {
        assume(if kind == 2 { a <= b } else { a < b });
    }
    let i = |x: &Vec<u8>| Some((x.clone(), true));
    let e = |x: &Vec<u8>| Some((x.clone(), false));
    match kind {
        0 => (QueryItem::Key(a.clone()), Bound { lo: i(&a), hi: i(&a) }),
        1 => (QueryItem::Range(a.clone()..b.clone()), Bound { lo: i(&a), hi: e(&b) }),
        2 => (QueryItem::RangeInclusive(a.clone()..=b.clone()), Bound { lo: i(&a), hi: i(&b) }),
        3 => (QueryItem::RangeFull(RangeFull), Bound { lo: None, hi: None }),
        4 => (QueryItem::RangeFrom(a.clone()..), Bound { lo: i(&a), hi: None }),
        5 => (QueryItem::RangeTo(..a.clone()), Bound { lo: None, hi: e(&a) }),
        6 => (QueryItem::RangeToInclusive(..=a.clone()), Bound { lo: None, hi: i(&a) }),
        7 => (QueryItem::RangeAfter(a.clone()..), Bound { lo: e(&a), hi: None }),
        8 => (QueryItem::RangeAfterTo(a.clone()..b.clone()), Bound { lo: e(&a), hi: e(&b) }),
        _ => (QueryItem::RangeAfterToInclusive(a.clone()..=b.clone()), Bound { lo: e(&a), hi: i(&b) }),
    }
}

/// op sequences: 'p' push, 'a' attach (which of the four is chosen symbolically)
const PATTERNS: [&[u8]; 8] = [b"p", b"ppa", b"ppapa", b"pppaa", b"ppapapa", b"ppappaa", b"pppaapa", b"ppppaaa"];

fn attach(i: usize) -> Op {
    match i {
        0 => Op::Parent,
        1 => Op::Child,
        2 => Op::ParentInverted,
        _ => Op::ChildInverted,
    }
}

fn judge(ops: &[Op], t: &[True], root: &H, bounds: &[Bound], items: Vec<QueryItem>, ltr: bool, limit: Option<u16>, version: u16) {
    let q = Query { items, left_to_right: ltr, ..Default::default() };
    let mut proof = vec![];
    encode_into(ops.iter(), &mut proof);
    let Ok((got, res)) = q.execute_proof(&proof, limit, ltr, version).unwrap() else {
        reach("merk rejected");
        return;
    };
    if got != *root {
        reach("merk other root");
        return;
    }
    reach("merk accepted");
    let mut want: Vec<&True> = t.iter().filter(|n| bounds.iter().any(|b| in_bound(b, &n.key))).collect();
    if !ltr {
        want.reverse();
    }
    let all = want.len();
    if let Some(l) = limit {
        want.truncate(l as usize);
    }
    check(res.result_set.len() == want.len(), "the proved results are exactly the keys the tree has for the query");
    check(res.limit == limit.map(|l| l - all.min(l as usize) as u16), "the remaining limit is the limit minus the results");
    for (r, w) in res.result_set.iter().zip(&want) {
        check(r.key == w.key, "results come in the order of the query direction, none skipped");
        let Some(v) = &r.value else {
            check(false, "a result has a value");
            continue;
        };
        if r.child_hash_verified {
            check(w.other.is_some() && *v == w.value && r.proof == w.vh, "a value verified with its child hash is the tree's");
        }
        for op in ops {
            let (Op::Push(n) | Op::PushInverted(n)) = op else { continue };
            if claim(n).is_none_or(|c| c.key != r.key) {
                continue;
            }
            match n {
                Node::KV(..) | Node::KVCount(..) => {
                    check(w.other.is_none() && *v == w.value && r.proof == w.vh, "the value of a KV node is the tree's")
                }
                Node::KVRefValueHash(..) | Node::KVRefValueHashCount(..) => check(
                    w.other.is_some() && r.proof == vhash(&w.value) && w.other == Some(vhash(v)),
                    "a referenced value is the one the tree commits to",
                ),
                _ => {
                    check(r.proof == w.vh, "the value hash of a result is the tree's");
                    check(version == 0 || !simple_kind(v), "an item is not accepted with an unbound value");
                }
            }
        }
    }
    // whatever the proof shows of the tree is in the tree
    for op in ops {
        let (Op::Push(n) | Op::PushInverted(n)) = op else { continue };
        let Some(c) = claim(n) else { continue };
        match t.iter().find(|w| w.key == c.key) {
            None => check(false, "a key shown by an accepted proof is in the tree"),
            Some(w) => {
                if let Some(x) = c.count {
                    check(x == w.count, "a count shown by an accepted proof is the tree's");
                }
            }
        }
        let _ = c.value;
    }
}

/// element kinds whose value hash is the plain hash of the value: items and sum items
/// (0 item, 3 sum item, 9 item with sum item)
fn simple_kind(v: &[u8]) -> bool {
    matches!(v[0], 0 | 3 | 9)
}

/// cfg = item kind + 10 * pattern + 100 * (right to left) + 1000 * second item kind + 1 (0: none)
///       + 100000 * (pattern of the kinds)
pub fn sound(cfg: u64) {
    let c = cfg as usize;
    let (ik, pat, rtl, second, mode) = (c % 10, c / 10 % 10, c / 100 % 10, c / 1000 % 100, c / 100000);
    let s = choose(if mode >= 2 { 5 } else { 4 });
    let (t, root) = true_tree(s, false, false);
    let (i1, b1) = item(ik);
    let mut items = vec![i1];
    let mut bounds = vec![b1];
    if second > 0 {
        let (i2, b2) = item(second - 1);
        // the items of a query are ordered and disjoint
        match (&bounds[0].hi, &b2.lo) {
            (Some((h, hi)), Some((l, li))) => assume(if *hi && *li { h < l } else { h <= l }),
            _ => assume(false),
        }
        items.push(i2);
        bounds.push(b2);
    }
    let limit = [None, Some(1), Some(2), Some(0)][choose(if mode % 2 == 1 { 4 } else { 3 })];
    let mut ops = vec![];
    for p in PATTERNS[pat] {
        if *p == b'p' {
            let n = fresh([2, 3, 0, 1][choose(4)]);
            ops.push(if rtl == 1 { Op::PushInverted(n) } else { Op::Push(n) });
        } else {
            ops.push(attach(choose(4)));
        }
    }
    judge(&ops, &t, &root, &bounds, items, rtl == 0, limit, 1);
}

/// every kind of node in one position; cfg = kind + 100 * pattern + 1000 * (right to left)
/// + 10000 * proof version + 100000 * (counted tree) + 1000000 * (combined value hashes)
pub fn kinds(cfg: u64) {
    let c = cfg as usize;
    let (k, pat, rtl, version, counted, combined) = (c % 100, c / 100 % 10, c / 1000 % 10, c / 10000 % 10, c / 100000 % 10 == 1, c / 1000000 == 1);
    let s = choose(if pat < 2 { 3 } else { 4 });
    let (t, root) = true_tree(s, counted, combined);
    let (i1, b1) = item([0, 3, 7][choose(3)]);
    let pushes = PATTERNS[pat].iter().filter(|p| **p == b'p').count();
    let pos = choose(pushes);
    let mut ops = vec![];
    let mut i = 0;
    for p in PATTERNS[pat] {
        if *p == b'p' {
            let kind = if i == pos {
                k
            } else if counted {
                [8, 10, 0][choose(3)]
            } else {
                [2, 3, 0][choose(3)]
            };
            i += 1;
            let n = fresh(kind);
            ops.push(if rtl == 1 { Op::PushInverted(n) } else { Op::Push(n) });
        } else {
            ops.push(attach(choose(2) + 2 * rtl));
        }
    }
    judge(&ops, &t, &root, &[b1], vec![i1], rtl == 0, None, version as u16);
}

/// the hash functions against their definitions; cfg = key length
pub fn hashes(cfg: u64) {
    let key = vec(cfg as usize);
    let value = vec_upto(0, 3);
    let (a, b, c): (H, H, H) = (bytes(), bytes(), bytes());
    let n = u64();
    let vh = vhash(&value);
    check(hash::value_hash(&value).unwrap() == vh, "value hash");
    check(hash::kv_hash(&key, &value).unwrap() == kvhash(&key, &vh), "kv hash");
    check(hash::kv_digest_to_kv_hash(&key, &a).unwrap() == kvhash(&key, &a), "kv digest hash");
    check(hash::node_hash(&a, &b, &c).unwrap() == hash_parts(&[&a, &b, &c]), "node hash");
    check(hash::combine_hash(&a, &b).unwrap() == hash_parts(&[&a, &b]), "combined hash");
    check(hash::node_hash_with_count(&a, &b, &c, n).unwrap() == hash_parts(&[&a, &b, &c, &n.to_be_bytes()]), "counted node hash");
    // a proof tree of each kind of node hashes as the tree it stands for
    let kind = choose(14);
    let node = fresh(kind);
    let (l, r): (H, H) = (bytes(), bytes());
    let ops = vec![Op::Push(Node::Hash(l)), Op::Push(node.clone()), Op::Parent, Op::Push(Node::Hash(r)), Op::Child];
    let t: Result<Tree, _> = execute(ops.into_iter().map(Ok), bool(), |_| Ok(())).unwrap();
    let plain = |kv: H| hash_parts(&[&kv, &l, &r]);
    let counted = |kv: H, n: u64| hash_parts(&[&kv, &l, &r, &n.to_be_bytes()]);
    let want = match &node {
        Node::Hash(_) => {
            check(t.is_err(), "a hash node has no children");
            return;
        }
        Node::KVHash(h) => plain(*h),
        Node::KV(k, v) => plain(kvhash(k, &vhash(v))),
        Node::KVDigest(k, h) | Node::KVValueHash(k, _, h) => plain(kvhash(k, h)),
        Node::KVRefValueHash(k, v, h) => plain(kvhash(k, &hash_parts(&[h, &vhash(v)]))),
        Node::KVCount(k, v, n) => counted(kvhash(k, &vhash(v)), *n),
        Node::KVHashCount(h, n) => counted(*h, *n),
        Node::KVDigestCount(k, h, n) => counted(kvhash(k, h), *n),
        Node::KVRefValueHashCount(k, v, h, n) => counted(kvhash(k, &hash_parts(&[h, &vhash(v)])), *n),
        Node::KVValueHashFeatureType(k, _, h, f) | Node::KVValueHashFeatureTypeWithChildHash(k, _, h, f, _) => match f {
            TreeFeatureType::ProvableCountedMerkNode(n) | TreeFeatureType::ProvableCountedSummedMerkNode(n, _) => counted(kvhash(k, h), *n),
            _ => plain(kvhash(k, h)),
        },
    };
    match t {
        Err(_) => check(false, "the operations build a tree"),
        Ok(t) => {
            check(t.hash().unwrap() == want, "the hash of a proof tree");
            check(t.left.as_ref().is_some_and(|c| c.hash == l) && t.right.as_ref().is_some_and(|c| c.hash == r), "children hashes");
            check(t.height == 2 && t.child_heights == (1, 1), "heights");
        }
    }
    reach("merk hashes");
}

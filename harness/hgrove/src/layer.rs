//! C21: what an accepted layered proof says is in the database. The reference database
//! is written from the definition of the hashes, two merk layers deep.
use grovedb::operations::proof::{GroveDBProof, GroveDBProofV0, GroveDBProofV1, LayerProof, MerkOnlyLayerProof, ProofBytes, ProveOptions};
use grovedb::{Element, GroveDb, PathQuery, SizedQuery};
use grovedb_element::reference_path::ReferencePathType;
use grovedb_merk::proofs::query::{Query, QueryItem, SubqueryBranch, VerifyOptions};
use grovedb_merk::proofs::{encoding::encode_into, Node, Op};
use grovedb_merk::TreeFeatureType;
use grovedb_version::version::GroveVersion;
use std::collections::BTreeMap;
use std::ops::RangeFull;
use symapi::*;

pub type H = [u8; 32];
pub const NULL: H = [0; 32];

pub fn hash_parts(parts: &[&[u8]]) -> H {
    let mut b = Vec::with_capacity(160);
    for p in parts {
        b.extend_from_slice(p);
    }
    *blake3::hash(&b).as_bytes()
}
pub fn vhash(v: &[u8]) -> H {
    hash_parts(&[&[v.len() as u8], v])
}
pub fn kvhash(k: &[u8], vh: &H) -> H {
    hash_parts(&[&[k.len() as u8], k, vh])
}
pub fn ser(e: &Element) -> Vec<u8> {
    e.serialize(GroveVersion::latest()).unwrap()
}

pub struct TNode {
    pub key: u8,
    pub el: Element,
    /// what a query gives for it: itself, or what the reference leads to
    pub shown: Element,
    pub vh: H,
    pub child: Option<Vec<TNode>>,
}
impl TNode {
    pub fn plain(key: u8, el: Element) -> TNode {
        let b = ser(&el);
        let item = matches!(el, Element::Item(..) | Element::SumItem(..) | Element::ItemWithSumItem(..));
        let vh = if item { vhash(&b) } else { hash_parts(&[&vhash(&b), &NULL]) };
        TNode { key, shown: el.clone(), el, vh, child: None }
    }
    pub fn reference(key: u8, el: Element, target: Element) -> TNode {
        let vh = hash_parts(&[&vhash(&ser(&el)), &vhash(&ser(&target))]);
        TNode { key, el, shown: target, vh, child: None }
    }
    pub fn over(key: u8, el: Element, root: &H) -> TNode {
        let vh = hash_parts(&[&vhash(&ser(&el)), root]);
        TNode { key, shown: el.clone(), el, vh, child: None }
    }
    pub fn tree(key: u8, el: Element, child: Vec<TNode>) -> TNode {
        let mut n = TNode::over(key, el, &root_hash(&child));
        n.child = Some(child);
        n
    }
}
pub fn node_hash(n: &TNode, l: &H, r: &H) -> H {
    hash_parts(&[&kvhash(&[n.key], &n.vh), l, r])
}
/// one node, or a root (the last) with a left child
pub fn root_hash(t: &[TNode]) -> H {
    match t {
        [] => NULL,
        [a] => node_hash(a, &NULL, &NULL),
        [a, b] => node_hash(b, &node_hash(a, &NULL, &NULL), &NULL),
        _ => unreachable!(),
    }
}

pub fn item() -> Element {
    Element::new_item(vec(1))
}
/// elements an attacker may write
pub fn attack_element(k: usize) -> Element {
    match k {
        0 => item(),
        1 => Element::Tree(Some(vec(1)), None),
        2 => Element::empty_tree(),
        3 => Element::new_reference(ReferencePathType::AbsolutePathReference(vec![vec(1)])),
        4 => Element::SumTree(None, 0, None),
        5 => Element::SumTree(Some(vec(1)), 7, None),
        6 => Element::new_mmr_tree(3, None),
        7 => Element::new_sum_item(9),
        8 => Element::CountTree(Some(vec(1)), 4, None),
        9 => Element::new_dense_tree(1, 1, None),
        _ => unreachable!(),
    }
}
pub fn attack_node(k: usize, keys: &[u8], els: &[usize]) -> Node {
    let key = || vec![keys[choose(keys.len())]];
    let val = || ser(&attack_element(els[choose(els.len())]));
    let h = || bytes::<32>();
    match k {
        0 => Node::Hash(h()),
        1 => Node::KVHash(h()),
        2 => Node::KV(key(), val()),
        3 => Node::KVDigest(key(), h()),
        4 => Node::KVValueHash(key(), val(), h()),
        5 => Node::KVRefValueHash(key(), val(), h()),
        6 => Node::KVValueHashFeatureType(key(), val(), h(), TreeFeatureType::BasicMerkNode),
        7 => Node::KVValueHashFeatureTypeWithChildHash(key(), val(), h(), TreeFeatureType::BasicMerkNode, h()),
        _ => unreachable!(),
    }
}
pub fn attack_ops(pattern: &[u8], nodes: &[usize], keys: &[u8], els: &[usize], rtl: bool) -> Vec<u8> {
    let mut ops = vec![];
    for p in pattern {
        ops.push(if *p == b'p' {
            let n = attack_node(nodes[choose(nodes.len())], keys, els);
            if rtl { Op::PushInverted(n) } else { Op::Push(n) }
        } else {
            match (choose(2), rtl) {
                (0, false) => Op::Parent,
                (1, false) => Op::Child,
                (0, true) => Op::ParentInverted,
                _ => Op::ChildInverted,
            }
        });
    }
    let mut b = vec![];
    encode_into(ops.iter(), &mut b);
    b
}

/// what a query asks of a layer
pub struct Level {
    pub keys: Option<Vec<u8>>,
    pub sub: bool,
    pub rtl: bool,
    pub parent: bool,
}
pub fn level(keys: &[u8], sub: bool) -> Level {
    Level { keys: if keys.is_empty() { None } else { Some(keys.to_vec()) }, sub, rtl: false, parent: false }
}
pub fn full() -> Query {
    Query { items: vec![QueryItem::RangeFull(RangeFull)], left_to_right: true, ..Default::default() }
}
pub fn key_query(k: &[u8]) -> Query {
    Query { items: k.iter().map(|k| QueryItem::Key(vec![*k])).collect(), left_to_right: true, ..Default::default() }
}
pub fn sub(mut q: Query, path: Option<Vec<Vec<u8>>>, s: Option<Query>) -> Query {
    q.default_subquery_branch = SubqueryBranch { subquery_path: path, subquery: s.map(Box::new) };
    q
}
/// kinds of query over the two layers: the path query and what it asks of each layer
pub fn query(k: usize, limit: Option<u16>) -> (PathQuery, Vec<Level>) {
    let b = || vec![b"b".to_vec()];
    let (path, q, l) = match k {
        0 => (vec![], key_query(b"b"), vec![level(b"b", false)]),
        1 => (vec![], full(), vec![level(b"", false)]),
        2 => (b(), full(), vec![level(b"b", true), level(b"", false)]),
        3 => (vec![], sub(key_query(b"b"), None, Some(full())), vec![level(b"b", true), level(b"", false)]),
        4 => (vec![], sub(full(), Some(vec![b"c".to_vec()]), None), vec![level(b"", true), level(b"c", false)]),
        5 => (b(), key_query(b"c"), vec![level(b"b", true), level(b"c", false)]),
        6 => {
            let mut f = full();
            f.left_to_right = false;
            let mut l = vec![level(b"", true), level(b"", false)];
            l[0].rtl = true;
            l[1].rtl = true;
            (vec![], sub(f.clone(), None, Some(f)), l)
        }
        7 => (vec![], Query { items: vec![QueryItem::RangeFrom(b"c".to_vec()..)], left_to_right: true, ..Default::default() }, {
            vec![level(b"cdefgh", false)]
        }),
        8 => {
            let mut q = sub(full(), None, Some(full()));
            q.add_parent_tree_on_subquery = true;
            let mut l = vec![level(b"", true), level(b"", false)];
            l[0].parent = true;
            (vec![], q, l)
        }
        _ => (vec![], sub(full(), None, Some(key_query(b"ce"))), vec![level(b"", true), level(b"ce", false)]),
    };
    (PathQuery::new(path, SizedQuery::new(q, limit, None)), l)
}

pub type Shown = (Vec<Vec<u8>>, Vec<u8>, Option<Element>);

pub fn expect(l: &[Level], t: &[TNode], path: &[Vec<u8>], empty: bool, limit: &mut Option<u16>, out: &mut Vec<Shown>) {
    let mut want: Vec<&TNode> = t.iter().filter(|n| l[0].keys.as_ref().is_none_or(|k| k.contains(&n.key))).collect();
    if l[0].rtl {
        want.reverse();
    }
    let dec = |l: &mut Option<u16>| {
        if let Some(x) = l {
            *x = x.saturating_sub(1);
        }
    };
    if let Some(x) = limit {
        want.truncate(*x as usize);
    }
    if want.is_empty() {
        return dec(limit);
    }
    for n in want {
        let key = vec![n.key];
        let plain_empty = matches!(n.el, Element::Tree(None, _));
        let item = matches!(n.shown, Element::Item(..) | Element::SumItem(..));
        if let (Some(c), true) = (&n.child, l[0].sub) {
            let mut p = path.to_vec();
            p.push(key.clone());
            if l[0].parent {
                out.push((p.clone(), key, Some(n.el.clone())));
            }
            expect(&l[1..], c, &p, empty, limit, out);
        } else if item || !l[0].sub && (empty || !plain_empty) {
            out.push((path.to_vec(), key, Some(n.shown.clone())));
            dec(limit);
        } else {
            // an empty tree that is not shown uses up the limit
            dec(limit);
        }
        if *limit == Some(0) {
            break;
        }
    }
}

/// the true databases: what is under key b
pub fn truth(kind: usize, two: bool, child: usize) -> Vec<TNode> {
    let mut inner: Vec<TNode> = vec![];
    if kind == 1 || kind == 4 {
        inner.push(match child / 2 {
            0 => TNode::plain(b'c', item()),
            _ => TNode::plain(b'c', Element::empty_tree()),
        });
        if child % 2 == 1 {
            inner.push(TNode::plain(b'e', item()));
        }
    }
    let b = match kind {
        0 => TNode::plain(b'b', item()),
        1 => TNode::tree(b'b', Element::Tree(Some(vec(1)), None), inner),
        2 => TNode::plain(b'b', Element::empty_tree()),
        3 => TNode::reference(b'b', Element::new_reference(ReferencePathType::AbsolutePathReference(vec![vec(1)])), item()),
        4 => TNode::tree(b'b', Element::SumTree(Some(vec(1)), 5, None), inner),
        _ => TNode::plain(b'b', Element::SumTree(None, 0, None)),
    };
    let mut t = vec![b];
    if two {
        t.push(TNode::plain(b'd', item()));
    }
    t
}

/// cfg = what is under b + 10 * (a second root node) + 100 * query + 1000 * root attack (0 one node, 1 and 2 two nodes)
///   + 10000 * lower layer (0 none, 1 and 2 patterns, 3 an MMR) + 100000 * options
///   + 1000000 * (version 0) + 10000000 * (children of b)
pub fn layers(cfg: u64) {
    let c = cfg as usize;
    let (kind, two, qk, pat, lower, opt, v0, child) =
        (c % 10, c / 10 % 10 == 1, c / 100 % 10, c / 1000 % 10, c / 10000 % 10, c / 100000 % 10, c / 1000000 % 10 == 1, c / 10000000);
    let t = truth(kind, two, child);
    let root = root_hash(&t);
    let limit = [None, Some(1), Some(2)][if opt == 2 || opt == 6 { 1 + choose(2) } else { choose(3) }];
    let (q, levels) = query(qk, limit);
    let rtl = levels[0].rtl;
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    let (nodes, els, keys): (&[usize], &[usize], &[u8]) = match pat {
        0 => (&all, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], b"bd"),
        1 => (&[0, 2, 3, 4, 5], &[0, 1, 2, 3, 4], b"abd"),
        _ => (&[0, 2, 4], &[0, 1, 2], b"bd"),
    };
    let top = attack_ops([&b"p"[..], b"ppa", b"ppa"][pat], nodes, keys, els, rtl);
    let low = match lower {
        1 => Some(attack_ops(b"p", &[0, 2, 3, 4, 5], b"ce", &[0, 1, 2], rtl)),
        2 => Some(attack_ops(b"ppa", &[0, 2, 3, 4], b"ce", &[0, 2], rtl)),
        3 => Some(vec![]),
        _ => None,
    };
    let v = GroveVersion::latest();
    let proof = if v0 {
        let mut lower_layers = BTreeMap::new();
        if let Some(l) = low {
            lower_layers.insert(b"b".to_vec(), MerkOnlyLayerProof { merk_proof: l, lower_layers: BTreeMap::new() });
        }
        GroveDBProof::V0(GroveDBProofV0 { root_layer: MerkOnlyLayerProof { merk_proof: top, lower_layers }, prove_options: ProveOptions::default() })
    } else {
        let mut lower_layers = BTreeMap::new();
        if let Some(l) = low {
            let l = if lower == 3 { ProofBytes::MMR(l) } else { ProofBytes::Merk(l) };
            lower_layers.insert(b"b".to_vec(), LayerProof { merk_proof: l, lower_layers: BTreeMap::new() });
        }
        GroveDBProof::V1(GroveDBProofV1 { root_layer: LayerProof { merk_proof: ProofBytes::Merk(top), lower_layers } })
    };
    let (absence, empty, succinct) = match opt {
        0 | 5 | 7 => (false, false, opt == 7),
        1 | 4 | 9 => (false, false, true),
        2 | 6 => (true, false, opt == 6),
        _ => (false, true, false),
    };
    let options = VerifyOptions {
        absence_proofs_for_non_existing_searched_keys: absence,
        verify_proof_succinctness: succinct,
        include_empty_trees_in_result: empty,
    };
    let config = bincode::config::standard().with_big_endian();
    let bytes = || bincode::encode_to_vec(&proof, config).unwrap();
    let (mut parent, mut raw) = (None, false);
    let r = match opt {
        0..=3 => proof.verify_with_options(&q, options, v),
        4 => GroveDb::verify_query(&bytes(), &q, v),
        5 => GroveDb::verify_subset_query(&bytes(), &q, v),
        6 => GroveDb::verify_query_with_absence_proof(&bytes(), &q, v),
        7 => GroveDb::verify_query_get_parent_tree_info(&bytes(), &q, v).map(|(h, p, r)| {
            parent = Some(p);
            (h, r)
        }),
        8 => GroveDb::verify_query_raw(&bytes(), &q, v).map(|(h, r)| {
            (h, r.into_iter().map(|x| (x.path, x.key, Some(Element::deserialize(&x.value, v).unwrap()))).collect())
        }),
        _ => {
            // a proof read once, with its methods
            let p: GroveDBProof = bincode::decode_from_slice(&bytes(), config).unwrap().0;
            let how = choose(3);
            raw = how == 2;
            match how {
                0 => p.verify(&q, v),
                1 => p.verify_subset(&q, v),
                _ => p.verify_raw(&q, v).map(|(h, r)| {
                    (h, r.into_iter().map(|x| (x.path, x.key, Some(Element::deserialize(&x.value, v).unwrap()))).collect())
                }),
            }
        }
    };
    let Ok((got, res)) = r else {
        reach("layer rejected");
        return;
    };
    if got != root {
        reach("layer other root");
        return;
    }
    reach("layer accepted");
    if let Some(p) = parent {
        let b = &t[0].el;
        check(!q.path.is_empty(), "the root tree has no parent");
        let is = match b {
            Element::SumTree(..) => p == TreeFeatureType::SummedMerkNode(5),
            _ => p == TreeFeatureType::BasicMerkNode,
        };
        check(is, "the parent tree's type is that of the tree the query reads");
    }
    if opt == 4 {
        // keys shown as the boundaries of a range
        let layers: Vec<(Vec<&[u8]>, &[TNode])> = match &t[0].child {
            Some(c) => vec![(vec![], &t[..]), (vec![b"b"], &c[..])],
            None => vec![(vec![], &t[..])],
        };
        for (path, nodes) in layers {
            let Ok(bs) = proof.boundaries(&path) else { continue };
            for k in [b"a", b"b", b"c", b"d", b"e"] {
                let is = bs.iter().any(|b| b == k);
                check(!is || nodes.iter().any(|n| [n.key] == *k), "a boundary an accepted proof shows is a key of the database");
                check(proof.key_exists_as_boundary(&path, k).ok() == Some(is), "both ways to ask for boundaries agree");
            }
        }
    }
    let mut want = vec![];
    expect(&levels, &t, &[], empty || raw, &mut limit.clone(), &mut want);
    if absence {
        let path = q.path.clone();
        let keys = levels.last().unwrap().keys.clone().unwrap();
        want = keys
            .iter()
            .map(|k| {
                let e = want.iter().find(|w| w.0 == path && w.1 == [*k]).and_then(|w| w.2.clone());
                (path.clone(), vec![*k], e)
            })
            .collect();
    }
    judge(&res, &want, v0, lower != 0);
}

/// `lower`: key b comes with contents
pub fn judge(res: &[Shown], want: &[Shown], v0: bool, lower: bool) {
    for r in res {
        let same = || want.iter().any(|w| w == r);
        let bare = !(lower && r.1 == b"b");
        match &r.2 {
            Some(
                Element::MmrTree(..) | Element::BulkAppendTree(..) | Element::CommitmentTree(..) | Element::DenseAppendOnlyFixedSizeTree(..),
            ) if bare => check(same(), "a non-merk tree shown without its contents is the database's"),
            Some(e) if v0 && bare && e.is_non_empty_merk_tree() => {
                check(same(), "a tree shown without its contents by a version 0 proof is the database's")
            }
            _ => {}
        }
    }
    check(res.len() == want.len(), "an accepted proof gives as many results as the database has for the query");
    for (r, w) in res.iter().zip(want) {
        check(r.0 == w.0 && r.1 == w.1, "the results are those of the query, in its order");
        let same = r.2 == w.2;
        match &r.2 {
            None | Some(Element::Item(..) | Element::SumItem(..) | Element::ItemWithSumItem(..)) => check(same, "an item shown by an accepted proof is the database's"),
            Some(Element::Reference(..)) => check(same, "a reference shown by an accepted proof is the database's"),
            _ => check(same, "a tree shown by an accepted proof is the database's"),
        }
    }
}

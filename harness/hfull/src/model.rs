//! What a GroveDB is: a map of keys to elements, trees within trees. Written from the
//! documentation, shares nothing with the implementation.
use grovedb::{query_result_type::{QueryResultElement, QueryResultType}, Element, GroveDb, PathQuery, Query};
use grovedb_version::version::GroveVersion;
use symapi::*;

pub const NORMAL: u8 = 0;
pub const SUM: u8 = 1;
pub const BIG: u8 = 2;
pub const COUNT: u8 = 3;
pub const COUNTSUM: u8 = 4;
pub const PCOUNT: u8 = 5;
pub const PCOUNTSUM: u8 = 6;
pub const MMR: u8 = 7;
pub const BULK: u8 = 8;
pub const DENSE: u8 = 9;
pub const COMMIT: u8 = 10;

#[derive(Clone)]
pub enum M {
    /// an item, sum item, item with sum or reference
    El(Element),
    Tree(Node, Option<Vec<u8>>),
    /// an append-only tree and its values
    App(u8, Vec<Vec<u8>>, Option<Vec<u8>>),
}
/// a count, a sum, a big sum (only in trees of big sums), and how often the sum went round
#[derive(Clone, Copy)]
pub struct W(pub u64, pub i64, pub i128, pub i8);
impl std::ops::Add for W {
    type Output = W;
    fn add(self, o: W) -> W {
        let (s, over) = self.1.overflowing_add(o.1);
        W(self.0 + o.0, s, if self.2 == 0 { o.2 } else if o.2 == 0 { self.2 } else { self.2 + o.2 }, self.3 + o.3 + if !over { 0 } else if o.1 < 0 { -1 } else { 1 })
    }
}
#[derive(Clone)]
pub struct Node {
    pub kind: u8,
    pub e: Vec<(Vec<u8>, M)>,
}
impl Node {
    pub fn new(kind: u8) -> Node {
        Node { kind, e: vec![] }
    }
    pub fn at(&self, k: &[u8]) -> Result<usize, usize> {
        // comparisons in order: the keys may be symbolic
        for (i, (x, _)) in self.e.iter().enumerate() {
            if x.as_slice() == k {
                return Ok(i);
            }
            if x.as_slice() > k {
                return Err(i);
            }
        }
        Err(self.e.len())
    }
    pub fn get(&self, k: &[u8]) -> Option<&M> {
        self.at(k).ok().map(|i| &self.e[i].1)
    }
    pub fn put(&mut self, k: &[u8], m: M) {
        match self.at(k) {
            Ok(i) => self.e[i].1 = m,
            Err(i) => self.e.insert(i, (k.to_vec(), m)),
        }
    }
    pub fn del(&mut self, k: &[u8]) {
        if let Ok(i) = self.at(k) {
            self.e.remove(i);
        }
    }
    /// a sum somewhere in it does not fit
    pub fn over(&self) -> bool {
        (summing(self.kind) && self.total().3 != 0) || self.e.iter().any(|(_, m)| matches!(m, M::Tree(t, _) if t.over()))
    }
    pub fn has_trees(&self) -> bool {
        self.e.iter().any(|(_, m)| !matches!(m, M::El(_)))
    }
    /// what the tree counts and sums, as its kind defines
    pub fn total(&self) -> W {
        self.e.iter().fold(W(0, 0, 0, 0), |w, (_, m)| w + m.worth(self.kind))
    }
    pub fn find(&mut self, path: &[Vec<u8>]) -> Option<&mut Node> {
        let mut n = self;
        for p in path {
            let i = n.at(p).ok()?;
            match &mut n.e[i].1 {
                M::Tree(t, _) => n = t,
                _ => return None,
            }
        }
        Some(n)
    }
    /// paths of all merk trees below (and including) this one
    pub fn paths(&self, at: Vec<Vec<u8>>, out: &mut Vec<Vec<Vec<u8>>>) {
        out.push(at.clone());
        for (k, m) in &self.e {
            if let M::Tree(t, _) = m {
                let mut p = at.clone();
                p.push(k.clone());
                t.paths(p, out);
            }
        }
    }
    pub fn records(&self) -> usize {
        self.e.iter().map(|(_, m)| 1 + if let M::Tree(t, _) = m { t.records() } else { 0 }).sum()
    }
}
pub fn summing(kind: u8) -> bool {
    matches!(kind, SUM | COUNTSUM | PCOUNTSUM)
}
pub fn counting(kind: u8) -> bool {
    matches!(kind, COUNT | COUNTSUM | PCOUNT | PCOUNTSUM)
}
impl M {
    /// what this is worth in a tree of the given kind: trees that count are worth their count
    /// and all else one; items with sums and trees with sums are worth their sum (trees of big
    /// sums only in a tree of big sums)
    pub fn worth(&self, parent: u8) -> W {
        let of = |c: u64, s: i64| if parent == BIG { W(c, 0, s as i128, 0) } else { W(c, s, 0, 0) };
        match self {
            M::El(Element::SumItem(s, _) | Element::ItemWithSumItem(_, s, _)) => of(1, *s),
            M::El(_) | M::App(..) => W(1, 0, 0, 0),
            M::Tree(t, _) => {
                let w = t.total();
                let c = if counting(t.kind) { w.0 } else { 1 };
                if t.kind == BIG && parent == BIG {
                    W(c, 0, w.2, 0)
                } else if summing(t.kind) {
                    of(c, w.1)
                } else {
                    W(c, 0, 0, 0)
                }
            }
        }
    }
    /// the element that stands for it (root keys left out)
    pub fn shown(&self) -> Element {
        match self {
            M::El(e) => e.clone(),
            M::Tree(t, f) => {
                tree_element(t.kind, t.total(), f.clone())
            }
            M::App(kind, v, f) => app_element(*kind, v.len() as u64, f.clone()),
        }
    }
}
pub fn tree_element(kind: u8, W(c, s, b, _): W, f: Option<Vec<u8>>) -> Element {
    match kind {
        NORMAL => Element::Tree(None, f),
        SUM => Element::SumTree(None, s, f),
        BIG => Element::BigSumTree(None, b, f),
        COUNT => Element::CountTree(None, c, f),
        COUNTSUM => Element::CountSumTree(None, c, s, f),
        PCOUNT => Element::ProvableCountTree(None, c, f),
        _ => Element::ProvableCountSumTree(None, c, s, f),
    }
}
pub fn app_element(kind: u8, n: u64, f: Option<Vec<u8>>) -> Element {
    match kind {
        MMR => Element::MmrTree(if n == 0 { 0 } else { 2 * n - n.count_ones() as u64 }, f),
        BULK => Element::BulkAppendTree(n, 1, f),
        DENSE => Element::DenseAppendOnlyFixedSizeTree(n as u16, 2, f),
        _ => Element::CommitmentTree(n, 1, f),
    }
}
pub fn empty(kind: u8, f: Option<Vec<u8>>) -> (Element, M) {
    if kind < MMR {
        (tree_element(kind, W(0, 0, 0, 0), f.clone()), M::Tree(Node::new(kind), f))
    } else {
        (app_element(kind, 0, f.clone()), M::App(kind, vec![], f))
    }
}
/// an element without its root key, and the root key
pub fn bare(e: &Element) -> (Element, Option<Vec<u8>>) {
    let mut e = e.clone();
    let r = match &mut e {
        Element::Tree(r, _)
        | Element::SumTree(r, ..)
        | Element::BigSumTree(r, ..)
        | Element::CountTree(r, ..)
        | Element::CountSumTree(r, ..)
        | Element::ProvableCountTree(r, ..)
        | Element::ProvableCountSumTree(r, ..) => r.take(),
        _ => None,
    };
    (e, r)
}
pub fn slices(p: &[Vec<u8>]) -> Vec<&[u8]> {
    p.iter().map(|s| s.as_slice()).collect()
}
pub fn full(path: &[Vec<u8>]) -> PathQuery {
    let mut q = Query::new();
    q.insert_all();
    PathQuery::new_unsized(path.to_vec(), q)
}

/// the database holds what the model holds, in every tree, and nothing else
pub fn same(db: &GroveDb, root: &Node, tx: grovedb::TransactionArg) {
    let v = GroveVersion::latest();
    let mut paths = vec![];
    root.paths(vec![], &mut paths);
    let mut r = root.clone();
    for p in &paths {
        let n = r.find(p).unwrap().clone();
        let got = db.query_raw(&full(p), true, true, true, QueryResultType::QueryKeyElementPairResultType, tx, v).unwrap();
        let Ok((els, _)) = got else {
            check(false, "a tree can be queried");
            continue;
        };
        check(els.elements.len() == n.e.len(), "a tree has the entries put into it");
        for (el, (k, m)) in els.elements.iter().zip(&n.e) {
            let QueryResultElement::KeyElementPairResultItem((gk, ge)) = el else {
                check(false, "pairs");
                continue;
            };
            check(gk == k, "keys in order");
            let (b, root_key) = bare(ge);
            check(b == m.shown(), "an entry is what was put, with the sums and counts of what is in it");
            if let M::Tree(t, _) = m {
                check(root_key.is_some() == !t.e.is_empty(), "a tree has a root key exactly if it has entries");
            }
        }
    }
}

use grovedb_merk::{tree::{combine_hash, kv_digest_to_kv_hash, node_hash, value_hash, AggregateData, TreeNode, NULL_HASH}, TreeFeatureType};
use grovedb_storage::rocksdb_storage::RocksDbStorage;

type Records = Vec<(Vec<u8>, Vec<u8>)>;
fn record<'a>(r: &'a Records, prefix: &[u8; 32], key: &[u8]) -> Option<&'a [u8]> {
    // records are looked up as the storage would, in order
    let mut k = prefix.to_vec();
    k.extend_from_slice(key);
    r.binary_search_by(|e| e.0.as_slice().cmp(&k)).ok().map(|i| r[i].1.as_slice())
}
fn count_hash(kv: &[u8; 32], l: &[u8; 32], r: &[u8; 32], count: u64) -> [u8; 32] {
    let mut b = kv.to_vec();
    b.extend_from_slice(l);
    b.extend_from_slice(r);
    b.extend_from_slice(&count.to_be_bytes());
    *blake3::hash(&b).as_bytes()
}
fn feature(kind: u8, W(c, s, b, _): W) -> TreeFeatureType {
    match kind {
        NORMAL => TreeFeatureType::BasicMerkNode,
        SUM => TreeFeatureType::SummedMerkNode(s),
        BIG => TreeFeatureType::BigSummedMerkNode(b),
        COUNT => TreeFeatureType::CountedMerkNode(c),
        COUNTSUM => TreeFeatureType::CountedSummedMerkNode(c, s),
        PCOUNT => TreeFeatureType::ProvableCountedMerkNode(c),
        _ => TreeFeatureType::ProvableCountedSummedMerkNode(c, s),
    }
}
fn aggregate(kind: u8, w: W) -> AggregateData {
    feature(kind, w).into()
}
/// the state of an append-only tree with these values
pub fn app_state(kind: u8, values: &[Vec<u8>]) -> [u8; 32] {
    if values.is_empty() {
        return if kind == COMMIT { grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT } else { NULL_HASH };
    }
    todo!()
}
struct Walk<'a> {
    r: &'a Records,
    prefix: [u8; 32],
    node: &'a Node,
    path: Vec<Vec<u8>>,
    next: usize,
}
impl Walk<'_> {
    /// hash, height and worth of the nodes below (and with) a key; visits the keys in order
    fn go(&mut self, key: &[u8]) -> ([u8; 32], u8, W) {
        let Some(bytes) = record(self.r, &self.prefix, key) else {
            check(false, "a node that is linked to is stored");
            return (NULL_HASH, 0, W(0, 0, 0, 0));
        };
        let t = TreeNode::decode(key.to_vec(), bytes, None::<fn(&[u8], &GroveVersion) -> Option<grovedb_merk::tree::kv::ValueDefinedCostType>>, GroveVersion::latest()).unwrap();
        let mut side = |w: &mut Self, left: bool| match t.link(left) {
            None => (NULL_HASH, 0, W(0, 0, 0, 0)),
            Some(l) => {
                let (h, height, worth) = w.go(l.key());
                check(*l.hash() == h, "a link has the hash of what it leads to");
                check(l.height() == height, "a link has the height of what it leads to");
                check(l.aggregate_data() == aggregate(w.node.kind, worth), "a link has the sums and counts of what it leads to");
                (h, height, worth)
            }
        };
        let (lh, lheight, lw) = side(self, true);
        let Some((k, m)) = self.node.e.get(self.next) else {
            check(false, "no more nodes than entries");
            return (NULL_HASH, 0, W(0, 0, 0, 0));
        };
        self.next += 1;
        check(k.as_slice() == key, "nodes are in the order of their keys");
        let e = Element::deserialize(t.value_as_slice(), GroveVersion::latest()).unwrap();
        let own = value_hash(t.value_as_slice()).unwrap();
        let vh = match m {
            M::El(Element::Reference(..)) => *t.value_hash(),
            M::El(_) => own,
            M::Tree(sub, _) => {
                let mut p = self.path.clone();
                p.push(k.clone());
                combine_hash(&own, &merk_state(self.r, &p, bare(&e).1, sub)).unwrap()
            }
            M::App(kind, v, _) => combine_hash(&own, &app_state(*kind, v)).unwrap(),
        };
        check(*t.value_hash() == vh, "a node binds its value and the tree in it");
        let w = m.worth(self.node.kind);
        check(t.feature_type() == feature(self.node.kind, w), "a node has the sum and count of its entry");
        let (rh, rheight, rw) = side(self, false);
        check(lheight.abs_diff(rheight) <= 1, "the tree is balanced");
        let worth = lw + w + rw;
        let kv = kv_digest_to_kv_hash(key, &vh).unwrap();
        check(*t.kv_hash() == kv, "a node binds key and value");
        let h = if matches!(self.node.kind, PCOUNT | PCOUNTSUM) { count_hash(&kv, &lh, &rh, worth.0) } else { node_hash(&kv, &lh, &rh).unwrap() };
        (h, 1 + lheight.max(rheight), worth)
    }
}
/// the root hash of a tree of the database, every node of it checked
fn merk_state(r: &Records, path: &[Vec<u8>], root_key: Option<Vec<u8>>, node: &Node) -> [u8; 32] {
    let Some(k) = root_key else {
        check(node.e.is_empty(), "a tree with entries has a root");
        return NULL_HASH;
    };
    let s = slices(path);
    let prefix = RocksDbStorage::build_prefix(s.as_slice().into()).unwrap();
    let mut w = Walk { r, prefix, node, path: path.to_vec(), next: 0 };
    let (h, ..) = w.go(&k);
    check(w.next == node.e.len(), "every entry is in the tree");
    h
}
/// the committed records are those of a well formed tree of trees with the model's contents,
/// and no others
pub fn sound(db: &GroveDb, m: &Node) {
    let v = GroveVersion::latest();
    let r = rocksdb::records("a", 0);
    let root_key = db.root_key(None, v).unwrap().unwrap();
    let h = merk_state(&r, &[], root_key, m);
    check(db.root_hash(None, v).unwrap().unwrap() == h, "the root hash is the hash of the contents");
    check(r.len() == m.records(), "a record per entry, and no other");
}
/// the record of a reference binds the element it leads to
pub fn binds(path: &[Vec<u8>], key: &[u8], to: &Element) -> bool {
    let v = GroveVersion::latest();
    let r = rocksdb::records("a", 0);
    let s = slices(path);
    let prefix = RocksDbStorage::build_prefix(s.as_slice().into()).unwrap();
    let bytes = record(&r, &prefix, key).unwrap();
    let t = TreeNode::decode(key.to_vec(), bytes, None::<fn(&[u8], &GroveVersion) -> Option<grovedb_merk::tree::kv::ValueDefinedCostType>>, v).unwrap();
    let own = value_hash(t.value_as_slice()).unwrap();
    *t.value_hash() == combine_hash(&own, &value_hash(&to.serialize(v).unwrap()).unwrap()).unwrap()
}

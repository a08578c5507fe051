use grovedb_element::{ElementType, ProofNodeType};
use grovedb_element::reference_path::{path_from_reference_qualified_path_type, ReferencePathType};
use grovedb_element::Element;
use grovedb_path::{SubtreePath, SubtreePathBuilder};
use grovedb_version::version::GroveVersion;
use symapi::*;
use Element::*;
use ReferencePathType::*;

fn optvec(n: usize) -> Option<Vec<u8>> {
    bool().then(|| vec_upto(0, n))
}

fn segs(lo: usize, hi: usize, len: usize) -> Vec<Vec<u8>> {
    let n = lo + choose(hi - lo + 1);
    (0..n).map(|_| vec_upto(0, len)).collect()
}

fn reference(kind: u64, lo: usize, hi: usize, len: usize) -> ReferencePathType {
    match kind {
        0 => AbsolutePathReference(segs(lo, hi, len)),
        1 => UpstreamRootHeightReference(u8(), segs(lo, hi, len)),
        2 => UpstreamRootHeightWithParentPathAdditionReference(u8(), segs(lo, hi, len)),
        3 => UpstreamFromElementHeightReference(u8(), segs(lo, hi, len)),
        4 => CousinReference(vec_upto(0, len)),
        5 => RemovedCousinReference(segs(lo, hi, len)),
        _ => SiblingReference(vec_upto(0, len)),
    }
}

fn i128v() -> i128 {
    ((u64() as u128) << 64 | u64() as u128) as i128
}

fn element(kind: u64) -> Element {
    match kind {
        0 => Item(vec_upto(0, 3), optvec(2)),
        1 => {
            let hop = if bool() { Some(u8()) } else { None };
            Reference(reference(choose(7) as u64, 0, 2, 1), hop, optvec(1))
        }
        2 => Tree(optvec(3), optvec(2)),
        3 => SumItem(i64(), optvec(2)),
        4 => SumTree(optvec(2), i64(), optvec(2)),
        5 => BigSumTree(optvec(1), i128v(), optvec(1)),
        6 => CountTree(optvec(2), u64(), optvec(2)),
        7 => CountSumTree(optvec(1), u64(), i64(), optvec(1)),
        8 => ProvableCountTree(optvec(2), u64(), optvec(2)),
        9 => ItemWithSumItem(vec_upto(0, 2), i64(), optvec(2)),
        10 => ProvableCountSumTree(optvec(1), u64(), i64(), optvec(1)),
        11 => CommitmentTree(u64(), u8(), optvec(2)),
        12 => MmrTree(u64(), optvec(2)),
        13 => BulkAppendTree(u64(), u8(), optvec(2)),
        _ => DenseAppendOnlyFixedSizeTree(u16(), u8(), optvec(2)),
    }
}

// the stored layout, written down independently
fn uint(o: &mut Vec<u8>, n: u128) {
    if n < 251 {
        o.push(n as u8)
    } else if n < 1 << 16 {
        o.push(251);
        o.extend((n as u16).to_be_bytes())
    } else if n < 1 << 32 {
        o.push(252);
        o.extend((n as u32).to_be_bytes())
    } else if n < 1 << 64 {
        o.push(253);
        o.extend((n as u64).to_be_bytes())
    } else {
        o.push(254);
        o.extend(n.to_be_bytes())
    }
}
fn int(o: &mut Vec<u8>, n: i64) {
    uint(o, ((n << 1) ^ (n >> 63)) as u64 as u128)
}
fn big(o: &mut Vec<u8>, n: i128) {
    uint(o, ((n << 1) ^ (n >> 127)) as u128)
}
fn vecs(o: &mut Vec<u8>, v: &[u8]) {
    uint(o, v.len() as u128);
    o.extend(v)
}
fn opt(o: &mut Vec<u8>, v: &Option<Vec<u8>>) {
    match v {
        None => o.push(0),
        Some(v) => {
            o.push(1);
            vecs(o, v)
        }
    }
}
fn path(o: &mut Vec<u8>, p: &[Vec<u8>]) {
    uint(o, p.len() as u128);
    p.iter().for_each(|s| vecs(o, s))
}

fn layout(e: &Element) -> Vec<u8> {
    let mut b = vec![];
    let o = &mut b;
    match e {
        Item(v, f) => {
            o.push(0);
            vecs(o, v);
            opt(o, f)
        }
        Reference(r, h, f) => {
            o.push(1);
            match r {
                AbsolutePathReference(p) => {
                    o.push(0);
                    path(o, p)
                }
                UpstreamRootHeightReference(n, p) => {
                    o.extend([1, *n]);
                    path(o, p)
                }
                UpstreamRootHeightWithParentPathAdditionReference(n, p) => {
                    o.extend([2, *n]);
                    path(o, p)
                }
                UpstreamFromElementHeightReference(n, p) => {
                    o.extend([3, *n]);
                    path(o, p)
                }
                CousinReference(k) => {
                    o.push(4);
                    vecs(o, k)
                }
                RemovedCousinReference(p) => {
                    o.push(5);
                    path(o, p)
                }
                SiblingReference(k) => {
                    o.push(6);
                    vecs(o, k)
                }
            }
            match h {
                None => o.push(0),
                Some(h) => o.extend([1, *h]),
            }
            opt(o, f)
        }
        Tree(k, f) => {
            o.push(2);
            opt(o, k);
            opt(o, f)
        }
        SumItem(s, f) => {
            o.push(3);
            int(o, *s);
            opt(o, f)
        }
        SumTree(k, s, f) => {
            o.push(4);
            opt(o, k);
            int(o, *s);
            opt(o, f)
        }
        BigSumTree(k, s, f) => {
            o.push(5);
            opt(o, k);
            big(o, *s);
            opt(o, f)
        }
        CountTree(k, c, f) => {
            o.push(6);
            opt(o, k);
            uint(o, *c as u128);
            opt(o, f)
        }
        CountSumTree(k, c, s, f) => {
            o.push(7);
            opt(o, k);
            uint(o, *c as u128);
            int(o, *s);
            opt(o, f)
        }
        ProvableCountTree(k, c, f) => {
            o.push(8);
            opt(o, k);
            uint(o, *c as u128);
            opt(o, f)
        }
        ItemWithSumItem(v, s, f) => {
            o.push(9);
            vecs(o, v);
            int(o, *s);
            opt(o, f)
        }
        ProvableCountSumTree(k, c, s, f) => {
            o.push(10);
            opt(o, k);
            uint(o, *c as u128);
            int(o, *s);
            opt(o, f)
        }
        CommitmentTree(c, p, f) => {
            o.push(11);
            uint(o, *c as u128);
            o.push(*p);
            opt(o, f)
        }
        MmrTree(n, f) => {
            o.push(12);
            uint(o, *n as u128);
            opt(o, f)
        }
        BulkAppendTree(c, p, f) => {
            o.push(13);
            uint(o, *c as u128);
            o.push(*p);
            opt(o, f)
        }
        DenseAppendOnlyFixedSizeTree(c, h, f) => {
            o.push(14);
            uint(o, *c as u128);
            o.push(*h);
            opt(o, f)
        }
    }
    b
}

/// C05: every element survives its encoding, whose layout is as specified
pub fn codec(cfg: u64) {
    let v = GroveVersion::latest();
    let e = element(cfg);
    let Ok(b) = e.serialize(v) else {
        check(false, "every element can be stored");
        return;
    };
    check(b == layout(&e), "elements keep their stored layout");
    check(e.serialized_size(v).ok() == Some(b.len()), "an element's size is that of its encoding");
    match Element::deserialize(&b, v) {
        Ok(d) => check(d == e, "an element survives its encoding"),
        Err(_) => check(false, "a stored element can be read"),
    }
    check(ElementType::from_serialized_value(&b).ok() == Some(e.element_type()), "the first stored byte tells the element's type");
    check(b[0] as u64 == cfg && e.element_type() as u64 == cfg, "element types keep their numbers");
    let mut other = v.clone();
    let n = u16();
    other.grovedb_versions.element.serialize = n;
    check(e.serialize(&other).is_ok() == (n == 0), "an unknown version is refused");
    let mut other = v.clone();
    other.grovedb_versions.element.deserialize = n;
    check(Element::deserialize(&b, &other).is_ok() == (n == 0), "an unknown version is refused");
    reach("element codec");
}

/// C05: reading arbitrary bytes as an element never crashes or overallocates
pub fn total(cfg: u64) {
    let v = GroveVersion::latest();
    let mut b = vec((cfg / 20) as usize);
    b.insert(0, (cfg % 20) as u8);
    alloc_limit(1 << 32);
    match Element::deserialize(&b, v) {
        Err(_) => reach("element rejected"),
        Ok(e) => {
            check(ElementType::from_serialized_value(&b).ok() == Some(e.element_type()), "the first stored byte tells the element's type");
            let r = e.serialize(v).unwrap();
            check(r.len() <= b.len(), "no encoding is shorter than the canonical one");
            check(Element::deserialize(&r, v).ok() == Some(e), "a read element survives re-encoding");
            reach("element accepted");
        }
    }
}

/// C05: what an element says about itself follows from its kind and contents
pub fn helpers(cfg: u64) {
    let e = element(cfg);
    let t = e.element_type();
    let (count, sum, bigsum) = match &e {
        SumItem(s, _) | ItemWithSumItem(_, s, _) | SumTree(_, s, _) => (1, *s, *s as i128),
        BigSumTree(_, s, _) => (1, 0, *s),
        CountTree(_, c, _) | ProvableCountTree(_, c, _) => (*c, 0, 0),
        CountSumTree(_, c, s, _) | ProvableCountSumTree(_, c, s, _) => (*c, *s, *s as i128),
        _ => (1, 0, 0),
    };
    check(e.sum_value_or_default() == sum, "an element contributes its sum");
    check(e.count_value_or_default() == count, "an element contributes its count");
    check(e.count_sum_value_or_default() == (count, sum), "an element contributes its count and sum");
    check(e.big_sum_value_or_default() == bigsum, "an element contributes its big sum");
    let tree = matches!(cfg, 2 | 4 | 5 | 6 | 7 | 8 | 10 | 11..=14);
    let item = matches!(cfg, 0 | 3 | 9);
    check((e.is_any_tree() == tree) & (t.is_tree() == tree), "trees are trees");
    check((e.is_any_item() == item) & (t.is_item() == item) & (t.has_simple_value_hash() == item), "items are items");
    check((e.is_reference() == (cfg == 1)) & (t.is_reference() == (cfg == 1)), "references are references");
    check(t.has_combined_value_hash() == !item, "trees and references bind another hash");
    check(e.is_sum_item() == matches!(cfg, 3 | 9) && e.has_basic_item() == matches!(cfg, 0 | 9), "items know their parts");
    check(e.as_sum_item_value().ok() == matches!(cfg, 3 | 9).then_some(sum), "sum items have a sum");
    check(e.clone().into_sum_item_value().ok() == matches!(cfg, 3 | 9).then_some(sum), "sum items have a sum");
    check(e.as_sum_tree_value().ok() == (cfg == 4).then_some(sum), "sum trees have a sum");
    let bytes = match &e {
        Item(b, _) | ItemWithSumItem(b, ..) => Some(b.as_slice()),
        _ => None,
    };
    check(e.as_item_bytes().ok() == bytes, "items have their bytes");
    check(e.clone().into_item_bytes().ok().as_deref() == bytes, "items have their bytes");
    let root = match &e {
        Tree(k, _) | SumTree(k, ..) | BigSumTree(k, ..) | CountTree(k, ..) | CountSumTree(k, ..) | ProvableCountTree(k, ..) | ProvableCountSumTree(k, ..) => k.is_some(),
        _ => false,
    };
    let other = matches!(cfg, 11..=14);
    check(e.is_non_empty_merk_tree() == root && e.is_non_empty_tree() == (root | other), "a tree with a root is not empty");
    check(e.uses_non_merk_data_storage() == other, "append-only trees keep their own storage");
    let n = match &e {
        CommitmentTree(n, ..) | MmrTree(n, _) | BulkAppendTree(n, ..) => Some(*n),
        DenseAppendOnlyFixedSizeTree(n, ..) => Some(*n as u64),
        _ => None,
    };
    check(e.non_merk_entry_count() == n, "append-only trees know their size");
    for p in [None, Some(ElementType::Tree), Some(ElementType::ProvableCountTree), Some(ElementType::ProvableCountSumTree), Some(ElementType::CountTree)] {
        let c = matches!(p, Some(ElementType::ProvableCountTree | ElementType::ProvableCountSumTree));
        let want = match (item, cfg == 1, c) {
            (true, _, false) => ProofNodeType::Kv,
            (true, _, true) => ProofNodeType::KvCount,
            (_, true, false) => ProofNodeType::KvRefValueHash,
            (_, true, true) => ProofNodeType::KvRefValueHashCount,
            (_, _, false) => ProofNodeType::KvValueHash,
            (_, _, true) => ProofNodeType::KvValueHashFeatureType,
        };
        check(t.proof_node_type(p) == want, "proofs carry what binds an element's value");
    }
    let f = optvec(2);
    let mut g = e.clone();
    g.set_flags(f.clone());
    check(*g.get_flags() == f && g.clone().get_flags_owned() == f && *g.get_flags_mut() == f, "flags are read as they were set");
    g.set_flags(e.get_flags().clone());
    check(g == e, "setting flags changes nothing else");
    let x = u8();
    check(ElementType::try_from(x).is_ok() == (x < 15), "only fifteen element types exist");
    if let Ok(y) = ElementType::try_from(x) {
        check(y as u8 == x, "element types keep their numbers");
    }
    reach("element helpers");
}

/// what a reference stored at `path`/`key` points at, as its documentation says
fn target(r: &ReferencePathType, path: &[Vec<u8>], key: &[u8]) -> Option<Vec<Vec<u8>>> {
    let n = path.len();
    Some(match r {
        AbsolutePathReference(p) => p.clone(),
        UpstreamRootHeightReference(h, p) => [path.get(..*h as usize)?, p].concat(),
        UpstreamRootHeightWithParentPathAdditionReference(h, p) => {
            let last = path.last()?.clone();
            [path.get(..*h as usize)?, p, &[last]].concat()
        }
        UpstreamFromElementHeightReference(h, p) => [&path[..n.checked_sub(*h as usize)?], p].concat(),
        CousinReference(k) => [&path[..n.checked_sub(1)?], &[k.clone(), key.to_vec()]].concat(),
        RemovedCousinReference(p) => [&path[..n.checked_sub(1)?], p, &[key.to_vec()]].concat(),
        SiblingReference(k) => [path, &[k.clone()]].concat(),
    })
}

/// C06: every way of resolving a reference gives the documented target
pub fn resolve(cfg: u64) {
    let (kind, n) = (cfg % 7, (cfg / 7) as usize);
    let r = reference(kind, 0, 2, 1);
    let path: Vec<Vec<u8>> = (0..n).map(|_| vec_upto(0, 1)).collect();
    let key = vec_upto(0, 1);
    let want = target(&r, &path, &key);
    check(r.clone().absolute_path(&path, Some(&key)).ok() == want, "a reference resolves to its documented target");
    let q = [path.as_slice(), &[key.clone()]].concat();
    check(r.clone().absolute_path_using_current_qualified_path(&q).ok() == want, "a reference resolves from its qualified path");
    check(path_from_reference_qualified_path_type(r.clone(), &q).ok() == want, "a reference resolves from its qualified path");
    let b = SubtreePathBuilder::<Vec<u8>>::owned_from_iter(&path);
    check(r.clone().absolute_qualified_path(b, &key).ok().map(|p| p.to_vec()) == want, "a reference resolves over path builders");
    let b = SubtreePath::<Vec<u8>>::from(path.as_slice());
    check(r.clone().absolute_qualified_path(b.derive_owned(), &key).ok().map(|p| p.to_vec()) == want, "a reference resolves over derived paths");
    let refs: Vec<&[u8]> = path.iter().map(|p| p.as_slice()).collect();
    let f = optvec(1);
    let hop = Some(u8());
    let e = Reference(r, hop, f.clone());
    match (e.convert_if_reference_to_absolute_reference(&refs, Some(&key)), want) {
        (Ok(Reference(AbsolutePathReference(p), h, g)), Some(w)) => check(p == w && h == hop && g == f, "a reference made absolute keeps its target, hops and flags"),
        (Err(_), None) => {}
        _ => check(false, "a reference is made absolute exactly when it resolves"),
    }
    let x: Vec<Vec<u8>> = vec![];
    check(SiblingReference(key).absolute_path_using_current_qualified_path(&x).is_err(), "an empty location resolves nothing");
    reach("resolve");
}

/// C06: an inverted reference leads from the target back to where the reference is stored
pub fn invert(cfg: u64) {
    let (kind, n) = (cfg % 7, (cfg / 7) as usize);
    let r = reference(kind, 1, 2, 1);
    let path: Vec<Vec<u8>> = (0..n).map(|_| vec_upto(0, 1)).collect();
    let key = vec_upto(0, 1);
    let Some(t) = target(&r, &path, &key) else { return };
    let i = r.invert(SubtreePath::<Vec<u8>>::from(path.as_slice()), &key);
    check(i.is_some(), "a reference that resolves can be inverted");
    let Some(i) = i else { return };
    check(i.absolute_path_using_current_qualified_path(&t).ok() == Some([path, vec![key]].concat()), "an inverted reference leads back");
    reach("invert");
}

//! C04: the proof operation codec.
use ed::{Decode, Encode};
use grovedb_costs::TreeCostType;
use grovedb_query::proofs::{encode_into, Decoder, Node, NodeType, Op, TreeFeatureType};
use symapi::*;

const BASE: [u8; 12] = [0x01, 0x02, 0x05, 0x03, 0x04, 0x07, 0x06, 0x14, 0x15, 0x18, 0x1a, 0x1c];
const INV: [u8; 12] = [0x08, 0x09, 0x0c, 0x0a, 0x0b, 0x0e, 0x0d, 0x16, 0x17, 0x19, 0x1b, 0x1d];
const LARGE: [u8; 12] = [0, 0, 0, 0x20, 0x21, 0x23, 0x22, 0x24, 0, 0x25, 0, 0x2e];
const LARGE_INV: [u8; 12] = [0, 0, 0, 0x28, 0x29, 0x2b, 0x2a, 0x2c, 0, 0x2d, 0, 0x2f];

fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn zigzag(v: i64) -> u64 {
    if v < 0 {
        !(v as u64).wrapping_shl(1)
    } else {
        (v as u64) << 1
    }
}

fn feat(kind: usize, c: u64, s: i64, b: i128) -> TreeFeatureType {
    match kind {
        0 => TreeFeatureType::BasicMerkNode,
        1 => TreeFeatureType::SummedMerkNode(s),
        2 => TreeFeatureType::BigSummedMerkNode(b),
        3 => TreeFeatureType::CountedMerkNode(c),
        4 => TreeFeatureType::CountedSummedMerkNode(c, s),
        5 => TreeFeatureType::ProvableCountedMerkNode(c),
        _ => TreeFeatureType::ProvableCountedSummedMerkNode(c, s),
    }
}
/// reference encoding of a feature type
fn feat_bytes(out: &mut Vec<u8>, kind: usize, c: u64, s: i64, b: i128) {
    out.push(kind as u8);
    if kind >= 3 {
        varint(out, c);
    }
    if matches!(kind, 1 | 4 | 6) {
        varint(out, zigzag(s));
    }
    if kind == 2 {
        out.extend_from_slice(&b.to_be_bytes());
    }
}

/// an op and its reference encoding. `kind`: 0..12 push, 12..24 inverted, 24..28 the family ops
fn mk(kind: usize, key: Vec<u8>, value: Vec<u8>, ft: usize) -> (Op, Vec<u8>) {
    if kind >= 24 {
        return match kind {
            24 => (Op::Parent, vec![0x10]),
            25 => (Op::Child, vec![0x11]),
            26 => (Op::ParentInverted, vec![0x12]),
            _ => (Op::ChildInverted, vec![0x13]),
        };
    }
    let (k, inv) = (kind % 12, kind >= 12);
    let h: [u8; 32] = bytes();
    let h2: [u8; 32] = if k == 11 { bytes() } else { [0; 32] };
    let has_count = matches!(k, 7 | 8 | 9 | 10);
    let has_ft = matches!(k, 5 | 11);
    let count = if has_count || has_ft && ft >= 3 { u64() } else { 0 };
    let s = if has_ft && matches!(ft, 1 | 4 | 6) { i64() } else { 0 };
    let b = if has_ft && ft == 2 { i128::from_le_bytes(bytes()) } else { 0 };
    let f = feat(ft, count, s, b);
    let mut out = vec![];
    let big = value.len() >= 65536;
    out.push(match (big, inv) {
        (false, false) => BASE[k],
        (false, true) => INV[k],
        (true, false) => LARGE[k],
        (true, true) => LARGE_INV[k],
    });
    let has_key = !matches!(k, 0 | 1 | 8);
    let has_value = matches!(k, 3 | 4 | 5 | 6 | 7 | 9 | 11);
    if has_key {
        out.push(key.len() as u8);
        out.extend_from_slice(&key);
    }
    if has_value {
        if big {
            out.extend_from_slice(&(value.len() as u32).to_be_bytes());
        } else {
            out.extend_from_slice(&(value.len() as u16).to_be_bytes());
        }
        out.extend_from_slice(&value);
    }
    if !matches!(k, 3 | 7) {
        out.extend_from_slice(&h);
    }
    if has_count {
        out.extend_from_slice(&count.to_be_bytes());
    }
    if has_ft {
        feat_bytes(&mut out, ft, count, s, b);
    }
    if k == 11 {
        out.extend_from_slice(&h2);
    }
    let n = match k {
        0 => Node::Hash(h),
        1 => Node::KVHash(h),
        2 => Node::KVDigest(key, h),
        3 => Node::KV(key, value),
        4 => Node::KVValueHash(key, value, h),
        5 => Node::KVValueHashFeatureType(key, value, h, f),
        6 => Node::KVRefValueHash(key, value, h),
        7 => Node::KVCount(key, value, count),
        8 => Node::KVHashCount(h, count),
        9 => Node::KVRefValueHashCount(key, value, h, count),
        10 => Node::KVDigestCount(key, h, count),
        _ => Node::KVValueHashFeatureTypeWithChildHash(key, value, h, f, h2),
    };
    (if inv { Op::PushInverted(n) } else { Op::Push(n) }, out)
}

fn agree(op: &Op, want: &[u8]) {
    let mut got = vec![];
    encode_into([op].into_iter(), &mut got);
    check(got.as_slice() == want, "the operation is encoded in the documented format");
    check(op.encoding_length() == want.len(), "encoding_length is the length of the encoding");
    let mut rest = want;
    let back = <Op as Decode>::decode(&mut rest);
    check(matches!(&back, Ok(o) if o == op), "decoding gives the operation back");
    check(rest.is_empty(), "decoding consumes the whole encoding");
}

/// cfg = kind + 100 * feature type
pub fn codec(cfg: u64) {
    let (kind, ft) = ((cfg % 100) as usize, (cfg / 100 % 10) as usize);
    let k = [0, 1, 3, 255][choose(4)];
    let v = [0, 1, 4, 300][choose(4)];
    let has_key = kind < 24 && !matches!(kind % 12, 0 | 1 | 8);
    let has_value = kind < 24 && matches!(kind % 12, 3 | 4 | 5 | 6 | 7 | 9 | 11);
    assume((has_key || k == 0) && (has_value || v == 0));
    let key = vec(k);
    let value = vec(v);
    let (op, want) = mk(kind, key, value, ft);
    agree(&op, &want);
    reach("op codec");
}

/// values on both sides of the 64 KiB format boundary: cfg = kind + 100 * (len - 65535)
pub fn large(cfg: u64) {
    let (kind, len) = ((cfg % 100) as usize, 65535 + (cfg / 100) as usize);
    let mut value = vec![7u8; len];
    value[0] = u8();
    value[len - 1] = u8();
    let key = vec(2);
    let (op, want) = mk(kind, key, value, 0);
    agree(&op, &want);
    let mut d = Decoder::new(&want);
    check(matches!(d.next(), Some(Ok(o)) if o == op), "the decoder yields the operation");
    check(d.remaining_bytes() == 0 && d.next().is_none(), "the decoder ends with the input");
    reach("op large");
}

/// arbitrary bytes after each opcode: cfg = opcode + 1000 * length
pub fn total(cfg: u64) {
    alloc_limit((64 << 20) + 4096);
    let (op, n) = ((cfg % 1000) as u8, (cfg / 1000) as usize);
    let mut b = vec(n);
    if n > 0 {
        b[0] = op;
    }
    let mut rest = b.as_slice();
    let got = <Op as Decode>::decode(&mut rest);
    let used = n - rest.len();
    match got {
        Err(_) => {
            reach("op rejected");
            let mut d = Decoder::new(&b);
            check(n == 0 || matches!(d.next(), Some(Err(_))), "the decoder rejects what decode rejects");
        }
        Ok(o) => {
            reach("op accepted");
            check(Op::decode(&b).is_ok(), "both decoders accept");
            let mut d = Decoder::new(&b);
            check(matches!(d.next(), Some(Ok(p)) if p == o), "the decoder yields the decoded operation");
            check(d.remaining_bytes() == n - used, "the decoder consumes exactly the bytes of the operation");
            let mut e = vec![];
            encode_into([&o].into_iter(), &mut e);
            check(e.len() == o.encoding_length(), "encoding_length is exact for accepted operations");
            check(matches!(Op::decode(&e), Ok(p) if p == o), "an accepted operation survives another round trip");
        }
    }
}

/// a sequence of operations: cfg = a + 28 * b
pub fn seq(cfg: u64) {
    let (a, b) = ((cfg % 28) as usize, (cfg / 28 % 28) as usize);
    let ft = choose(3) * 2;
    let (o1, mut w) = mk(a, vec![1, 2], vec(1), ft);
    let (o2, w2) = mk(b, vec(1), vec![9], ft + 1);
    w.extend_from_slice(&w2);
    let ops = [o1.clone(), Op::Child, o2.clone()];
    let _ = &ops;
    let mut all = vec![];
    encode_into([o1.clone(), o2.clone()].iter(), &mut all);
    check(all == w, "a proof is the concatenation of its operations");
    let mut d = Decoder::new(&all);
    check(matches!(d.next(), Some(Ok(p)) if p == o1), "first operation");
    check(d.remaining_bytes() == w2.len(), "remaining bytes after the first operation");
    check(matches!(d.next(), Some(Ok(p)) if p == o2), "second operation");
    check(d.next().is_none() && d.remaining_bytes() == 0, "nothing follows");
    reach("op seq");
}

/// feature types by themselves: cfg = kind
pub fn feature(cfg: u64) {
    let k = cfg as usize;
    let (c, s, b) = (u64(), i64(), i128::from_le_bytes(bytes()));
    let f = feat(k, c, s, b);
    let mut want = vec![];
    feat_bytes(&mut want, k, c, s, b);
    let mut got = vec![];
    f.encode_into(&mut got).unwrap();
    check(got == want, "feature type format");
    check(f.encoding_length().unwrap() == want.len(), "feature type encoding length");
    let mut rest = want.as_slice();
    check(matches!(TreeFeatureType::decode(&mut rest), Ok(g) if g == f), "feature type round trip");
    check(rest.is_empty(), "feature type consumes its encoding");
    let fixed = match k {
        0 => 0,
        1 | 3 | 5 => 8,
        _ => 16,
    };
    let nt = f.node_type();
    let want_nt = [
        NodeType::NormalNode,
        NodeType::SumNode,
        NodeType::BigSumNode,
        NodeType::CountNode,
        NodeType::CountSumNode,
        NodeType::ProvableCountNode,
        NodeType::ProvableCountSumNode,
    ][k];
    check(nt == want_nt, "node type of the feature type");
    check(nt.cost() == fixed && nt.feature_len() == fixed + 1 && f.encoding_cost() == fixed as usize + 1, "fixed cost of the feature type");
    check(f.count() == if k >= 3 { Some(c) } else { None }, "count of the feature type");
    let len = want.len() as u32 - 1;
    let spec = match k {
        0 => None,
        2 => Some((TreeCostType::TreeFeatureUses16Bytes, 16)),
        1 | 3 | 5 => Some((TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes, len)),
        _ => Some((TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes, len)),
    };
    let tag = |x: Option<(TreeCostType, u32)>| {
        x.map(|(t, n)| {
            let t = match t {
                TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes => 0,
                TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes => 1,
                TreeCostType::TreeFeatureUses16Bytes => 2,
            };
            (t, n)
        })
    };
    check(tag(f.tree_feature_specialized_type_and_length()) == tag(spec), "specialised cost of the feature type");
    reach("feature");
}

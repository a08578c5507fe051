use grovedb_path::{SubtreePath, SubtreePathBuilder};
use std::hash::{Hash, Hasher};
use symapi::*;

/// records what is fed to the hasher
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}

fn hashed<T: Hash>(x: &T) -> Vec<u8> {
    let mut r = Rec::default();
    x.hash(&mut r);
    r.0
}

fn segs(n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|_| vec_upto(0, 2)).collect()
}

fn agree_path(p: &SubtreePath<Vec<u8>>, want: &[Vec<u8>]) {
    check(p.to_vec() == want, "a path lists its segments in order");
    check(p.len() == want.len(), "a path's length is its number of segments");
    check(p.is_empty() == want.is_empty(), "a path is empty exactly when it has no segments");
    check(p.is_root() == want.is_empty(), "a path is the root exactly when it has no segments");
    let rev: Vec<&[u8]> = p.clone().into_reverse_iter().collect();
    let spec: Vec<&[u8]> = want.iter().rev().map(|x| x.as_slice()).collect();
    check(rev == spec, "the reverse walk visits the segments from last to first");
    let slice: SubtreePath<Vec<u8>> = want.into();
    check(*p == slice, "a path equals the slice of its segments");
    check(hashed(p) == hashed(&slice), "equal paths hash equally");
    match p.derive_parent() {
        None => check(want.is_empty(), "only the root has no parent"),
        Some((q, k)) => {
            check(!want.is_empty(), "the root has no parent");
            let (last, front) = want.split_last().unwrap();
            check(k == last.as_slice(), "the parent comes with the last segment");
            check(q.to_vec() == front && q.len() == front.len(), "the parent has all but the last segment");
            check(q.is_root() == front.is_empty() && q.is_empty() == front.is_empty(), "a parent with no segments is the root");
        }
    }
}

fn agree(b: &SubtreePathBuilder<Vec<u8>>, want: &[Vec<u8>]) {
    check(b.to_vec() == want, "a builder lists its segments in order");
    check(b.len() == want.len(), "a builder's length is its number of segments");
    check(b.is_empty() == want.is_empty(), "a builder is empty exactly when it has no segments");
    check(b.is_root() == want.is_empty(), "a builder is the root exactly when it has no segments");
    let rev: Vec<&[u8]> = b.reverse_iter().collect();
    let spec: Vec<&[u8]> = want.iter().rev().map(|x| x.as_slice()).collect();
    check(rev == spec, "the builder's reverse walk visits the segments from last to first");
    let slice: SubtreePath<Vec<u8>> = want.into();
    check(*b == slice && slice == *b, "a builder equals the slice of its segments");
    check(hashed(b) == hashed(&slice), "equal builders and paths hash equally");
    agree_path(&SubtreePath::from(b), want);
}

fn step(b: &SubtreePathBuilder<Vec<u8>>, want: &[Vec<u8>], depth: usize) {
    agree(b, want);
    if depth == 0 {
        return;
    }
    let mut want = want.to_vec();
    match choose(5) {
        0 => {
            let s = vec_upto(0, 2);
            let mut c = b.clone();
            c.push_segment(&s);
            want.push(s);
            step(&c, &want, depth - 1)
        }
        1 => {
            let s = vec_upto(0, 2);
            want.push(s.clone());
            let c = b.derive_owned_with_child(s);
            step(&c, &want, depth - 1)
        }
        2 => {
            let c = b.derive_owned();
            step(&c, &want, depth - 1)
        }
        3 => match b.derive_parent_owned() {
            None => check(want.is_empty(), "only the root builder has no parent"),
            Some((c, k)) => {
                check(!want.is_empty(), "the root builder has no parent");
                check(Some(k) == want.pop(), "the builder's parent comes with the last segment");
                step(&c, &want, depth - 1)
            }
        },
        _ => {
            if let Some((p, k)) = b.derive_parent() {
                check(Some(k.to_vec()) == want.pop(), "the builder's parent comes with the last segment");
                agree_path(&p, &want);
                let c = p.derive_owned();
                step(&c, &want, depth - 1)
            } else {
                check(want.is_empty(), "only the root builder has no parent")
            }
        }
    }
}

/// C07: any history of path derivations keeps the path being the list of its segments
pub fn ops(cfg: u64) {
    let base = segs((cfg % 3) as usize);
    let depth = (cfg / 10) as usize;
    let p: SubtreePath<Vec<u8>> = base.as_slice().into();
    match cfg / 3 % 3 {
        0 => step(&p.derive_owned(), &base, depth),
        1 => step(&SubtreePathBuilder::owned_from_iter(&base), &base, depth),
        _ => {
            let s = vec_upto(0, 2);
            let b = p.derive_owned_with_child(s.as_slice());
            let mut want = base.clone();
            want.push(s.clone());
            step(&b, &want, depth)
        }
    }
    reach("path ops");
}

/// C07: equality and order of two paths are those of their segment lists
pub fn pair(cfg: u64) {
    let (a, b) = (segs((cfg % 4) as usize), segs((cfg / 4) as usize));
    let pa: SubtreePath<Vec<u8>> = a.as_slice().into();
    let pb: SubtreePath<Vec<u8>> = b.as_slice().into();
    let ba = SubtreePathBuilder::<Vec<u8>>::owned_from_iter(&a);
    let bb = SubtreePathBuilder::<Vec<u8>>::owned_from_path(pb.clone());
    check((pa == pb) == (a == b), "paths are equal exactly when their segments are");
    check((ba == bb) == (a == b), "builders are equal exactly when their segments are");
    check((ba == pb) == (a == b), "a builder equals a path exactly when their segments are equal");
    if a == b {
        check(hashed(&ba) == hashed(&pb), "equal paths hash equally");
        check(pa.cmp(&pb).is_eq() && ba.cmp(&bb).is_eq(), "equal paths compare equal");
    } else {
        check(pa.cmp(&pb) == pb.cmp(&pa).reverse(), "the order of paths is antisymmetric");
        check(!pa.cmp(&pb).is_eq(), "different paths do not compare equal");
        if a.len() != b.len() {
            check(pa.cmp(&pb).is_lt() == (a.len() > b.len()), "deeper paths come first");
        }
        check(ba.cmp(&bb) == pa.cmp(&pb), "builders order as their paths do");
        check(ba.partial_cmp(&bb) == pa.partial_cmp(&bb), "paths and builders order alike");
    }
    reach("path pair");
}

/// C07: climbing from a path to the root peels its segments one by one
pub fn parent(cfg: u64) {
    let s = segs(cfg as usize);
    let mut want = s.clone();
    let b = SubtreePathBuilder::<Vec<u8>>::owned_from_iter(&s);
    let mut p = SubtreePath::from(&b);
    let mut steps = 0;
    while let Some((q, k)) = p.derive_parent() {
        check(Some(k.to_vec()) == want.pop(), "climbing yields the last segment");
        agree_path(&q, &want);
        p = q;
        steps += 1;
        check(steps <= s.len(), "climbing ends at the root");
        if steps > s.len() {
            return;
        }
    }
    check(want.is_empty(), "climbing ends at the root");
    reach("path parent");
}

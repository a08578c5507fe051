use grovedb_costs::storage_cost::removal::StorageRemovedBytes::{self, *};
use grovedb_costs::storage_cost::StorageCost;
use grovedb_epoch_based_storage_flags::{MergingOwnersStrategy as M, StorageFlags};
use std::collections::BTreeMap;
use symapi::*;
use StorageFlags::*;

/// valid flags: epochs after the base epoch, each with some bytes
fn flags(kind: u64, n: usize, owner: u8) -> (StorageFlags, u16, Vec<(u16, u32)>) {
    flags_in(kind, n, owner, u16(), false)
}

/// an epoch out of a few: where epochs are keys of a hash map
fn few(after: u16) -> u16 {
    after + [1, 40][choose(2)]
}

fn flags_at(kind: u64, n: usize, owner: u8, base: u16) -> (StorageFlags, u16, Vec<(u16, u32)>) {
    flags_in(kind, n, owner, base, true)
}

fn flags_in(kind: u64, n: usize, owner: u8, base: u16, concrete: bool) -> (StorageFlags, u16, Vec<(u16, u32)>) {
    let mut m = vec![];
    if kind % 2 == 1 {
        let mut last = base;
        for _ in 0..n {
            let e = if concrete { few(last) } else { u16() };
            assume(e > last);
            last = e;
            m.push((e, u32()));
        }
    }
    let map: BTreeMap<u16, u32> = m.iter().copied().collect();
    let id = [owner; 32];
    let f = match kind {
        0 => SingleEpoch(base),
        1 => MultiEpoch(base, map),
        2 => SingleEpochOwned(base, id),
        _ => MultiEpochOwned(base, map, id),
    };
    (f, base, m)
}

fn encode(kind: u64, base: u16, m: &[(u16, u32)], owner: u8) -> Vec<u8> {
    let mut o = vec![kind as u8];
    if kind >= 2 {
        o.extend([owner; 32]);
    }
    o.extend(base.to_be_bytes());
    for (e, b) in m {
        o.extend(e.to_be_bytes());
        let mut b = *b;
        while b >= 128 {
            o.push(b as u8 | 128);
            b >>= 7;
        }
        o.push(b as u8);
    }
    o
}

/// C09: storage flags survive their encoding, whose layout and size are as specified
pub fn codec(cfg: u64) {
    let (kind, n) = (cfg % 4, 1 + (cfg / 4) as usize);
    let owner = u8();
    let (f, base, m) = flags(kind, n, owner);
    let b = f.serialize();
    check(b == encode(kind, base, &m, owner), "storage flags keep their stored layout");
    check(b.len() == f.serialized_size() as usize, "the size of storage flags is that of their encoding");
    match StorageFlags::deserialize(&b) {
        Ok(Some(g)) => check(f == g, "storage flags survive their encoding"),
        _ => check(false, "encoded storage flags decode"),
    }
    check(StorageFlags::from_element_flags_ref(&f.to_element_flags()).ok().flatten().as_ref() == Some(&f), "element flags carry storage flags");
    check(*f.base_epoch() == base && f.owner_id().copied() == (kind >= 2).then_some([owner; 32]), "flags know their base epoch and owner");
    reach("flags codec");
}

/// C09: decoding arbitrary flag bytes never crashes, and what decodes re-encodes stably
pub fn total(cfg: u64) {
    alloc_limit(4096);
    let mut b = vec(cfg as usize % 100);
    if cfg >= 100 {
        // owned flavours
        let kind = b[0];
        b.splice(1..1, [u8(); 32]);
        assume(kind >= 2);
    }
    match StorageFlags::deserialize(&b) {
        Err(_) => reach("flags rejected"),
        Ok(None) => check(b.is_empty(), "only empty bytes are no flags"),
        Ok(Some(f)) => {
            check(f.type_byte() == b[0], "the type byte tells the flavour");
            let r = f.serialize();
            check(matches!(StorageFlags::deserialize(&r), Ok(Some(g)) if g == f), "decoded flags survive re-encoding");
            reach("flags accepted");
        }
    }
}

fn amount(r: &StorageRemovedBytes, id: &[u8; 32], e: u16) -> u64 {
    match r {
        SectionedStorageRemoval(m) => m.get(id).and_then(|x| x.get(e)).copied().unwrap_or(0) as u64,
        _ => 0,
    }
}

fn owners(r: &StorageRemovedBytes) -> usize {
    match r {
        SectionedStorageRemoval(m) => m.len(),
        _ => 0,
    }
}

/// C09: freed bytes are attributed to the owner, newest epochs first, and none is lost;
/// the flags that remain have exactly those bytes less
pub fn split(cfg: u64) {
    let (kind, n) = (cfg % 4, 1 + (cfg / 4) as usize);
    let owner = 1 + u8() % 2;
    let (f, base, m) = flags_at(kind, n, owner, [0, 9][choose(2)]);
    let (rk, rv) = (u32(), u32());
    let top = if n == 1 { 1 << 30 } else { 128 };
    assume((rk < 1 << 30) & (rv < top));
    for (_, b) in &m {
        assume((*b > 3) & (*b < top));
    }
    let id = if kind >= 2 { [owner; 32] } else { [0; 32] };
    let mut bytes = f.serialize();
    let r = StorageFlags::split_removal_bytes(&mut bytes, rk, rv);
    check(r.is_ok(), "removals of flagged bytes can be attributed");
    let Ok((k, v)) = r else { return };
    check(k.total_removed_bytes() == rk, "every freed key byte is refunded");
    check(v.total_removed_bytes() == rv, "every freed value byte is refunded");
    check(rk == 0 || (owners(&k) == 1 && amount(&k, &id, base) == rk as u64), "key bytes are refunded to the owner's base epoch");
    check(rv == 0 || owners(&v) == 1, "value bytes are refunded to one owner");
    let mut left = rv as u64;
    let mut remain = vec![];
    for (e, b) in m.iter().rev() {
        let take = left.min(*b as u64 - 3);
        check(amount(&v, &id, *e) == take, "the newest epoch's bytes are refunded first");
        left -= take;
        if *b as u64 - take > 3 {
            remain.push((*e, *b - take as u32));
        }
    }
    check(amount(&v, &id, base) == left, "the rest is refunded to the base epoch");
    // the update that shrank the value carries flags of a later epoch
    let now = u16();
    assume(now > base);
    let g = if kind >= 2 { SingleEpochOwned(now, id) } else { SingleEpoch(now) };
    if rv > 0 {
        match f.clone().combine_removed_bytes(g, &v, M::UseTheirs) {
            Err(_) => check(false, "a refund can be taken off the flags it came from"),
            Ok(h) => {
                remain.reverse();
                check(*h.base_epoch() == base, "taking bytes off keeps the base epoch");
                check(h.owner_id().copied() == (kind >= 2).then_some(id), "taking bytes off keeps the owner");
                let got: Vec<(u16, u32)> = h.epoch_index_map().map(|x| x.iter().map(|(a, b)| (*a, *b)).collect()).unwrap_or_default();
                check(got == remain, "exactly the refunded bytes leave the flags");
                check(h.epoch_index_map().is_some() != remain.is_empty(), "flags without other epochs are single epoch flags");
            }
        }
    }
    reach("flags split");
}

/// C09: bytes added in a later epoch are recorded there, and only there
pub fn add(cfg: u64) {
    let (kind, n, kind2) = (cfg % 4, 1 + (cfg / 4 % 2) as usize, cfg / 8 * 2);
    let (o1, o2) = (1 + u8() % 2, 1 + u8() % 2);
    let (f, base, m) = flags(kind, n, o1);
    let (g, now, _) = flags(kind2, 0, o2);
    let added = u32();
    let strategy = [M::RaiseIssue, M::UseOurs, M::UseTheirs][choose(3)];
    let mut want: BTreeMap<u16, u64> = m.iter().map(|(e, b)| (*e, *b as u64)).collect();
    if now > base {
        *want.entry(now).or_insert(0) += added as u64;
    }
    let clash = kind >= 2 && kind2 >= 2 && o1 != o2 && matches!(strategy, M::RaiseIssue);
    let over = want.values().any(|b| *b > u32::MAX as u64);
    let r = f.combine_added_bytes(g, added, strategy);
    check(r.is_ok() == !(clash | over | (now < base)), "added bytes combine unless owners clash, time runs backwards or a counter overflows");
    if let Ok(h) = r {
        let owner = match (kind >= 2, kind2 >= 2) {
            (false, false) => None,
            (true, false) => Some([o1; 32]),
            (false, true) => Some([o2; 32]),
            (true, true) => Some(if matches!(strategy, M::UseTheirs) { [o2; 32] } else { [o1; 32] }),
        };
        check(*h.base_epoch() == base, "the first epoch stays the base epoch");
        check(h.owner_id().copied() == owner, "owners combine by the chosen strategy");
        let got: BTreeMap<u16, u64> = h.epoch_index_map().map(|x| x.iter().map(|(a, b)| (*a, *b as u64)).collect()).unwrap_or_default();
        check(got == want, "added bytes are recorded in their epoch and nothing else changes");
    }
    reach("flags add");
}

/// C09: an update keeps the element's storage history
pub fn update(cfg: u64) {
    let kind = cfg % 4;
    let o = 1 + u8() % 2;
    let (f, base, m) = flags_at(kind, 1, o, [0, 9][choose(2)]);
    for (_, b) in &m {
        assume((*b > 3) & (*b < 1 << 30));
    }
    let (g, now, _) = flags(kind / 2 * 2, 0, o);
    assume(now > base);
    let (added, replaced, removed) = (u32(), u32(), u32());
    assume((added < 1 << 30) & (replaced > 0) & (removed < 1 << 30));
    let old = f.serialize();
    let mut new = g.serialize();
    let newb = new.clone();
    let cost = match cfg / 4 {
        0 => StorageCost { added_bytes: 0, replaced_bytes: replaced, removed_bytes: NoStorageRemoval },
        1 => {
            assume(added > 0);
            StorageCost { added_bytes: added, replaced_bytes: replaced, removed_bytes: NoStorageRemoval }
        }
        _ => {
            assume(removed > 0);
            let r = f.split_storage_removed_bytes(0, removed).1;
            StorageCost { added_bytes: 0, replaced_bytes: replaced, removed_bytes: r }
        }
    };
    let none = StorageFlags::update_element_flags(&cost, None, &mut new);
    check(matches!(none, Ok(false)) && new == newb, "an element without history keeps its new flags");
    let r = StorageFlags::update_element_flags(&cost, Some(old.clone()), &mut new);
    check(r.is_ok(), "an update in a later epoch keeps its history");
    if let Ok(changed) = r {
        check(changed == (new != newb) || (cfg / 4 == 0 && changed), "an update says whether it changed the flags");
        let want = match cfg / 4 {
            0 => f.clone(),
            1 => f.clone().combine_added_bytes(g, added, M::UseTheirs).unwrap(),
            _ => f.clone().combine_removed_bytes(g, &cost.removed_bytes, M::UseTheirs).unwrap(),
        };
        check(new == want.serialize(), "an update records the bytes it added or took off");
    }
    let mut empty = vec![];
    check(StorageFlags::update_element_flags(&cost, Some(old), &mut empty).is_err(), "an update cannot drop the flags");
    reach("flags update");
}

use grovedb_costs::error::Error;
use grovedb_costs::storage_cost::key_value_cost::KeyValueStorageCost;
use grovedb_costs::storage_cost::removal::{StorageRemovedBytes, UNKNOWN_EPOCH};
use grovedb_costs::storage_cost::transition::OperationStorageTransitionType as T;
use grovedb_costs::storage_cost::StorageCost;
use grovedb_costs::{CostContext, CostResult, CostsExt, OperationCost, TreeCostType};
use std::collections::BTreeMap;
use symapi::*;
use StorageRemovedBytes::*;

const IDS: [[u8; 32]; 2] = [[0; 32], [1; 32]];
const EPOCHS: [u16; 3] = [0, 7, UNKNOWN_EPOCH];

/// bytes that stay far away from u32::MAX even when summed
fn small() -> u32 {
    u16() as u32
}

/// any removal of the given shape: none, basic, or sectioned by up to two owners and epochs
pub fn removal(kind: usize) -> StorageRemovedBytes {
    match kind {
        0 => NoStorageRemoval,
        1 => BasicStorageRemoval(small()),
        k => {
            let mut m = BTreeMap::new();
            for id in IDS.iter().take(k - 1) {
                let mut im = intmap::IntMap::new();
                for e in EPOCHS {
                    if bool() {
                        im.insert(e, small());
                    }
                }
                if bool() {
                    m.insert(*id, im);
                }
            }
            SectionedStorageRemoval(m)
        }
    }
}

/// bytes removed for owner i in epoch e, as the specification counts them
fn amount(r: &StorageRemovedBytes, i: usize, e: usize) -> u64 {
    match r {
        NoStorageRemoval => 0,
        BasicStorageRemoval(b) => (i == 0 && e == 2) as u64 * *b as u64,
        SectionedStorageRemoval(m) => m.get(&IDS[i]).and_then(|x| x.get(EPOCHS[e])).copied().unwrap_or(0) as u64,
    }
}

/// C08: adding removals loses nothing and both ways of adding agree
pub fn removed(cfg: u64) {
    let (a, b) = (removal((cfg % 4) as usize), removal((cfg / 4) as usize));
    let sum = a.clone() + b.clone();
    let mut acc = a.clone();
    acc += b.clone();
    for i in 0..2 {
        for e in 0..3 {
            let want = amount(&a, i, e) + amount(&b, i, e);
            check(amount(&sum, i, e) == want, "adding removals adds up per owner and epoch");
            check(amount(&acc, i, e) == want, "accumulating removals adds up per owner and epoch");
        }
    }
    for r in [&sum, &acc] {
        let total = match r {
            NoStorageRemoval => 0,
            BasicStorageRemoval(b) => *b,
            SectionedStorageRemoval(m) => m.values().map(|x| x.values().sum::<u32>()).sum(),
        };
        let entries = match r {
            SectionedStorageRemoval(m) => {
                check(m.keys().all(|k| IDS.contains(k)), "no owner is invented");
                check(m.values().all(|x| x.keys().all(|e| EPOCHS.contains(&e))), "no epoch is invented");
                m.values().map(|x| x.len()).sum()
            }
            _ => 0,
        };
        check(r.total_removed_bytes() == total, "a removal's total is that of its sections");
        if entries < 3 {
            check(r.has_removal() == (total != 0), "a removal of some bytes says so");
        }
    }
    check(a.partial_cmp(&b) == a.total_removed_bytes().partial_cmp(&b.total_removed_bytes()), "removals compare by their bytes");
    reach("removed");
}

fn basic(kind: usize) -> StorageRemovedBytes {
    if kind == 0 {
        NoStorageRemoval
    } else {
        BasicStorageRemoval(u32())
    }
}

fn cost(kind: usize) -> OperationCost {
    OperationCost {
        seek_count: u32(),
        storage_cost: StorageCost { added_bytes: u32(), replaced_bytes: u32(), removed_bytes: basic(kind) },
        storage_loaded_bytes: u64(),
        hash_node_calls: u32(),
        sinsemilla_hash_calls: u32(),
    }
}

fn fields(c: &OperationCost) -> [u64; 7] {
    [
        c.seek_count as u64,
        c.storage_cost.added_bytes as u64,
        c.storage_cost.replaced_bytes as u64,
        c.storage_cost.removed_bytes.total_removed_bytes() as u64,
        c.storage_loaded_bytes,
        c.hash_node_calls as u64,
        c.sinsemilla_hash_calls as u64,
    ]
}

/// the sum of two costs, as the specification has it: every counter saturates
fn plus(a: &OperationCost, b: &OperationCost) -> [u64; 7] {
    let (x, y) = (fields(a), fields(b));
    std::array::from_fn(|i| if i == 4 { x[i].saturating_add(y[i]) } else { (x[i] + y[i]).min(u32::MAX as u64) })
}

/// C08: costs add up counter by counter, never overflow, and never get better by adding
pub fn opcost(cfg: u64) {
    let (a, b) = (cost((cfg % 2) as usize), cost((cfg / 2 % 2) as usize));
    let want = plus(&a, &b);
    let sum = a.clone() + b.clone();
    let mut acc = a.clone();
    acc += b.clone();
    check(fields(&sum) == want, "operation costs add up counter by counter");
    check(fields(&acc) == want, "accumulated operation costs add up counter by counter");
    check(sum == acc, "adding and accumulating costs agree");
    let (x, y) = (fields(&a), fields(&b));
    let worse = (0..7).all(|i| if i == 3 { x[i] <= y[i] } else { x[i] >= y[i] });
    check(a.worse_or_eq_than(&b) == worse, "a cost is worse when every counter is");
    check(a.is_nothing() == (a == OperationCost::default()), "only the zero cost is nothing");
    if a.is_nothing() {
        check(x == [0; 7], "only the zero cost is nothing");
        check(sum == b, "nothing added is nothing");
    }
    let (k, n) = (u32(), u64());
    check(fields(&OperationCost::with_seek_count(k)) == [k as u64, 0, 0, 0, 0, 0, 0], "seeks");
    check(fields(&OperationCost::with_storage_written_bytes(k)) == [0, k as u64, 0, 0, 0, 0, 0], "written bytes");
    check(fields(&OperationCost::with_storage_freed_bytes(k)) == [0, 0, 0, k as u64, 0, 0, 0], "freed bytes");
    check(fields(&OperationCost::with_storage_loaded_bytes(n)) == [0, 0, 0, 0, n, 0, 0], "loaded bytes");
    check(fields(&OperationCost::with_hash_node_calls(k)) == [0, 0, 0, 0, 0, k as u64, 0], "hash calls");
    let sc = &a.storage_cost;
    let (ad, rp, rm) = (sc.added_bytes > 0, sc.replaced_bytes > 0, sc.removed_bytes.total_removed_bytes() > 0);
    check(sc.has_storage_change() == (ad | rm), "a storage change adds or removes bytes");
    let t = match sc.transition_type() {
        T::OperationInsertNew => 0,
        T::OperationUpdateBiggerSize => 1,
        T::OperationUpdateSmallerSize => 2,
        T::OperationUpdateSameSize => 3,
        T::OperationReplace => 4,
        T::OperationDelete => 5,
        T::OperationNone => 6,
    };
    let spec = match (ad, rp, rm) {
        (true, false, false) => 0,
        (true, true, false) => 1,
        (true, _, true) => 4,
        (false, true, true) => 2,
        (false, false, true) => 5,
        (false, true, false) => 3,
        (false, false, false) => 6,
    };
    check(t == spec, "the transition of an update follows from what it adds, replaces and removes");
    reach("opcost");
}

fn varint(n: u64) -> u64 {
    let mut n = n;
    let mut k = 1;
    while n >= 128 {
        n >>= 7;
        k += 1;
    }
    k
}

/// C08: the bytes charged for a key and a value are exactly the bytes they take
pub fn kvcost(cfg: u64) {
    let key = u16() as u32 & 0x3fff;
    let own = u16() as u32;
    let mut value = own;
    let kids = cfg % 12;
    let paid_key = key as u64 + varint(key as u64);
    // the value is made of its own bytes, its children's and its feature
    let (sizes, paid_value) = if kids == 0 {
        (None, own as u64 + varint(own as u64))
    } else {
        value += 2;
        let mut part = |on: bool| {
            on.then(|| {
                let p = (u8() as u32, u8() as u32 & 15);
                value += p.0 + p.1;
                p
            })
        };
        let l = part(kids % 2 == 1);
        let r = part(kids % 4 >= 2);
        let (s, node) = match kids / 4 {
            0 => (None, 0),
            k => {
                let n = u8() as u32 & 31;
                value += n;
                if k == 1 {
                    (Some((TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes, n)), 8)
                } else {
                    (Some((TreeCostType::TreeFeatureUses16Bytes, n)), 16)
                }
            }
        };
        let v = own as u64 + node;
        (Some((s, l, r)), v + varint(v) + key as u64 + 4 + node)
    };
    let mut c = OperationCost::default();
    if cfg / 12 == 0 {
        let r = c.add_key_value_storage_costs(key, value, sizes, None);
        check(r.is_ok(), "without cost information nothing can mismatch");
        check(fields(&c) == [0, paid_key + paid_value, 0, 0, 0, 0, 0], "a new pair adds the bytes of its key and value");
    } else {
        let info = KeyValueStorageCost {
            key_storage_cost: StorageCost { added_bytes: small(), replaced_bytes: small(), removed_bytes: NoStorageRemoval },
            value_storage_cost: StorageCost { added_bytes: small(), replaced_bytes: small(), removed_bytes: BasicStorageRemoval(small()) },
            new_node: bool(),
            needs_value_verification: bool(),
        };
        let (k, v) = (&info.key_storage_cost, &info.value_storage_cost);
        let (kb, vb) = (k.added_bytes as u64 + k.replaced_bytes as u64, v.added_bytes as u64 + v.replaced_bytes as u64);
        let ok = (!info.new_node | (kb == paid_key)) & (!info.needs_value_verification | (vb == paid_value));
        let want = [
            0,
            k.added_bytes as u64 + v.added_bytes as u64,
            k.replaced_bytes as u64 + v.replaced_bytes as u64,
            v.removed_bytes.total_removed_bytes() as u64,
            0,
            0,
            0,
        ];
        let r = c.add_key_value_storage_costs(key, value, sizes, Some(info));
        check(r.is_ok() == ok, "stated costs are accepted exactly when they account for every byte");
        match r {
            Ok(()) => check(fields(&c) == want, "accepted costs are charged as stated"),
            Err(Error::StorageCostMismatch { .. }) => check(c.is_nothing(), "refused costs are not charged"),
        }
    }
    reach("kvcost");
}

/// C08: replacing a subtree's root key charges exactly the change in its size
pub fn rootcost(cfg: u64) {
    let new = u32();
    let old = (cfg == 1).then(u32);
    assume((new < 1 << 31) & (old.unwrap_or(0) < 1 << 31));
    let c = KeyValueStorageCost::for_updated_root_cost(old, new);
    let size = |n: u32| n as u64 + varint(n as u64);
    let (k, v) = (&c.key_storage_cost, &c.value_storage_cost);
    let removed = v.removed_bytes.total_removed_bytes() as u64;
    check(k.added_bytes as u64 + k.replaced_bytes as u64 == 34, "the root key entry takes 34 bytes");
    check(c.new_node == old.is_none(), "a root without a predecessor is new");
    check(v.added_bytes as u64 + v.replaced_bytes as u64 == size(new), "the new root key takes its own size");
    match old {
        None => check((k.replaced_bytes == 0) & (v.replaced_bytes == 0) & (removed == 0), "a new root replaces nothing"),
        Some(o) => {
            check(k.added_bytes == 0, "an updated root keeps its key");
            check(v.replaced_bytes as u64 + removed == size(o), "what is replaced or removed is the old root key");
            check(v.added_bytes == 0 || removed == 0, "an update does not both add and remove");
        }
    }
    check(c.combined_removed_bytes().total_removed_bytes() as u64 == removed, "combined removals add up");
    let (x, y) = ([bool(), bool()], [bool(), bool()]);
    let mk = |f: [bool; 2]| KeyValueStorageCost { new_node: f[0], needs_value_verification: f[1], ..Default::default() };
    let s = mk(x) + mk(y);
    let mut t = mk(x);
    t += mk(y);
    check(s == t, "adding and accumulating pair costs agree");
    reach("rootcost");
}

fn sum(parts: &[&OperationCost]) -> [u64; 7] {
    let mut acc = OperationCost::default();
    for p in parts {
        let f = plus(&acc, p);
        acc = OperationCost {
            seek_count: f[0] as u32,
            storage_cost: StorageCost { added_bytes: f[1] as u32, replaced_bytes: f[2] as u32, removed_bytes: BasicStorageRemoval(f[3] as u32) },
            storage_loaded_bytes: f[4],
            hash_node_calls: f[5] as u32,
            sinsemilla_hash_calls: f[6] as u32,
        };
    }
    fields(&acc)
}

fn macro_chain(a: CostResult<u8, u8>, b: CostResult<u8, u8>) -> CostResult<u8, u8> {
    let mut cost = OperationCost::default();
    let x = grovedb_costs::cost_return_on_error!(&mut cost, a);
    let y = grovedb_costs::cost_return_on_error!(&mut cost, b);
    Ok(x ^ y).wrap_with_cost(cost)
}

/// C08: chaining costed computations keeps the value and never drops a cost
pub fn context(cfg: u64) {
    let (a, b) = (cost(1), cost(1));
    let (x, y) = (u8(), u8());
    let ra: Result<u8, u8> = if bool() { Ok(x) } else { Err(x) };
    let rb: Result<u8, u8> = if bool() { Ok(y) } else { Err(y) };
    let (ca, cb) = (ra.wrap_with_cost(a.clone()), rb.wrap_with_cost(b.clone()));
    let both = ra.and_then(|p| rb.map(|q| p ^ q));
    let (r, ran_b): (CostResult<u8, u8>, bool) = match cfg {
        0 => (macro_chain(ca, cb), ra.is_ok()),
        1 => (ca.flat_map_ok(|p| cb.map_ok(|q| p ^ q)), ra.is_ok()),
        2 => (ca.flat_map(|p| cb.map(|q| p.and_then(|p| q.map(|q| p ^ q)))), true),
        3 => (ca.map(|p| cb.map(|q| p.and_then(|p| q.map(|q| p ^ q)))).flatten(), true),
        4 => {
            let mut acc = b.clone();
            let v = ca.unwrap_add_cost(&mut acc);
            check(v == ra, "unwrapping keeps the value");
            (v.and_then(|p| rb.map(|q| p ^ q)).wrap_with_cost(acc), true)
        }
        _ => (ca.map_ok(|p| rb.map(|q| p ^ q)).flatten().add_cost(b.clone()), true),
    };
    check(r.value == both, "chaining keeps the value or the first error");
    let want = if ran_b { sum(&[&a, &b]) } else { sum(&[&a]) };
    check(fields(&r.cost) == want, "chaining adds the cost of everything that ran, also on errors");
    let c: CostContext<u8> = x.wrap_with_cost(a.clone());
    check(c.cost() == &a && *c.value() == x && c.unwrap() == x, "wrapping keeps value and cost");
    reach("context");
}

//! C23: any bytes at all as a layered proof.
use grovedb::operations::proof::GroveDBProof;
use grovedb::{GroveDb, PathQuery, SizedQuery};
use grovedb_merk::proofs::query::Query;
use grovedb_version::version::GroveVersion;
use symapi::*;

fn config() -> impl bincode::config::Config {
    bincode::config::standard().with_big_endian().with_limit::<{ 256 * 1024 * 1024 }>()
}
fn query(k: usize) -> PathQuery {
    let mut q = Query { left_to_right: k != 2, ..Default::default() };
    q.insert_all();
    let path = if k == 1 { vec![b"b".to_vec()] } else { vec![] };
    if k == 3 {
        let mut s = Query::new();
        s.insert_key(b"c".to_vec());
        q.set_subquery(s);
    }
    PathQuery::new(path, SizedQuery::new(q, Some(2), None))
}

/// symbolic bytes after a given start
pub fn decode(cfg: u64) {
    let (n, start, qk) = ((cfg % 100) as usize, cfg / 100 % 10, (cfg / 1000) as usize);
    let mut b = match start {
        // everything symbolic; version 0; version 1 with a merk proof of one node
        0 => vec![],
        1 => vec![0],
        2 => vec![1, 0],
        // version 1, a merk proof that shows tree b as key b, with a lower layer of each kind
        k => {
            let mut m = vec![4, 1, b'b', 0, 3, 2, 0, 0];
            m.extend([7; 32]);
            let k = k as u8 - 3;
            let el: Vec<u8> = match k {
                1 => vec![11, 1, 0],
                _ => vec![2, 1, 1, b'c', 0],
            };
            m.splice(3..8, [&[0, el.len() as u8][..], &el].concat());
            let mut b = vec![1, 0, m.len() as u8];
            b.extend(m);
            b.extend([1, 1, b'b', k]);
            b
        }
    };
    b.extend(vec(n));
    alloc_limit(257 << 20);
    match bincode::decode_from_slice::<GroveDBProof, _>(&b, config()) {
        Err(_) => reach("bytes rejected"),
        Ok((p, used)) => {
            check(used <= b.len(), "what is read is there");
            let e = bincode::encode_to_vec(&p, config()).unwrap();
            check(e.len() <= used, "no encoding is shorter");
            let (p2, _) = bincode::decode_from_slice::<GroveDBProof, _>(&e, config()).unwrap();
            check(bincode::encode_to_vec(&p2, config()).unwrap() == e, "a proof survives re-encoding");
            reach("bytes accepted");
            let v = GroveVersion::latest();
            let _ = p.boundaries(&[]);
            let _ = p.boundaries(&[b"b"]);
            let _ = p.key_exists_as_boundary(&[b"b"], b"c");
            let _ = p.verify_subset(&query(qk), v);
            let _ = p.verify_with_absence_proof(&query(qk), v);
        }
    }
    let v = GroveVersion::latest();
    let _ = GroveDb::verify_query(&b, &query(qk), v);
    let _ = GroveDb::verify_query_raw(&b, &query(qk), v);
}

/// nesting and fan-out around the limits: `n` layers below each other, `w` beside
pub fn deep(cfg: u64) {
    let (n, w, v) = ((cfg % 1000) as usize, (cfg / 1000 % 1000) as usize, (cfg / 1000000) as u8);
    let mut b = vec![v];
    for k in 0..=n {
        if v == 1 {
            b.push(0);
        }
        b.push(0);
        let last = k == n;
        let w = if last { w } else { 1 };
        if w < 251 {
            b.push(w as u8);
        } else {
            b.push(251);
            b.extend((w as u16).to_be_bytes());
        }
        if last {
            for x in 0..w {
                b.extend([1, x as u8]);
                if v == 1 {
                    b.push(0);
                }
                b.extend([0, 0]);
            }
        } else {
            b.extend([1, u8()]);
        }
    }
    if v == 0 {
        b.push(1);
    }
    let r = bincode::decode_from_slice::<GroveDBProof, _>(&b, config());
    let depth = n + (w > 0) as usize;
    check(r.is_ok() == (depth <= 128 && w <= 128), "layers go 128 deep and wide, and no further");
    reach("deep");
}

//! Merk proofs (C19, C20): execution, query proofs, chunk depths.
mod proof;
use symapi::*;

entries! {
    fn h_merk_sound(cfg: u64) { proof::sound(cfg) }
    fn h_merk_kinds(cfg: u64) { proof::kinds(cfg) }
    fn h_merk_hash(cfg: u64) { proof::hashes(cfg) }
}

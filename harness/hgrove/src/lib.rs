//! Properties of the layered proofs of grovedb (C20..C22).
mod bytes;
mod layer;
mod nonmerk;
mod pathq;
mod trunk;
use symapi::*;

entries! {
    fn h_layer(cfg: u64) { layer::layers(cfg) }
    fn h_bytes(cfg: u64) { bytes::decode(cfg) }
    fn h_deep(cfg: u64) { bytes::deep(cfg) }
    fn h_chunk(cfg: u64) { trunk::attacked(cfg) }
    fn h_branch(cfg: u64) { trunk::branch(cfg) }
    fn h_chunk_honest(cfg: u64) { trunk::honest(cfg) }
    fn h_depth(cfg: u64) { trunk::depths(cfg) }
    fn h_level(cfg: u64) { pathq::level(cfg) }
    fn h_terminal(cfg: u64) { pathq::terminals(cfg) }
    fn h_pq_merge(cfg: u64) { pathq::merge(cfg) }
    fn h_pq_limits(cfg: u64) { pathq::merge_limits(cfg) }
    fn h_nonmerk(cfg: u64) { nonmerk::nonmerk(cfg) }
}

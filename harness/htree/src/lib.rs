//! Properties of grovedb-merkle-mountain-range (C10..C12), grovedb-dense-fixed-sized-merkle-tree
//! (C13..C15) and grovedb-bulk-append-tree (C16..C18).
#[allow(non_snake_case)]
mod bulk;
mod dense;
mod mmr;
mod store;
use symapi::*;

entries! {
    fn h_mmr_pos(cfg: u64) { mmr::positions(cfg) }
    fn h_mmr_keys(cfg: u64) { mmr::keys(cfg) }
    fn h_mmr_push(cfg: u64) { mmr::push(cfg) }
    fn h_mmr_node(cfg: u64) { mmr::node(cfg) }
    fn h_mmr_node_total(cfg: u64) { mmr::node_total(cfg) }
    fn h_mmr_complete(cfg: u64) { mmr::complete(cfg) }
    fn h_mmr_incremental(cfg: u64) { mmr::incremental(cfg) }
    fn h_mmr_sound(cfg: u64) { mmr::sound(cfg) }
    fn h_mmr_total(cfg: u64) { mmr::total(cfg) }
    fn h_mmr_decode(cfg: u64) { mmr::decode(cfg) }
    fn h_dense_history(cfg: u64) { dense::history(cfg) }
    fn h_dense_complete(cfg: u64) { dense::complete(cfg) }
    fn h_dense_query(cfg: u64) { dense::query(cfg) }
    fn h_dense_sound(cfg: u64) { dense::sound(cfg) }
    fn h_dense_total(cfg: u64) { dense::total(cfg) }
    fn h_dense_decode(cfg: u64) { dense::decode(cfg) }
    fn h_bulk_history(cfg: u64) { bulk::history(cfg) }
    fn h_bulk_complete(cfg: u64) { bulk::complete(cfg) }
    fn h_bulk_queries(cfg: u64) { bulk::queries(cfg) }
    fn h_bulk_sound(cfg: u64) { bulk::sound(cfg) }
    fn h_bulk_total(cfg: u64) { bulk::total(cfg) }
    fn h_bulk_decode(cfg: u64) { bulk::decode(cfg) }
    fn h_chunk_codec(cfg: u64) { bulk::chunk_codec(cfg) }
    fn h_chunk_total(cfg: u64) { bulk::chunk_total(cfg) }
}

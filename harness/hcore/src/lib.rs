//! Properties of grovedb-path (C07), grovedb-costs (C08), grovedb-epoch-based-storage-flags (C09)
//! and grovedb-element (C05, C06).
mod costs;
mod element;
mod flags;
mod path;
use symapi::*;

entries! {
    fn h_path_ops(cfg: u64) { path::ops(cfg) }
    fn h_path_pair(cfg: u64) { path::pair(cfg) }
    fn h_path_parent(cfg: u64) { path::parent(cfg) }
    fn h_removed(cfg: u64) { costs::removed(cfg) }
    fn h_opcost(cfg: u64) { costs::opcost(cfg) }
    fn h_kvcost(cfg: u64) { costs::kvcost(cfg) }
    fn h_rootcost(cfg: u64) { costs::rootcost(cfg) }
    fn h_context(cfg: u64) { costs::context(cfg) }
    fn h_flags_codec(cfg: u64) { flags::codec(cfg) }
    fn h_flags_total(cfg: u64) { flags::total(cfg) }
    fn h_flags_split(cfg: u64) { flags::split(cfg) }
    fn h_flags_add(cfg: u64) { flags::add(cfg) }
    fn h_flags_update(cfg: u64) { flags::update(cfg) }
    fn h_el_codec(cfg: u64) { element::codec(cfg) }
    fn h_el_total(cfg: u64) { element::total(cfg) }
    fn h_el_helpers(cfg: u64) { element::helpers(cfg) }
    fn h_ref_resolve(cfg: u64) { element::resolve(cfg) }
    fn h_ref_invert(cfg: u64) { element::invert(cfg) }
}

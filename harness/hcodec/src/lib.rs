//! Wire formats of grovedb-query: queries (C03) and merk proof operations (C04).
mod ops;
mod query;
use symapi::*;

entries! {
    fn h_op_codec(cfg: u64) { ops::codec(cfg) }
    fn h_op_large(cfg: u64) { ops::large(cfg) }
    fn h_op_total(cfg: u64) { ops::total(cfg) }
    fn h_op_seq(cfg: u64) { ops::seq(cfg) }
    fn h_feature(cfg: u64) { ops::feature(cfg) }
    fn h_q_codec(cfg: u64) { query::codec(cfg) }
    fn h_q_total(cfg: u64) { query::total(cfg) }
    fn h_q_limits(cfg: u64) { query::limits(cfg) }
    fn h_q_item(cfg: u64) { query::item(cfg) }
    fn h_q_sum(cfg: u64) { query::sum(cfg) }
}

//! Properties of the whole database over a stand-in for RocksDB.
mod append;
mod batch;
mod fault;
mod model;
mod ops;
mod prove;
use symapi::*;

entries! {
    fn h_append(cfg: u64) { append::append(cfg) }
    fn h_history(cfg: u64) { ops::history(cfg) }
    fn h_batch(cfg: u64) { batch::batch(cfg) }
    fn h_fault(cfg: u64) { fault::fault(cfg) }
    fn h_prove(cfg: u64) { prove::honest(cfg) }
}

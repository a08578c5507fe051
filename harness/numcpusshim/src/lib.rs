//! Stand-in for num_cpus in symbolic builds.
pub fn get() -> usize {
    8
}
pub fn get_physical() -> usize {
    8
}

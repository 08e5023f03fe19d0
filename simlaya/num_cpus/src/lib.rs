//! Stand-in for num_cpus: the simulated machine has as many cores as the run says.
use std::sync::atomic::{AtomicUsize, Ordering};
pub static CORES: AtomicUsize = AtomicUsize::new(2);
pub fn get() -> usize {
    CORES.load(Ordering::Relaxed)
}
pub fn get_physical() -> usize {
    CORES.load(Ordering::Relaxed)
}

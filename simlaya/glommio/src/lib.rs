//! Deterministic stand-in for the glommio runtime (API of glommio 0.9, the part a server needs).
//!
//! Per-core executors, their task queues, sockets, the listener, file opens and timers are simulated in
//! one thread; every decision comes from simcore's recorded choices. `error.rs` and `semaphore.rs` are
//! glommio 0.9's own sources (MIT/Apache-2.0), unchanged.
#![allow(dead_code)]

#[allow(clippy::all, unexpected_cfgs)]
mod error;
mod exec;
pub mod io;
pub mod net;
#[allow(clippy::all)]
mod semaphore;
pub mod sim;
pub mod timer;

pub use enclose::enclose;
pub use error::{
    BuilderErrorKind, ExecutorErrorKind, GlommioError, QueueErrorKind, ReactorErrorKind,
    ResourceType, Result,
};
pub use exec::{
    executor, spawn_local, spawn_local_into, yield_if_needed, CpuLocation, CpuSet,
    ExecutorJoinHandle, ExecutorProxy, Latency, LocalExecutor, LocalExecutorBuilder,
    LocalExecutorPoolBuilder, Placement, PoolPlacement, PoolThreadHandles, Shares, Task,
    TaskQueueHandle,
};
pub use scopeguard::defer;

pub mod sync {
    pub use crate::semaphore::*;
}
pub mod task {
    pub use crate::exec::JoinHandle;
}
pub mod prelude {
    pub use crate::{
        executor, spawn_local, spawn_local_into, yield_if_needed, ExecutorProxy, GlommioError,
        Latency, LocalExecutor, LocalExecutorBuilder, LocalExecutorPoolBuilder, Placement,
        PoolPlacement, PoolThreadHandles, Shares, TaskQueueHandle,
    };
}

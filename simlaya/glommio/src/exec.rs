use crate::error::{BuilderErrorKind, GlommioError};
use crate::sim;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

type Res<T> = crate::error::Result<T, ()>;

pub(crate) struct Slot<T> {
    value: Option<T>,
    waker: Option<Waker>,
    done: bool,
}

/// A task handle; dropping it cancels the task, as in glommio.
#[must_use = "tasks get canceled when dropped, use `.detach()` to run them in the background"]
pub struct Task<T> {
    slot: Rc<RefCell<Slot<T>>>,
    id: Option<(usize, u64)>,
}

impl<T> std::fmt::Debug for Task<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Task({:?})", self.id)
    }
}

pub struct JoinHandle<T> {
    slot: Rc<RefCell<Slot<T>>>,
    id: (usize, u64),
}

impl<T> JoinHandle<T> {
    pub fn cancel(&self) {
        sim::cancel_task(self.id);
        self.slot.borrow_mut().done = true;
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Option<T>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let mut s = self.slot.borrow_mut();
        if s.done {
            return Poll::Ready(s.value.take());
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl<T> Task<T> {
    pub fn detach(mut self) -> JoinHandle<T> {
        JoinHandle { slot: self.slot.clone(), id: self.id.take().unwrap() }
    }
    pub async fn cancel(mut self) -> Option<T> {
        if let Some(id) = self.id.take() {
            sim::cancel_task(id);
        }
        let v = self.slot.borrow_mut().value.take();
        v
    }
}

impl<T> Future for Task<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let mut s = self.slot.borrow_mut();
        if let Some(v) = s.value.take() {
            return Poll::Ready(v);
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl<T> Drop for Task<T> {
    fn drop(&mut self) {
        if let Some(id) = self.id.take() {
            sim::cancel_task(id);
        }
    }
}

pub(crate) fn spawn_on<T: 'static>(shard: usize, f: impl Future<Output = T> + 'static) -> Task<T> {
    let slot = Rc::new(RefCell::new(Slot { value: None, waker: None, done: false }));
    let s2 = slot.clone();
    let id = sim::spawn_task(
        shard,
        Box::pin(async move {
            let v = f.await;
            let w = {
                let mut s = s2.borrow_mut();
                s.value = Some(v);
                s.done = true;
                s.waker.take()
            };
            if let Some(w) = w {
                w.wake();
            }
        }),
    );
    Task { slot, id: Some(id) }
}

pub fn spawn_local<T: 'static>(future: impl Future<Output = T> + 'static) -> Task<T> {
    spawn_on(sim::current_shard(), future)
}

pub fn spawn_local_into<T: 'static>(
    future: impl Future<Output = T> + 'static,
    _h: TaskQueueHandle,
) -> Res<Task<T>> {
    Ok(spawn_local(future))
}

pub async fn yield_if_needed() {
    YieldNow(false).await
}

struct YieldNow(bool);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct TaskQueueHandle(usize);
#[derive(Debug, Clone, Copy)]
pub enum Latency {
    Matters(Duration),
    NotImportant,
}
#[derive(Debug, Clone)]
pub enum Shares {
    Static(usize),
}
impl Default for Shares {
    fn default() -> Self {
        Shares::Static(1000)
    }
}

#[derive(Debug)]
pub struct ExecutorProxy {}
pub fn executor() -> ExecutorProxy {
    ExecutorProxy {}
}
impl ExecutorProxy {
    pub fn id(&self) -> usize {
        sim::current_shard() + 1
    }
    pub fn need_preempt(&self) -> bool {
        false
    }
    pub async fn yield_if_needed(&self) {
        YieldNow(false).await
    }
    pub async fn yield_now(&self) {
        YieldNow(false).await
    }
    pub async fn yield_task_queue_now(&self) {
        YieldNow(false).await
    }
    pub fn current_task_queue(&self) -> TaskQueueHandle {
        TaskQueueHandle(0)
    }
    pub fn create_task_queue(&self, _s: Shares, _l: Latency, _n: &str) -> TaskQueueHandle {
        TaskQueueHandle(0)
    }
    pub fn spawn_local<T: 'static>(&self, f: impl Future<Output = T> + 'static) -> Task<T> {
        spawn_local(f)
    }
    pub fn spawn_local_into<T: 'static>(
        &self,
        f: impl Future<Output = T> + 'static,
        h: TaskQueueHandle,
    ) -> Res<Task<T>> {
        spawn_local_into(f, h)
    }
    pub fn spawn_blocking<F, R>(&self, func: F) -> impl Future<Output = R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        async move {
            crate::timer::sleep(Duration::from_micros(50)).await;
            func()
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct CpuLocation {
    pub cpu: usize,
    pub core: usize,
    pub package: usize,
    pub numa_node: usize,
}
#[derive(Debug, Clone)]
pub struct CpuSet(Vec<CpuLocation>);
impl CpuSet {
    pub fn online() -> Res<CpuSet> {
        Ok(CpuSet(
            (0..num_cpus::get())
                .map(|i| CpuLocation { cpu: i, core: i, package: 0, numa_node: 0 })
                .collect(),
        ))
    }
    pub fn filter<F: FnMut(&CpuLocation) -> bool>(mut self, f: F) -> Self {
        self.0.retain(f);
        self
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, CpuLocation> {
        self.0.iter()
    }
}

#[derive(Debug, Clone)]
pub enum Placement {
    Unbound,
    Fenced(CpuSet),
    Fixed(usize),
}
#[derive(Debug, Clone)]
pub enum PoolPlacement {
    Unbound(usize),
    Fenced(usize, CpuSet),
    MaxSpread(usize, Option<CpuSet>),
    MaxPack(usize, Option<CpuSet>),
    Custom(Vec<CpuSet>),
}
impl PoolPlacement {
    pub fn executor_count(&self) -> usize {
        match self {
            PoolPlacement::Unbound(n)
            | PoolPlacement::Fenced(n, _)
            | PoolPlacement::MaxSpread(n, _)
            | PoolPlacement::MaxPack(n, _) => *n,
            PoolPlacement::Custom(v) => v.len(),
        }
    }
    fn check(&self) -> Res<()> {
        let (n, set) = match self {
            PoolPlacement::Unbound(_) | PoolPlacement::Custom(_) => return Ok(()),
            PoolPlacement::Fenced(n, s) => (*n, Some(s.len())),
            PoolPlacement::MaxSpread(n, s) | PoolPlacement::MaxPack(n, s) => {
                (*n, s.as_ref().map(|s| s.len()))
            }
        };
        let avail = set.unwrap_or(num_cpus::get());
        if n > avail {
            return Err(GlommioError::BuilderError(BuilderErrorKind::InsufficientCpus {
                required: n,
                available: avail,
            }));
        }
        if n == 0 {
            return Err(GlommioError::BuilderError(BuilderErrorKind::NrShards {
                minimum: 1,
                shards: 0,
            }));
        }
        Ok(())
    }
}

#[derive(Debug)]
pub struct LocalExecutorPoolBuilder {
    placement: PoolPlacement,
}
impl LocalExecutorPoolBuilder {
    pub fn new(placement: PoolPlacement) -> Self {
        LocalExecutorPoolBuilder { placement }
    }
    pub fn spin_before_park(self, _: Duration) -> Self {
        self
    }
    pub fn name(self, _: &str) -> Self {
        self
    }
    pub fn io_memory(self, _: usize) -> Self {
        self
    }
    pub fn ring_depth(self, _: usize) -> Self {
        self
    }
    pub fn preempt_timer(self, _: Duration) -> Self {
        self
    }
    pub fn record_io_latencies(self, _: bool) -> Self {
        self
    }
    pub fn on_all_shards<G, F, T>(self, fut_gen: G) -> Res<PoolThreadHandles<T>>
    where
        G: FnOnce() -> F + Clone + Send + 'static,
        F: Future<Output = T> + 'static,
        T: Send + 'static,
    {
        self.placement.check()?;
        let n = self.placement.executor_count();
        let mut results = Vec::new();
        for _ in 0..n {
            let shard = sim::new_shard();
            let slot = Rc::new(RefCell::new(None));
            let s2 = slot.clone();
            let g = fut_gen.clone();
            sim::spawn_task(
                shard,
                Box::pin(async move {
                    let v = g().await;
                    *s2.borrow_mut() = Some(v);
                    sim::shard_finished(shard);
                }),
            );
            results.push((shard, slot));
        }
        Ok(PoolThreadHandles { results })
    }
}

type Results<T> = Vec<(usize, Rc<RefCell<Option<T>>>)>;
pub struct PoolThreadHandles<T> {
    results: Results<T>,
}
impl<T> std::fmt::Debug for PoolThreadHandles<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "PoolThreadHandles({})", self.results.len())
    }
}
impl<T> PoolThreadHandles<T> {
    /// Runs the simulated world until its scenario ends.
    pub fn join_all(self) -> Vec<Res<T>> {
        sim::drive();
        self.results
            .into_iter()
            .map(|(_, s)| match s.borrow_mut().take() {
                Some(v) => Ok(v),
                None => Err(GlommioError::BuilderError(BuilderErrorKind::ThreadPanic(Box::new(
                    "simulation over or shard panicked",
                )))),
            })
            .collect()
    }
}

#[derive(Debug)]
pub struct LocalExecutorBuilder {
    _p: Placement,
}
impl LocalExecutorBuilder {
    pub fn new(p: Placement) -> Self {
        LocalExecutorBuilder { _p: p }
    }
    pub fn name(self, _: &str) -> Self {
        self
    }
    pub fn io_memory(self, _: usize) -> Self {
        self
    }
    pub fn ring_depth(self, _: usize) -> Self {
        self
    }
    pub fn preempt_timer(self, _: Duration) -> Self {
        self
    }
    pub fn spin_before_park(self, _: Duration) -> Self {
        self
    }
    pub fn spawn<G, F, T>(self, fut_gen: G) -> Res<ExecutorJoinHandle<T>>
    where
        G: FnOnce() -> F + Send + 'static,
        F: Future<Output = T> + 'static,
        T: Send + 'static,
    {
        let shard = sim::new_shard();
        let slot = Rc::new(RefCell::new(None));
        let s2 = slot.clone();
        sim::spawn_task(
            shard,
            Box::pin(async move {
                let v = fut_gen().await;
                *s2.borrow_mut() = Some(v);
                sim::shard_finished(shard);
            }),
        );
        Ok(ExecutorJoinHandle { slot })
    }
    pub fn make(self) -> Res<LocalExecutor> {
        Ok(LocalExecutor {})
    }
}
impl Default for LocalExecutorBuilder {
    fn default() -> Self {
        LocalExecutorBuilder::new(Placement::Unbound)
    }
}
pub struct ExecutorJoinHandle<T> {
    slot: Rc<RefCell<Option<T>>>,
}
impl<T> ExecutorJoinHandle<T> {
    pub fn join(self) -> Res<T> {
        sim::drive();
        self.slot.borrow_mut().take().ok_or(GlommioError::BuilderError(
            BuilderErrorKind::ThreadPanic(Box::new("simulation over or shard panicked")),
        ))
    }
}
#[derive(Debug, Default)]
pub struct LocalExecutor {}
impl LocalExecutor {
    pub fn run<T: 'static>(&self, f: impl Future<Output = T> + 'static) -> T {
        let shard = sim::new_shard();
        let slot = Rc::new(RefCell::new(None));
        let s2 = slot.clone();
        sim::spawn_task(
            shard,
            Box::pin(async move {
                let v = f.await;
                *s2.borrow_mut() = Some(v);
                sim::shard_finished(shard);
            }),
        );
        sim::drive();
        let v = slot.borrow_mut().take();
        v.expect("simulation over")
    }
}

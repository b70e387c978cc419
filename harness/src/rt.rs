//! A deterministic single-threaded executor with virtual time, plugged into openraft as its `AsyncRuntime`.
//!
//! Every scheduling decision is drawn from one seeded generator, so a run is a function of its seed.
//! Tasks are labelled with the (node, incarnation) that spawned them: killing a label is a crash.

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::BinaryHeap;
use std::collections::VecDeque;
use std::future::Future;
use std::ops::Add;
use std::ops::AddAssign;
use std::ops::Sub;
use std::ops::SubAssign;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::sync::Mutex;
use std::task::Context;
use std::task::Poll;
use std::task::Wake;
use std::task::Waker;
use std::time::Duration;

use openraft::async_runtime::AsyncRuntime;
use openraft::TokioRuntime;
use rand::rngs::SmallRng;
use rand::Rng;
use rand::RngCore;
use rand::SeedableRng;

pub type Label = (u64, u64);

pub const MS: u64 = 1_000_000;
const START: u64 = 1_000_000 * MS;

struct Task {
    label: Label,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    waker: Arc<TaskWaker>,
}

struct TaskWaker {
    id: u64,
    queued: AtomicBool,
    ready: Arc<Mutex<VecDeque<u64>>>,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        if !self.queued.swap(true, Ordering::SeqCst) {
            self.ready.lock().unwrap().push_back(self.id);
        }
    }
}

type Slot = Arc<Mutex<Option<Waker>>>;

struct Timer {
    at: u64,
    seq: u64,
    slot: Slot,
}
impl PartialEq for Timer {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Timer {}
impl PartialOrd for Timer {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timer {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

/// How the scheduler perturbs the order in which ready tasks run.
#[derive(Clone, Debug)]
pub struct SchedCfg {
    /// Probability of picking a random ready task rather than the oldest one.
    pub p_random: f64,
    /// Probability of parking a ready task of a node for a random time.
    pub p_park: f64,
    pub park_max_ms: u64,
}

struct Exec {
    now: u64,
    seq: u64,
    next_id: u64,
    tasks: BTreeMap<u64, Task>,
    ready: Arc<Mutex<VecDeque<u64>>>,
    timers: BinaryHeap<Timer>,
    current: Label,
    rng: SmallRng,
    cfg: SchedCfg,
    panics: Vec<(Label, String)>,
    polls: u64,
    /// Tasks of these nodes do not run before the given instant (a stalled process).
    paused: BTreeMap<u64, u64>,
}

thread_local! {
    static EXEC: RefCell<Option<Exec>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        if std::env::var("ORSIM_PANIC").is_ok() {
            eprintln!("PANIC {}\n{}", text, std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

fn with<R>(f: impl FnOnce(&mut Exec) -> R) -> R {
    EXEC.with(|e| f(e.borrow_mut().as_mut().expect("no executor on this thread")))
}

pub fn now_ns() -> u64 {
    EXEC.with(|e| e.borrow().as_ref().map(|x| x.now).unwrap_or(START))
}
/// Virtual milliseconds since the start of the run.
pub fn now_ms() -> u64 {
    (now_ns() - START) / MS
}
/// Virtual microseconds since the start of the run.
pub fn now_us() -> u64 {
    (now_ns() - START) / 1000
}
pub fn current() -> Label {
    with(|e| e.current)
}
pub fn rnd_u64() -> u64 {
    with(|e| e.rng.next_u64())
}
/// Uniform in [lo, hi].
pub fn rnd(lo: u64, hi: u64) -> u64 {
    with(|e| e.rng.gen_range(lo..=hi))
}
pub fn chance(p: f64) -> bool {
    p > 0.0 && with(|e| e.rng.gen_bool(p.min(1.0)))
}
pub fn take_panics() -> Vec<(Label, String)> {
    with(|e| std::mem::take(&mut e.panics))
}
/// Stall every task of node `n` for `ms`.
pub fn pause(n: u64, ms: u64) {
    with(|e| {
        let at = e.now + ms * MS;
        e.paused.insert(n, at);
    })
}
pub fn unpause_all() {
    with(|e| e.paused.clear())
}
pub fn set_sched(cfg: SchedCfg) {
    with(|e| e.cfg = cfg)
}

pub fn spawn_as<F>(label: Label, fut: F) -> SimJoin<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let st = Arc::new(Mutex::new(JoinState {
        res: None,
        waker: None,
    }));
    let st2 = st.clone();
    let wrapped = async move {
        let r = CatchUnwind { fut: Box::pin(fut) }.await;
        let res = match r {
            Ok(v) => Ok(v),
            Err(_) => {
                let msg = LAST_PANIC.with(|p| p.borrow().clone());
                with(|e| {
                    let l = e.current;
                    e.panics.push((l, msg))
                });
                Err(SimJoinError { panic: true })
            }
        };
        let w = {
            let mut s = st2.lock().unwrap();
            s.res = Some(res);
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    };
    with(|e| {
        let id = e.next_id;
        e.next_id += 1;
        let waker = Arc::new(TaskWaker {
            id,
            queued: AtomicBool::new(true),
            ready: e.ready.clone(),
        });
        e.ready.lock().unwrap().push_back(id);
        e.tasks.insert(id, Task {
            label,
            fut: Some(Box::pin(wrapped)),
            waker,
        });
    });
    SimJoin { st }
}

struct CatchUnwind<F: Future> {
    fut: Pin<Box<F>>,
}
impl<F: Future> Future for CatchUnwind<F> {
    type Output = Result<F::Output, Box<dyn Any + Send>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let f = self.fut.as_mut();
        match std::panic::catch_unwind(AssertUnwindSafe(|| f.poll(cx))) {
            Ok(Poll::Ready(v)) => Poll::Ready(Ok(v)),
            Ok(Poll::Pending) => Poll::Pending,
            Err(e) => Poll::Ready(Err(e)),
        }
    }
}

/// Drop every task of `label`: the process is gone, with whatever it had in memory.
pub fn kill(label: Label) {
    let dead: Vec<Task> = with(|e| {
        let ids: Vec<u64> = e.tasks.iter().filter(|(_, t)| t.label == label).map(|(i, _)| *i).collect();
        ids.iter().filter_map(|i| e.tasks.remove(i)).collect()
    });
    drop(dead);
}

/// Run until `main` completes, or `max_polls`, or nothing can ever run again.
/// Returns false when `main` did not complete.
pub fn run<F: Future<Output = ()> + 'static>(seed: u64, cfg: SchedCfg, max_polls: u64, main: F) -> bool {
    EXEC.with(|e| {
        *e.borrow_mut() = Some(Exec {
            now: START,
            seq: 0,
            next_id: 1,
            tasks: BTreeMap::new(),
            ready: Arc::new(Mutex::new(VecDeque::new())),
            timers: BinaryHeap::new(),
            current: (0, 0),
            rng: SmallRng::seed_from_u64(seed),
            cfg,
            panics: vec![],
            polls: 0,
            paused: BTreeMap::new(),
        })
    });
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    spawn_as((0, 0), async move {
        main.await;
        d2.store(true, Ordering::SeqCst);
    });
    loop {
        if done.load(Ordering::SeqCst) {
            break;
        }
        // Fire due timers.
        loop {
            let t = with(|e| match e.timers.peek() {
                Some(t) if t.at <= e.now => e.timers.pop(),
                _ => None,
            });
            let Some(t) = t else { break };
            let w = t.slot.lock().unwrap().take();
            if let Some(w) = w {
                w.wake();
            }
        }
        let picked = with(|e| {
            let ready = e.ready.clone();
            let mut q = ready.lock().unwrap();
            if q.is_empty() {
                return None;
            }
            let i = if q.len() > 1 && e.cfg.p_random > 0.0 && e.rng.gen_bool(e.cfg.p_random) {
                e.rng.gen_range(0..q.len())
            } else {
                0
            };
            q.remove(i)
        });
        let Some(id) = picked else {
            // Idle: jump to the next timer.
            let jumped = with(|e| match e.timers.peek() {
                Some(t) => {
                    if t.at > e.now {
                        e.now = t.at;
                    }
                    true
                }
                None => false,
            });
            if !jumped {
                break;
            }
            continue;
        };
        let got = with(|e| {
            let Some(label) = e.tasks.get(&id).map(|t| t.label) else {
                return None;
            };
            let until = e.paused.get(&label.0).copied().unwrap_or(0);
            let stalled = label.0 != 0 && until > e.now;
            if stalled || (label.0 != 0 && e.cfg.p_park > 0.0 && e.rng.gen_bool(e.cfg.p_park)) {
                // Preempt this task: it becomes ready again later. `queued` stays set.
                let at = if stalled {
                    until
                } else {
                    e.now + e.rng.gen_range(0..=e.cfg.park_max_ms * MS)
                };
                e.seq += 1;
                let seq = e.seq;
                let ready = e.ready.clone();
                let w: Waker = Arc::new(Requeue { id, ready }).into();
                e.timers.push(Timer {
                    at,
                    seq,
                    slot: Arc::new(Mutex::new(Some(w))),
                });
                return None;
            }
            let t = e.tasks.get_mut(&id).unwrap();
            t.waker.queued.store(false, Ordering::SeqCst);
            let f = t.fut.take();
            e.current = label;
            e.now += 500;
            e.polls += 1;
            f.map(|f| (f, t.waker.clone()))
        });
        let Some((mut fut, tw)) = got else { continue };
        let waker: Waker = tw.into();
        let mut cx = Context::from_waker(&waker);
        let r = fut.as_mut().poll(&mut cx);
        match r {
            Poll::Ready(()) => {
                with(|e| e.tasks.remove(&id));
                drop(fut);
            }
            Poll::Pending => {
                let gone = with(|e| match e.tasks.get_mut(&id) {
                    Some(t) => {
                        t.fut = Some(fut);
                        None
                    }
                    None => Some(fut),
                });
                drop(gone);
            }
        }
        if with(|e| {
            e.current = (0, 0);
            e.polls >= max_polls
        }) {
            break;
        }
    }
    done.load(Ordering::SeqCst)
}

pub fn polls() -> u64 {
    with(|e| e.polls)
}

/// Drop all tasks and the executor itself.
pub fn teardown() {
    loop {
        let dead: Vec<Task> = with(|e| std::mem::take(&mut e.tasks).into_values().collect());
        if dead.is_empty() {
            break;
        }
        for t in dead {
            let _ = std::panic::catch_unwind(AssertUnwindSafe(|| drop(t)));
        }
    }
    let e = EXEC.with(|e| e.borrow_mut().take());
    drop(e);
}

struct Requeue {
    id: u64,
    ready: Arc<Mutex<VecDeque<u64>>>,
}
impl Wake for Requeue {
    fn wake(self: Arc<Self>) {
        self.ready.lock().unwrap().push_back(self.id);
    }
}

struct JoinState<T> {
    res: Option<Result<T, SimJoinError>>,
    waker: Option<Waker>,
}
pub struct SimJoin<T> {
    st: Arc<Mutex<JoinState<T>>>,
}
// The executor is single-threaded: nothing ever crosses a thread.
unsafe impl<T> Send for SimJoin<T> {}
unsafe impl<T> Sync for SimJoin<T> {}
impl<T> Unpin for SimJoin<T> {}
impl<T> Future for SimJoin<T> {
    type Output = Result<T, SimJoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.st.lock().unwrap();
        if let Some(r) = s.res.take() {
            return Poll::Ready(r);
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

#[derive(Debug)]
pub struct SimJoinError {
    panic: bool,
}
impl std::fmt::Display for SimJoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "join error, panic={}", self.panic)
    }
}

pub struct SimSleep {
    at: u64,
    slot: Option<Slot>,
}
impl Future for SimSleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let at = self.at;
        if with(|e| e.now >= at) {
            return Poll::Ready(());
        }
        match &self.slot {
            Some(s) => *s.lock().unwrap() = Some(cx.waker().clone()),
            None => {
                let slot: Slot = Arc::new(Mutex::new(Some(cx.waker().clone())));
                self.slot = Some(slot.clone());
                with(|e| {
                    e.seq += 1;
                    let seq = e.seq;
                    e.timers.push(Timer { at, seq, slot });
                });
            }
        }
        Poll::Pending
    }
}
impl Drop for SimSleep {
    fn drop(&mut self) {
        if let Some(s) = &self.slot {
            *s.lock().unwrap() = None;
        }
    }
}

pub fn sleep_ms(ms: u64) -> SimSleep {
    sleep_ns(ms * MS)
}
pub fn sleep_ns(ns: u64) -> SimSleep {
    SimSleep {
        at: now_ns().saturating_add(ns),
        slot: None,
    }
}
pub async fn sleep_rnd_us(lo: u64, hi: u64) {
    if hi == 0 {
        return;
    }
    let d = rnd(lo, hi);
    sleep_ns(d * 1000).await
}

/// Let every other ready task run until nothing is ready at the present instant.
pub async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

#[derive(Debug)]
pub struct SimElapsed;
impl std::fmt::Display for SimElapsed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "deadline has elapsed")
    }
}

pub struct SimTimeout<F> {
    fut: Pin<Box<F>>,
    sleep: SimSleep,
}
impl<F: Future> Future for SimTimeout<F> {
    type Output = Result<F::Output, SimElapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.fut.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut self.sleep).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(SimElapsed)),
            Poll::Pending => Poll::Pending,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct SimInstant(pub u64);
impl Add<Duration> for SimInstant {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        SimInstant(self.0.saturating_add(d.as_nanos() as u64))
    }
}
impl AddAssign<Duration> for SimInstant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Duration> for SimInstant {
    type Output = Self;
    fn sub(self, d: Duration) -> Self {
        SimInstant(self.0.saturating_sub(d.as_nanos() as u64))
    }
}
impl SubAssign<Duration> for SimInstant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
impl Sub<SimInstant> for SimInstant {
    type Output = Duration;
    fn sub(self, o: SimInstant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
}
impl openraft::Instant for SimInstant {
    fn now() -> Self {
        SimInstant(now_ns())
    }
}

pub struct SimRng;
impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        rnd_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        rnd_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        with(|e| e.rng.fill_bytes(dest))
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

#[derive(Debug, Default, PartialEq, Eq, Clone, Copy, PartialOrd, Ord)]
pub struct SimRt;

impl AsyncRuntime for SimRt {
    type JoinError = SimJoinError;
    type JoinHandle<T: openraft::OptionalSend + 'static> = SimJoin<T>;
    type Sleep = SimSleep;
    type Instant = SimInstant;
    type TimeoutError = SimElapsed;
    type Timeout<R, T: Future<Output = R> + openraft::OptionalSend> = SimTimeout<T>;
    type ThreadLocalRng = SimRng;

    fn spawn<T>(future: T) -> Self::JoinHandle<T::Output>
    where
        T: Future + openraft::OptionalSend + 'static,
        T::Output: openraft::OptionalSend + 'static,
    {
        let l = current();
        spawn_as(l, future)
    }
    fn sleep(d: Duration) -> SimSleep {
        sleep_ns(d.as_nanos().min(u64::MAX as u128 / 4) as u64)
    }
    fn sleep_until(at: SimInstant) -> SimSleep {
        SimSleep { at: at.0, slot: None }
    }
    fn timeout<R, F: Future<Output = R> + openraft::OptionalSend>(d: Duration, f: F) -> SimTimeout<F> {
        SimTimeout {
            fut: Box::pin(f),
            sleep: Self::sleep(d),
        }
    }
    fn timeout_at<R, F: Future<Output = R> + openraft::OptionalSend>(at: SimInstant, f: F) -> SimTimeout<F> {
        SimTimeout {
            fut: Box::pin(f),
            sleep: Self::sleep_until(at),
        }
    }
    fn is_panic(e: &SimJoinError) -> bool {
        e.panic
    }
    fn thread_rng() -> SimRng {
        SimRng
    }
    type Mpsc = <TokioRuntime as AsyncRuntime>::Mpsc;
    type MpscUnbounded = <TokioRuntime as AsyncRuntime>::MpscUnbounded;
    type Watch = <TokioRuntime as AsyncRuntime>::Watch;
    type Oneshot = <TokioRuntime as AsyncRuntime>::Oneshot;
    type Mutex<T: openraft::OptionalSend + 'static> = <TokioRuntime as AsyncRuntime>::Mutex<T>;
}

// std seeds its hash maps (and futures::select! its shuffles) from this: fixed, so that a run depends on its seed only.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    len as isize
}

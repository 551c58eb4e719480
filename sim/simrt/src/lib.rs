//! Deterministic simulation runtime.
//!
//! One *run* is one simulated execution. Everything that is allowed to vary
//! between executions (operation mix, inputs, thread schedule, lock hand-off,
//! fault points, hash seeds, network behaviour) is decided by `draw`, which
//! either takes values from a seeded generator and records them, or replays a
//! recorded list. A run is therefore a pure function of its choice list.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard, Once};

/// Unwind payload: the simulated process died here. Only durable state survives.
pub struct SimCrash;
/// Unwind payload: the scheduler gave up on this run (deadlock, livelock, a
/// violation found in another thread).
pub struct SimAbort;

#[derive(Clone, Debug)]
pub struct Violation {
    /// which oracle fired; the minimiser keeps this fixed
    pub oracle: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Violation>;

pub fn violation<T>(oracle: &str, msg: String) -> R<T> {
    Err(Violation { oracle: oracle.to_string(), msg })
}
#[macro_export]
macro_rules! fail {
    ($oracle:expr, $($arg:tt)*) => {
        return Err($crate::Violation { oracle: $oracle.to_string(), msg: format!($($arg)*) })
    };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $oracle:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::Violation { oracle: $oracle.to_string(), msg: format!($($arg)*) });
        }
    };
}
#[macro_export]
macro_rules! ev {
    ($($arg:tt)*) => { $crate::event(&format!($($arg)*)) };
}

// ------------------------------------------------------------------ choices

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[derive(Clone, Debug)]
pub enum Plan {
    Seed(u64),
    Replay(Vec<u64>),
}

enum Source {
    Gen(u64),
    Replay(usize, Vec<u64>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum TState {
    Ready,
    Blocked(usize),
    Done,
}

struct State {
    src: Source,
    draws: Vec<u64>,
    digest: u64,
    events: u64,
    trace: Option<Vec<String>>,
    counters: BTreeMap<&'static str, u64>,
    hash_seed: u64,
    writer_pref: bool,
    // scheduler
    threads: Vec<TState>,
    cur: usize,
    active: bool,
    stay: u64,
    sched_steps: u64,
    step_cap: u64,
    switches: u64,
    abort: Option<Violation>,
}

pub struct Ctl {
    st: Mutex<State>,
    cv: Condvar,
}

impl Ctl {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// choices made so far (used when a run never returns)
    pub fn draws(&self) -> Vec<u64> {
        self.lock().draws.clone()
    }
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Ctl>, Option<usize>)>> = const { RefCell::new(None) };
    static OS_SEED: Cell<u64> = const { Cell::new(0) };
    static HASH_SEED: Cell<u64> = const { Cell::new(0x5eed) };
    static OS_CTR: Cell<u64> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

fn with<T>(f: impl FnOnce(&Arc<Ctl>, Option<usize>) -> T) -> Option<T> {
    let c = CUR.try_with(|c| c.borrow().clone()).ok().flatten()?;
    Some(f(&c.0, c.1))
}

impl State {
    fn draw(&mut self, n: u64) -> u64 {
        let v = if n <= 1 {
            return 0;
        } else {
            match &mut self.src {
                Source::Gen(s) => {
                    *s = s.wrapping_add(0x9e3779b97f4a7c15);
                    mix(*s) % n
                }
                Source::Replay(i, v) => {
                    let r = v.get(*i).copied().unwrap_or(0) % n;
                    *i += 1;
                    r
                }
            }
        };
        self.draws.push(v);
        v
    }
    fn note(&mut self, s: &str) {
        let mut h = self.digest;
        for b in s.as_bytes() {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.digest = (h ^ 0xff).wrapping_mul(0x100000001b3);
        self.events += 1;
        if let Some(t) = &mut self.trace {
            if t.len() < 20000 {
                t.push(s.to_string());
            }
        }
    }
}

/// A value in 0..n; 0 is always the simplest choice.
pub fn draw(n: u64) -> u64 {
    with(|c, _| c.lock().draw(n)).expect("draw outside a simulated run")
}
pub fn range(lo: u64, hi_excl: u64) -> u64 {
    lo + draw(hi_excl - lo)
}
/// true with probability num/den; the simplest choice is false
pub fn chance(num: u64, den: u64) -> bool {
    draw(den) >= den - num
}
pub fn pick<T>(v: &[T]) -> &T {
    &v[draw(v.len() as u64) as usize]
}
pub fn weighted(w: &[u64]) -> usize {
    let mut d = draw(w.iter().sum());
    for (i, x) in w.iter().enumerate() {
        if d < *x {
            return i;
        }
        d -= x;
    }
    0
}
pub fn shuffle<T>(v: &mut [T]) {
    for i in 0..v.len().saturating_sub(1) {
        let j = i + draw((v.len() - i) as u64) as usize;
        v.swap(i, j);
    }
}
pub fn event(s: &str) {
    with(|c, t| {
        let mut st = c.lock();
        match t {
            Some(t) if st.active => st.note(&format!("[t{t}] {s}")),
            _ => st.note(s),
        }
    });
}
pub fn count(k: &'static str) {
    count_n(k, 1)
}
pub fn count_n(k: &'static str, n: u64) {
    with(|c, _| *c.lock().counters.entry(k).or_insert(0) += n);
}
pub fn hash_seed() -> u64 {
    HASH_SEED.try_with(|s| s.get()).unwrap_or(0x5eed)
}
/// may a waiting writer keep new readers out (the real lock sometimes does)
pub fn writer_preference() -> bool {
    with(|c, _| c.lock().writer_pref).unwrap_or(false)
}
pub fn tid() -> usize {
    with(|_, t| t.unwrap_or(0)).unwrap_or(0)
}
pub fn sched_steps() -> u64 {
    with(|c, _| c.lock().sched_steps).unwrap_or(0)
}

/// The OS entropy seam: std's hash-table keys come from here.
/// # Safety
/// called by std with a valid buffer
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = OS_SEED.try_with(|s| s.get()).unwrap_or(0);
    let n = OS_CTR.try_with(|s| { s.set(s.get() + 1); s.get() }).unwrap_or(0);
    let mut x = mix(seed ^ mix(n));
    for i in 0..len {
        if i % 8 == 0 {
            x = mix(x);
        }
        *buf.add(i) = (x >> (8 * (i % 8))) as u8;
    }
    len as isize
}

// ---------------------------------------------------------------- scheduler

fn switch_to(c: &Arc<Ctl>, mut st: MutexGuard<'_, State>, me: usize, to: usize) {
    if to != me {
        st.switches += 1;
        st.note(&format!("~> t{to}"));
    }
    st.cur = to;
    if to == me {
        return;
    }
    c.cv.notify_all();
    wait_turn(c, st, me);
}

fn wait_turn(c: &Arc<Ctl>, mut st: MutexGuard<'_, State>, me: usize) {
    loop {
        if st.abort.is_some() {
            drop(st);
            resume_unwind(Box::new(SimAbort));
        }
        if st.cur == me && st.threads[me] == TState::Ready {
            return;
        }
        st = c.cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
}

fn abort_run(c: &Arc<Ctl>, mut st: MutexGuard<'_, State>, v: Violation) {
    if st.abort.is_none() {
        st.abort = Some(v);
    }
    c.cv.notify_all();
}

/// A place where the simulator may run another thread.
pub fn yield_point() {
    if std::thread::panicking() {
        return;
    }
    with(|c, t| {
        let Some(me) = t else { return };
        let mut st = c.lock();
        if !st.active {
            return;
        }
        if st.abort.is_some() {
            drop(st);
            resume_unwind(Box::new(SimAbort));
        }
        st.sched_steps += 1;
        if st.sched_steps > st.step_cap {
            let v = Violation { oracle: "livelock".into(), msg: format!("no end after {} scheduling steps", st.step_cap) };
            abort_run(c, st, v);
            resume_unwind(Box::new(SimAbort));
        }
        let others: Vec<usize> = (0..st.threads.len()).filter(|i| *i != me && st.threads[*i] == TState::Ready).collect();
        if others.is_empty() {
            return;
        }
        let stay = st.stay;
        let d = st.draw(stay + others.len() as u64);
        if d < stay {
            return;
        }
        let to = others[(d - stay) as usize];
        switch_to(c, st, me, to);
    });
}

/// The current thread cannot take the lock at `addr`.
pub fn lock_wait(addr: usize, _exclusive: bool) {
    let in_run = with(|c, t| {
        let Some(me) = t else {
            if std::thread::panicking() {
                std::thread::yield_now();
                return;
            }
            panic!("self-deadlock: a lock is requested again by the only thread, which holds it");
        };
        if std::thread::panicking() {
            std::thread::yield_now();
            return;
        }
        let mut st = c.lock();
        if st.abort.is_some() {
            drop(st);
            resume_unwind(Box::new(SimAbort));
        }
        st.threads[me] = TState::Blocked(addr);
        let others: Vec<usize> = (0..st.threads.len()).filter(|i| st.threads[*i] == TState::Ready).collect();
        if others.is_empty() {
            let v = Violation { oracle: "deadlock".into(), msg: format!("every unfinished thread waits for a lock: {:?}", st.threads.iter().map(|t| matches!(t, TState::Done)).collect::<Vec<_>>()) };
            abort_run(c, st, v);
            resume_unwind(Box::new(SimAbort));
        }
        let to = others[st.draw(others.len() as u64) as usize];
        switch_to(c, st, me, to);
    });
    if in_run.is_none() {
        std::thread::yield_now();
    }
}

pub fn lock_woken(addr: usize) {
    with(|c, t| {
        if t.is_none() {
            return;
        }
        let mut st = c.lock();
        for s in st.threads.iter_mut() {
            if *s == TState::Blocked(addr) {
                *s = TState::Ready;
            }
        }
    });
}

/// Run the closures as threads of the simulated system, one at a time, the
/// simulator choosing who runs next at every yield point and lock operation.
pub fn run_threads(fns: Vec<Box<dyn FnOnce() -> R + Send>>) -> R {
    let (ctl, _) = CUR.with(|c| c.borrow().clone()).expect("outside a run");
    let n = fns.len();
    let seed = {
        let mut st = ctl.lock();
        assert!(!st.active);
        st.threads = vec![TState::Ready; n];
        st.stay = [1, 2, 6, 20][st.draw(4) as usize];
        st.cur = st.draw(n as u64) as usize;
        st.active = true;
        st.hash_seed
    };
    let mut hs = vec![];
    for (i, f) in fns.into_iter().enumerate() {
        let ctl = ctl.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    enter(&ctl, Some(i), seed ^ (i as u64 + 1));
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let st = ctl.lock();
                        wait_turn(&ctl, st, i);
                        f()
                    }));
                    let r: R = match r {
                        Ok(r) => r,
                        Err(p) => match classify(p) {
                            Caught::Abort => Ok(()),
                            Caught::Crash => violation("harness", "crash escaped".into()),
                            Caught::Panic(m) => violation("panic", format!("thread t{i} panicked: {m}")),
                        },
                    };
                    let mut st = ctl.lock();
                    st.threads[i] = TState::Done;
                    st.note(&format!("t{i} done"));
                    if let Err(v) = r {
                        abort_run(&ctl, st, v);
                        leave();
                        return;
                    }
                    if st.abort.is_none() {
                        let ready: Vec<usize> = (0..n).filter(|j| st.threads[*j] == TState::Ready).collect();
                        if !ready.is_empty() {
                            let k = ready[st.draw(ready.len() as u64) as usize];
                            st.cur = k;
                        } else if st.threads.iter().any(|t| matches!(t, TState::Blocked(_))) {
                            let v = Violation { oracle: "deadlock".into(), msg: "threads wait for a lock nobody will release".into() };
                            abort_run(&ctl, st, v);
                            leave();
                            return;
                        }
                    }
                    ctl.cv.notify_all();
                    drop(st);
                    leave();
                })
                .expect("spawn"),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let mut st = ctl.lock();
    st.active = false;
    match st.abort.take() {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

// --------------------------------------------------------------------- runs

fn enter(ctl: &Arc<Ctl>, t: Option<usize>, seed: u64) {
    OS_SEED.with(|s| s.set(seed));
    OS_CTR.with(|s| s.set(0));
    QUIET.with(|q| q.set(true));
    let hs = ctl.lock().hash_seed;
    HASH_SEED.with(|s| s.set(hs));
    CUR.with(|c| *c.borrow_mut() = Some((ctl.clone(), t)));
}
fn leave() {
    CUR.with(|c| *c.borrow_mut() = None);
}

pub enum Caught {
    Crash,
    Abort,
    Panic(String),
}
fn classify(p: Box<dyn Any + Send>) -> Caught {
    if p.is::<SimCrash>() {
        return Caught::Crash;
    }
    if p.is::<SimAbort>() {
        return Caught::Abort;
    }
    let m = PANIC_MSG.with(|m| m.borrow_mut().take());
    let m = m.unwrap_or_else(|| {
        if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    });
    Caught::Panic(m)
}

/// The simulated process dies here.
pub fn crash_now() -> ! {
    resume_unwind(Box::new(SimCrash))
}

#[derive(Debug)]
pub enum OpErr {
    Crash,
    Panic(String),
}
/// Call into the system under test; a simulated crash or a real panic comes
/// back as a value, a scheduler abort keeps unwinding.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, OpErr> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => match classify(p) {
            Caught::Crash => Err(OpErr::Crash),
            Caught::Abort => resume_unwind(Box::new(SimAbort)),
            Caught::Panic(m) => Err(OpErr::Panic(m)),
        },
    }
}
/// `guard` for places where no crash is injected: a panic is a violation.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    match guard(f) {
        Ok(v) => Ok(v),
        Err(OpErr::Panic(m)) => violation("panic", format!("{what} panicked: {m}")),
        Err(OpErr::Crash) => violation("harness", format!("{what}: crash where none was planned")),
    }
}

static HOOK: Once = Once::new();
fn install_hook() {
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if QUIET.with(|q| q.get()) {
                let loc = info.location().map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default();
                let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = info.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    String::new()
                };
                PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{m} ({loc})")));
            } else {
                old(info)
            }
        }));
    });
}
fn short(f: &str) -> &str {
    f.rsplit_once("/repo/").map(|x| x.1).unwrap_or_else(|| f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f))
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub draws: Vec<u64>,
    pub digest: u64,
    pub events: u64,
    pub sched_steps: u64,
    pub switches: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
}

pub struct Pending {
    pub ctl: Arc<Ctl>,
    rx: std::sync::mpsc::Receiver<Outcome>,
    h: Option<std::thread::JoinHandle<()>>,
}

/// Start a run on a fresh thread (fresh thread-locals, so nothing leaks from one
/// run into the next).
pub fn start(plan: Plan, trace: bool, f: impl FnOnce() -> R + Send + 'static) -> Pending {
    install_hook();
    let src = match plan {
        Plan::Seed(s) => Source::Gen(mix(s)),
        Plan::Replay(v) => Source::Replay(0, v),
    };
    let mut st = State {
        src,
        draws: vec![],
        digest: 0xcbf29ce484222325,
        events: 0,
        trace: trace.then(Vec::new),
        counters: BTreeMap::new(),
        hash_seed: 0,
        writer_pref: false,
        threads: vec![],
        cur: 0,
        active: false,
        stay: 1,
        sched_steps: 0,
        step_cap: 200_000,
        switches: 0,
        abort: None,
    };
    st.hash_seed = st.draw(1 << 16);
    st.writer_pref = st.draw(2) == 1;
    let hs = mix(st.hash_seed);
    let ctl = Arc::new(Ctl { st: Mutex::new(st), cv: Condvar::new() });
    let (tx, rx) = std::sync::mpsc::channel();
    let c2 = ctl.clone();
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            enter(&c2, None, hs);
            let r = catch_unwind(AssertUnwindSafe(f));
            let r: R = match r {
                Ok(r) => r,
                Err(p) => match classify(p) {
                    Caught::Abort => violation("harness", "abort escaped".into()),
                    Caught::Crash => violation("harness", "crash escaped".into()),
                    Caught::Panic(m) => violation("panic", m),
                },
            };
            leave();
            let mut st = c2.lock();
            if let Err(v) = &r {
                let s = format!("VIOLATED {}: {}", v.oracle, v.msg);
                st.note(&s);
            }
            let _ = tx.send(Outcome {
                violation: r.err(),
                draws: st.draws.clone(),
                digest: st.digest,
                events: st.events,
                sched_steps: st.sched_steps,
                switches: st.switches,
                counters: std::mem::take(&mut st.counters),
                trace: st.trace.take().unwrap_or_default(),
            });
        })
        .expect("spawn");
    Pending { ctl, rx, h: Some(h) }
}

impl Pending {
    /// None: the run did not come back within the limit.
    pub fn wait(mut self, limit: std::time::Duration) -> Option<Outcome> {
        match self.rx.recv_timeout(limit) {
            Ok(o) => {
                if let Some(h) = self.h.take() {
                    let _ = h.join();
                }
                Some(o)
            }
            Err(_) => None,
        }
    }
}

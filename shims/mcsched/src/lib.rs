//! A controlled scheduler for real threads: of the threads that take part, exactly one runs at a time, and it can lose its turn only
//! at the points below. Which thread goes on at a point (and every other free choice) is a recorded decision that can be replayed.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    /// by default the running thread goes on
    RunOn,
    /// by default new work is taken up at once by another thread
    Eager,
    /// by default every point hands over to the next thread
    RoundRobin,
}

#[derive(Clone, Debug)]
pub struct Decision {
    pub options: usize,
    pub chosen: usize,
    pub default: usize,
    /// what a choice other than the default costs
    pub cost: usize,
}

type Pred = Box<dyn Fn() -> bool + Send>;

enum Status {
    Ready,
    Blocked(Pred),
    Running,
    /// blocked in the operating system, out of our sight
    Lost,
    Gone,
}

struct State {
    threads: Vec<Status>,
    current: usize,
    active: bool,
    policy: Policy,
    prefix: Vec<usize>,
    trace: Vec<Decision>,
    diverged: bool,
    points: u64,
    limit: u64,
    lost: u64,
    blocked_decisions: u64,
    /// between executions: the other threads go on until they are all blocked
    draining: u64,
}

struct Global {
    m: Mutex<State>,
    cv: Vec<Condvar>,
}

pub const MAX_THREADS: usize = 16;

static GLOBAL: OnceLock<Global> = OnceLock::new();
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static ON_FATAL: OnceLock<fn(&str, &[usize])> = OnceLock::new();
static ACTIVE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static TID: Cell<Option<usize>> = const { Cell::new(None) };
}

fn global() -> &'static Global {
    GLOBAL.get_or_init(|| Global {
        m: Mutex::new(State { threads: vec![], current: 0, active: false, policy: Policy::RunOn, prefix: vec![], trace: vec![], diverged: false, points: 0, limit: 1_000_000, lost: 0, blocked_decisions: 0, draining: 0 }),
        cv: (0..MAX_THREADS).map(|_| Condvar::new()).collect(),
    })
}

fn lock() -> MutexGuard<'static, State> {
    global().m.lock().unwrap_or_else(|e| e.into_inner())
}

/// called (with the decisions so far) when no thread can go on, or the run does not come to an end; must not return
pub fn on_fatal(f: fn(&str, &[usize])) {
    let _ = ON_FATAL.set(f);
}

fn fatal(s: &State, what: &str) -> ! {
    let t: Vec<usize> = s.trace.iter().map(|d| d.chosen).collect();
    if let Some(f) = ON_FATAL.get() {
        f(what, &t);
    }
    eprintln!("{what}");
    std::process::abort();
}

/// the calling thread takes part from now on (thread 0 must be first, and runs)
pub fn register() -> usize {
    let id;
    {
        let mut s = lock();
        id = s.threads.len();
        assert!(id < MAX_THREADS);
        s.threads.push(if id == 0 { Status::Running } else { Status::Ready });
        TID.with(|t| t.set(Some(id)));
    }
    if id == 0 {
        std::thread::spawn(watch);
    }
    id
}

/// a registered thread other than 0 waits for its first turn
pub fn wait_turn() {
    let me = TID.with(|t| t.get()).unwrap();
    let s = lock();
    wait_for(s, me);
}

fn wait_for(mut s: MutexGuard<'static, State>, me: usize) {
    while s.current != me {
        s = global().cv[me].wait(s).unwrap_or_else(|e| e.into_inner());
    }
    s.threads[me] = Status::Running;
}

/// whether the calling thread is under control right now
pub fn controlled() -> bool {
    ACTIVE.load(SeqCst) && TID.with(|t| t.get()).is_some()
}

/// thread 0: start an execution with a prefix of decisions
pub fn begin(policy: Policy, prefix: &[usize]) {
    let mut s = lock();
    s.policy = policy;
    s.prefix = prefix.to_vec();
    s.trace.clear();
    s.diverged = false;
    s.points = 0;
    s.active = true;
    ACTIVE.store(true, SeqCst);
}

pub struct Run {
    pub trace: Vec<Decision>,
    pub diverged: bool,
    pub points: u64,
    pub lost: u64,
}

/// thread 0: the execution is over
pub fn end() -> Run {
    let mut s = lock();
    s.active = false;
    let points = s.points;
    // whatever the others are still doing (looking for work, detached tasks) is not carried over into the next execution
    s.draining = 1;
    if TID.with(|t| t.get()) == Some(0) {
        s.threads[0] = Status::Ready;
        switch(s, 0, At::Point);
        s = lock();
    }
    s.draining = 0;
    s.points = points;
    ACTIVE.store(false, SeqCst);
    Run { trace: std::mem::take(&mut s.trace), diverged: s.diverged, points: s.points, lost: std::mem::take(&mut s.lost) }
}

fn decide(s: &mut State, options: usize, default: usize, cost: usize) -> usize {
    if options <= 1 || !s.active {
        return default;
    }
    let k = s.trace.len();
    let chosen = match s.prefix.get(k) {
        Some(&c) if c < options => c,
        Some(_) => {
            s.diverged = true;
            default
        }
        None => default,
    };
    s.trace.push(Decision { options, chosen, default, cost });
    chosen
}

fn enabled(s: &State) -> Vec<usize> {
    (0..s.threads.len())
        .filter(|&t| match &s.threads[t] {
            Status::Ready | Status::Running => true,
            Status::Blocked(p) => p(),
            Status::Lost | Status::Gone => false,
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum At {
    Point,
    Push,
    Blocked,
}

fn switch(mut s: MutexGuard<'static, State>, me: usize, at: At) {
    PROGRESS.fetch_add(1, SeqCst);
    s.points += 1;
    if s.points > s.limit {
        fatal(&s, "the execution does not come to an end");
    }
    let en = enabled(&s);
    if s.draining > 0 {
        s.draining += 1;
        let t = match en.iter().find(|t| **t != 0) {
            Some(t) if s.draining < 100_000 => *t,
            _ => 0,
        };
        if t != me {
            s.current = t;
            global().cv[t].notify_one();
            return wait_for(s, me);
        }
        s.threads[me] = Status::Running;
        return;
    }
    if en.is_empty() {
        if s.threads.iter().any(|t| matches!(t, Status::Lost)) {
            // someone blocked out of our sight may come back
            s.current = usize::MAX;
            return wait_for(s, me);
        }
        fatal(&s, "deadlock: no thread can go on");
    }
    let here = en.iter().position(|t| *t == me);
    // the next enabled thread after this one
    let next = en.iter().position(|t| *t > me).unwrap_or(0);
    let default = match (s.policy, at, here) {
        (_, At::Blocked, Some(h)) => h,
        (_, _, None) => next,
        (Policy::RunOn, _, Some(h)) => h,
        (Policy::Eager, At::Push, Some(_)) => next,
        (Policy::Eager, _, Some(h)) => h,
        (Policy::RoundRobin, _, Some(_)) => next,
    };
    let cost = if here.is_none() && s.policy != Policy::RoundRobin { 0 } else { 1 };
    let c = decide(&mut s, en.len(), default, cost);
    let t = en[c];
    if t == me {
        s.threads[me] = Status::Running;
        return;
    }
    s.current = t;
    global().cv[t].notify_one();
    wait_for(s, me);
}

fn me() -> Option<usize> {
    if !ACTIVE.load(SeqCst) {
        return None;
    }
    TID.with(|t| t.get())
}

/// get back in line after having been lost
fn settle(s: MutexGuard<'static, State>, id: usize) -> MutexGuard<'static, State> {
    if s.current == id {
        return s;
    }
    let mut s = s;
    s.threads[id] = Status::Ready;
    if s.current == usize::MAX {
        s.current = id;
        s.threads[id] = Status::Running;
        return s;
    }
    wait_for(s, id);
    lock()
}

/// another thread may go on here
pub fn point() {
    if let Some(id) = me() {
        let mut s = settle(lock(), id);
        s.threads[id] = Status::Ready;
        switch(s, id, At::Point);
    }
}

/// as `point`, where new work has just become visible to other threads
pub fn push_point() {
    if let Some(id) = me() {
        let mut s = settle(lock(), id);
        s.threads[id] = Status::Ready;
        switch(s, id, At::Push);
    }
}

/// wait until the condition holds. It may read only what changes under control.
pub fn block_until(cond: impl Fn() -> bool) {
    if let Some(id) = TID.with(|t| t.get()) {
        let b: Box<dyn Fn() -> bool + '_> = Box::new(cond);
        // the condition is dropped before this function returns
        let b: Pred = unsafe { std::mem::transmute(b) };
        let mut s = settle(lock(), id);
        s.blocked_decisions += 1;
        s.threads[id] = Status::Blocked(b);
        switch(s, id, At::Blocked);
        let mut s = lock();
        if matches!(s.threads[id], Status::Blocked(_)) {
            s.threads[id] = Status::Running;
        }
    } else {
        while !cond() {
            std::thread::sleep(Duration::from_micros(100));
        }
    }
}

/// any of n
pub fn choose(n: usize) -> usize {
    if me().is_some() {
        let mut s = lock();
        decide(&mut s, n, 0, 1)
    } else {
        0
    }
}

/// the calling thread ends
pub fn leave() {
    if let Some(id) = TID.with(|t| t.get()) {
        let mut s = settle(lock(), id);
        s.threads[id] = Status::Gone;
        TID.with(|t| t.set(None));
        let en = enabled(&s);
        if let Some(&t) = en.first() {
            s.current = t;
            global().cv[t].notify_one();
        }
    }
}

/// Gives the turn to another thread when the one that has it is blocked out of our sight.
fn watch() {
    let mut last = (0, Instant::now());
    loop {
        std::thread::sleep(Duration::from_millis(200));
        let p = PROGRESS.load(SeqCst);
        if !ACTIVE.load(SeqCst) || p != last.0 {
            last = (p, Instant::now());
            continue;
        }
        if last.1.elapsed() > Duration::from_secs(3) {
            let mut s = lock();
            if !s.active || PROGRESS.load(SeqCst) != p {
                continue;
            }
            let cur = s.current;
            let others: Vec<usize> = enabled(&s).into_iter().filter(|t| *t != cur).collect();
            if let Some(&t) = others.first() {
                if cur < s.threads.len() {
                    s.threads[cur] = Status::Lost;
                    s.lost += 1;
                }
                s.current = t;
                global().cv[t].notify_one();
                last = (p, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(90) {
                fatal(&s, "no progress: a thread is blocked or busy and no other can go on");
            }
        }
    }
}

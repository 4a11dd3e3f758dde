//! A stand-in for rayon-core 1.9.1 with its fork-join and work-stealing semantics, whose workers run under the controlled scheduler:
//! deques are LIFO for their owner and FIFO for thieves, a thread that waits takes up other work, and every take and steal is a point.
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::error::Error;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Copy, PartialEq, Eq)]
struct JobRef {
    data: *const (),
    exec: unsafe fn(*const ()),
}
unsafe impl Send for JobRef {}

struct Registry {
    deques: Vec<Mutex<VecDeque<JobRef>>>,
    injector: Mutex<VecDeque<JobRef>>,
    idle: AtomicUsize,
}

static REGISTRY: OnceLock<Registry> = OnceLock::new();
pub static STEALS: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static WORKER: Cell<Option<usize>> = const { Cell::new(None) };
}

fn reg() -> &'static Registry {
    REGISTRY.get().expect("mc_start was not called")
}

/// start k workers; the calling thread must be thread 0 of the scheduler
pub fn mc_start(k: usize) {
    let ok = REGISTRY.set(Registry { deques: (0..k).map(|_| Mutex::new(VecDeque::new())).collect(), injector: Mutex::new(VecDeque::new()), idle: AtomicUsize::new(0) });
    assert!(ok.is_ok());
    for w in 0..k {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                WORKER.with(|c| c.set(Some(w)));
                mcsched::register();
                tx.send(()).unwrap();
                mcsched::wait_turn();
                reg().idle.fetch_add(1, SeqCst);
                loop {
                    match find_work(w) {
                        Some(j) => unsafe { (j.exec)(j.data) },
                        None => mcsched::block_until(any_work),
                    }
                }
            })
            .unwrap();
        rx.recv().unwrap();
    }
    mcsched::block_until(|| reg().idle.load(SeqCst) == k);
}

fn any_work() -> bool {
    let r = reg();
    !r.injector.lock().unwrap().is_empty() || r.deques.iter().any(|d| !d.lock().unwrap().is_empty())
}

fn pop_local(w: usize) -> Option<JobRef> {
    reg().deques[w].lock().unwrap().pop_back()
}

fn find_work(w: usize) -> Option<JobRef> {
    if let Some(j) = pop_local(w) {
        return Some(j);
    }
    let r = reg();
    let victims: Vec<usize> = (0..r.deques.len()).filter(|v| *v != w && !r.deques[*v].lock().unwrap().is_empty()).collect();
    if !victims.is_empty() {
        let v = victims[mcsched::choose(victims.len())];
        STEALS.fetch_add(1, SeqCst);
        return r.deques[v].lock().unwrap().pop_front();
    }
    let j = r.injector.lock().unwrap().pop_front();
    j
}

fn push(j: JobRef) {
    match WORKER.with(|w| w.get()) {
        Some(w) => reg().deques[w].lock().unwrap().push_back(j),
        None => reg().injector.lock().unwrap().push_back(j),
    }
    mcsched::push_point();
}

/// a worker goes on with other work until the condition holds
fn wait_until(w: usize, cond: &dyn Fn() -> bool) {
    while !cond() {
        match find_work(w) {
            Some(j) => unsafe { (j.exec)(j.data) },
            None => mcsched::block_until(|| cond() || any_work()),
        }
    }
}

enum JobResult<T> {
    None,
    Ok(T),
    Panic(Box<dyn Any + Send>),
}

impl<T> JobResult<T> {
    fn get(self) -> T {
        match self {
            JobResult::None => unreachable!(),
            JobResult::Ok(t) => t,
            JobResult::Panic(p) => resume_unwind(p),
        }
    }
}

struct StackJob<F, R> {
    f: UnsafeCell<Option<F>>,
    r: UnsafeCell<JobResult<R>>,
    done: AtomicBool,
}

impl<F: FnOnce(bool) -> R + Send, R: Send> StackJob<F, R> {
    fn new(f: F) -> Self {
        Self { f: UnsafeCell::new(Some(f)), r: UnsafeCell::new(JobResult::None), done: AtomicBool::new(false) }
    }
    fn job(&self) -> JobRef {
        JobRef { data: self as *const Self as *const (), exec: Self::exec }
    }
    unsafe fn exec(p: *const ()) {
        let me = &*(p as *const Self);
        let f = (*me.f.get()).take().unwrap();
        *me.r.get() = match catch_unwind(AssertUnwindSafe(|| f(true))) {
            Ok(t) => JobResult::Ok(t),
            Err(p) => JobResult::Panic(p),
        };
        me.done.store(true, SeqCst);
        mcsched::push_point();
    }
}

fn in_worker<R: Send>(f: impl FnOnce(usize, bool) -> R + Send) -> R {
    match WORKER.with(|w| w.get()) {
        Some(w) => f(w, false),
        None => {
            let j = StackJob::new(|_| f(WORKER.with(|w| w.get()).unwrap(), true));
            push(j.job());
            mcsched::block_until(|| j.done.load(SeqCst));
            j.r.into_inner().get()
        }
    }
}

pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        Self { migrated, _m: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    in_worker(|w, injected| {
        let jb = StackJob::new(move |m| b(FnContext::new(m)));
        let rb = jb.job();
        push(rb);
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
        mcsched::point();
        let ra = match ra {
            Ok(r) => r,
            Err(p) => {
                // b must be over before the stack unwinds
                wait_until(w, &|| jb.done.load(SeqCst));
                resume_unwind(p)
            }
        };
        while !jb.done.load(SeqCst) {
            match pop_local(w) {
                Some(j) if j.data == rb.data => {
                    let f = unsafe { (*jb.f.get()).take().unwrap() };
                    return (ra, f(injected));
                }
                Some(j) => unsafe { (j.exec)(j.data) },
                None => wait_until(w, &|| jb.done.load(SeqCst)),
            }
        }
        (ra, jb.r.into_inner().get())
    })
}

// ------------------------------------------------------------------ scopes and spawns

struct ScopeBase {
    left: AtomicUsize,
    panic: Mutex<Option<Box<dyn Any + Send>>>,
}

pub struct Scope<'scope> {
    base: Arc<ScopeBase>,
    _m: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
pub struct ScopeFifo<'scope> {
    base: Arc<ScopeBase>,
    _m: PhantomData<Box<dyn FnOnce(&ScopeFifo<'scope>) + Send + Sync + 'scope>>,
}

struct HeapJob(Box<dyn FnOnce() + Send>);
unsafe fn exec_heap(p: *const ()) {
    let b = Box::from_raw(p as *mut HeapJob);
    (b.0)();
    mcsched::push_point();
}
fn push_heap<'a>(f: Box<dyn FnOnce() + Send + 'a>) {
    let f: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(f) };
    push(JobRef { data: Box::into_raw(Box::new(HeapJob(f))) as *const (), exec: exec_heap });
}

fn run_in_scope(base: &Arc<ScopeBase>, f: impl FnOnce()) {
    if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
        base.panic.lock().unwrap().get_or_insert(p);
    }
    base.left.fetch_sub(1, SeqCst);
}

fn finish_scope(base: &Arc<ScopeBase>) {
    match WORKER.with(|w| w.get()) {
        Some(w) => wait_until(w, &|| base.left.load(SeqCst) == 0),
        None => mcsched::block_until(|| base.left.load(SeqCst) == 0),
    }
    let p = base.panic.lock().unwrap().take();
    if let Some(p) = p {
        resume_unwind(p);
    }
}

macro_rules! scopes {
    ($ty:ident, $spawn:ident, $scope:ident, $inplace:ident) => {
        impl<'scope> $ty<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$ty<'scope>) + Send + 'scope,
            {
                self.base.left.fetch_add(1, SeqCst);
                let base = self.base.clone();
                push_heap(Box::new(move || {
                    let s = $ty { base: base.clone(), _m: PhantomData };
                    run_in_scope(&base, || body(&s));
                }));
            }
        }
        impl fmt::Debug for $ty<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($ty))
            }
        }
        pub fn $inplace<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$ty<'scope>) -> R,
        {
            let base = Arc::new(ScopeBase { left: AtomicUsize::new(0), panic: Mutex::new(None) });
            let s = $ty { base: base.clone(), _m: PhantomData };
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            match r {
                Ok(r) => {
                    finish_scope(&base);
                    r
                }
                Err(p) => {
                    let _ = catch_unwind(AssertUnwindSafe(|| finish_scope(&base)));
                    resume_unwind(p)
                }
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$ty<'scope>) -> R + Send,
            R: Send,
        {
            in_worker(|_, _| $inplace(op))
        }
    };
}
scopes!(Scope, spawn, scope, in_place_scope);
scopes!(ScopeFifo, spawn_fifo, scope_fifo, in_place_scope_fifo);

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    push_heap(Box::new(move || {
        if catch_unwind(AssertUnwindSafe(f)).is_err() {
            std::process::abort();
        }
    }));
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn(f)
}

pub fn current_num_threads() -> usize {
    reg().deques.len()
}
pub fn current_thread_index() -> Option<usize> {
    WORKER.with(|w| w.get())
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|w| !reg().deques[w].lock().unwrap().is_empty())
}

// ------------------------------------------------------------------ pools: all the same one

#[derive(Debug)]
pub struct ThreadPoolBuildError(io::Error);
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl Error for ThreadPoolBuildError {}

#[derive(Debug)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        in_worker(|_, _| op())
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send>(&self, op: OP) -> R {
        scope(op)
    }
    pub fn in_place_scope<'scope, OP: FnOnce(&Scope<'scope>) -> R, R>(&self, op: OP) -> R {
        in_place_scope(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
}

/// never handed out
pub struct ThreadBuilder(());
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        0
    }
    pub fn run(self) {}
}

#[derive(Debug, Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}

//! The standard library with its synchronisation primitives routed through the controlled scheduler.
#![allow(deprecated, ambiguous_glob_reexports)]
pub use ::std::*;

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        if mcsched::controlled() {
            mcsched::point()
        } else {
            ::std::thread::yield_now()
        }
    }
    pub fn sleep(d: ::std::time::Duration) {
        if mcsched::controlled() {
            mcsched::point()
        } else {
            ::std::thread::sleep(d)
        }
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        super::thread::yield_now()
    }
}

pub mod sync {
    pub use ::std::sync::*;
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync as s;

    // ------------------------------------------------------------------ Mutex
    #[derive(Default)]
    pub struct Mutex<T: ?Sized>(s::Mutex<T>);
    pub struct MutexGuard<'a, T: ?Sized>(Option<s::MutexGuard<'a, T>>, &'a Mutex<T>);

    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Self(s::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn free(&self) -> bool {
            !matches!(self.0.try_lock(), Err(s::TryLockError::WouldBlock))
        }
        fn wrap<'a>(&'a self, r: LockResult<s::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
            match r {
                Ok(g) => Ok(MutexGuard(Some(g), self)),
                Err(e) => Err(PoisonError::new(MutexGuard(Some(e.into_inner()), self))),
            }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            if !mcsched::controlled() {
                return self.wrap(self.0.lock());
            }
            mcsched::point();
            loop {
                match self.0.try_lock() {
                    Ok(g) => return Ok(MutexGuard(Some(g), self)),
                    Err(s::TryLockError::Poisoned(e)) => return self.wrap(Err(e)),
                    Err(s::TryLockError::WouldBlock) => mcsched::block_until(|| self.free()),
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            mcsched::point();
            match self.0.try_lock() {
                Ok(g) => Ok(MutexGuard(Some(g), self)),
                Err(s::TryLockError::Poisoned(e)) => Err(s::TryLockError::Poisoned(PoisonError::new(MutexGuard(Some(e.into_inner()), self)))),
                Err(s::TryLockError::WouldBlock) => Err(s::TryLockError::WouldBlock),
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.0.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    // ------------------------------------------------------------------ Condvar
    #[derive(Default, Debug)]
    pub struct Condvar {
        inner: s::Condvar,
        woken: s::atomic::AtomicU64,
        all: s::atomic::AtomicU64,
    }
    impl Condvar {
        pub const fn new() -> Self {
            Self { inner: s::Condvar::new(), woken: s::atomic::AtomicU64::new(0), all: s::atomic::AtomicU64::new(0) }
        }
        pub fn notify_one(&self) {
            self.woken.fetch_add(1, s::atomic::Ordering::SeqCst);
            self.inner.notify_one();
        }
        pub fn notify_all(&self) {
            self.all.fetch_add(1, s::atomic::Ordering::SeqCst);
            self.inner.notify_all();
        }
        pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            use s::atomic::Ordering::SeqCst;
            let m = g.1;
            if !mcsched::controlled() {
                return m.wrap(self.inner.wait(g.0.take().unwrap()));
            }
            let (w, a) = (self.woken.load(SeqCst), self.all.load(SeqCst));
            drop(g);
            mcsched::block_until(|| self.woken.load(SeqCst) != w || self.all.load(SeqCst) != a);
            m.lock()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
    }

    // ------------------------------------------------------------------ RwLock
    #[derive(Default)]
    pub struct RwLock<T: ?Sized>(s::RwLock<T>);
    pub struct RwLockReadGuard<'a, T: ?Sized>(s::RwLockReadGuard<'a, T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(s::RwLockWriteGuard<'a, T>);
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            Self(s::RwLock::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            if !mcsched::controlled() {
                return self.0.read().map(RwLockReadGuard).map_err(|e| PoisonError::new(RwLockReadGuard(e.into_inner())));
            }
            mcsched::point();
            loop {
                match self.0.try_read() {
                    Ok(g) => return Ok(RwLockReadGuard(g)),
                    Err(s::TryLockError::Poisoned(e)) => return Err(PoisonError::new(RwLockReadGuard(e.into_inner()))),
                    Err(s::TryLockError::WouldBlock) => mcsched::block_until(|| !matches!(self.0.try_read(), Err(s::TryLockError::WouldBlock))),
                }
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            if !mcsched::controlled() {
                return self.0.write().map(RwLockWriteGuard).map_err(|e| PoisonError::new(RwLockWriteGuard(e.into_inner())));
            }
            mcsched::point();
            loop {
                match self.0.try_write() {
                    Ok(g) => return Ok(RwLockWriteGuard(g)),
                    Err(s::TryLockError::Poisoned(e)) => return Err(PoisonError::new(RwLockWriteGuard(e.into_inner()))),
                    Err(s::TryLockError::WouldBlock) => mcsched::block_until(|| !matches!(self.0.try_write(), Err(s::TryLockError::WouldBlock))),
                }
            }
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            mcsched::point();
            match self.0.try_read() {
                Ok(g) => Ok(RwLockReadGuard(g)),
                Err(s::TryLockError::Poisoned(e)) => Err(s::TryLockError::Poisoned(PoisonError::new(RwLockReadGuard(e.into_inner())))),
                Err(s::TryLockError::WouldBlock) => Err(s::TryLockError::WouldBlock),
            }
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            mcsched::point();
            match self.0.try_write() {
                Ok(g) => Ok(RwLockWriteGuard(g)),
                Err(s::TryLockError::Poisoned(e)) => Err(s::TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard(e.into_inner())))),
                Err(s::TryLockError::WouldBlock) => Err(s::TryLockError::WouldBlock),
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.0
        }
    }

    // ------------------------------------------------------------------ OnceLock: a point before each access
    #[derive(Debug)]
    pub struct OnceLock<T>(s::OnceLock<T>);
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            Self(s::OnceLock::new())
        }
        pub fn get(&self) -> Option<&T> {
            mcsched::point();
            self.0.get()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            mcsched::point();
            self.0.set(t)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            mcsched::point();
            self.0.get_or_init(f)
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.0.get_mut()
        }
        pub fn into_inner(self) -> Option<T> {
            self.0.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.0.take()
        }
    }

    // ------------------------------------------------------------------ atomics
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use ::std::sync::atomic as a;
        pub fn fence(o: Ordering) {
            mcsched::point();
            a::fence(o)
        }
        macro_rules! common {
            ($name:ident, $t:ty) => {
                #[derive(Default)]
                pub struct $name(a::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        Self(a::$name::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        mcsched::point();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        mcsched::point();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        mcsched::point();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        mcsched::point();
                        self.0.compare_exchange(c, n, s, f)
                    }
                    pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        mcsched::point();
                        self.0.compare_exchange(c, n, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                        mcsched::point();
                        self.0.fetch_update(s, f, g)
                    }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                        mcsched::point();
                        self.0.fetch_and(v, o)
                    }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                        mcsched::point();
                        self.0.fetch_or(v, o)
                    }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                        mcsched::point();
                        self.0.fetch_xor(v, o)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                }
                impl ::std::fmt::Debug for $name {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                        self.0.fmt(f)
                    }
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
            };
        }
        macro_rules! int {
            ($($name:ident $t:ty),*) => { $(
                common!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { mcsched::point(); self.0.fetch_add(v, o) }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { mcsched::point(); self.0.fetch_sub(v, o) }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { mcsched::point(); self.0.fetch_max(v, o) }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { mcsched::point(); self.0.fetch_min(v, o) }
                }
            )* };
        }
        common!(AtomicBool, bool);
        int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    }

    // ------------------------------------------------------------------ channels
    pub mod mpsc {
        pub use ::std::sync::mpsc::*;
        use ::std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        use ::std::sync::mpsc as m;
        use ::std::sync::Arc;
        use ::std::time::Duration;

        struct St {
            len: AtomicUsize,
            senders: AtomicUsize,
            receiver: AtomicUsize,
            bound: usize,
        }
        pub struct Sender<T> {
            inner: m::Sender<T>,
            st: Arc<St>,
        }
        pub struct SyncSender<T>(Sender<T>);
        pub struct Receiver<T> {
            inner: m::Receiver<T>,
            st: Arc<St>,
        }
        fn make<T>(bound: usize) -> (Sender<T>, Receiver<T>) {
            let (a, b) = m::channel();
            let st = Arc::new(St { len: AtomicUsize::new(0), senders: AtomicUsize::new(1), receiver: AtomicUsize::new(1), bound });
            (Sender { inner: a, st: st.clone() }, Receiver { inner: b, st })
        }
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            make(usize::MAX)
        }
        pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
            let (a, b) = make(bound.max(1));
            (SyncSender(a), b)
        }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                mcsched::push_point();
                let full = || self.st.len.load(SeqCst) >= self.st.bound && self.st.receiver.load(SeqCst) == 1;
                if full() {
                    mcsched::block_until(|| !full());
                }
                self.inner.send(t)?;
                self.st.len.fetch_add(1, SeqCst);
                Ok(())
            }
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                self.st.senders.fetch_add(1, SeqCst);
                Self { inner: self.inner.clone(), st: self.st.clone() }
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                self.st.senders.fetch_sub(1, SeqCst);
            }
        }
        impl<T> ::std::fmt::Debug for Sender<T> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                f.write_str("Sender { .. }")
            }
        }
        impl<T> SyncSender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t)
            }
            pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
                mcsched::push_point();
                if self.0.st.len.load(SeqCst) >= self.0.st.bound {
                    return Err(TrySendError::Full(t));
                }
                self.0.inner.send(t).map_err(|e| TrySendError::Disconnected(e.0))?;
                self.0.st.len.fetch_add(1, SeqCst);
                Ok(())
            }
        }
        impl<T> Clone for SyncSender<T> {
            fn clone(&self) -> Self {
                Self(self.0.clone())
            }
        }
        impl<T> Receiver<T> {
            fn take(&self) -> Result<T, TryRecvError> {
                let r = self.inner.try_recv();
                if r.is_ok() {
                    self.st.len.fetch_sub(1, SeqCst);
                }
                r
            }
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                mcsched::point();
                self.take()
            }
            pub fn recv(&self) -> Result<T, RecvError> {
                if !mcsched::controlled() {
                    let r = self.inner.recv();
                    if r.is_ok() {
                        self.st.len.fetch_sub(1, SeqCst);
                    }
                    return r;
                }
                mcsched::point();
                loop {
                    match self.take() {
                        Ok(t) => return Ok(t),
                        Err(TryRecvError::Disconnected) => return Err(RecvError),
                        Err(TryRecvError::Empty) => mcsched::block_until(|| self.st.len.load(SeqCst) > 0 || self.st.senders.load(SeqCst) == 0),
                    }
                }
            }
            /// waiting and giving up are both possible whenever nothing is there
            pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
                if !mcsched::controlled() {
                    let r = self.inner.recv_timeout(d);
                    if r.is_ok() {
                        self.st.len.fetch_sub(1, SeqCst);
                    }
                    return r;
                }
                match self.try_recv() {
                    Ok(t) => Ok(t),
                    Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
                    Err(TryRecvError::Empty) => {
                        if mcsched::choose(2) == 0 {
                            self.recv().map_err(|_| RecvTimeoutError::Disconnected)
                        } else {
                            Err(RecvTimeoutError::Timeout)
                        }
                    }
                }
            }
            pub fn iter(&self) -> Iter<'_, T> {
                Iter(self)
            }
            pub fn try_iter(&self) -> TryIter<'_, T> {
                TryIter(self)
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                self.st.receiver.store(0, SeqCst);
            }
        }
        pub struct Iter<'a, T>(&'a Receiver<T>);
        pub struct TryIter<'a, T>(&'a Receiver<T>);
        pub struct IntoIter<T>(Receiver<T>);
        impl<T> Iterator for Iter<'_, T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        impl<T> Iterator for TryIter<'_, T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.try_recv().ok()
            }
        }
        impl<T> Iterator for IntoIter<T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        impl<T> IntoIterator for Receiver<T> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(self) -> IntoIter<T> {
                IntoIter(self)
            }
        }
        impl<'a, T> IntoIterator for &'a Receiver<T> {
            type Item = T;
            type IntoIter = Iter<'a, T>;
            fn into_iter(self) -> Iter<'a, T> {
                Iter(self)
            }
        }
    }
}

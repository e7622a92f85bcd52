//! The synchronisation primitives of the stand-in.
pub use ::std::sync::*;

use crate::rt::{self, Id};
use ::std::borrow::Borrow;
use ::std::cell::{Cell, UnsafeCell};
use ::std::fmt;
use ::std::hash::{Hash, Hasher};
use ::std::marker::Unsize;
use ::std::mem::ManuallyDrop;
use ::std::ops::{CoerceUnsized, Deref, DerefMut, DispatchFromDyn, LegacyReceiver};
use ::std::pin::Pin;
use ::std::sync as real;

// ---------------------------------------------------------------------------------------------
// Arc and Weak

pub struct Arc<T: ?Sized>(real::Arc<T>);
pub struct Weak<T: ?Sized>(real::Weak<T>);

fn addr<T: ?Sized>(p: *const T) -> usize {
    p as *const () as usize
}

impl<T> Arc<T> {
    #[inline]
    pub fn new(t: T) -> Self {
        Self::adopt(real::Arc::new(t))
    }
    pub fn pin(t: T) -> Pin<Self> {
        unsafe { Pin::new_unchecked(Self::new(t)) }
    }
    pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Self {
        Self::adopt(real::Arc::new_cyclic(|w| {
            let w = ManuallyDrop::new(Weak(w.clone()));
            let r = f(&w);
            let _ = ManuallyDrop::into_inner(w);
            r
        }))
    }
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        rt::point("Arc::try_unwrap");
        rt::event_addr(Self::id(&this), true, 20);
        match real::Arc::try_unwrap(Self::release(this)) {
            Ok(t) => {
                rt::arc_count(-1);
                Ok(t)
            }
            Err(a) => Err(Arc(a)),
        }
    }
    pub fn into_inner(this: Self) -> Option<T> {
        rt::point("Arc::into_inner");
        rt::event_addr(Self::id(&this), true, 21);
        let r = real::Arc::into_inner(Self::release(this));
        if r.is_some() {
            rt::arc_count(-1);
        }
        r
    }
}
impl<T: Clone> Arc<T> {
    pub fn make_mut(this: &mut Self) -> &mut T {
        rt::point("Arc::make_mut");
        rt::event_addr(Self::id(this), true, 22);
        real::Arc::make_mut(&mut this.0)
    }
    pub fn unwrap_or_clone(this: Self) -> T {
        Self::try_unwrap(this).unwrap_or_else(|a| (*a).clone())
    }
}
impl<T: ?Sized> Arc<T> {
    fn adopt(a: real::Arc<T>) -> Self {
        rt::forget_addr(addr(real::Arc::as_ptr(&a)));
        rt::arc_count(1);
        Arc(a)
    }
    fn id(this: &Self) -> usize {
        addr(real::Arc::as_ptr(&this.0))
    }
    /// Without the bookkeeping of a drop.
    fn release(this: Self) -> real::Arc<T> {
        let this = ManuallyDrop::new(this);
        unsafe { ::std::ptr::read(&this.0) }
    }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        rt::point("Arc::get_mut");
        rt::event_addr(Self::id(this), false, 23);
        real::Arc::get_mut(&mut this.0)
    }
    pub fn downgrade(this: &Self) -> Weak<T> {
        rt::event_addr(Self::id(this), false, 24);
        Weak(real::Arc::downgrade(&this.0))
    }
    pub fn as_ptr(this: &Self) -> *const T {
        real::Arc::as_ptr(&this.0)
    }
    pub fn into_raw(this: Self) -> *const T {
        real::Arc::into_raw(Self::release(this))
    }
    pub unsafe fn from_raw(p: *const T) -> Self {
        Arc(real::Arc::from_raw(p))
    }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool {
        real::Arc::ptr_eq(&a.0, &b.0)
    }
    pub fn strong_count(this: &Self) -> usize {
        rt::point("Arc::strong_count");
        rt::event_addr(Self::id(this), false, 25);
        real::Arc::strong_count(&this.0)
    }
    pub fn weak_count(this: &Self) -> usize {
        rt::point("Arc::weak_count");
        rt::event_addr(Self::id(this), false, 26);
        real::Arc::weak_count(&this.0)
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    #[inline]
    fn drop(&mut self) {
        if real::Arc::weak_count(&self.0) > 0 {
            rt::point("drop of an Arc");
        }
        rt::event_addr(Self::id(self), true, 27);
        if real::Arc::strong_count(&self.0) == 1 {
            rt::arc_count(-1);
        }
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    #[inline]
    fn clone(&self) -> Self {
        rt::event_addr(Self::id(self), false, 28);
        Arc(self.0.clone())
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    #[inline]
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Arc<U>> for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Arc<U>> for Arc<T> {}
impl<T: ?Sized> LegacyReceiver for Arc<T> {}
impl<T: ?Sized> Unpin for Arc<T> {}
impl<T: ?Sized> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> Borrow<T> for Arc<T> {
    fn borrow(&self) -> &T {
        &self.0
    }
}
impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc::new(T::default())
    }
}
impl<T> From<T> for Arc<T> {
    fn from(t: T) -> Self {
        Arc::new(t)
    }
}
impl<T: ?Sized> From<Box<T>> for Arc<T> {
    fn from(t: Box<T>) -> Self {
        Self::adopt(real::Arc::from(t))
    }
}
impl<T> From<Vec<T>> for Arc<[T]> {
    fn from(t: Vec<T>) -> Self {
        Self::adopt(real::Arc::from(t))
    }
}
impl From<&str> for Arc<str> {
    fn from(t: &str) -> Self {
        Self::adopt(real::Arc::from(t))
    }
}
impl From<String> for Arc<str> {
    fn from(t: String) -> Self {
        Self::adopt(real::Arc::from(t))
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&**self, f)
    }
}
impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: ?Sized + Eq> Eq for Arc<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
    fn partial_cmp(&self, o: &Self) -> Option<::std::cmp::Ordering> {
        (**self).partial_cmp(&**o)
    }
}
impl<T: ?Sized + Ord> Ord for Arc<T> {
    fn cmp(&self, o: &Self) -> ::std::cmp::Ordering {
        (**self).cmp(&**o)
    }
}
impl<T: ?Sized + Hash> Hash for Arc<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}

impl<T> Weak<T> {
    pub const fn new() -> Self {
        Weak(real::Weak::new())
    }
}
impl<T: ?Sized> Weak<T> {
    fn id(&self) -> usize {
        addr(self.0.as_ptr())
    }
    pub fn upgrade(&self) -> Option<Arc<T>> {
        rt::point("Weak::upgrade");
        rt::event_addr(self.id(), false, 30);
        self.0.upgrade().map(Arc)
    }
    pub fn strong_count(&self) -> usize {
        rt::point("Weak::strong_count");
        rt::event_addr(self.id(), false, 31);
        self.0.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        rt::point("Weak::weak_count");
        rt::event_addr(self.id(), false, 32);
        self.0.weak_count()
    }
    pub fn as_ptr(&self) -> *const T {
        self.0.as_ptr()
    }
    pub fn ptr_eq(&self, o: &Self) -> bool {
        self.0.ptr_eq(&o.0)
    }
}
impl<T: ?Sized> Clone for Weak<T> {
    fn clone(&self) -> Self {
        Weak(self.0.clone())
    }
}
impl<T> Default for Weak<T> {
    fn default() -> Self {
        Weak::new()
    }
}
impl<T: ?Sized> fmt::Debug for Weak<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "(Weak)")
    }
}
impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Weak<U>> for Weak<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Weak<U>> for Weak<T> {}

// ---------------------------------------------------------------------------------------------
// Locks

macro_rules! guard_common {
    ($guard:ident) => {
        impl<T: ?Sized> Deref for $guard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.lock.data.get() }
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $guard<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&**self, f)
            }
        }
        impl<T: ?Sized + fmt::Display> fmt::Display for $guard<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Display::fmt(&**self, f)
            }
        }
    };
    ($guard:ident mut) => {
        guard_common!($guard);
        impl<T: ?Sized> DerefMut for $guard<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                unsafe { &mut *self.lock.data.get() }
            }
        }
    };
}

pub struct Mutex<T: ?Sized> {
    id: Id,
    held: Cell<usize>,
    poison: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}

#[must_use]
pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    panicking: bool,
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            self.lock.poison.set(true);
        }
        rt::unlock(&self.lock.id, &self.lock.held)
    }
}
guard_common!(MutexGuard mut);

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { id: Id::new(), held: Cell::new(0), poison: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        if self.poison.get() {
            Err(PoisonError::new(self.data.into_inner()))
        } else {
            Ok(self.data.into_inner())
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { lock: self, panicking: ::std::thread::panicking() };
        if self.poison.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        rt::lock(&self.id, &self.held, "Mutex::lock");
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if rt::try_lock(&self.id, &self.held, "Mutex::try_lock") {
            self.guard().map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.get()
    }
    pub fn clear_poison(&self) {
        self.poison.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        if self.poison.get() {
            Err(PoisonError::new(self.data.get_mut()))
        } else {
            Ok(self.data.get_mut())
        }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Mutex {{ .. }}")
    }
}

/// Readers and writer: `state` counts readers, or is MAX for a writer.
struct Rw {
    id: Id,
    state: Cell<usize>,
}
impl Rw {
    const fn new() -> Self {
        Rw { id: Id::new(), state: Cell::new(0) }
    }
    fn acquire(&self, write: bool, what: &str) {
        rt::point(what);
        loop {
            if if write { self.state.get() == 0 } else { self.state.get() != usize::MAX } {
                self.state.set(if write { usize::MAX } else { self.state.get() + 1 });
                rt::event(&self.id, true, 40 + write as u64);
                return;
            }
            rt::block_on_obj(&self.id, what);
        }
    }
    fn try_acquire(&self, write: bool, what: &str) -> bool {
        rt::point(what);
        let ok = if write { self.state.get() == 0 } else { self.state.get() != usize::MAX };
        if ok {
            self.state.set(if write { usize::MAX } else { self.state.get() + 1 });
        }
        rt::event(&self.id, true, 42 + 2 * ok as u64 + write as u64);
        ok
    }
    fn release(&self, write: bool) {
        let left = if write { 0 } else { self.state.get() - 1 };
        let dummy = Cell::new(0);
        self.state.set(left);
        rt::unlock(&self.id, &dummy);
    }
}

pub struct RwLock<T: ?Sized> {
    rw: Rw,
    poison: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    panicking: bool,
}
guard_common!(RwLockReadGuard);
guard_common!(RwLockWriteGuard mut);
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.lock.rw.release(false)
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            self.lock.poison.set(true);
        }
        self.lock.rw.release(true)
    }
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { rw: Rw::new(), poison: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    fn result<G>(&self, g: G) -> LockResult<G> {
        if self.poison.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.rw.acquire(false, "RwLock::read");
        self.result(RwLockReadGuard { lock: self })
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.rw.acquire(true, "RwLock::write");
        self.result(RwLockWriteGuard { lock: self, panicking: ::std::thread::panicking() })
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if !self.rw.try_acquire(false, "RwLock::try_read") {
            return Err(TryLockError::WouldBlock);
        }
        self.result(RwLockReadGuard { lock: self }).map_err(TryLockError::Poisoned)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if !self.rw.try_acquire(true, "RwLock::try_write") {
            return Err(TryLockError::WouldBlock);
        }
        self.result(RwLockWriteGuard { lock: self, panicking: ::std::thread::panicking() })
            .map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.get()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RwLock {{ .. }}")
    }
}

#[derive(Debug, Default)]
pub struct Condvar {
    inner: UnsafeCellId,
}
#[derive(Default)]
struct UnsafeCellId(Id);
impl fmt::Debug for UnsafeCellId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "..")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { inner: UnsafeCellId(Id::new()) }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = g.lock;
        drop(g);
        rt::block_on_obj(&self.inner.0, "Condvar::wait");
        lock.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    /// Wakes all of them: a spurious wake-up is allowed.
    pub fn notify_one(&self) {
        rt::unlock(&self.inner.0, &Cell::new(0))
    }
    pub fn notify_all(&self) {
        rt::unlock(&self.inner.0, &Cell::new(0))
    }
}

/// The locks of the crate `spin`: no poisoning.
pub mod spin_mutex {
    use super::*;
    pub struct Mutex<T: ?Sized> {
        id: Id,
        held: Cell<usize>,
        pub(super) data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized> {
        lock: &'a Mutex<T>,
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            rt::unlock(&self.lock.id, &self.lock.held)
        }
    }
    guard_common!(MutexGuard mut);
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { id: Id::new(), held: Cell::new(0), data: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> T {
            self.data.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> MutexGuard<'_, T> {
            rt::lock(&self.id, &self.held, "spin lock");
            MutexGuard { lock: self }
        }
        pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
            rt::try_lock(&self.id, &self.held, "spin try_lock").then(|| MutexGuard { lock: self })
        }
        pub fn is_locked(&self) -> bool {
            rt::point("spin is_locked");
            rt::event(&self.id, false, 50);
            self.held.get() != 0
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.data.get_mut()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "Mutex {{ .. }}")
        }
    }
}

pub mod spin_rwlock {
    use super::*;
    pub struct RwLock<T: ?Sized> {
        rw: Rw,
        pub(super) data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        lock: &'a RwLock<T>,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        lock: &'a RwLock<T>,
    }
    guard_common!(RwLockReadGuard);
    guard_common!(RwLockWriteGuard mut);
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.lock.rw.release(false)
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            self.lock.rw.release(true)
        }
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { rw: Rw::new(), data: UnsafeCell::new(t) }
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> RwLockReadGuard<'_, T> {
            self.rw.acquire(false, "spin RwLock::read");
            RwLockReadGuard { lock: self }
        }
        pub fn write(&self) -> RwLockWriteGuard<'_, T> {
            self.rw.acquire(true, "spin RwLock::write");
            RwLockWriteGuard { lock: self }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Atomics

pub mod atomic {
    pub use ::std::sync::atomic::*;

    use crate::rt::{self, Id};
    use ::std::fmt;
    use ::std::sync::atomic as real;

    pub fn fence(_: Ordering) {}

    macro_rules! base {
        ($name:ident, $t:ty, [$($g:tt)*], [$($gn:tt)*]) => {
            pub struct $name $($g)* {
                id: Id,
                v: real::$name $($gn)*,
            }
            impl $($g)* $name $($gn)* {
                pub const fn new(v: $t) -> Self {
                    Self { id: Id::new(), v: real::$name::new(v) }
                }
                pub fn load(&self, _: Ordering) -> $t {
                    rt::point(concat!(stringify!($name), "::load"));
                    rt::event(&self.id, false, 60);
                    self.v.load(Ordering::SeqCst)
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    rt::point(concat!(stringify!($name), "::store"));
                    rt::event(&self.id, true, 61);
                    self.v.store(v, Ordering::SeqCst)
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    rt::point(concat!(stringify!($name), "::swap"));
                    rt::event(&self.id, true, 62);
                    self.v.swap(v, Ordering::SeqCst)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    rt::point(concat!(stringify!($name), "::compare_exchange"));
                    let r = self.v.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst);
                    rt::event(&self.id, r.is_ok(), 63 + r.is_ok() as u64);
                    r
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(a, b, x, y)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, x: Ordering, y: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut cur = self.load(y);
                    while let Some(next) = f(cur) {
                        match self.compare_exchange(cur, next, x, y) {
                            Ok(v) => return Ok(v),
                            Err(v) => cur = v,
                        }
                    }
                    Err(cur)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.v.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.v.into_inner()
                }
            }
            impl $($g)* fmt::Debug for $name $($gn)* {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    fmt::Debug::fmt(&self.v, f)
                }
            }
            impl $($g)* From<$t> for $name $($gn)* {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
        };
    }
    macro_rules! rmw {
        ($name:ident, $t:ty, $($f:ident)*) => {
            impl $name {
                $(pub fn $f(&self, v: $t, _: Ordering) -> $t {
                    rt::point(concat!(stringify!($name), "::", stringify!($f)));
                    rt::event(&self.id, true, 65);
                    self.v.$f(v, Ordering::SeqCst)
                })*
            }
            impl Default for $name {
                fn default() -> Self {
                    Self::new(Default::default())
                }
            }
        };
    }
    macro_rules! ints {
        ($($name:ident $t:ty,)*) => {$(
            base!($name, $t, [], []);
            rmw!($name, $t, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);
        )*};
    }
    ints!(
        AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32,
        AtomicU16 u16, AtomicI16 i16, AtomicU8 u8, AtomicI8 i8,
    );
    base!(AtomicBool, bool, [], []);
    rmw!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);
    base!(AtomicPtr, *mut T, [<T>], [<T>]);
}

//! What the generated items use, and what is done with them.
#![allow(dead_code)]
pub use std::cell::Cell;
use std::future::Future;
pub use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
use std::task::{Context as Cx, Poll};
use xtra::Mailbox;

/// Send and 'static, but neither Sync nor Clone nor anything else.
pub struct Only(Cell<u8>);
impl Only {
    pub fn new() -> Only {
        Only(Cell::new(1))
    }
}

pub struct Cl(Cell<u8>);
impl Cl {
    pub fn new() -> Cl {
        Cl(Cell::new(1))
    }
}
impl Clone for Cl {
    fn clone(&self) -> Cl {
        Cl::new()
    }
}

pub trait Tr {
    type Assoc: Send + 'static;
}
impl Tr for Only {
    type Assoc = Cell<u8>;
}
impl Tr for Cl {
    type Assoc = Cell<u8>;
}
pub trait Marker {}
impl Marker for Only {}
impl Marker for Cl {}
pub trait Hr<'a> {}
impl<'a> Hr<'a> for Only {}
pub fn id8(x: u8) -> u8 {
    x
}

static ALIVE: AtomicI32 = AtomicI32::new(0);

/// Counts the actors that exist.
pub struct Tracker(());
impl Tracker {
    pub fn new() -> Tracker {
        ALIVE.fetch_add(1, Ordering::SeqCst);
        Tracker(())
    }
}
impl Drop for Tracker {
    fn drop(&mut self) {
        ALIVE.fetch_sub(1, Ordering::SeqCst);
    }
}

pub struct Ping(pub u32);

pub fn poll<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = futures_util::task::noop_waker();
    f.poll(&mut Cx::from_waker(&w))
}

pub fn assert_actor<A: xtra::Actor<Stop = ()>>() {}

fn assert_send<T: Send>(t: T) -> T {
    t
}

/// Runs an actor: alone, with a message, stopped by stop_all, dropped in between.
pub fn drive<A: xtra::Actor<Stop = ()> + xtra::Handler<Ping, Return = u32>>(make: &dyn Fn() -> A, tracked: bool) {
    let alive = |n: i32, what: &str| {
        let a = ALIVE.load(Ordering::SeqCst);
        if tracked && a != n {
            panic!("{a} actors exist {what}");
        }
    };
    alive(0, "before");
    {
        let (addr, mb) = Mailbox::unbounded();
        let mut run = Box::pin(assert_send(xtra::run(mb, make())));
        alive(1, "before it is run");
        assert!(poll(run.as_mut()).is_pending(), "stops although there is an address");
        let mut s = Box::pin(std::future::IntoFuture::into_future(addr.send(Ping(41))));
        assert!(poll(s.as_mut()).is_pending());
        assert!(poll(run.as_mut()).is_pending(), "stops after a message");
        assert!(matches!(poll(s.as_mut()), Poll::Ready(Ok(42))), "message not handled");
        alive(1, "while it runs");
        drop(addr);
        assert!(poll(run.as_mut()).is_ready(), "does not stop without addresses");
        alive(0, "after it stopped");
    }
    {
        let (addr, mb) = Mailbox::<A>::bounded(1);
        let mut run = Box::pin(xtra::run(mb, make()));
        assert!(poll(run.as_mut()).is_pending(), "stops although there is an address");
        drop(run);
        alive(0, "after it was dropped");
        assert!(!addr.is_connected());
    }
    {
        let (_addr, mb) = Mailbox::<A>::unbounded();
        let mut a = make();
        {
            let mut st = Box::pin(a.started(&mb));
            assert!(matches!(poll(st.as_mut()), Poll::Ready(Ok(()))), "started fails or waits");
        }
        let mut st = Box::pin(assert_send(a.stopped()));
        assert!(matches!(poll(st.as_mut()), Poll::Ready(())), "stopped waits");
        drop(st);
        alive(0, "after stopped");
    }
}

static FAILED: AtomicBool = AtomicBool::new(false);

pub fn failed() -> bool {
    FAILED.load(Ordering::SeqCst)
}

pub fn go(i: usize, f: fn(), n: &mut u32) {
    *n += 1;
    if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        println!("FAILED m{i}: {m}");
        FAILED.store(true, Ordering::SeqCst);
        ALIVE.store(0, Ordering::SeqCst);
    }
}

macro_rules! case {
    ($t:ty, $make:expr, $tracked:expr) => {
        impl xtra::Handler<super::support::Ping> for $t {
            type Return = u32;
            async fn handle(&mut self, m: super::support::Ping, _: &mut xtra::Context<Self>) -> u32 {
                m.0 + 1
            }
        }
        pub fn check() {
            super::support::drive::<$t>(&|| $make, $tracked)
        }
    };
}
pub(crate) use case;

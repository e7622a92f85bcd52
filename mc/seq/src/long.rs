//! Histories that are too long for the reference model: counters, positions and identifiers are
//! driven past every power of two up to 2^16, and there are hundreds of mailboxes, receives, waiting
//! senders and join handles at once. Every history is completely determined; what must happen at
//! each point of it follows directly from the property.
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context as TCx, Poll, Waker};

use futures_util::future::Either as FEither;
use futures_util::{FutureExt, SinkExt};
use xtra::prelude::*;
use xtra::refcount::{Either, Strong};


use crate::explore::tick;
use crate::rt::*;
use crate::sim::{Mis, P};

/// Past 2^16.
const K: u32 = 66_000;

pub struct Cnt {
    pub ops: u64,
}
pub type Res = Result<(), Mis>;
pub type LongFn = fn(&mut Cnt) -> Res;

macro_rules! must {
    ($props:expr, $c:expr, $($f:tt)*) => {
        if !$c {
            return Err(Mis { props: $props.to_vec(), what: format!($($f)*) });
        }
    };
}

type Fut<T> = Pin<Box<dyn Future<Output = T>>>;

struct T<O> {
    f: Option<Fut<O>>,
    w: Arc<W>,
}
impl<O> T<O> {
    fn new(f: impl Future<Output = O> + 'static) -> T<O> {
        T { f: Some(Box::pin(f)), w: W::new() }
    }
    fn poll(&mut self) -> Option<O> {
        self.w = W::new();
        let wk = Waker::from(self.w.clone());
        match self.f.as_mut().unwrap().as_mut().poll(&mut TCx::from_waker(&wk)) {
            Poll::Ready(o) => {
                self.f = None;
                Some(o)
            }
            Poll::Pending => None,
        }
    }
    fn woken(&self) -> bool {
        self.w.is()
    }
    /// It is still waiting. (Waking it for nothing is not an error.)
    fn waits(&mut self) -> bool {
        !self.woken() || self.poll().is_none()
    }
}

pub fn op(c: &mut Cnt) {
    c.ops += 1;
    if c.ops % 64 == 0 {
        tick()
    }
}

fn log_take() -> Vec<Ev> {
    let mut v = vec![];
    take_log(&mut v);
    v
}

fn new(cap: Option<usize>) -> (Address<Act>, Mailbox<Act>) {
    match cap {
        None => Mailbox::unbounded(),
        Some(n) => Mailbox::bounded(n),
    }
}

/// Send, with the reply not waited for: whether it is accepted at once.
fn put(c: &mut Cnt, a: &Address<Act>, id: u32, prio: Option<u32>) -> Poll<Result<(), xtra::Error>> {
    op(c);
    let f = a.send(Msg::new(id, Kind::Imm));
    let f = match prio {
        Some(p) => f.priority(p),
        None => f,
    };
    match f.detach().now_or_never() {
        Some(r) => Poll::Ready(r.map(|_| ())),
        None => Poll::Pending,
    }
}

/// Receive and handle one message: which one (None: nothing there; stop: u32::MAX).
fn take(c: &mut Cnt, mb: &Mailbox<Act>, act: &mut Act) -> Option<u32> {
    op(c);
    log_take();
    let m = next(mb).now_or_never()?;
    handle(m, act)
}
/// A received message, to be dispatched.
type Message = Box<dyn FnOnce(&mut Act) -> Option<std::ops::ControlFlow<()>>>;
fn next(mb: &Mailbox<Act>) -> impl Future<Output = Message> {
    mb.next().map(|m| -> Message { Box::new(move |act: &mut Act| m.dispatch_to(act).now_or_never()) })
}
fn handle(m: Message, act: &mut Act) -> Option<u32> {
    let r = m(act);
    let id = log_take().iter().find_map(|e| if let Ev::Start(_, id) = e { Some(*id) } else { None });
    Some(match (r, id) {
        (_, Some(id)) => id,
        (Some(std::ops::ControlFlow::Break(())), None) => u32::MAX,
        _ => u32::MAX - 1,
    })
}

fn counts(d: &dyn std::fmt::Debug) -> (usize, usize) {
    let s = format!("{d:?}");
    let n = |k: &str| s.split(k).nth(1).and_then(|r| r.trim_start_matches(": ").split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()).unwrap_or(usize::MAX);
    (n("addresses"), n("mailboxes"))
}

// ---------------------------------------------------------------------------------------------

fn queue(c: &mut Cnt) -> Res {
    let (a, mb) = new(None);
    let mut act = Act::new(1);
    for i in 0..K {
        must!(["C07", "C01"], put(c, &a, i, None) == Poll::Ready(Ok(())), "message {i} is not accepted by an unbounded mailbox");
        must!(["C21"], a.len() == i as usize + 1, "len() is {} with {} messages queued", a.len(), i + 1);
    }
    for i in 0..K {
        let r = take(c, &mb, &mut act);
        must!(["C06", "C01"], r == Some(i), "of {K} messages queued, number {i} is followed by {r:?}");
        must!(["C21"], a.len() == (K - i - 1) as usize, "len() is {} with {} messages queued", a.len(), K - i - 1);
    }
    Ok(())
}

/// A few messages are always queued while many pass through.
fn window(c: &mut Cnt) -> Res {
    for width in [1usize, 2, 3, 5] {
        let (a, mb) = new(None);
        let mut act = Act::new(1);
        let mut model = VecDeque::new();
        for i in 0..K {
            must!(["C07", "C01"], put(c, &a, i, None) == Poll::Ready(Ok(())), "message {i} is not accepted by an unbounded mailbox");
            model.push_back(i);
            if model.len() > width {
                let r = take(c, &mb, &mut act);
                let want = model.pop_front();
                must!(["C06", "C01"], r == want, "received {r:?} instead of message {want:?}, {width} messages queued");
            }
        }
    }
    Ok(())
}

/// The same with a message of another priority now and then.
fn window_prio(c: &mut Cnt) -> Res {
    for other in [1u32, u32::MAX] {
        let (a, mb) = new(None);
        let mut act = Act::new(1);
        let (mut low, mut high) = (VecDeque::new(), VecDeque::new());
        for i in 0..K {
            let p = if i % 7 == 3 { Some(other) } else { None };
            must!(["C07", "C01"], put(c, &a, i, p) == Poll::Ready(Ok(())), "message {i} is not accepted by an unbounded mailbox");
            if p.is_some() { high.push_back(i) } else { low.push_back(i) }
            if low.len() + high.len() > 4 {
                let r = take(c, &mb, &mut act);
                let hi = !high.is_empty();
                let want = high.pop_front().or_else(|| low.pop_front());
                if hi {
                    must!(["C05"], r == want, "received {r:?} although message {want:?} has a higher priority");
                } else {
                    must!(["C06", "C01"], r == want, "received {r:?} instead of message {want:?}");
                }
            }
        }
    }
    Ok(())
}

/// A bounded mailbox with a waiting sender at all times.
fn window_full(c: &mut Cnt) -> Res {
    let (a, mb) = new(Some(2));
    let mut act = Act::new(1);
    let mut model: VecDeque<u32> = VecDeque::new();
    let mut waiting: VecDeque<(u32, T<Result<xtra::Receiver<Ret>, xtra::Error>>)> = VecDeque::new();
    for i in 0..K {
        op(c);
        let mut t = T::new(a.send(Msg::new(i, Kind::Imm)).detach());
        match t.poll() {
            Some(r) => {
                must!(["C07"], r.is_ok() && model.len() < 2, "message {i} is accepted by a full mailbox");
                model.push_back(i)
            }
            None => {
                must!(["C07", "C04"], model.len() == 2, "message {i} has to wait with {} queued", model.len());
                waiting.push_back((i, t))
            }
        }
        if waiting.len() == 2 {
            let r = take(c, &mb, &mut act);
            let want = model.pop_front();
            must!(["C06", "C01"], r == want, "received {r:?} instead of message {want:?}");
            let (j, mut t) = waiting.pop_front().unwrap();
            must!(["C08", "C04"], t.woken(), "the sender of message {j}, which has waited longest, is not admitted");
            must!(["C08"], waiting[0].1.waits(), "the sender of message {} is admitted before its turn", waiting[0].0);
            must!(["C08", "C03"], matches!(t.poll(), Some(Ok(_))), "the sender of message {j} does not learn of its admission");
            model.push_back(j);
        }
    }
    Ok(())
}

/// One receive stays idle while many others come and go.
fn receives(c: &mut Cnt) -> Res {
    for other_mailbox in [false, true] {
        let (a, mb) = new(None);
        let mb2 = if other_mailbox { Some(mb.clone()) } else { None };
        let mut act = Act::new(1);
        let mut held = T::new(next(&mb));
        must!(["C01"], held.poll().is_none(), "something is received although nothing was sent");
        for i in 0..K {
            op(c);
            let mut t = T::new(next(mb2.as_ref().unwrap_or(&mb)));
            must!(["C01"], t.poll().is_none(), "something is received although nothing was sent");
            drop(t);
            must!(["C04"], held.waits(), "the drop of idle receive {i} wakes another one");
        }
        let p = put(c, &a, 7, None);
        must!(["C07"], p == Poll::Ready(Ok(())), "a message is not accepted");
        must!(["C02", "C04"], held.woken(), "an idle receive misses a message after {K} others were dropped");
        let m = held.poll();
        must!(["C02", "C01"], m.is_some(), "an idle receive misses a message after {K} others were dropped");
        let r = handle(m.unwrap(), &mut act);
        must!(["C01"], r == Some(7), "received {r:?} instead of message 7");
    }
    // Several idle at once, the one in the middle is dropped each time.
    let (a, mb) = new(None);
    let mut act = Act::new(1);
    let mut first = T::new(next(&mb));
    first.poll();
    for i in 0..K / 8 {
        op(c);
        let mut x = T::new(next(&mb));
        let mut y = T::new(next(&mb));
        must!(["C01"], x.poll().is_none() && y.poll().is_none(), "something is received although nothing was sent");
        drop(x);
        // goes to the one that is idle since before, and is taken out there
        must!(["C07"], put(c, &a, i, None) == Poll::Ready(Ok(())), "a message is not accepted");
        let m1 = if first.woken() { first.poll() } else { None };
        let m2 = if y.woken() { y.poll() } else { None };
        let f = m1.is_some();
        must!(["C01", "C02", "C04"], f != m2.is_some(), "a message for two idle receives is handed to {} of them", f as u32 + m2.is_some() as u32);
        let m = m1.or(m2);
        let r = handle(m.unwrap(), &mut act);
        must!(["C01"], r == Some(i), "received {r:?} instead of message {i}");
        if f {
            first = y;
        }
    }
    Ok(())
}

/// A message is assigned to an idle receive that is dropped, over and over.
fn requeues(c: &mut Cnt) -> Res {
    let (a, mb) = new(None);
    let mut act = Act::new(1);
    let mut t = T::new(next(&mb));
    must!(["C01"], t.poll().is_none(), "something is received although nothing was sent");
    must!(["C07"], put(c, &a, 0, None) == Poll::Ready(Ok(())), "a message is not accepted");
    // in between: queued
    drop(t);
    for i in 1..K {
        op(c);
        must!(["C21", "C02"], a.len() == 1, "{} messages queued instead of one", a.len());
        let r = take(c, &mb, &mut act);
        must!(["C02", "C01"], r == Some(i - 1), "received {r:?} instead of message {}", i - 1);
        let mut t = T::new(next(&mb));
        must!(["C01"], t.poll().is_none(), "something is received although nothing was sent");
        must!(["C07"], put(c, &a, i, None) == Poll::Ready(Ok(())), "a message is not accepted");
        must!(["C04"], t.woken(), "an idle receive is not woken");
    }
    // A message that went back is ahead of what is sent later, however often this happened.
    must!(["C07"], put(c, &a, K, None) == Poll::Ready(Ok(())), "a message is not accepted");
    for want in [K - 1, K] {
        let r = take(c, &mb, &mut act);
        must!(["C02", "C01"], r == Some(want), "received {r:?} instead of message {want}");
    }
    Ok(())
}

fn clones_of<H: Clone + std::fmt::Debug>(c: &mut Cnt, what: &str, n: u32, make: impl FnOnce(Address<Act>) -> H, connected: impl Fn(&H) -> bool) -> Res {
    let (a, mb) = new(None);
    let weak = a.downgrade();
    let mut idle = T::new(next(&mb));
    must!(["C01"], idle.poll().is_none(), "something is received although nothing was sent");
    let h = make(a);
    let mut all = vec![h];
    for i in 1..n {
        op(c);
        let x = all[0].clone();
        all.push(x);
        if i % 251 == 0 || i & (i + 1) == 0 || i & (i - 1) == 0 {
            let d = counts(&all[0]);
            must!(["C21", "C19"], d.0 == i as usize + 1, "{} {what} exist and {} are reported", i + 1, d.0);
            must!(["C11", "C19", "C21"], connected(&all[0]), "disconnected with {} {what}", i + 1);
            must!(["C12"], weak.try_upgrade().is_some(), "an upgrade fails with {} {what}", i + 1);
            must!(["C11"], idle.waits(), "an idle actor is woken although {} {what} exist", i + 1);
        }
    }
    while all.len() > 1 {
        op(c);
        all.pop();
        let i = all.len();
        if i % 251 == 0 || i & (i + 1) == 0 || i & (i - 1) == 0 {
            must!(["C11", "C19"], idle.waits(), "an idle actor is woken although {i} {what} still exist");
            must!(["C11", "C21", "C19"], connected(&all[0]), "disconnected although {i} {what} still exist");
            let d = counts(&all[0]);
            must!(["C21", "C19"], d.0 == i, "{i} {what} exist and {} are reported", d.0);
        }
    }
    drop(all);
    must!(["C11", "C04"], idle.woken(), "an idle actor is not woken when the last of {n} {what} is gone");
    let m = idle.poll();
    must!(["C11"], m.is_some() && handle(m.unwrap(), &mut Act::new(1)) == Some(u32::MAX), "an actor is not stopped when the last of {n} {what} is gone");
    must!(["C12"], weak.try_upgrade().is_none(), "an upgrade succeeds although all of {n} {what} are gone");
    Ok(())
}

fn clones(c: &mut Cnt) -> Res {
    clones_of(c, "strong addresses", K, |a| a, |a| a.is_connected())?;
    clones_of(c, "convertible addresses", K, |a| a.as_either(), |a| a.is_connected())
}
fn clones_channel(c: &mut Cnt) -> Res {
    clones_of(c, "message channels", K, |a| MessageChannel::<Msg, Ret, Strong>::new(a), |a| a.is_connected())?;
    clones_of(c, "convertible message channels", K, |a| MessageChannel::<Msg, Ret, Either>::new(a.as_either()), |a| a.is_connected())
}

/// Weak handles do not count, however many there are.
fn clones_weak(c: &mut Cnt) -> Res {
    let (a, mb) = new(None);
    let mut idle = T::new(next(&mb));
    must!(["C01"], idle.poll().is_none(), "something is received although nothing was sent");
    let all: Vec<_> = (0..K)
        .map(|_| {
            op(c);
            a.downgrade()
        })
        .collect();
    must!(["C21"], counts(&a).0 == 1, "{} strong addresses reported instead of one", counts(&a).0);
    drop(a);
    must!(["C11", "C04"], idle.woken(), "an idle actor is not woken when only weak addresses are left");
    must!(["C12"], all.iter().all(|w| w.try_upgrade().is_none()), "an upgrade succeeds without any strong address");
    Ok(())
}

/// Every receive counts as a user of the mailbox.
fn receivers(c: &mut Cnt) -> Res {
    let (a, mb) = new(None);
    let mut join = T::new(a.join());
    must!(["C16"], join.poll().is_none(), "join completes while the mailbox exists");
    let mut all = vec![];
    for i in 0..K {
        op(c);
        all.push(mb.next());
        if i % 251 == 0 || i & (i + 1) == 0 || i & (i - 1) == 0 || i & (i + 2) == 0 {
            must!(["C21"], counts(&a).1 == i as usize + 2, "{} receiving handles exist and {} are reported", i + 2, counts(&a).1);
            must!(["C15", "C21"], a.is_connected(), "disconnected with {} receiving handles", i + 2);
            must!(["C16"], join.waits(), "join is woken with {} receiving handles", i + 2);
        }
    }
    drop(mb);
    while let Some(x) = all.pop() {
        op(c);
        drop(x);
        let i = all.len();
        if i > 0 && (i % 251 == 0 || i & (i + 1) == 0 || i & (i - 1) == 0) {
            must!(["C15", "C21", "C16"], a.is_connected(), "disconnected although {i} receiving handles still exist");
            must!(["C16"], join.waits(), "join is woken although {i} receiving handles still exist");
        }
    }
    must!(["C16", "C04"], join.woken() && join.poll().is_some(), "join does not complete");
    must!(["C15"], put(c, &a, 1, None) == Poll::Ready(Err(xtra::Error::Disconnected)), "a send to an actor without mailbox does not report it");
    Ok(())
}

const N: usize = 300;

fn many_mailboxes(c: &mut Cnt) -> Res {
    for cap in [None, Some(1), Some(3)] {
        let (a, mb) = new(cap);
        let mut act = Act::new(1);
        let mut mbs = vec![mb];
        for _ in 1..N {
            let x = mbs[0].clone();
            mbs.push(x);
        }
        for round in 0..4u32 {
            // some mailboxes go away
            if round > 0 {
                mbs.truncate(N - 37 * round as usize);
            }
            let n = cap.unwrap_or(5).min(5) as u32;
            for i in 0..n {
                op(c);
                let r = a.broadcast(Bc::new(100 * round + i, Kind::Imm)).now_or_never();
                must!(["C10"], r == Some(Ok(())), "broadcast {i} is not accepted although all mailboxes have room: {r:?}");
                must!(["C21"], a.len() == i as usize + 1, "len() is {} with {} broadcasts", a.len(), i + 1);
            }
            let mut waiting = T::new(a.broadcast(Bc::new(100 * round + n, Kind::Imm)));
            let full = waiting.poll();
            must!(["C10"], full.is_none() == cap.is_some(), "a broadcast to {} mailboxes of capacity {cap:?} with {n} unreceived ones: {full:?}", mbs.len());
            let last = mbs.len() - 1;
            for (k, mb) in mbs.iter().enumerate() {
                for i in 0..n {
                    let r = take(c, mb, &mut act);
                    must!(["C09", "C06"], r == Some(100 * round + i), "mailbox {k} received {r:?} instead of broadcast {}", 100 * round + i);
                    if cap.is_some() {
                        let admit = k == last;
                        must!(["C10", "C04"], if admit { waiting.woken() } else { waiting.waits() }, "a waiting broadcast is {} after mailbox {k} of {last} has received {i}", if admit { "not admitted" } else { "admitted" });
                    }
                }
            }
            if cap.is_some() {
                must!(["C03", "C10"], waiting.poll() == Some(Ok(())), "an admitted broadcast does not complete");
            }
            for (k, mb) in mbs.iter().enumerate() {
                let r = take(c, mb, &mut act);
                must!(["C09"], r == Some(100 * round + n), "mailbox {k} received {r:?} instead of broadcast {}", 100 * round + n);
            }
            must!(["C21"], a.is_empty(), "len() is {} when everything was received", a.len());
            for mb in &mbs {
                must!(["C09"], mb.next().now_or_never().is_none(), "a mailbox receives a broadcast twice");
            }
        }
    }
    Ok(())
}

fn idle(mbs: &[Mailbox<Act>]) -> Vec<T<Message>> {
    mbs.iter()
        .map(|m| {
            let mut t = T::new(next(m));
            assert!(t.poll().is_none());
            t
        })
        .collect()
}

fn many_idle(c: &mut Cnt) -> Res {
    for cap in [None, Some(1)] {
        let (a, mb) = new(cap);
        let mut act = Act::new(1);
        let mut mbs = vec![mb];
        for _ in 1..N {
            let x = mbs[0].clone();
            mbs.push(x);
        }
        // as many messages as there are idle receives
        let mut ts = idle(&mbs);
        for i in 0..N as u32 {
            must!(["C07"], put(c, &a, i, None) == Poll::Ready(Ok(())), "message {i} is not accepted although receives are idle");
            let n = ts.iter().filter(|t| t.woken()).count();
            must!(["C04", "C01"], n == i as usize + 1, "{n} idle receives are woken for {} messages", i + 1);
        }
        must!(["C21"], a.is_empty(), "len() is {} although every message was handed over", a.len());
        let mut got: Vec<u32> = vec![];
        for t in &mut ts {
            op(c);
            let m = t.poll();
            must!(["C01", "C04"], m.is_some(), "a receive that was woken has no message");
            got.extend(handle(m.unwrap(), &mut act));
        }
        got.sort();
        must!(["C01"], got == (0..N as u32).collect::<Vec<_>>(), "messages handed to idle receives are lost or duplicated");
        // a broadcast, half of the receives dropped before they look
        let mut ts = idle(&mbs);
        op(c);
        must!(["C10"], a.broadcast(Bc::new(7, Kind::Imm)).now_or_never() == Some(Ok(())), "a broadcast is not accepted");
        must!(["C04", "C09"], ts.iter().all(|t| t.woken()), "a broadcast does not wake every idle mailbox");
        for k in 0..N {
            if k % 2 == 0 {
                ts[k] = T::new(next(&mbs[k]));
            }
            let m = ts[k].poll();
            must!(["C09", "C02"], m.is_some(), "mailbox {k} does not receive a broadcast");
            let r = handle(m.unwrap(), &mut act);
            must!(["C09"], r == Some(7), "mailbox {k} received {r:?} instead of a broadcast");
        }
        // stop_all wakes all of them
        let mut ts = idle(&mbs);
        let s = a.send(Msg::new(9, Kind::StopAll)).detach().now_or_never();
        must!(["C07"], matches!(s, Some(Ok(_))), "a message is not accepted");
        let k = ts.iter().position(|t| t.woken());
        must!(["C04"], k.is_some(), "a message wakes nobody");
        let m = ts[k.unwrap()].poll();
        must!(["C01"], m.is_some(), "a receive that was woken has no message");
        let r = handle(m.unwrap(), &mut act);
        must!(["C01"], r == Some(9), "received {r:?} instead of message 9");
        for (i, t) in ts.iter_mut().enumerate() {
            op(c);
            let m = if Some(i) == k {
                next(&mbs[i]).now_or_never()
            } else {
                must!(["C14", "C04"], t.woken(), "stop_all does not wake idle actor {i}");
                t.poll()
            };
            must!(["C14"], m.is_some(), "stop_all does not reach actor {i}");
            let r = handle(m.unwrap(), &mut act);
            must!(["C14"], r == Some(u32::MAX), "actor {i} received {r:?} instead of being stopped");
        }
        // the last address goes away
        let mut ts = idle(&mbs);
        drop(a);
        for (i, t) in ts.iter_mut().enumerate() {
            must!(["C11", "C04"], t.woken(), "the drop of the last address does not wake idle actor {i}");
            let m = t.poll();
            must!(["C11"], m.is_some(), "actor {i} is not stopped");
            let r = handle(m.unwrap(), &mut act);
            must!(["C11"], r == Some(u32::MAX), "actor {i} received {r:?} instead of being stopped");
        }
    }
    Ok(())
}

fn many_joins(c: &mut Cnt) -> Res {
    for n in [1usize, 2, 3, 17, 256, 300, 1000] {
        let (a, mb) = new(None);
        let w = a.downgrade();
        let mut joins: Vec<_> = (0..n).map(|_| T::new(w.join())).collect();
        let mut scoped: Vec<_> = (0..n).map(|_| T::new(xtra::scoped(&w, futures_util::future::pending::<()>()))).collect();
        for j in &mut joins {
            op(c);
            must!(["C16"], j.poll().is_none(), "join completes while the mailbox exists");
        }
        for j in &mut scoped {
            op(c);
            must!(["C16"], j.poll().is_none(), "a scoped task completes while the mailbox exists");
        }
        // every third one is dropped
        let keep = |i: &mut usize| {
            *i += 1;
            *i % 3 != 0
        };
        let mut i = 0;
        joins.retain(|_| keep(&mut i));
        i = 0;
        scoped.retain(|_| keep(&mut i));
        must!(["C16"], joins.iter_mut().all(|j| j.waits()), "join is woken while the mailbox exists");
        drop(mb);
        for (i, j) in joins.iter_mut().enumerate() {
            must!(["C16", "C04"], j.woken(), "join {i} of {n} is not woken");
            must!(["C16"], j.poll().is_some(), "join {i} of {n} does not complete");
        }
        for (i, j) in scoped.iter_mut().enumerate() {
            must!(["C16", "C04"], j.woken(), "scoped task {i} of {n} is not woken");
            must!(["C16"], j.poll() == Some(None), "scoped task {i} of {n} does not complete");
        }
    }
    Ok(())
}

/// Many waiting senders: admission order with some of them dropped, and what is left at the end.
fn many_waiters(c: &mut Cnt) -> Res {
    const W_: u32 = 1500;
    for cap in [1usize, 2] {
        reset();
        let (a, mb) = new(Some(cap));
        let mut act = Act::new(1);
        let mut queued: VecDeque<u32> = VecDeque::new();
        let mut waiting: VecDeque<(u32, T<Result<xtra::Receiver<Ret>, xtra::Error>>)> = VecDeque::new();
        for i in 0..W_ {
            op(c);
            let mut t = T::new(a.send(Msg::new(i, Kind::Imm)).detach());
            match t.poll() {
                None => waiting.push_back((i, t)),
                Some(_) => queued.push_back(i),
            }
        }
        must!(["C07"], queued.len() == cap, "{} messages accepted by a mailbox of capacity {cap}", queued.len());
        let mut n = 0;
        waiting.retain(|_| {
            n += 1;
            n % 3 != 0 && n % 7 != 0
        });
        for (i, _) in (0..W_).zip(0..).filter(|(i, _)| *i >= cap as u32 && !waiting.iter().any(|w| w.0 == *i)).take(20) {
            let d = MSG_DROPS.with(|d| d.borrow().get(i as usize).copied().unwrap_or(0));
            must!(["C23", "C27"], d == 1, "message {i}, the send of which was dropped while it waited, was dropped {d} times");
        }
        must!(["C23", "C21"], a.len() == cap, "len() is {} with {cap} messages queued", a.len());
        while waiting.len() > 600 {
            let want = queued.pop_front();
            let r = take(c, &mb, &mut act);
            must!(["C06", "C01"], r == want, "received {r:?} instead of message {want:?}");
            let (j, mut t) = waiting.pop_front().unwrap();
            must!(["C08", "C23"], t.woken(), "the sender of message {j}, which has waited longest, is not admitted");
            must!(["C08"], waiting[0].1.waits(), "the sender of message {} is admitted before its turn", waiting[0].0);
            must!(["C08", "C03"], matches!(t.poll(), Some(Ok(_))), "the sender of message {j} does not learn of its admission");
            queued.push_back(j);
        }
        drop(mb);
        for (i, (j, t)) in waiting.iter_mut().enumerate() {
            op(c);
            must!(["C15", "C04"], t.woken(), "the sender of message {j}, number {i} of those waiting, is not woken when the last mailbox goes away");
            must!(["C15", "C03"], matches!(t.poll(), Some(Err(xtra::Error::Disconnected))), "a waiting sender does not get Disconnected");
        }
    }
    // broadcasts
    let (a, mb) = new(Some(1));
    let mut act = Act::new(1);
    let mut waiting: VecDeque<(u32, T<Result<(), xtra::Error>>)> = VecDeque::new();
    for i in 0..500 {
        op(c);
        let mut t = T::new(a.broadcast(Bc::new(i, Kind::Imm)));
        let r = t.poll();
        must!(["C10"], r.is_some() == (i == 0), "broadcast {i} to a mailbox of capacity 1: {r:?}");
        if i > 0 {
            waiting.push_back((i, t));
        }
    }
    let mut n = 0;
    waiting.retain(|_| {
        n += 1;
        n % 3 != 0
    });
    let mut next = 0;
    while waiting.len() > 100 {
        let r = take(c, &mb, &mut act);
        must!(["C09", "C06"], r == Some(next), "received {r:?} instead of broadcast {next}");
        let (j, mut t) = waiting.pop_front().unwrap();
        must!(["C08", "C10", "C23"], t.woken(), "broadcast {j}, which has waited longest, is not admitted");
        must!(["C08", "C10"], waiting[0].1.waits(), "broadcast {} is admitted before its turn", waiting[0].0);
        must!(["C03", "C10"], t.poll() == Some(Ok(())), "an admitted broadcast does not complete");
        next = j;
    }
    drop(mb);
    for (j, t) in waiting.iter_mut() {
        must!(["C15", "C04"], t.woken(), "waiting broadcast {j} is not woken when the last mailbox goes away");
        must!(["C15", "C03"], t.poll() == Some(Err(xtra::Error::Disconnected)), "a waiting broadcast does not get Disconnected");
    }
    Ok(())
}

/// The most urgent of very many waiting senders comes last.
fn crowd(c: &mut Cnt) -> Res {
    for n in [300u32, 1100, 5000, K] {
        for all in [false, true] {
            reset();
            let (a, mb) = new(Some(1));
            let mut act = Act::new(1);
            let mut waiting = vec![];
            let send = |id: u32, p: u32| -> T<bool> {
                if all {
                    T::new(a.broadcast(Bc::new(id, Kind::Imm)).priority(p).map(|r| r.is_ok()))
                } else {
                    T::new(a.send(Msg::new(id, Kind::Imm)).priority(p).detach().map(|r| r.is_ok()))
                }
            };
            for i in 0..n {
                op(c);
                let mut t = send(i, 1);
                let r = t.poll();
                must!(["C07", "C10"], r == if i == 0 { Some(true) } else { None }, "message {i} to a mailbox of capacity 1: {r:?}");
                if i > 0 {
                    waiting.push(t);
                }
            }
            let mut late: Vec<(u32, T<bool>)> = [(5, n), (7, n + 1), (5, n + 2)].map(|(p, id)| (id, send(id, p))).into();
            for (id, t) in &mut late {
                must!(["C07", "C10"], t.poll().is_none(), "message {id} is accepted by a full mailbox");
            }
            let mut last = 0;
            for k in [1usize, 0, 2] {
                let r = take(c, &mb, &mut act);
                must!(["C01", "C05", "C06", "C09"], r == Some(last), "received {r:?} instead of {last}");
                let id = late[k].0;
                must!(["C08", "C05", "C10"], late[k].1.woken(), "message {id}, the most urgent one of {n} waiting, is not admitted");
                must!(["C08", "C03"], late[k].1.poll() == Some(true), "the sender of message {id} does not learn of its admission");
                must!(["C08", "C10"], waiting[0].waits(), "the sender that has waited longest is admitted ahead of a more urgent one");
                last = id;
            }
            let r = take(c, &mb, &mut act);
            must!(["C01", "C05", "C06", "C09"], r == Some(last), "received {r:?} instead of {last}");
            must!(["C08"], waiting[0].woken() && waiting[0].poll() == Some(true), "the sender that has waited longest of {n} is not admitted");
            must!(["C08"], waiting[n as usize / 2].waits() && waiting[n as usize - 2].waits(), "a sender is admitted before its turn");
            drop(mb);
            for (i, t) in waiting.iter_mut().enumerate().skip(1) {
                op(c);
                must!(["C15", "C04"], t.woken() && t.poll() == Some(false), "sender number {i} of {n} does not learn that the last mailbox is gone");
            }
        }
        // as many idle receivers
        reset();
        let (a, mb) = new(None);
        let mut act = Act::new(1);
        let mut idle: Vec<_> = (0..n).map(|_| T::new(next(&mb))).collect();
        for t in &mut idle {
            op(c);
            must!(["C01"], t.poll().is_none(), "something is received from an empty mailbox");
        }
        for i in 0..n {
            must!(["C07"], put(c, &a, i, None) == Poll::Ready(Ok(())), "message {i} is not accepted by an unbounded mailbox");
        }
        let mut seen = vec![false; n as usize];
        for (i, t) in idle.iter_mut().enumerate() {
            op(c);
            must!(["C04", "C01"], t.woken(), "receive number {i} of {n} is not woken although there is a message for each");
            let Some(m) = t.poll() else {
                must!(["C04", "C01"], false, "receive number {i} of {n} gets nothing although there is a message for each");
                unreachable!()
            };
            let r = handle(m, &mut act);
            must!(["C01"], r.map_or(false, |r| r < n && !std::mem::replace(&mut seen[r as usize], true)), "receive number {i} of {n} gets {r:?}");
        }
        must!(["C21"], a.len() == 0, "len() is {} with nothing queued", a.len());
    }
    Ok(())
}

fn broadcasts(c: &mut Cnt) -> Res {
    let (a, mb) = new(None);
    let mb2 = mb.clone();
    let mut act = Act::new(1);
    for i in 0..K {
        op(c);
        let r = a.broadcast(Bc::new(i, Kind::Imm)).now_or_never();
        must!(["C10"], r == Some(Ok(())), "broadcast {i} is not accepted by an unbounded mailbox: {r:?}");
        must!(["C21"], a.len() == i as usize + 1, "len() is {} with {} broadcasts unreceived", a.len(), i + 1);
    }
    for i in 0..K {
        let r = take(c, &mb, &mut act);
        must!(["C09", "C06"], r == Some(i), "received {r:?} instead of broadcast {i}");
    }
    must!(["C21"], a.len() == K as usize, "len() is {} with {K} broadcasts unreceived by one mailbox", a.len());
    for i in 0..K {
        let r = take(c, &mb2, &mut act);
        must!(["C09", "C06"], r == Some(i), "received {r:?} instead of broadcast {i}");
        must!(["C21"], a.len() == (K - i - 1) as usize, "len() is {} with {} broadcasts unreceived", a.len(), K - i - 1);
    }
    Ok(())
}

/// Broadcasts and messages in turn, a few always pending.
fn window_broadcast(c: &mut Cnt) -> Res {
    let (a, mb) = new(Some(4));
    let mb2 = mb.clone();
    let mut act = Act::new(1);
    for i in 0..K / 2 {
        op(c);
        let r = a.broadcast(Bc::new(i, Kind::Imm)).now_or_never();
        must!(["C10"], r == Some(Ok(())), "broadcast {i} is not accepted: {r:?}");
        if i >= 3 {
            for m in [&mb, &mb2] {
                let r = take(c, m, &mut act);
                must!(["C09", "C06"], r == Some(i - 3), "received {r:?} instead of broadcast {}", i - 3);
            }
        }
        let want = if i >= 3 { 3 } else { i as usize + 1 };
        must!(["C21", "C10"], a.len() == want, "len() is {} with {want} broadcasts unreceived", a.len());
    }
    Ok(())
}

fn down(c: &mut Cnt) -> Res {
    let (a, mb) = new(None);
    let mut replies = vec![];
    for i in 0..K {
        op(c);
        match a.send(Msg::new(i, Kind::Imm)).detach().now_or_never() {
            Some(Ok(r)) => {
                let mut t = T::new(r);
                must!(["C03"], t.poll().is_none(), "a message that is queued has a result");
                replies.push(t);
            }
            _ => must!(["C07"], false, "message {i} is not accepted by an unbounded mailbox"),
        }
    }
    must!(["C27"], MSG_DROPS.with(|d| d.borrow().iter().all(|n| *n == 0)), "a queued message was dropped");
    drop(mb);
    for (i, t) in replies.iter_mut().enumerate() {
        op(c);
        must!(["C15", "C04"], t.woken(), "the sender of message {i} of {K} is not woken when the last mailbox goes away");
        must!(["C15", "C03"], matches!(t.poll(), Some(Err(xtra::Error::Interrupted))), "message {i} of {K} is not reported as interrupted");
        let d = MSG_DROPS.with(|d| d.borrow().get(i).copied().unwrap_or(0));
        must!(["C27", "C15"], d == 1, "message {i} of {K} was dropped {d} times");
    }
    must!(["C21", "C15"], a.is_empty(), "len() is {} without any mailbox", a.len());
    Ok(())
}

fn run_loop(c: &mut Cnt) -> Res {
    let (a, mb) = new(None);
    for i in 0..K {
        must!(["C07"], put(c, &a, i, None) == Poll::Ready(Ok(())), "message {i} is not accepted by an unbounded mailbox");
    }
    drop(a);
    log_take();
    let mut t = T::new(xtra::run(mb, Act::new(3)));
    let r = t.poll();
    must!(["C17", "C11"], r == Some(STOP_OK + 3), "an event loop with {K} messages queued ends with {r:?}");
    let l = log_take();
    let starts: Vec<u32> = l.iter().filter_map(|e| if let Ev::Start(_, i) = e { Some(*i) } else { None }).collect();
    must!(["C17", "C01", "C06", "C11"], starts == (0..K).collect::<Vec<_>>(), "an event loop handled {} of {K} messages, or not in order", starts.len());
    let n = |f: &dyn Fn(&Ev) -> bool| l.iter().filter(|e| f(e)).count();
    must!(["C17"], n(&|e| matches!(e, Ev::StartedB(_))) == 1 && n(&|e| matches!(e, Ev::StoppedB(_))) == 1, "the start or stop hook was not called exactly once");
    c.ops += K as u64;
    Ok(())
}

fn alongside(c: &mut Cnt) -> Res {
    for stop in [false, true] {
        let (a, mb) = new(None);
        let n = 20_000u32;
        for i in 0..n {
            must!(["C07"], put(c, &a, i, None) == Poll::Ready(Ok(())), "message {i} is not accepted by an unbounded mailbox");
        }
        if stop {
            let r = a.send(Msg::new(n, Kind::StopSelf)).detach().now_or_never();
            must!(["C07"], matches!(r, Some(Ok(_))), "a message is not accepted");
        }
        log_take();
        gate_set(5, false);
        let mb = Box::leak(Box::new(mb));
        let act = Box::leak(Box::new(Act::new(3)));
        // SAFETY: freed below, after the future that borrows them is gone.
        let (pm, pa) = (mb as *mut Mailbox<Act>, act as *mut Act);
        let mut t = T::new(xtra::select(mb, act, Inner(5)));
        let r = t.poll();
        let handled: Vec<u32> = log_take().iter().filter_map(|e| if let Ev::Start(_, i) = e { Some(*i) } else { None }).collect();
        let want = n + stop as u32;
        let ok = handled == (0..want).collect::<Vec<_>>();
        let res = if stop {
            matches!(r, Some(FEither::Right(_)))
        } else {
            r.is_none() && {
                gate_set(5, true);
                matches!(t.poll(), Some(FEither::Left(5)))
            }
        };
        drop(t);
        drop(r);
        unsafe {
            drop(Box::from_raw(pa));
            drop(Box::from_raw(pm));
        }
        must!(["C18", "C01"], ok, "select handled {} of {want} messages, or not in order", handled.len());
        must!(["C18"], res, "select over {want} messages does not end as it should");
    }
    Ok(())
}

fn sink(c: &mut Cnt) -> Res {
    for cap in [None, Some(1)] {
        let (a, mb) = new(cap);
        let mut s = Box::pin(a.into_sink::<SinkMsg>());
        let mut act = Act::new(1);
        for i in 0..5000u32 {
            op(c);
            let ready = s.as_mut().get_mut_poll_ready();
            must!(["C25"], ready == Some(Ok(())), "the sink is not ready for item {i}: {ready:?}");
            s.as_mut().feed_one(SinkMsg(Msg::new(i, Kind::Imm)));
            let pending = s.as_mut().get_mut_poll_ready();
            must!(["C25"], pending.is_none(), "the sink is ready for another item although item {i} was not handled");
            let r = take(c, &mb, &mut act);
            must!(["C25"], r == Some(i), "received {r:?} instead of item {i}");
        }
        let f = s.flush().now_or_never();
        must!(["C25"], f == Some(Ok(())), "flush does not complete: {f:?}");
    }
    Ok(())
}

trait SinkX {
    fn get_mut_poll_ready(self) -> Option<Result<(), xtra::Error>>;
    fn feed_one(self, m: SinkMsg);
}
impl<S: futures_util::Sink<SinkMsg, Error = xtra::Error>> SinkX for Pin<&mut S> {
    fn get_mut_poll_ready(self) -> Option<Result<(), xtra::Error>> {
        let wk = Waker::from(W::new());
        match self.poll_ready(&mut TCx::from_waker(&wk)) {
            Poll::Ready(r) => Some(r),
            Poll::Pending => None,
        }
    }
    fn feed_one(self, m: SinkMsg) {
        let _ = self.start_send(m);
    }
}

/// Capacities around every power of two of the usual integer types.
fn capacities(c: &mut Cnt) -> Res {
    for cap in [65534usize, 65535, 65536, 65537, (1 << 17) + 1, (1 << 20) + 1] {
        let (a, mb) = new(Some(cap));
        let mut act = Act::new(1);
        for i in 0..cap as u32 {
            must!(["C07"], put(c, &a, i, None) == Poll::Ready(Ok(())), "message {i} is not accepted by a mailbox of capacity {cap}");
        }
        let mut t = T::new(a.send(Msg::new(cap as u32, Kind::Imm)).detach());
        must!(["C07"], t.poll().is_none(), "{} messages are accepted by a mailbox of capacity {cap}", cap + 1);
        let r = take(c, &mb, &mut act);
        must!(["C06"], r == Some(0), "received {r:?} instead of message 0");
        must!(["C08", "C07", "C04"], t.woken() && matches!(t.poll(), Some(Ok(_))), "a waiting sender is not admitted by a mailbox of capacity {cap}");
        for i in 0..cap as u32 {
            op(c);
            let r = a.broadcast(Bc::new(i, Kind::Imm)).now_or_never();
            must!(["C10"], r == Some(Ok(())), "broadcast {i} is not accepted by a mailbox of capacity {cap}");
        }
        let mut t = T::new(a.broadcast(Bc::new(cap as u32, Kind::Imm)));
        must!(["C10"], t.poll().is_none(), "{} broadcasts are accepted by a mailbox of capacity {cap}", cap + 1);
        must!(["C21"], a.capacity() == Some(cap) && a.len() == 2 * cap, "capacity() is {:?} and len() {} for a full mailbox of capacity {cap}", a.capacity(), a.len());
    }
    for cap in [1usize << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 63, (1 << 63) - 1, usize::MAX] {
        let (a, _mb) = new(Some(cap));
        for i in 0..5 {
            must!(["C07"], put(c, &a, i, None) == Poll::Ready(Ok(())), "message {i} is not accepted by a mailbox of capacity {cap}");
            let r = a.broadcast(Bc::new(i, Kind::Imm)).now_or_never();
            must!(["C10"], r == Some(Ok(())), "broadcast {i} is not accepted by a mailbox of capacity {cap}");
        }
        must!(["C21"], a.capacity() == Some(cap), "capacity() is {:?} for a mailbox of capacity {cap}", a.capacity());
        let ch = MessageChannel::<Msg, Ret>::new(a.clone());
        must!(["C19", "C21"], ch.capacity() == Some(cap) && ch.len() == a.len(), "a message channel reports another capacity or length");
    }
    Ok(())
}

pub fn all() -> Vec<(&'static str, LongFn, Vec<P>)> {
    vec![
        ("long-queue", queue as LongFn, vec!["C06", "C01", "C21", "C07"]),
        ("long-window", window, vec!["C06", "C01", "C07"]),
        ("long-window-prio", window_prio, vec!["C05", "C06", "C01"]),
        ("long-window-full", window_full, vec!["C08", "C07", "C06", "C01", "C04", "C03"]),
        ("long-receives", receives, vec!["C02", "C04", "C01"]),
        ("long-requeues", requeues, vec!["C02", "C01", "C21", "C04"]),
        ("long-clones", clones, vec!["C11", "C12", "C21"]),
        ("long-clones-channel", clones_channel, vec!["C19", "C11", "C12"]),
        ("long-clones-weak", clones_weak, vec!["C11", "C12", "C21"]),
        ("long-receivers", receivers, vec!["C16", "C21", "C15"]),
        ("many-mailboxes", many_mailboxes, vec!["C09", "C10", "C21", "C06", "C04", "C03"]),
        ("many-idle", many_idle, vec!["C01", "C04", "C09", "C14", "C11", "C02", "C07"]),
        ("many-joins", many_joins, vec!["C16", "C04"]),
        ("many-waiters", many_waiters, vec!["C08", "C23", "C15", "C10", "C07", "C06", "C04", "C03", "C27"]),
        ("crowd", crowd, vec!["C08", "C05", "C15", "C10", "C07", "C01", "C04"]),
        ("long-broadcasts", broadcasts, vec!["C09", "C10", "C06", "C21"]),
        ("long-window-broadcast", window_broadcast, vec!["C10", "C09", "C06", "C21"]),
        ("long-down", down, vec!["C15", "C27", "C03", "C04", "C21"]),
        ("long-run", run_loop, vec!["C17", "C11", "C06", "C01"]),
        ("long-select", alongside, vec!["C18", "C01"]),
        ("long-sink", sink, vec!["C25"]),
        ("long-capacities", capacities, vec!["C07", "C10", "C21", "C08", "C19", "C04"]),
    ]
}

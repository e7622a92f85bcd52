//! Cycles of the state space: words over actions that leave as much outstanding as there was before.
//! Going round any of them must not use up memory. An environment is set up, a word is repeated, and the
//! number of live bytes is watched.
use std::future::Future;
use std::ops::ControlFlow;
use std::pin::Pin;
use std::task::Poll;

use futures_util::{FutureExt, SinkExt};
use xtra::prelude::*;

use crate::explore::tick;
use crate::long::{op, Cnt, Res};
use crate::sim::Mis;

struct Cy(bool);
impl Actor for Cy {
    type Stop = ();
    async fn started(&mut self, _: &Mailbox<Self>) -> Result<(), ()> {
        if self.0 {
            Err(())
        } else {
            Ok(())
        }
    }
    async fn stopped(self) {}
}
#[derive(Clone, Copy)]
enum K {
    Plain,
    StopSelf,
    StopAll,
    Pending,
    Nest,
}
struct Uni(K);
impl Handler<Uni> for Cy {
    type Return = ();
    async fn handle(&mut self, m: Uni, ctx: &mut Context<Self>) {
        match m.0 {
            K::Plain => {}
            K::StopSelf => ctx.stop_self(),
            K::StopAll => ctx.stop_all(),
            K::Pending => std::future::pending().await,
            K::Nest => {
                xtra::select(ctx.mailbox(), self, std::future::ready(())).await;
            }
        }
    }
}
#[derive(Clone)]
struct Br;
impl Handler<Br> for Cy {
    type Return = ();
    async fn handle(&mut self, _: Br, _: &mut Context<Self>) {}
}

type Unit = Pin<Box<dyn Future<Output = ()>>>;

/// Polls with another waker each time.
fn poll1<F: Future + Unpin>(f: &mut F) -> Option<F::Output> {
    let w = std::task::Waker::from(crate::rt::W::new());
    match f.poll_unpin(&mut std::task::Context::from_waker(&w)) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}

/// What stays outstanding all the time.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Keep {
    Nothing,
    /// `capacity` (or one) queued messages: the actor is stuck.
    Queued,
    /// The same, and a send that waits for room.
    Waiting,
    /// The same, and a broadcast that waits for room.
    WaitingBroadcast,
    /// An idle receive on another mailbox.
    Idle,
    /// Another mailbox that has yet to receive broadcasts.
    Lagging,
    /// A join.
    Joining,
    /// An event loop on another mailbox.
    Running,
    /// A sink with an item that is not handled yet.
    Sinking,
    /// An event loop on another mailbox, stuck in a handler.
    Stuck,
}

pub const KEEPS: [Keep; 10] = [Keep::Nothing, Keep::Queued, Keep::Waiting, Keep::WaitingBroadcast, Keep::Idle, Keep::Lagging, Keep::Joining, Keep::Running, Keep::Sinking, Keep::Stuck];
pub const CAPS: [Option<usize>; 3] = [None, Some(1), Some(2)];

#[derive(Clone, Copy)]
pub struct Space {
    pub cap: Option<usize>,
    pub keep: Keep,
}

struct Env {
    sp: Space,
    standing: usize,
    a: Address<Cy>,
    mb: Mailbox<Cy>,
    other: Option<Mailbox<Cy>>,
    waiting: Option<Unit>,
    idle: Option<Unit>,
    join: Option<Unit>,
    run: Option<Unit>,
    sink: Option<Unit>,
    act: Cy,
}

fn recv(mb: &Mailbox<Cy>) -> Unit {
    Box::pin(mb.next().map(drop))
}

impl Env {
    fn new(sp: Space) -> Env {
        let (a, mb) = match sp.cap {
            None => Mailbox::unbounded(),
            Some(n) => Mailbox::bounded(n),
        };
        let other = matches!(sp.keep, Keep::Idle | Keep::Lagging).then(|| mb.clone());
        let standing = match sp.keep {
            Keep::Queued | Keep::Waiting | Keep::WaitingBroadcast | Keep::Lagging => sp.cap.unwrap_or(1),
            Keep::Sinking => 1,
            _ => 0,
        };
        let mut e = Env { sp, standing, a, mb, other, waiting: None, idle: None, join: None, run: None, sink: None, act: Cy(false) };
        e.restore();
        e
    }

    /// Handle what there is for one of the mailboxes.
    fn take(&mut self, other: bool) -> bool {
        let mb = if other { self.other.as_ref() } else { Some(&self.mb) };
        let Some(m) = mb.and_then(|m| m.next().now_or_never()) else { return false };
        let _ = m.dispatch_to(&mut self.act).now_or_never();
        true
    }

    /// As much is outstanding as at the beginning.
    fn restore(&mut self) {
        let mut limit = 200;
        while self.a.len() > self.standing && limit > 0 {
            limit -= 1;
            let x = self.take(false);
            if self.a.len() > self.standing && !self.take(true) && !x {
                break;
            }
        }
        while self.a.len() < self.standing && limit > 0 {
            limit -= 1;
            match self.sp.keep {
                Keep::Lagging | Keep::WaitingBroadcast => drop(self.a.broadcast(Br).now_or_never()),
                _ => drop(self.a.send(Uni(K::Plain)).detach().now_or_never()),
            }
            if self.sp.keep == Keep::Lagging {
                self.take(false);
            }
        }
        if matches!(self.sp.keep, Keep::Waiting | Keep::WaitingBroadcast) && self.sp.cap.is_some() {
            if let Some(w) = &mut self.waiting {
                if poll1(w).is_some() {
                    self.waiting = None;
                }
            }
            if self.waiting.is_none() {
                let mut f: Unit = match self.sp.keep {
                    Keep::Waiting => Box::pin(self.a.send(Uni(K::Plain)).detach().map(drop)),
                    _ => Box::pin(self.a.broadcast(Br).map(drop)),
                };
                if poll1(&mut f).is_none() {
                    self.waiting = Some(f);
                }
            }
        }
        if self.sp.keep == Keep::Idle {
            let mb = self.other.as_ref().unwrap();
            let mut f = self.idle.take().unwrap_or_else(|| recv(mb));
            for _ in 0..200 {
                if poll1(&mut f).is_none() {
                    break;
                }
                f = recv(mb);
            }
            self.idle = Some(f);
        }
        if self.sp.keep == Keep::Running {
            for _ in 0..200 {
                let mb = &self.mb;
                let f = self.run.get_or_insert_with(|| Box::pin(xtra::run(mb.clone(), Cy(false))));
                if poll1(f).is_none() && self.a.is_empty() {
                    break;
                }
                // Stuck in a handler, or done.
                self.run = None;
            }
        }
        if self.sp.keep == Keep::Stuck {
            if self.run.is_some() && self.a.len() > 20 {
                // What is sent to all in any case has piled up.
                self.run = None;
            }
            if self.run.is_none() {
                let mut f: Unit = Box::pin(xtra::run(self.mb.clone(), Cy(false)));
                while self.take(false) {}
                poll1(&mut f);
                self.send(K::Pending);
                if poll1(&mut f).is_none() {
                    self.run = Some(f);
                }
            }
        }
        if self.sp.keep == Keep::Sinking {
            if self.sink.as_mut().map_or(true, |s| poll1(s).is_some()) {
                let mut s = Box::pin(self.a.clone().into_sink());
                self.sink = Some(Box::pin(async move {
                    let _ = s.send(Uni(K::Plain)).await;
                }));
                poll1(self.sink.as_mut().unwrap());
            }
        }
        if self.sp.keep == Keep::Joining && self.join.is_none() {
            let mut f: Unit = Box::pin(self.a.join());
            poll1(&mut f);
            self.join = Some(f);
        }
    }

    fn send(&self, k: K) {
        drop(self.a.send(Uni(k)).detach().now_or_never());
    }

    fn act(&mut self, i: usize) {
        let e = &mut *self;
        match i {
            0 => drop(e.a.send(Uni(K::Plain))),
            1 => drop(e.a.send(Uni(K::Plain)).now_or_never()),
            2 => drop(e.a.send(Uni(K::Plain)).priority(7).detach().now_or_never()),
            3 => drop(e.a.broadcast(Br)),
            4 => drop(e.a.broadcast(Br).now_or_never()),
            5 => drop(e.a.broadcast(Br).priority(7).now_or_never()),
            6 => drop(e.mb.next()),
            7 => drop(poll1(&mut recv(&e.mb))),
            8 => drop(e.take(false)),
            9 => drop(e.mb.clone()),
            10 => {
                let m = e.mb.clone();
                let mut f = recv(&m);
                poll1(&mut f);
                drop(f);
            }
            11 => {
                let m = e.mb.clone();
                let mut f = recv(&m);
                poll1(&mut f);
                drop(m);
                drop(f);
            }
            12 => drop((e.a.clone(), e.a.downgrade().try_upgrade(), e.a.as_either())),
            13 => {
                let c = MessageChannel::<Uni, ()>::new(e.a.clone());
                let w = c.downgrade();
                drop(c.send(Uni(K::Plain)).now_or_never());
                drop((c.clone(), w.as_either(), w));
            }
            14 => drop(e.a.join().now_or_never()),
            15 => drop(xtra::scoped(&e.a, std::future::pending::<()>()).now_or_never()),
            16 => {
                let mut s = Box::pin(e.a.clone().into_sink());
                drop(s.feed(Uni(K::Plain)).now_or_never());
                drop(s.flush().now_or_never());
            }
            17 => drop(xtra::run(e.mb.clone(), Cy(false)).now_or_never()),
            18 => drop(xtra::run(e.mb.clone(), Cy(true)).now_or_never()),
            19 => drop(xtra::select(&e.mb, &mut e.act, std::future::ready(())).now_or_never()),
            20 => drop(xtra::join(&e.mb, &mut e.act, std::future::pending::<()>()).now_or_never()),
            21 => {
                // a message is assigned to a receive that is dropped
                let mut f = recv(&e.mb);
                poll1(&mut f);
                e.send(K::Plain);
                drop(f);
            }
            22 => {
                e.send(K::StopSelf);
                drop(e.take(false));
            }
            23 => {
                e.send(K::StopAll);
                drop(e.take(false));
            }
            24 => {
                e.send(K::Pending);
                drop(e.take(false));
            }
            25 => {
                e.send(K::Nest);
                drop(e.take(false));
            }
            26 => {
                // a mailbox that misses a broadcast
                let m = e.mb.clone();
                drop(e.a.broadcast(Br).now_or_never());
                drop(m);
            }
            27 => {
                let m = e.mb.clone();
                drop(m.next().now_or_never().map(|m| m.dispatch_to(&mut e.act).now_or_never() == Some(ControlFlow::Continue(()))));
            }
            28 => {
                // what is outstanding is polled once more
                for f in [&mut e.waiting, &mut e.idle, &mut e.join, &mut e.run, &mut e.sink] {
                    if f.as_mut().map_or(false, |f| poll1(f).is_some()) {
                        *f = None;
                    }
                }
            }
            29 => {
                // and given up
                (e.waiting, e.idle, e.join, e.run, e.sink) = (None, None, None, None, None);
            }
            _ => unreachable!(),
        }
    }
}
pub const NAMES: [&str; 30] = [
    "send-unpolled",
    "send",
    "send-prio",
    "broadcast-unpolled",
    "broadcast",
    "broadcast-prio",
    "receive-unpolled",
    "receive-dropped",
    "receive",
    "mailbox",
    "mailbox-receive",
    "mailbox-first",
    "addresses",
    "channel",
    "join",
    "scoped",
    "sink",
    "run",
    "run-fails",
    "select",
    "join-loop",
    "requeue",
    "stop-self",
    "stop-all",
    "interrupt",
    "nest",
    "missed-broadcast",
    "mailbox-handles",
    "poll",
    "drop",
];

fn bytes() -> i64 {
    crate::alloc::BYTES.with(|c| c.get())
}

/// Repeats the word from the `from`-th to the `to`-th time: the most bytes that are live after a repetition.
fn most(c: &mut Cnt, e: &mut Env, word: &[usize], from: usize, to: usize) -> i64 {
    let mut m = i64::MIN;
    for _ in from..to {
        for i in word {
            op(c);
            e.act(*i);
        }
        e.restore();
        m = m.max(bytes());
    }
    m
}

fn cycle(c: &mut Cnt, sp: Space, word: &[usize]) -> Res {
    tick();
    let e = &mut Env::new(sp);
    most(c, e, word, 0, 48);
    let a = most(c, e, word, 48, 64);
    most(c, e, word, 64, 368);
    let b = most(c, e, word, 368, 384);
    if b - a < 1536 {
        return Ok(());
    }
    // Something may merely be tidied up now and then.
    most(c, e, word, 384, 2048);
    let a = most(c, e, word, 2048, 4096);
    most(c, e, word, 4096, 8192);
    let b = most(c, e, word, 8192, 16384);
    if b - a < 32768 {
        return Ok(());
    }
    let names: Vec<&str> = word.iter().map(|i| NAMES[*i]).collect();
    let what = format!("repeating {} takes more and more memory: {} bytes for {} repetitions, although nothing more is outstanding (capacity {:?}, {:?})", names.join(", "), b - a, 8192, sp.cap, sp.keep);
    Err(Mis { props: vec!["C29"], what })
}

/// All words of this length that begin with these actions.
pub fn words(c: &mut Cnt, sp: Space, prefix: &[usize], len: usize) -> Res {
    let n = NAMES.len();
    for k in 0..n.pow((len - prefix.len()) as u32) {
        let mut word = prefix.to_vec();
        let mut k = k;
        while word.len() < len {
            word.push(k % n);
            k /= n;
        }
        cycle(c, sp, &word)?;
    }
    Ok(())
}

/// Everything up to two actions in this environment.
pub fn replay(c: &mut Cnt, sp: Space) -> Res {
    for len in 1..3 {
        for first in 0..NAMES.len() {
            words(c, sp, &[first], len)?;
        }
    }
    Ok(())
}

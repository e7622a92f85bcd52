//! Explores all sequences of operations up to a depth on actors with instrumentation, under every
//! combination of enabled spans, and checks in which spans the handlers run.
mod rec;

use rec::{Rec, Recorder, HOOK, NAMES, REC};
use std::cell::RefCell;
use std::future::Future;
use std::ops::ControlFlow;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll};
use std::time::{Duration, Instant};
use futures_util::FutureExt;
use tracing::Span;
use xtra::prelude::MessageChannel;
use xtra::{Actor, Address, Context, Handler, Mailbox};

// ---------------------------------------------------------------- what the monitors know

#[derive(Default)]
struct Mon {
    msgs: Vec<MsgMon>,
    /// The message whose send is being polled.
    sending: Option<usize>,
    /// A dispatch was begun by asking for its span: it has taken the message but need not have called the handler.
    begun: bool,
    /// A handler that sends another message has run.
    nested: bool,
    errors: Vec<String>,
    handled: u64,
    /// The number of spans `attribute` has seen.
    attributed: usize,
}

#[derive(Default)]
struct MsgMon {
    polled: bool,
    /// The span that was current at the first poll of the send.
    parent: Option<u64>,
    request: Option<u64>,
    waiting: Option<u64>,
    instances: u32,
    in_handler: u32,
    handlers: Vec<u64>,
}

thread_local! {
    static MON: RefCell<Mon> = RefCell::new(Mon::default());
}

/// Whether the subscriber calls back into the actor's mailbox.
static REENTER: AtomicBool = AtomicBool::new(false);

fn mon<R>(f: impl FnOnce(&mut Mon) -> R) -> R {
    MON.with(|m| f(&mut m.borrow_mut()))
}

fn recd<R>(f: impl FnOnce(&mut Rec) -> R) -> R {
    REC.with(|m| f(&mut m.borrow_mut()))
}

fn err(s: String) {
    mon(|m| m.errors.push(s))
}

/// Attributes the spans created since the last call: to `sending`, or to the handling in progress.
fn attribute() {
    let new: Vec<(u64, &str)> = recd(|r| {
        let from = mon(|m| std::mem::replace(&mut m.attributed, r.spans.len()));
        (from..r.spans.len()).map(|i| (i as u64 + 1, r.spans[i].meta.name())).collect()
    });
    for (id, name) in new {
        let sending = mon(|m| m.sending);
        match name {
            n if n == NAMES[0] || n == NAMES[1] => match sending {
                None => err(format!("a span {n} is created although no send is polled")),
                Some(s) => {
                    let twice = mon(|m| {
                        let x = &mut m.msgs[s];
                        let slot = if n == NAMES[0] { &mut x.request } else { &mut x.waiting };
                        slot.replace(id).is_some()
                    });
                    if twice {
                        err(format!("a second span {n} is created for message {s}"));
                    }
                }
            },
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- actor and messages

struct Act;

impl Actor for Act {
    type Stop = ();
    async fn stopped(self) {}
}

struct Msg {
    id: usize,
    yields: u8,
    kind: Kind,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Plain,
    /// The handler sends another message to its own actor.
    Nested,
    StopSelf,
}

impl Msg {
    fn new(yields: u8, kind: Kind) -> Msg {
        let id = mon(|m| {
            m.msgs.push(MsgMon { instances: 1, ..Default::default() });
            m.msgs.len() - 1
        });
        Msg { id, yields, kind }
    }
}

impl Clone for Msg {
    fn clone(&self) -> Self {
        mon(|m| m.msgs[self.id].instances += 1);
        Msg { ..*self }
    }
}

impl Drop for Msg {
    fn drop(&mut self) {
        mon(|m| m.msgs[self.id].instances -= 1);
    }
}

struct InHandler(usize);

impl Drop for InHandler {
    fn drop(&mut self) {
        mon(|m| m.msgs[self.0].in_handler -= 1);
    }
}

struct Yield(bool);

impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}

/// Called within each poll of a handler.
fn observe(id: usize, mine: &mut Option<u64>) {
    attribute();
    let filter = recd(|r| r.filter);
    let cur = Span::current().id().map(|i| i.into_u64());
    let (request, waiting, parent, instances, in_handler) = mon(|m| {
        m.handled += 1;
        let x = &m.msgs[id];
        (x.request, x.waiting, x.parent, x.instances, x.in_handler)
    });
    let e = request.or(parent);
    if filter & 4 != 0 {
        let Some(c) = cur else { return err(format!("message {id} is handled outside of all spans")) };
        let (name, p, open) = recd(|r| (r.get(c).meta.name(), r.get(c).parent, r.get(c).open));
        if name != NAMES[2] {
            return err(format!("message {id} is handled in a span {name} instead of a handler span"));
        }
        if !open {
            err(format!("message {id} is handled in a closed span"));
        }
        if e.is_some() && p != e {
            err(format!("message {id} is handled in a span with the parent {p:?} instead of {e:?}"));
        }
        match mine {
            Some(m) if *m != c => err(format!("message {id} is handled in one span after another")),
            Some(_) => {}
            None => {
                *mine = Some(c);
                if mon(|m| m.msgs.iter().any(|x| x.handlers.contains(&c))) {
                    err(format!("message {id} is handled in the span of another handler invocation"));
                }
                mon(|m| m.msgs[id].handlers.push(c));
            }
        }
    } else if e.is_some() && cur != e {
        err(format!("message {id} is handled in the span {cur:?} instead of {e:?}"));
    }
    if let Some(w) = waiting {
        if recd(|r| r.get(w).open) != (instances > in_handler) && !mon(|m| m.begun) {
            err(format!("span of message {id} waiting for an actor: open is {}, but {} of it are waiting", recd(|r| r.get(w).open), instances - in_handler));
        }
    }
    if let Some(r) = request {
        if !recd(|x| x.get(r).open) {
            err(format!("message {id} is handled although its request span is closed"));
        }
    }
}

impl Handler<Msg> for Act {
    type Return = ();

    async fn handle(&mut self, m: Msg, ctx: &mut Context<Self>) {
        mon(|x| x.msgs[m.id].in_handler += 1);
        let _g = InHandler(m.id);
        let mut mine = None;
        observe(m.id, &mut mine);
        for _ in 0..m.yields {
            Yield(false).await;
            observe(m.id, &mut mine);
        }
        match m.kind {
            Kind::Plain => {}
            Kind::StopSelf => ctx.stop_self(),
            Kind::Nested => {
                mon(|m| m.nested = true);
                let n = Msg::new(0, Kind::Plain);
                let id = n.id;
                let mut f = ctx.mailbox().address().send(n).detach();
                let _ = poll_send(&mut f, id);
                observe(m.id, &mut mine);
            }
        }
    }
}

fn poll<F: Future + Unpin>(f: &mut F) -> Poll<F::Output> {
    let w = futures_util::task::noop_waker();
    Pin::new(f).poll(&mut Cx::from_waker(&w))
}

/// Polls a send of message `id` in the current span.
fn poll_send<F: Future + Unpin>(f: &mut F, id: usize) -> Poll<F::Output> {
    attribute();
    let top = recd(|r| r.top());
    let outer = mon(|m| {
        let x = &mut m.msgs[id];
        if !x.polled {
            x.polled = true;
            x.parent = top;
        }
        m.sending.replace(id)
    });
    let res = poll(f);
    attribute();
    mon(|m| m.sending = outer);
    let (parent, request, waiting, instances) = mon(|m| (m.msgs[id].parent, m.msgs[id].request, m.msgs[id].waiting, m.msgs[id].instances));
    let filter = recd(|r| r.filter);
    if let Some(r) = request {
        let (p, f) = recd(|x| (x.get(r).parent, x.get(r).fields.clone()));
        if p != parent {
            err(format!("the request span of message {id} has the parent {p:?} instead of {parent:?}"));
        }
        for (k, v) in [("actor_type", std::any::type_name::<Act>()), ("message_type", std::any::type_name::<Msg>())] {
            if !f.iter().any(|(a, b)| a == k && b == v) {
                err(format!("the request span of message {id} has the fields {f:?}"));
            }
        }
    } else if filter & 1 != 0 && instances > 0 {
        err(format!("message {id} has no request span although it is in the mailbox"));
    }
    if let Some(w) = waiting {
        let p = recd(|x| x.get(w).parent);
        if p != request.or(parent) {
            err(format!("the waiting span of message {id} has the parent {p:?} instead of {:?}", request.or(parent)));
        }
    } else if filter & 2 != 0 && instances > 0 {
        err(format!("message {id} has no waiting span although it is in the mailbox"));
    }
    res
}

// ---------------------------------------------------------------- world

type Fut = Pin<Box<dyn Future<Output = ()>>>;

/// The types of the future that receives, of what it returns and of the dispatch cannot be named.
type RecvFut = Pin<Box<dyn Future<Output = Received>>>;
type Received = Box<dyn FnOnce(&'static mut Act) -> Dispatch>;

struct Dispatch {
    /// Polls, or returns the span and whether it has a field "interrupted".
    call: Box<dyn FnMut(bool) -> Answer>,
}

enum Answer {
    Flow(Poll<ControlFlow<()>>),
    Span(Option<u64>, bool),
}

fn receive(mb: &Mailbox<Act>) -> RecvFut {
    Box::pin(mb.next().map(|m| {
        let r: Received = Box::new(move |act| {
            let mut f = m.dispatch_to(act);
            Dispatch {
                call: Box::new(move |p| {
                    if p {
                        Answer::Flow(poll(&mut f))
                    } else {
                        let s = f.span();
                        Answer::Span(s.id().map(|i| i.into_u64()), s.has_field("interrupted"))
                    }
                }),
            }
        });
        r
    }))
}

enum Slot {
    Gone,
    Idle(Mailbox<Act>),
    Recv(Mailbox<Act>, RecvFut),
    Msg(Mailbox<Act>, Received),
    /// With the answer `DispatchFuture::span` gave, if it was asked.
    Disp(Mailbox<Act>, Dispatch, Option<Option<u64>>),
    Run(Fut),
}

#[derive(Clone, Copy, Debug)]
struct Config {
    cap: Option<usize>,
    mailboxes: usize,
    filter: u8,
    sender_spans: bool,
    runner_spans: bool,
}

struct World {
    cfg: Config,
    addr: Option<Address<Act>>,
    sends: Vec<(usize, Option<Fut>)>,
    slots: Vec<(Slot, *mut Act)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Send(u8, Kind),
    Bcast(u8),
    Make,
    /// Makes a send through a message channel, without polling it.
    Chan,
    PollSend(usize),
    DropSend(usize),
    DropAddr,
    Recv(usize),
    DropRecv(usize),
    Discard(usize),
    Dispatch(usize),
    Span(usize),
    PollDisp(usize),
    DropDisp(usize),
    Run(usize),
    PollRun(usize),
    DropMb(usize),
}

fn in_span<R>(yes: bool, name: &str, f: impl FnOnce() -> R) -> R {
    let before = recd(|r| r.stack.clone());
    let res = if yes {
        let s = match name {
            "sender" => tracing::info_span!("sender"),
            "creator" => tracing::info_span!("creator"),
            _ => tracing::info_span!("runner"),
        };
        s.in_scope(f)
    } else {
        f()
    };
    let after = recd(|r| r.stack.clone());
    if before != after {
        err(format!("the operation leaves spans entered: {} before, {} after", before.len(), after.len()));
        recd(|r| r.stack = before);
    }
    res
}

impl World {
    fn new(cfg: Config) -> World {
        MON.with(|m| *m.borrow_mut() = Mon::default());
        REC.with(|r| *r.borrow_mut() = Rec { filter: cfg.filter, ..Default::default() });
        let (a, mb) = cfg.cap.map_or_else(Mailbox::unbounded, Mailbox::bounded);
        let mut slots = vec![(Slot::Idle(mb), Box::into_raw(Box::new(Act)))];
        for _ in 1..cfg.mailboxes {
            let Slot::Idle(m) = &slots[0].0 else { unreachable!() };
            let m = m.clone();
            slots.push((Slot::Idle(m), Box::into_raw(Box::new(Act))));
        }
        if REENTER.load(Ordering::Relaxed) {
            let w = a.downgrade();
            HOOK.with(|h| {
                *h.borrow_mut() = Some(Box::new(move || {
                    let _ = (w.len(), w.capacity(), w.is_connected(), w.is_empty());
                    drop((w.clone(), w.try_upgrade()));
                }))
            });
        }
        World { cfg, addr: Some(a), sends: vec![], slots }
    }

    fn ops(&self) -> Vec<Op> {
        let mut o = vec![];
        if self.addr.is_some() && self.sends.len() < 4 {
            o.extend([Op::Send(0, Kind::Plain), Op::Send(1, Kind::Plain), Op::Send(0, Kind::Nested), Op::Bcast(1)]);
            if self.sends.len() < 2 {
                o.extend([Op::Make, Op::Chan, Op::Send(1, Kind::StopSelf), Op::Bcast(0)]);
            }
        }
        if self.addr.is_some() {
            o.push(Op::DropAddr);
        }
        for (i, s) in self.sends.iter().enumerate() {
            if s.1.is_some() {
                o.extend([Op::PollSend(i), Op::DropSend(i)]);
            }
        }
        for (i, s) in self.slots.iter().enumerate() {
            match &s.0 {
                Slot::Gone => {}
                Slot::Idle(_) => o.extend([Op::Recv(i), Op::Run(i), Op::DropMb(i)]),
                Slot::Recv(..) => o.extend([Op::Recv(i), Op::DropRecv(i)]),
                Slot::Msg(..) => o.extend([Op::Dispatch(i), Op::Discard(i)]),
                Slot::Disp(..) => o.extend([Op::PollDisp(i), Op::Span(i), Op::DropDisp(i)]),
                Slot::Run(_) => o.extend([Op::PollRun(i), Op::DropMb(i)]),
            }
        }
        o
    }

    fn send(&mut self, f: impl FnOnce(&Address<Act>, Msg) -> Fut, y: u8, k: Kind, poll: bool) {
        let addr = self.addr.as_ref().unwrap();
        let msg = Msg::new(y, k);
        let id = msg.id;
        let fut = in_span(self.cfg.sender_spans, "creator", || f(addr, msg));
        self.sends.push((id, Some(fut)));
        if poll {
            self.poll_send(self.sends.len() - 1);
        }
    }

    fn poll_send(&mut self, i: usize) {
        let (id, f) = &mut self.sends[i];
        let fut = f.as_mut().unwrap();
        let id = *id;
        let r = in_span(self.cfg.sender_spans, "sender", || poll_send(fut, id));
        if r.is_ready() {
            *f = None;
        }
    }

    fn take(&mut self, i: usize) -> Slot {
        std::mem::replace(&mut self.slots[i].0, Slot::Gone)
    }

    fn poll_slot(&mut self, i: usize) {
        let yes = self.cfg.runner_spans;
        self.slots[i].0 = match self.take(i) {
            Slot::Recv(mb, mut f) => match in_span(yes, "runner", || poll(&mut f)) {
                Poll::Ready(m) => {
                    in_span(yes, "runner", || drop(f));
                    Slot::Msg(mb, m)
                }
                Poll::Pending => Slot::Recv(mb, f),
            },
            Slot::Disp(mb, mut f, s) => match in_span(yes, "runner", || (f.call)(true)) {
                Answer::Span(..) => unreachable!(),
                Answer::Flow(Poll::Ready(flow)) => {
                    in_span(yes, "runner", || drop(f));
                    match flow {
                        ControlFlow::Continue(()) => Slot::Idle(mb),
                        ControlFlow::Break(()) => {
                            in_span(yes, "runner", || drop(mb));
                            Slot::Gone
                        }
                    }
                }
                Answer::Flow(Poll::Pending) => Slot::Disp(mb, f, s),
            },
            Slot::Run(mut f) => match in_span(yes, "runner", || poll(&mut f)) {
                Poll::Ready(()) => {
                    in_span(yes, "runner", || drop(f));
                    Slot::Gone
                }
                Poll::Pending => Slot::Run(f),
            },
            s => s,
        };
    }

    fn apply(&mut self, op: Op) {
        let yes = self.cfg.runner_spans;
        match op {
            Op::Send(y, k) => self.send(|a, m| Box::pin(async_send(a.send(m))), y, k, true),
            Op::Bcast(y) => self.send(|a, m| Box::pin(async_send(a.broadcast(m).priority(1))), y, Kind::Plain, true),
            Op::Make => self.send(|a, m| Box::pin(async_send(a.send(m).priority(1).detach())), 0, Kind::Plain, false),
            Op::Chan => self.send(|a, m| Box::pin(async_send(MessageChannel::<Msg, ()>::new(a.clone()).send(m))), 0, Kind::Plain, false),
            Op::PollSend(i) => self.poll_send(i),
            Op::DropSend(i) => {
                let f = self.sends[i].1.take();
                in_span(self.cfg.sender_spans, "sender", || drop(f))
            }
            Op::DropAddr => drop(self.addr.take()),
            Op::Recv(i) => {
                self.slots[i].0 = match self.take(i) {
                    Slot::Idle(mb) => {
                        let f = in_span(yes, "runner", || receive(&mb));
                        Slot::Recv(mb, f)
                    }
                    s => s,
                };
                self.poll_slot(i)
            }
            Op::DropRecv(i) | Op::Discard(i) | Op::DropDisp(i) => {
                let mb = in_span(yes, "runner", || match self.take(i) {
                    Slot::Recv(mb, f) => {
                        drop(f);
                        mb
                    }
                    Slot::Msg(mb, m) => {
                        drop(m);
                        mb
                    }
                    Slot::Disp(mb, f, _) => {
                        drop(f);
                        mb
                    }
                    _ => unreachable!(),
                });
                self.slots[i].0 = Slot::Idle(mb);
            }
            Op::Dispatch(i) => {
                let Slot::Msg(mb, m) = self.take(i) else { unreachable!() };
                let act: &'static mut Act = unsafe { &mut *self.slots[i].1 };
                let f = in_span(yes, "runner", || m(act));
                self.slots[i].0 = Slot::Disp(mb, f, None);
            }
            Op::Span(i) => {
                let Slot::Disp(mb, mut f, seen) = self.take(i) else { unreachable!() };
                mon(|m| m.begun = true);
                let Answer::Span(id, has) = in_span(yes, "runner", || (f.call)(false)) else { unreachable!() };
                if let Some(s) = id {
                    let name = recd(|r| r.get(s).meta.name());
                    if recd(|r| r.filter) & 4 != 0 {
                        if name != NAMES[2] || !has {
                            err(format!("DispatchFuture::span returns a span {name}, field interrupted: {has}"));
                        }
                        if !recd(|r| r.get(s).open) {
                            err("DispatchFuture::span returns a closed span".into());
                        }
                    }
                }
                if let Some(seen) = seen {
                    if seen != id {
                        err(format!("DispatchFuture::span returns {id:?} after {seen:?}"));
                    }
                }
                self.slots[i].0 = Slot::Disp(mb, f, Some(id));
            }
            Op::PollDisp(i) => {
                let before = mon(|m| m.msgs.iter().map(|x| x.handlers.len()).collect::<Vec<_>>());
                let seen = match &self.slots[i].0 {
                    Slot::Disp(_, _, s) => *s,
                    _ => None,
                };
                self.poll_slot(i);
                let now = mon(|m| m.msgs.iter().map(|x| x.handlers.clone()).collect::<Vec<_>>());
                for (k, h) in now.iter().enumerate() {
                    if before.get(k).map_or(0, |b| *b) < h.len() && seen.is_some() && recd(|r| r.filter) & 4 != 0 && Some(h.last().copied()) != seen {
                        err(format!("message {k} is handled in the span {:?} but DispatchFuture::span returned {seen:?}", h.last()));
                    }
                }
            }
            Op::PollRun(i) => self.poll_slot(i),
            Op::Run(i) => {
                let Slot::Idle(mb) = self.take(i) else { unreachable!() };
                self.slots[i].0 = Slot::Run(Box::pin(xtra::run(mb, Act)));
                self.poll_slot(i);
            }
            Op::DropMb(i) => {
                let s = self.take(i);
                in_span(yes, "runner", || drop(s))
            }
        }
        self.check();
    }

    fn check(&self) {
        attribute();
        let n = mon(|m| m.msgs.len());
        // If they have no spans of their own, messages sent by a handler hold its span.
        let exact = self.cfg.filter == 7 || mon(|m| !m.nested);
        for i in 0..n {
            let (request, waiting, handlers, instances, in_handler) = mon(|m| {
                let x = &m.msgs[i];
                (x.request, x.waiting, x.handlers.clone(), x.instances, x.in_handler)
            });
            let open = |s: u64| recd(|r| r.get(s).open);
            // A span may stay open for children from outside, such as messages sent by a handler.
            let held = |s: u64| recd(|r| r.get(s).handles > 0);
            if let Some(r) = request {
                if instances > 0 && !open(r) || exact && instances == 0 && held(r) {
                    err(format!("request span of message {i}: open is {}, held is {}, but {instances} of it exist", open(r), held(r)));
                }
            }
            if let Some(w) = waiting {
                if open(w) != (instances > in_handler) && !mon(|m| m.begun) {
                    err(format!("span of message {i} waiting for an actor: open is {}, but {} of it are waiting", open(w), instances - in_handler));
                }
            }
            let h = handlers.iter().filter(|h| held(**h)).count() as u32;
            if (h < in_handler || exact && h > in_handler) && !handlers.is_empty() {
                err(format!("{h} handler spans of message {i} are open, but {in_handler} handlers run"));
            }
        }
    }

    fn finish(mut self) {
        self.sends.clear();
        for s in &mut self.slots {
            s.0 = Slot::Gone;
        }
        self.addr = None;
        HOOK.with(|h| h.borrow_mut().take());
        self.check();
        recd(|r| {
            for (i, s) in r.spans.iter().enumerate() {
                if s.open {
                    r.errors.push(format!("span {} {} is still open after everything was dropped", s.meta.name(), i + 1));
                    break;
                }
            }
        });
        for s in &self.slots {
            drop(unsafe { Box::from_raw(s.1) });
        }
    }
}

async fn async_send<F: Future>(f: F) {
    let _ = f.await;
}

fn failures() -> Vec<String> {
    let mut e = mon(|m| std::mem::take(&mut m.errors));
    e.extend(recd(|r| std::mem::take(&mut r.errors)));
    e
}

struct Outcome {
    ops: Vec<Op>,
    counts: Vec<usize>,
    errors: Vec<String>,
    handled: u64,
}

/// When the execution in progress was begun, its operations, and its configuration (none: no execution is in progress).
type Begun = Arc<Mutex<(Instant, Vec<Op>, Option<Config>)>>;
static ALL_BEGUN: Mutex<Vec<Begun>> = Mutex::new(vec![]);
thread_local! {
    static BEGUN: Begun = {
        let b = Begun::new(Mutex::new((Instant::now(), vec![], None)));
        ALL_BEGUN.lock().unwrap().push(b.clone());
        b
    };
}

/// Ends the process if an execution does not end.
fn watch(prop: String, out: Option<String>) {
    loop {
        std::thread::sleep(Duration::from_millis(500));
        for b in ALL_BEGUN.lock().unwrap().iter() {
            let b = b.lock().unwrap();
            if b.2.is_some() && b.0.elapsed() > Duration::from_secs(10) {
                let t = format!("property {prop}\n{:?}\n{}\nthe last operation does not return: it waits for a lock it holds\n", b.2, b.1.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join("\n"));
                println!("{t}");
                if let Some(o) = &out {
                    std::fs::write(format!("{o}.replay"), t).unwrap();
                }
                std::process::exit(1);
            }
        }
    }
}

/// Runs the operations chosen by `path`, and the first possible one from there on.
fn execute(cfg: Config, path: &[usize], depth: usize) -> Outcome {
    let (mut ops, mut counts, mut errors) = (vec![], vec![], vec![]);
    BEGUN.with(|b| *b.lock().unwrap() = (Instant::now(), vec![], Some(cfg)));
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut w = World::new(cfg);
        for d in 0..depth {
            let o = w.ops();
            if o.is_empty() {
                break;
            }
            let c = path.get(d).copied().unwrap_or(0);
            counts.push(o.len());
            ops.push(o[c]);
            BEGUN.with(|b| b.lock().unwrap().1.push(o[c]));
            w.apply(o[c]);
            errors = failures();
            if REENTER.load(Ordering::Relaxed) {
                // Sends by the subscriber are not accounted for; what is checked is that everything returns.
                errors.clear();
            }
            if !errors.is_empty() {
                break;
            }
        }
        w.finish();
    }));
    BEGUN.with(|b| b.lock().unwrap().2 = None);
    HOOK.with(|h| h.borrow_mut().take());
    let rest = failures();
    if errors.is_empty() && !REENTER.load(Ordering::Relaxed) {
        errors = rest;
    }
    if let Err(p) = res {
        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        errors.push(format!("panic: {m}"));
    }
    Outcome { ops, counts, errors, handled: mon(|m| m.handled) }
}

fn opt(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).map(|i| args[i + 1].clone())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    tracing::subscriber::set_global_default(Recorder).unwrap();
    let args: Vec<String> = std::env::args().collect();
    let depth: usize = opt(&args, "--depth").map_or(5, |s| s.parse().unwrap());
    let secs: u64 = opt(&args, "--secs").map_or(60, |s| s.parse().unwrap());
    let jobs: usize = opt(&args, "--jobs").map_or(8, |s| s.parse().unwrap());
    let end = Instant::now() + Duration::from_secs(secs);
    let prop = opt(&args, "--prop").unwrap_or("C26".into());
    // C22: user code that the library runs, here a subscriber, may use the mailbox.
    REENTER.store(prop == "C22", Ordering::SeqCst);
    let (p, o) = (prop.clone(), opt(&args, "--out"));
    std::thread::spawn(move || watch(p, o));
    let focus = args.iter().any(|a| a == "--focus");
    let mut cfgs = vec![];
    for filter in [7, 0, 4, 6, 5, 3, 1, 2] {
        for (sender_spans, runner_spans) in [(true, true), (true, false), (false, true), (false, false)] {
            if focus && !(sender_spans && [7, 0].contains(&filter) && runner_spans) {
                continue;
            }
            for cap in [None, Some(1)] {
                for mailboxes in [1, 2] {
                    cfgs.push(Config { cap, mailboxes, filter, sender_spans, runner_spans });
                }
            }
        }
    }
    // One unit of work: a configuration and its first operation.
    let mut units = vec![];
    for c in &cfgs {
        for i in 0..execute(*c, &[], 1).counts[0] {
            units.push((*c, i));
        }
    }
    let (execs, seqs, ops, handled) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let (next, stop) = (AtomicUsize::new(0), AtomicBool::new(false));
    let unfinished = AtomicUsize::new(0);
    let found: Mutex<Option<(Config, Outcome)>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| loop {
                let Some((cfg, first)) = units.get(next.fetch_add(1, Ordering::SeqCst)).copied() else { break };
                if Instant::now() >= end {
                    unfinished.fetch_add(1, Ordering::SeqCst);
                    continue;
                }
                let mut path = vec![first];
                loop {
                    let from = path.len() - 1;
                    let o = execute(cfg, &path, depth);
                    execs.fetch_add(1, Ordering::Relaxed);
                    seqs.fetch_add((o.ops.len() - from) as u64, Ordering::Relaxed);
                    ops.fetch_add(o.ops.len() as u64, Ordering::Relaxed);
                    handled.fetch_add(o.handled, Ordering::Relaxed);
                    if !o.errors.is_empty() {
                        stop.store(true, Ordering::SeqCst);
                        let mut f = found.lock().unwrap();
                        if f.as_ref().map_or(true, |x| x.1.ops.len() > o.ops.len()) {
                            *f = Some((cfg, o));
                        }
                        return;
                    }
                    path.resize(o.counts.len(), 0);
                    while path.len() > 1 && path[path.len() - 1] + 1 >= o.counts[path.len() - 1] {
                        path.pop();
                    }
                    if path.len() == 1 {
                        break;
                    }
                    *path.last_mut().unwrap() += 1;
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                    if Instant::now() >= end {
                        unfinished.fetch_add(1, Ordering::SeqCst);
                        break;
                    }
                }
            });
        }
    });
    let out = opt(&args, "--out");
    let get = |a: &AtomicU64| a.load(Ordering::SeqCst);
    let unf = unfinished.load(Ordering::SeqCst);
    println!(
        "depth {depth}: {} configurations, {} sequences, {} executions, {} operations, {} handler polls, {unf} units unfinished",
        cfgs.len(), get(&seqs), get(&execs), get(&ops), get(&handled)
    );
    if let Some((c, o)) = found.into_inner().unwrap() {
        let t = format!("property {prop}\n{c:?}\n{}\n{}\n", o.ops.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join("\n"), o.errors.join("\n"));
        println!("{t}");
        if let Some(o) = &out {
            std::fs::write(format!("{o}.replay"), t).unwrap();
        }
        std::process::exit(1);
    }
    if let Some(o) = &out {
        std::fs::write(
            o,
            format!(
                "{{\"depth\": {depth}, \"configurations\": {}, \"sequences\": {}, \"executions\": {}, \"operations\": {}, \"handler_polls\": {}, \"unfinished\": {unf}}}",
                cfgs.len(), get(&seqs), get(&execs), get(&ops), get(&handled)
            ),
        )
        .unwrap();
    }
}

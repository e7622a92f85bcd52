//! Scenarios: what each task does, and how one is executed.
use crate::world::*;
use futures_util::future::Either;
use spin::rt;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::task::{Context as Cx, Poll, RawWaker, RawWakerVTable, Waker};
use xtra::prelude::*;
use xtra::{Error, WeakAddress};

// ---------------------------------------------------------------------------------------------
// Messages and actor

pub struct M {
    id: u32,
    kind: Kind,
    back: Option<WeakAddress<Act>>,
}
impl M {
    fn new(id: u32, kind: Kind) -> M {
        w(|w| w.msgs[id as usize].made += 1);
        M { id, kind, back: None }
    }
}
impl Drop for M {
    fn drop(&mut self) {
        let f = rt::cur();
        w(|w| w.dropped(self.id, f));
        if let Some(a) = self.back.take() {
            // A message that makes use of its own actor's mailbox when it goes away.
            let _ = a.len();
            let _ = a.is_connected();
            if let Some(s) = a.try_upgrade() {
                let t = w(|w| {
                    let t = w.tick();
                    w.strong.push(Span { owner: 99, from: t, born: t, end0: None, end1: None });
                    w.strong.len() - 1
                });
                drop(s);
                w(|w| {
                    let c = w.tick();
                    w.strong[t].end0 = Some(c);
                    w.strong[t].end1 = Some(c);
                });
            }
        }
    }
}
impl Clone for M {
    fn clone(&self) -> Self {
        w(|w| w.msgs[self.id as usize].made += 1);
        M { id: self.id, kind: self.kind, back: self.back.clone() }
    }
}

pub struct R(u32);
impl R {
    fn new(i: u32) -> R {
        w(|w| w.rets_made += 1);
        R(i)
    }
}
impl Drop for R {
    fn drop(&mut self) {
        w(|w| w.rets_made -= 1)
    }
}

pub struct Act {
    id: usize,
}
impl Act {
    fn new(id: usize) -> Act {
        w(|w| w.acts += 1);
        Act { id }
    }
}
impl Drop for Act {
    fn drop(&mut self) {
        w(|w| w.acts -= 1)
    }
}
impl Actor for Act {
    type Stop = usize;
    async fn started(&mut self, _: &Mailbox<Self>) -> Result<(), usize> {
        w(|w| {
            w.tick();
            w.started[self.id] += 1
        });
        Ok(())
    }
    async fn stopped(self) -> usize {
        w(|w| {
            let t = w.tick();
            w.stopped[self.id] += 1;
            // The mailbox goes away with the event loop, right after this.
            if let Some(m) = w.mbx.iter_mut().find(|m| m.owner == self.id) {
                m.end0 = Some(t);
            }
        });
        self.id
    }
}

struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

struct Running(usize, bool);
impl Drop for Running {
    fn drop(&mut self) {
        if !self.1 {
            w(|w| w.interrupted += 1);
        }
    }
}

async fn handle(act: usize, m: &M, ctx: &mut Context<Act>) {
    let mut g = Running(act, false);
    rt::note(&format!("handles message {}", m.id));
    w(|w| w.handle_start(m.id, act));
    match m.kind {
        Kind::Plain | Kind::DropSends => {}
        Kind::StopSelf => {
            ctx.stop_self();
            w(|w| w.stop_self.push(act));
        }
        Kind::StopAll => {
            let k = w(|w| {
                let t = w.tick();
                if w.strong.iter().any(|s| s.end1.is_none()) {
                    w.maybe_stop_all = true;
                }
                if w.stop_all.is_none() && w.strong_alive() {
                    w.stop_all = Some(t);
                    w.stop_all_actor = Some(act);
                }
                w.strong.push(Span { owner: 98, from: t, born: t, end0: None, end1: None });
                w.strong.len() - 1
            });
            let effective = w(|w| w.stop_all_actor == Some(act) && w.stop_all_end.is_none());
            ctx.stop_all();
            w(|w| {
                let t = w.tick();
                w.strong[k].end0 = Some(t);
                w.strong[k].end1 = Some(t);
                if effective {
                    // Unless the last address went away in the meantime.
                    let sure = w.strong.iter().any(|s| s.owner < 90 && s.end0.is_none());
                    if sure {
                        w.stop_all_end = Some(t);
                    } else {
                        w.stop_all = w.stop_all.filter(|_| false).or(w.stop_all);
                    }
                }
            });
        }
        Kind::Yield => YieldOnce(false).await,
        Kind::Nested => {
            if let Some(a) = ctx.mailbox().address().try_upgrade() {
                let _ = a.is_connected();
            }
        }
    }
    w(|w| w.handle_end(m.id, act));
    g.1 = true;
}

impl Handler<M> for Act {
    type Return = R;
    async fn handle(&mut self, m: M, ctx: &mut Context<Self>) -> R {
        handle(self.id, &m, ctx).await;
        R::new(m.id)
    }
}
/// For broadcasts and sinks, which need a handler without a return value.
#[derive(Clone)]
pub struct B(M);
impl Handler<B> for Act {
    type Return = ();
    async fn handle(&mut self, m: B, ctx: &mut Context<Self>) {
        handle(self.id, &m.0, ctx).await;
    }
}

// ---------------------------------------------------------------------------------------------
// Executor

fn waker(fiber: usize, seq: u64) -> Waker {
    const V: RawWakerVTable = RawWakerVTable::new(
        |p| RawWaker::new(p, &V),
        |p| wake_raw(p),
        |p| wake_raw(p),
        |_| {},
    );
    let p = (rt::gen() as u64) << 32 | (seq & 0xff_ffff) << 8 | fiber as u64;
    unsafe { Waker::from_raw(RawWaker::new(p as *const (), &V)) }
}
fn wake_raw(p: *const ()) {
    let p = p as u64;
    let (gen, seq, f) = ((p >> 32) as u32, p >> 8 & 0xff_ffff, (p & 0xff) as usize);
    if f == 0xff {
        return;
    }
    if gen == rt::gen() && w(|w| w.seq.get(f).copied()) == Some(seq) {
        rt::wake(f, gen);
    }
}

fn next_seq() -> u64 {
    let f = rt::cur();
    rt::clear_woken();
    w(|w| {
        w.seq[f] += 1;
        w.seq[f]
    })
}

/// Wait for a future. `first` is called after its first poll if that was pending. None: gave up.
fn block<F: Future>(f: F, first: impl FnOnce()) -> Option<F::Output> {
    let mut f = pin!(f);
    let s = next_seq();
    let wk = waker(rt::cur(), s);
    let mut cx = Cx::from_waker(&wk);
    let mut first = Some(first);
    loop {
        if rt::aborting() {
            return None;
        }
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Some(r);
        }
        if let Some(f) = first.take() {
            f();
        }
        if !rt::park() {
            return None;
        }
    }
}

fn noop() -> Waker {
    waker(0xff, 0)
}

// ---------------------------------------------------------------------------------------------
// Scenarios

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Scenario {
    pub cap: Option<usize>,
    /// What the main context keeps until everything is quiet: a(ddress), m(ailbox).
    pub main: String,
    /// What each task holds, and what it does.
    pub tasks: Vec<(String, String)>,
}

impl Scenario {
    pub fn text(&self) -> String {
        let c = self.cap.map_or("-".into(), |c| c.to_string());
        let t: Vec<_> = self.tasks.iter().map(|(h, o)| format!("{h}:{o}")).collect();
        format!("{c}|{}|{}", self.main, t.join("|"))
    }
    pub fn parse(s: &str) -> Scenario {
        let mut it = s.split('|');
        let cap = it.next().unwrap().parse().ok();
        let main = it.next().unwrap().to_string();
        let tasks = it
            .map(|t| {
                let (a, b) = t.split_once(':').unwrap();
                (a.to_string(), b.to_string())
            })
            .collect();
        Scenario { cap, main, tasks }
    }
    fn has(&self, c: &str) -> bool {
        self.tasks.iter().any(|t| t.1.contains(|x| c.contains(x)))
    }
}

struct Flag {
    set: spin::sync::Mutex<(bool, Option<Waker>)>,
}
struct FlagFut(Rc<Flag>);
impl Future for FlagFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        let mut g = self.0.set.lock().unwrap();
        if g.0 {
            return Poll::Ready(());
        }
        g.1 = Some(cx.waker().clone());
        Poll::Pending
    }
}

struct Task {
    me: usize,
    addr: Option<(Address<Act>, usize)>,
    chan: Option<(MessageChannel<M, R>, usize)>,
    weak: Option<WeakAddress<Act>>,
    mbox: Option<(Mailbox<Act>, usize)>,
    kept: Vec<(u32, xtra::Receiver<R>)>,
    act: Option<Act>,
    stopped: bool,
    flag: Rc<Flag>,
}

fn strong_born(owner: usize) -> usize {
    w(|w| {
        let t = w.tick();
        w.strong.push(Span { owner, from: t, born: t, end0: None, end1: None });
        w.strong.len() - 1
    })
}
fn strong_drop<T>(a: T, k: usize) {
    w(|w| {
        let t = w.tick();
        w.strong[k].end0 = Some(t);
    });
    drop(a);
    w(|w| {
        let t = w.tick();
        w.strong[k].end1 = Some(t);
    });
}
fn mbox_drop(k: usize) {
    w(|w| {
        let t = w.tick();
        w.mbx[k].end0 = Some(t);
    });
}
fn mbox_dropped(k: usize) {
    w(|w| {
        let t = w.tick();
        w.mbx[k].end1 = Some(t);
    });
}

fn new_msg(by: usize, kind: Kind, bcast: bool, prio: u32) -> u32 {
    w(|w| {
        let t = w.tick();
        w.msgs.push(Msg {
            kind,
            bcast,
            prio,
            by,
            inv: t,
            polled: None,
            adm: None,
            ret: None,
            cancelled: None,
            made: 0,
            drops: 0,
            handled: vec![],
            in_op: true,
            dropped_by_op: false,
        });
        w.msgs.len() as u32 - 1
    })
}

fn set_at(f: usize, at: At) {
    w(|w| w.at[f] = at)
}

/// Marks the message as polled: from here on it may be handled.
struct Polling<F>(F, u32, bool);
impl<F: Future + Unpin> Future for Polling<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<F::Output> {
        let r = Pin::new(&mut self.0).poll(cx);
        let id = self.1;
        if !self.2 {
            self.2 = true;
            w(|w| {
                let t = w.tick();
                w.msgs[id as usize].polled.get_or_insert(t);
            });
        }
        r
    }
}

impl Task {
    fn admission<F, T>(&mut self, id: u32, fut: F) -> Option<Option<T>>
    where
        F: Future<Output = Result<T, Error>> + Unpin,
    {
        let me = self.me;
        rt::note(&format!("sends message {id}"));
        set_at(me, At::Admission(id));
        let r = block(Polling(fut, id, false), || {});
        set_at(me, At::Nothing);
        match r {
            None => {
                // Gave up: the future was dropped.
                w(|w| {
                    let t = w.tick();
                    w.msgs[id as usize].cancelled = Some(t);
                    w.msgs[id as usize].in_op = false;
                });
                None
            }
            Some(Ok(x)) => {
                w(|w| w.returned(id, Out::Accepted));
                Some(Some(x))
            }
            Some(Err(Error::Disconnected)) => {
                w(|w| w.returned(id, Out::Disconnected));
                Some(None)
            }
            Some(Err(Error::Interrupted)) => {
                fail("C03", format!("sending message {id} ends with Interrupted before it was accepted"));
                Some(None)
            }
        }
    }
    fn reply<F>(&mut self, id: u32, fut: F) -> bool
    where
        F: Future<Output = Result<R, Error>>,
    {
        set_at(self.me, At::Reply(id));
        let r = block(fut, || {});
        set_at(self.me, At::Nothing);
        match r {
            None => return false,
            Some(Ok(r)) => w(|w| w.returned(id, Out::Reply(r.0))),
            Some(Err(Error::Disconnected)) => {
                fail("C03", format!("message {id} was accepted, but ends with Disconnected"));
            }
            Some(Err(Error::Interrupted)) => w(|w| w.returned(id, Out::Interrupted)),
        }
        true
    }
    fn undetached<F>(&mut self, id: u32, fut: F) -> bool
    where
        F: Future<Output = Result<R, Error>> + Unpin,
    {
        // One future for both: which part it waits for is found out from the message.
        rt::note(&format!("sends message {id} and waits"));
        set_at(self.me, At::Reply(id));
        let me = self.me;
        let r = block(Polling(fut, id, false), || {
            let _ = me;
        });
        set_at(self.me, At::Nothing);
        match r {
            None => {
                w(|w| {
                    let t = w.tick();
                    w.msgs[id as usize].cancelled = Some(t);
                    w.msgs[id as usize].in_op = false;
                });
                return false;
            }
            Some(Ok(r)) => w(|w| w.returned(id, Out::Reply(r.0))),
            Some(Err(Error::Disconnected)) => w(|w| w.returned(id, Out::Disconnected)),
            Some(Err(Error::Interrupted)) => w(|w| w.returned(id, Out::Interrupted)),
        }
        true
    }
    fn cancel_after_poll<F, T>(&mut self, id: u32, fut: F)
    where
        F: Future<Output = Result<T, Error>> + Unpin,
    {
        let s = next_seq();
        let wk = waker(rt::cur(), s);
        let mut cx = Cx::from_waker(&wk);
        let mut f = Polling(fut, id, false);
        rt::note(&format!("sends message {id}, polling once"));
        match Pin::new(&mut f).poll(&mut cx) {
            Poll::Ready(Ok(_)) => w(|w| w.returned(id, Out::Accepted)),
            Poll::Ready(Err(Error::Disconnected)) => w(|w| w.returned(id, Out::Disconnected)),
            Poll::Ready(Err(_)) => fail("C03", format!("message {id}: Interrupted before it was accepted")),
            Poll::Pending => {
                if w(|w| w.cap.is_none()) {
                    fail("C07", format!("message {id} has to wait although the mailbox is unbounded"));
                }
                rt::note(&format!("drops the send of message {id}"));
                drop(f);
                w(|w| {
                    let t = w.tick();
                    let m = &mut w.msgs[id as usize];
                    m.cancelled = Some(t);
                    m.in_op = false;
                });
            }
        }
        w(|w| w.msgs[id as usize].in_op = false);
    }

    /// Polls two sends once, drops the first one if it has to wait, and then waits for the second one.
    fn two<F, T>(&mut self, id1: u32, mut f1: F, id2: u32, mut f2: F) -> bool
    where
        F: Future<Output = Result<T, Error>> + Unpin,
    {
        let mut waits = [true; 2];
        for (n, (id, f)) in [(id1, &mut f1), (id2, &mut f2)].into_iter().enumerate() {
            let s = next_seq();
            let wk = waker(rt::cur(), s);
            rt::note(&format!("sends message {id}, polling once"));
            match Pin::new(&mut Polling(&mut *f, id, false)).poll(&mut Cx::from_waker(&wk)) {
                Poll::Ready(Ok(_)) => w(|w| w.returned(id, Out::Accepted)),
                Poll::Ready(Err(Error::Disconnected)) => w(|w| w.returned(id, Out::Disconnected)),
                Poll::Ready(Err(_)) => fail("C03", format!("message {id}: Interrupted before it was accepted")),
                Poll::Pending => continue,
            }
            waits[n] = false;
        }
        if waits[0] {
            rt::note(&format!("drops the send of message {id1}"));
        }
        drop(f1);
        if waits[0] {
            w(|w| {
                let t = w.tick();
                w.msgs[id1 as usize].cancelled = Some(t);
                w.msgs[id1 as usize].in_op = false;
            });
        }
        if waits[1] {
            return self.admission(id2, f2).is_some();
        }
        true
    }

    fn message(&mut self, kind: Kind, bcast: bool, prio: u32) -> (u32, M) {
        let id = new_msg(self.me, kind, bcast, prio);
        let mut m = M::new(id, kind);
        if kind == Kind::DropSends {
            m.back = self.addr.as_ref().map(|a| a.0.downgrade()).or_else(|| self.weak.clone());
        }
        (id, m)
    }

    /// Send detached through whatever handle there is.
    fn detached(&mut self, kind: Kind, prio: u32) -> Option<bool> {
        let (id, m) = self.message(kind, false, prio);
        if let Some((a, _)) = &self.addr {
            let f = a.send(m).priority(prio).detach();
            return self.admission(id, f).map(|x| x.is_some());
        }
        if let Some((c, _)) = &self.chan {
            let f = c.send(m).priority(prio).detach();
            return self.admission(id, f).map(|x| x.is_some());
        }
        if let Some(a) = &self.weak {
            let f = a.send(m).priority(prio).detach();
            return self.admission(id, f).map(|x| x.is_some());
        }
        w(|w| w.msgs[id as usize].in_op = true);
        drop(m);
        Some(false)
    }

    fn recv_begin(&mut self) -> bool {
        if self.stopped || self.mbox.is_none() {
            return false;
        }
        w(|w| {
            let t = w.tick();
            w.recv_inv[self.me] = t;
            w.at[self.me] = At::Recv;
        });
        true
    }

    fn drop_mailbox(&mut self) {
        if let Some((m, k)) = self.mbox.take() {
            rt::note("drops its mailbox");
            mbox_drop(k);
            drop(m);
            mbox_dropped(k);
        }
    }
    fn drop_addr(&mut self) {
        if let Some((a, k)) = self.addr.take() {
            rt::note("drops its address");
            strong_drop(a, k);
        }
        if let Some((a, k)) = self.chan.take() {
            rt::note("drops its channel");
            strong_drop(a, k);
        }
    }

    fn dispatched(&mut self, brk: bool) {
        w(|w| {
            w.at[self.me] = At::Nothing;
            if brk {
                w.actor_stopped(self.me);
            }
        });
        if brk {
            self.stopped = true;
            rt::note("gets a stop");
        }
    }

    /// False: gave up.
    fn op(&mut self, o: char) -> bool {
        let me = self.me;
        match o {
            // -- sending
            'S' | 'H' | 's' => {
                let prio = if o == 'H' { 5 } else { 0 };
                let (id, m) = self.message(Kind::Plain, false, prio);
                if o != 's' {
                    if let Some((a, _)) = &self.addr {
                        let f = a.send(m).priority(prio);
                        return self.undetached(id, f);
                    }
                    if let Some((a, _)) = &self.chan {
                        let f = a.send(m).priority(prio);
                        return self.undetached(id, f);
                    }
                } else if let Some(a) = &self.weak {
                    let f = a.send(m).priority(prio);
                    return self.undetached(id, f);
                }
            }
            'D' => return self.detached(Kind::Plain, 0).is_some(),
            'E' => return self.detached(Kind::Plain, 5).is_some(),
            'X' => return self.detached(Kind::StopSelf, 0).is_some(),
            'Z' => return self.detached(Kind::StopAll, 0).is_some(),
            'Y' => return self.detached(Kind::Yield, 0).is_some(),
            'N' => return self.detached(Kind::DropSends, 0).is_some(),
            'n' => return self.detached(Kind::Nested, 0).is_some(),
            'P' => {
                let (id, m) = self.message(Kind::Plain, false, 0);
                if let Some((a, _)) = &self.addr {
                    let f = a.send(m).detach();
                    match self.admission(id, f) {
                        None => return false,
                        Some(None) => {}
                        Some(Some(r)) => {
                            w(|w| w.msgs[id as usize].ret = None);
                            self.kept.push((id, r));
                        }
                    }
                }
            }
            'G' => {
                for (id, r) in std::mem::take(&mut self.kept) {
                    if !self.reply(id, r) {
                        return false;
                    }
                }
            }
            'C' | 'c' => {
                let kind = if o == 'c' { Kind::DropSends } else { Kind::Plain };
                let (id, m) = self.message(kind, false, 0);
                if let Some((a, _)) = &self.addr {
                    let f = a.send(m).detach();
                    self.cancel_after_poll(id, f);
                }
            }
            'e' => {
                let (i1, m1) = self.message(Kind::Plain, false, 0);
                let (i2, m2) = self.message(Kind::Plain, false, 0);
                if let Some((a, _)) = &self.addr {
                    let (f1, f2) = (a.send(m1).detach(), a.send(m2).detach());
                    return self.two(i1, f1, i2, f2);
                }
            }
            'g' => {
                let (i1, m1) = self.message(Kind::Plain, true, 0);
                let (i2, m2) = self.message(Kind::Plain, true, 0);
                if let Some((a, _)) = &self.addr {
                    let (f1, f2) = (a.broadcast(B(m1)), a.broadcast(B(m2)));
                    return self.two(i1, f1, i2, f2);
                }
            }
            'W' => {
                // Send, wait until woken, and drop it without another poll.
                let (id, m) = self.message(Kind::Plain, false, 0);
                if let Some((a, _)) = &self.addr {
                    let mut f = Polling(a.send(m).detach(), id, false);
                    let s = next_seq();
                    let wk = waker(rt::cur(), s);
                    match Pin::new(&mut f).poll(&mut Cx::from_waker(&wk)) {
                        Poll::Ready(Ok(_)) => w(|w| w.returned(id, Out::Accepted)),
                        Poll::Ready(Err(_)) => w(|w| w.returned(id, Out::Disconnected)),
                        Poll::Pending => {
                            set_at(me, At::Admission(id));
                            let go = rt::park();
                            set_at(me, At::Nothing);
                            drop(f);
                            w(|w| {
                                let t = w.tick();
                                w.msgs[id as usize].cancelled = Some(t);
                                w.msgs[id as usize].in_op = false;
                            });
                            return go;
                        }
                    }
                }
            }
            'B' | 'V' | 'b' => {
                let prio = if o == 'V' { 5 } else { 0 };
                let kind = if o == 'b' { Kind::DropSends } else { Kind::Plain };
                let (id, m) = self.message(kind, true, prio);
                if let Some((a, _)) = &self.addr {
                    let f = a.broadcast(B(m)).priority(prio);
                    return self.admission(id, f).is_some();
                }
            }
            'K' => {
                let (id, m) = self.message(Kind::Plain, true, 0);
                if let Some((a, _)) = &self.addr {
                    let f = a.broadcast(B(m));
                    self.cancel_after_poll(id, f);
                }
            }
            'k' => {
                // Two items through a sink; the sink takes the address.
                if let Some((a, k)) = self.addr.take() {
                    use futures_util::SinkExt;
                    let mut s = Box::pin(a.into_sink::<B>());
                    for _ in 0..2 {
                        let (id, m) = self.message(Kind::Plain, false, 0);
                        set_at(me, At::Other);
                        let polled = move || {
                            w(|w| {
                                let t = w.tick();
                                w.msgs[id as usize].polled = Some(t)
                            })
                        };
                        let r = block(s.send(B(m)), polled);
                        set_at(me, At::Nothing);
                        let t = w(|w| {
                            w.msgs[id as usize].in_op = false;
                            w.tick()
                        });
                        match r {
                            None => {
                                w(|w| w.msgs[id as usize].cancelled = Some(t));
                                strong_drop(s, k);
                                return false;
                            }
                            Some(Ok(())) => {
                                if w(|w| !w.msgs[id as usize].handled.iter().any(|h| h.2.is_some())) {
                                    fail("C25", format!("item {id} of the sink is done although it was not handled"));
                                }
                            }
                            Some(Err(e)) => {
                                if w(|w| w.msgs[id as usize].handled.iter().any(|h| h.2.is_some())) {
                                    fail("C25", format!("item {id} of the sink fails with {e} although it was handled"));
                                }
                                if w(|w| w.mbx.iter().any(|b| b.end0.is_none())) {
                                    fail("C25", format!("item {id} of the sink fails with {e} although a mailbox exists"));
                                }
                                break;
                            }
                        }
                    }
                    strong_drop(s, k);
                }
            }
            // -- receiving
            'R' | 'Q' | 'q' | 'I' | 'J' => {
                if !self.recv_begin() {
                    return true;
                }
                let mb = &self.mbox.as_ref().unwrap().0;
                let mut f = mb.next();
                let msg = match o {
                    'Q' | 'q' => {
                        let s = next_seq();
                        let wk = waker(rt::cur(), s);
                        match Pin::new(&mut f).poll(&mut Cx::from_waker(&wk)) {
                            Poll::Ready(m) => Some(m),
                            Poll::Pending => {
                                if o == 'q' {
                                    // Wait until woken, then drop it without another poll.
                                    if !rt::park() {
                                        drop(f);
                                        set_at(me, At::Nothing);
                                        return false;
                                    }
                                }
                                set_at(me, At::Nothing);
                                rt::note("drops its receive");
                                drop(f);
                                return true;
                            }
                        }
                    }
                    _ => block(&mut f, || {}),
                };
                drop(f);
                let msg = match msg {
                    None => {
                        set_at(me, At::Nothing);
                        return false;
                    }
                    Some(m) => m,
                };
                set_at(me, At::Other);
                match o {
                    'I' => {
                        rt::note("discards what it received");
                        w(|w| w.discarding[me] = true);
                        drop(msg);
                        w(|w| w.discarding[me] = false);
                        set_at(me, At::Nothing);
                    }
                    'J' => {
                        let mut act = self.act.take().unwrap();
                        let mut d = Box::pin(msg.dispatch_to(&mut act));
                        let s = next_seq();
                        let wk = waker(rt::cur(), s);
                        let r = d.as_mut().poll(&mut Cx::from_waker(&wk));
                        drop(d);
                        self.act = Some(act);
                        if let Poll::Ready(c) = r {
                            self.dispatched(c.is_break());
                        }
                        set_at(me, At::Nothing);
                    }
                    _ => {
                        let mut act = self.act.take().unwrap();
                        let r = block(msg.dispatch_to(&mut act), || {});
                        self.act = Some(act);
                        match r {
                            None => return false,
                            Some(c) => self.dispatched(c.is_break()),
                        }
                    }
                }
            }
            'L' => {
                if !self.recv_begin() {
                    return true;
                }
                let (mb, k) = self.mbox.take().unwrap();
                let act = self.act.take().unwrap();
                let r = block(xtra::run(mb, act), || {});
                if r.is_some() {
                    // The mailbox has just gone away with the event loop.
                    w(|w| {
                        w.actor_stopped(me);
                        if w.stopped[me] != 1 || w.started[me] != 1 {
                            fail("C17", format!("the event loop of actor {me} ended: started {}, stopped {}", w.started[me], w.stopped[me]));
                        }
                    });
                    rt::note("event loop ended");
                }
                if w(|w| w.mbx[k].end0.is_none()) {
                    mbox_drop(k);
                }
                mbox_dropped(k);
                set_at(me, At::Nothing);
                self.stopped = true;
                return r.is_some();
            }
            'A' | 'j' => {
                // Alongside a future that is completed by 'F'.
                if !self.recv_begin() {
                    return true;
                }
                let mut act = self.act.take().unwrap();
                let mb = &self.mbox.as_ref().unwrap().0;
                let fut = FlagFut(self.flag.clone());
                let mut stop = false;
                if o == 'j' {
                    set_at(me, At::Other);
                }
                let r = if o == 'A' {
                    block(xtra::select(mb, &mut act, fut), || {}).map(|e| stop = matches!(e, Either::Right(_)))
                } else {
                    block(xtra::join(mb, &mut act, fut), || {})
                };
                self.act = Some(act);
                set_at(me, At::Nothing);
                if r.is_none() {
                    return false;
                }
                if stop {
                    self.dispatched(true);
                } else if !self.flag.set.lock().unwrap().0 {
                    fail("C18", "select or join ended although the future was not complete".into());
                }
            }
            'F' => {
                let wk = {
                    let mut g = self.flag.set.lock().unwrap();
                    g.0 = true;
                    g.1.take()
                };
                if let Some(wk) = wk {
                    wk.wake();
                }
            }
            // -- handles
            'a' => self.drop_addr(),
            'm' => self.drop_mailbox(),
            'M' => {
                // Another mailbox takes the place of this one.
                if let Some((m, k)) = self.mbox.take() {
                    let from = w(|w| w.tick());
                    let n = m.clone();
                    let t = w(|w| {
                        let t = w.tick();
                        w.mbx.push(Span { owner: me, from, born: t, end0: None, end1: None });
                        w.mbx.len() - 1
                    });
                    w(|w| w.mbx[k].owner = 100 + k);
                    mbox_drop(k);
                    drop(m);
                    mbox_dropped(k);
                    self.mbox = Some((n, t));
                }
            }
            'O' => {
                if let Some((a, k)) = self.addr.take() {
                    self.weak = Some(a.downgrade());
                    strong_drop(a, k);
                }
            }
            'o' => {
                // Into a message channel.
                if let Some((a, k)) = self.addr.take() {
                    self.chan = Some((MessageChannel::new(a), k));
                }
            }
            'U' => {
                if let Some(wa) = &self.weak {
                    let inv = w(|w| w.tick());
                    rt::note("upgrades its weak address");
                    let r = wa.try_upgrade();
                    let (dead, alive) = w(|w| {
                        (
                            w.strong.iter().all(|s| s.end1.map_or(false, |e| e < inv)),
                            w.strong.iter().any(|s| s.born < inv && s.owner < 90 && s.end0.is_none()),
                        )
                    });
                    match r {
                        Some(a) => {
                            if dead {
                                fail("C12", format!("task {me} upgrades a weak address although no strong one existed"));
                            }
                            let k = strong_born(me);
                            w(|w| w.upgraded = true);
                            self.drop_addr();
                            self.addr = Some((a, k));
                        }
                        None => {
                            if alive {
                                fail("C12", format!("task {me} cannot upgrade a weak address although a strong one exists"));
                            }
                        }
                    }
                }
            }
            'T' | 't' => {
                let wa = match (&self.addr, &self.weak) {
                    (Some((a, _)), _) => a.downgrade(),
                    (None, Some(wa)) => wa.clone(),
                    _ => return true,
                };
                set_at(me, At::Join);
                let connected; // all the time while the future was made
                let r = if o == 'T' {
                    let j = wa.join();
                    connected = w(|w| w.strong_alive());
                    block(j, || {})
                } else {
                    let s = xtra::scoped(&wa, FlagFut(self.flag.clone()));
                    connected = w(|w| w.strong_alive());
                    block(s, || {}).map(|r| {
                        if r.is_some() && !self.flag.set.lock().unwrap().0 {
                            fail("C16", "a scoped task ended although it was not complete".into());
                        }
                        if r.is_some() {
                            set_at(me, At::Nothing);
                        }
                    })
                };
                let was = w(|w| w.at[me]);
                set_at(me, At::Nothing);
                if r.is_none() {
                    return false;
                }
                if was == At::Join && connected && w(|w| w.mailbox_alive()) {
                    fail("C16", format!("task {me} stops waiting for the actors although a mailbox exists"));
                }
            }
            'i' => {
                let inv = w(|w| w.tick());
                let r = match (&self.addr, &self.weak) {
                    (Some((a, _)), _) => a.is_connected(),
                    (None, Some(wa)) => wa.is_connected(),
                    _ => return true,
                };
                w(|w| {
                    let gone = |s: &[Span]| s.iter().all(|x| x.end1.map_or(false, |e| e < inv));
                    let there = |s: &[Span]| s.iter().any(|x| x.born < inv && x.end0.is_none());
                    if r && (gone(&w.mbx) || gone(&w.strong)) {
                        fail("C21", "connected, although no mailbox or no strong address is left".into());
                    }
                    if !r && there(&w.mbx) && there(&w.strong) {
                        fail("C21", "not connected, although there are a mailbox and a strong address".into());
                    }
                });
            }
            'l' => {
                let r = match (&self.addr, &self.weak) {
                    (Some((a, _)), _) => a.len(),
                    (None, Some(wa)) => wa.len(),
                    _ => return true,
                };
                w(|w| {
                    if w.has_stop_all {
                        return;
                    }
                    let any_b = w.msgs.iter().any(|m| m.bcast) as usize;
                    if let (Some(c), false) = (w.cap, w.requeue) {
                        let uni = w.msgs.iter().any(|m| !m.bcast) as usize;
                        if r > c * (any_b + uni) {
                            fail("C07", format!("length {r} with capacity {c}"));
                        }
                    }
                    if r > w.msgs.len() {
                        fail("C21", format!("length {r} after {} messages", w.msgs.len()));
                    }
                });
            }
            _ => panic!("no such operation: {o}"),
        }
        true
    }

    fn body(&mut self, ops: &str) {
        for o in ops.chars() {
            if !self.op(o) {
                break;
            }
        }
        // Whatever it still has goes away with the task, mailbox last.
        self.kept.clear();
        self.drop_addr();
        self.weak = None;
        self.drop_mailbox();
    }
}

thread_local! {
    pub static EXEC: Cell<u64> = const { Cell::new(0) };
}

/// One execution.
pub fn execute(sc: &Scenario) {
    let n = sc.tasks.len();
    w(|w| {
        *w = World {
            cap: sc.cap,
            requeue: sc.has("QqAj"),
            discard: sc.has("IJ"),
            at: vec![At::Nothing; n + 1],
            recv_inv: vec![0; n + 1],
            seq: vec![0; n + 1],
            discarding: vec![false; n + 1],
            started: vec![0; n + 1],
            stopped: vec![0; n + 1],
            has_stop_all: sc.has("Z"),
            has_join: sc.has("j"),
            ..World::default()
        };
    });
    let (a, m) = match sc.cap {
        None => Mailbox::unbounded(),
        Some(c) => Mailbox::bounded(c),
    };
    let weak = a.downgrade();
    let flag = Rc::new(Flag { set: spin::sync::Mutex::new((false, None)) });
    let mut a = Some(a);
    let mut m = Some(m);
    let mut want_a = sc.tasks.iter().filter(|t| t.0.contains('a')).count() + sc.main.contains('a') as usize;
    let mut want_m = sc.tasks.iter().filter(|t| t.0.contains('m')).count() + sc.main.contains('m') as usize;
    let take_a = |a: &mut Option<Address<Act>>, left: &mut usize| {
        *left -= 1;
        if *left == 0 {
            a.take().unwrap()
        } else {
            a.as_ref().unwrap().clone()
        }
    };
    let take_m = |m: &mut Option<Mailbox<Act>>, left: &mut usize| {
        *left -= 1;
        if *left == 0 {
            m.take().unwrap()
        } else {
            m.as_ref().unwrap().clone()
        }
    };
    let mut tasks = vec![];
    for (i, (h, _)) in sc.tasks.iter().enumerate() {
        let mut t = Task {
            me: i,
            addr: None,
            chan: None,
            weak: None,
            mbox: None,
            kept: vec![],
            act: None,
            stopped: false,
            flag: flag.clone(),
        };
        for c in h.chars() {
            match c {
                'a' => t.addr = Some((take_a(&mut a, &mut want_a), strong_born(i))),
                'w' => t.weak = Some(weak.clone()),
                'm' => {
                    let mb = take_m(&mut m, &mut want_m);
                    let k = w(|w| {
                        let b = w.tick();
                        w.mbx.push(Span { owner: i, from: b, born: b, end0: None, end1: None });
                        w.mbx.len() - 1
                    });
                    t.mbox = Some((mb, k));
                    t.act = Some(Act::new(i));
                }
                _ => panic!("no such handle: {c}"),
            }
        }
        tasks.push(t);
    }
    let mut main_a = sc.main.contains('a').then(|| (take_a(&mut a, &mut want_a), strong_born(50)));
    let mut main_m = sc.main.contains('m').then(|| {
        let mb = take_m(&mut m, &mut want_m);
        let k = w(|w| {
            let b = w.tick();
            w.mbx.push(Span { owner: n, from: b, born: b, end0: None, end1: None });
            w.mbx.len() - 1
        });
        (mb, k, Act::new(n))
    });
    drop(a);
    drop(m);
    let names: Vec<String> = (0..n).map(|i| format!("task {i}")).collect();
    for (i, mut t) in tasks.into_iter().enumerate() {
        let ops = sc.tasks[i].1.clone();
        rt::spawn(names[i].clone(), move || t.body(&ops));
    }
    rt::run();
    if rt::failed() {
        return leave(weak, main_a, main_m);
    }
    // The rest always goes the same way.
    rt::freeze();
    let fresh = sc.has("M");
    let check = |phase: &str| {
        let l = if fresh || !rt::locked_up().is_empty() { None } else { Some(weak.len()) };
        w(|w| w.quiescent(phase, l));
        rt::failed()
    };
    if check("in the end") {
        return leave(weak, main_a, main_m);
    }
    if let Some((mb, _, act)) = main_m.as_mut() {
        let wk = noop();
        let mut cx = Cx::from_waker(&wk);
        loop {
            let mut f = mb.next();
            let p = Pin::new(&mut f).poll(&mut cx);
            drop(f);
            match p {
                Poll::Ready(msg) => {
                    let mut d = Box::pin(msg.dispatch_to(act));
                    let mut brk = false;
                    for _ in 0..5 {
                        if let Poll::Ready(c) = d.as_mut().poll(&mut cx) {
                            brk = c.is_break();
                            break;
                        }
                    }
                    drop(d);
                    rt::run();
                    if brk {
                        break;
                    }
                }
                Poll::Pending => break,
            }
            if rt::failed() {
                return leave(weak, main_a, main_m);
            }
        }
        if check("after draining") {
            return leave(weak, main_a, main_m);
        }
    }
    if let Some((a, k)) = main_a.take() {
        strong_drop(a, k);
        rt::run();
        if check("after the last address was dropped") {
            return leave(weak, main_a, main_m);
        }
    }
    if let Some((mb, k, act)) = main_m.take() {
        mbox_drop(k);
        drop(mb);
        mbox_dropped(k);
        drop(act);
        rt::run();
        if check("after the main mailbox was dropped") {
            return leave(weak, main_a, main_m);
        }
    }
    rt::abort();
    rt::run();
    if !rt::locked_up().is_empty() {
        check("when all give up");
        return leave(weak, main_a, main_m);
    }
    drop(weak);
    drop(flag);
    if !rt::failed() {
        w(|w| w.end());
    }
}

/// After a failure nothing can be relied upon.
fn leave<A, B, C>(a: A, b: B, c: C) {
    std::mem::forget((a, b, c));
}

#[allow(dead_code)]
fn unused(_: RefCell<()>) {}

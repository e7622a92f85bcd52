//! Actors, messages, wakers and the thread-local event log shared by all harness code.
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context as TCx, Poll, Wake, Waker};

use xtra::prelude::*;
use xtra::refcount::{Either, Strong, Weak};
use xtra::WeakAddress;

/// Everything observable that happens inside the library's call-backs.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    StartedB(u32),
    StartedE(u32),
    StoppedB(u32),
    StoppedE(u32),
    /// handler started: actor, message
    Start(u32, u32),
    End(u32, u32),
    /// handler future dropped before completion
    HDrop(u32, u32),
    MsgDrop(u32),
    ActDrop(u32),
    /// inner future of a scoped task / select / join polled
    InnerPoll(u32),
    /// the handler of the message resumes after its select or join; whether that gave the output
    NestEnd(u32, bool),
}

thread_local! {
    pub static LOG: RefCell<Vec<Ev>> = RefCell::new(Vec::with_capacity(1024));
    pub static GATES: RefCell<Vec<Gate>> = RefCell::new(Vec::with_capacity(64));
    pub static LIVE_WAKERS: Cell<i64> = const { Cell::new(0) };
    pub static LIVE_RETS: Cell<i64> = const { Cell::new(0) };
    pub static LIVE_ACTS: Cell<i64> = const { Cell::new(0) };
    /// live copies of broadcast values by id
    pub static BC_LIVE: RefCell<Vec<i32>> = RefCell::new(Vec::with_capacity(64));
    pub static MSG_DROPS: RefCell<Vec<i32>> = RefCell::new(Vec::with_capacity(64));
}

#[derive(Default)]
pub struct Gate {
    pub open: bool,
    pub wakers: Vec<Waker>,
    pub panics: bool,
}

pub fn log(e: Ev) {
    let _ = LOG.try_with(|l| l.borrow_mut().push(e));
}

pub fn take_log(into: &mut Vec<Ev>) {
    into.clear();
    LOG.with(|l| into.append(&mut l.borrow_mut()));
}

pub fn reset() {
    let left = crate::sim::STASH.with(|s| std::mem::take(&mut *s.borrow_mut()));
    drop(left);
    LOG.with(|l| l.borrow_mut().clear());
    GATES.with(|g| g.borrow_mut().clear());
    LIVE_WAKERS.with(|c| c.set(0));
    LIVE_RETS.with(|c| c.set(0));
    LIVE_ACTS.with(|c| c.set(0));
    BC_LIVE.with(|c| c.borrow_mut().clear());
    MSG_DROPS.with(|c| c.borrow_mut().clear());
}

pub fn gate_set(id: u32, open: bool) {
    let w = GATES.with(|g| {
        let mut g = g.borrow_mut();
        while g.len() <= id as usize {
            g.push(Gate::default());
        }
        g[id as usize].open = open;
        if open {
            std::mem::take(&mut g[id as usize].wakers)
        } else {
            vec![]
        }
    });
    for w in w {
        w.wake()
    }
}

pub fn gates_clear_wakers() {
    let ws: Vec<Waker> = GATES.with(|g| g.borrow_mut().iter_mut().flat_map(|g| std::mem::take(&mut g.wakers)).collect());
    drop(ws);
}

pub fn gate_is_open(id: u32) -> bool {
    GATES.with(|g| g.borrow().get(id as usize).map_or(false, |g| g.open))
}

/// Whoever polls the inner future with that gate next sees it panic.
pub fn gate_panic(id: u32) {
    gate_set(id, false);
    GATES.with(|g| g.borrow_mut()[id as usize].panics = true);
    gate_set_wake(id);
}
pub fn gate_panics(id: u32) -> bool {
    GATES.with(|g| g.borrow().get(id as usize).map_or(false, |g| g.panics))
}
fn gate_set_wake(id: u32) {
    let ws = GATES.with(|g| std::mem::take(&mut g.borrow_mut()[id as usize].wakers));
    for w in ws {
        w.wake()
    }
}

pub struct GateFut(pub u32);
impl Future for GateFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut TCx<'_>) -> Poll<()> {
        if gate_is_open(self.0) {
            return Poll::Ready(());
        }
        // several handlers may wait for the same gate (a broadcast, handled by several receivers)
        let w = cx.waker().clone();
        GATES.with(|g| {
            let mut g = g.borrow_mut();
            while g.len() <= self.0 as usize {
                g.push(Gate::default());
            }
            let ws = &mut g[self.0 as usize].wakers;
            if !ws.iter().any(|x| x.will_wake(&w)) {
                ws.push(w)
            }
        });
        Poll::Pending
    }
}

/// A future of a select/join/scoped call: ready once its gate is open.
pub struct Inner(pub u32);
impl Future for Inner {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut TCx<'_>) -> Poll<u32> {
        log(Ev::InnerPoll(self.0));
        if gate_panics(self.0) {
            panic!("inner future panic (intended)");
        }
        let mut g = GateFut(self.0);
        Pin::new(&mut g).poll(cx).map(|()| self.0)
    }
}

pub struct W {
    pub woken: AtomicBool,
}
impl W {
    pub fn new() -> Arc<W> {
        LIVE_WAKERS.with(|c| c.set(c.get() + 1));
        Arc::new(W { woken: AtomicBool::new(false) })
    }
    pub fn is(&self) -> bool {
        self.woken.load(Ordering::Relaxed)
    }
}
impl Drop for W {
    fn drop(&mut self) {
        let _ = LIVE_WAKERS.try_with(|c| c.set(c.get() - 1));
    }
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::Relaxed)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::Relaxed)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Imm,
    Gate,
    StopSelf,
    StopAll,
    /// stop_self, then wait for the gate
    StopSelfGate,
    StopAllGate,
    /// stop_self, then stop_all
    StopSelfAll,
    /// stop_all, then stop_self, then wait for the gate
    StopAllSelfGate,
    Panic,
    /// pending at a gate, then panics
    GatePanic,
    /// leaves a new receive / a clone / an address of `ctx.mailbox()` behind
    CtxNext,
    CtxMb,
    CtxAddr,
    /// the same, then waits for the gate
    CtxNextGate,
    CtxMbGate,
    /// `select(ctx.mailbox(), self, gate)` in the handler
    Sel,
    /// the same with `join`
    JoinF,
    /// and with stop_self afterwards
    SelStop,
}

/// Something owned by a message, released when the message is dropped.
#[allow(dead_code)]
pub enum Own {
    None,
    Addr(AnyAddr),
    Mb(Mailbox<Act>),
    Fut(Pin<Box<dyn Future<Output = ()> + Send>>),
}

pub struct Msg {
    pub id: u32,
    pub kind: Kind,
    pub own: Own,
}
impl Msg {
    pub fn new(id: u32, kind: Kind) -> Msg {
        Msg { id, kind, own: Own::None }
    }
}
impl Drop for Msg {
    fn drop(&mut self) {
        let id = self.id as usize;
        let _ = MSG_DROPS.try_with(|c| {
            let mut c = c.borrow_mut();
            while c.len() <= id {
                c.push(0)
            }
            c[id] += 1;
        });
        log(Ev::MsgDrop(self.id));
        let tied = TIED.try_with(|t| t.borrow_mut().remove(&self.id));
        drop(tied);
    }
}

thread_local! {
    /// Futures that are owned by the message they are about.
    pub static TIED: std::cell::RefCell<std::collections::BTreeMap<u32, Pin<Box<dyn Future<Output = ()> + Send>>>> = Default::default();
}

pub struct Ret(pub u32);
impl Ret {
    fn new(id: u32) -> Ret {
        LIVE_RETS.with(|c| c.set(c.get() + 1));
        Ret(id)
    }
}
impl Drop for Ret {
    fn drop(&mut self) {
        let _ = LIVE_RETS.try_with(|c| c.set(c.get() - 1));
    }
}

pub struct Bc {
    pub id: u32,
    pub kind: Kind,
}
impl Bc {
    pub fn new(id: u32, kind: Kind) -> Bc {
        BC_LIVE.with(|c| {
            let mut c = c.borrow_mut();
            while c.len() <= id as usize {
                c.push(0)
            }
            c[id as usize] += 1;
        });
        Bc { id, kind }
    }
}
impl Clone for Bc {
    fn clone(&self) -> Bc {
        Bc::new(self.id, self.kind)
    }
}
impl Drop for Bc {
    fn drop(&mut self) {
        let _ = BC_LIVE.try_with(|c| c.borrow_mut()[self.id as usize] -= 1);
    }
}

/// Message for sinks: handler returns ().
pub struct SinkMsg(pub Msg);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum StartMode {
    Ok,
    Err,
    GateOk(u32),
    GateErr(u32),
    /// the start hook runs a select of its own
    Sel(u32),
    /// the start hook runs a join of its own
    JoinF(u32),
    /// the start hook panics
    Panic,
    /// the stop hook panics
    StopPanic,
}

pub struct Act {
    pub id: u32,
    pub start: StartMode,
    pub stop_gate: Option<u32>,
}
impl Act {
    pub fn new(id: u32) -> Act {
        LIVE_ACTS.with(|c| c.set(c.get() + 1));
        Act { id, start: StartMode::Ok, stop_gate: None }
    }
}
impl Drop for Act {
    fn drop(&mut self) {
        let _ = LIVE_ACTS.try_with(|c| c.set(c.get() - 1));
        log(Ev::ActDrop(self.id));
    }
}

pub const STOP_ERR: u32 = 7_000_000;
pub const STOP_OK: u32 = 8_000_000;
/// stands for the start hook of an actor where a message is expected
pub const HOOK: u32 = 9_000_000;

impl Actor for Act {
    type Stop = u32;
    async fn started(&mut self, _mailbox: &Mailbox<Self>) -> Result<(), u32> {
        log(Ev::StartedB(self.id));
        match self.start {
            StartMode::GateOk(g) | StartMode::GateErr(g) => GateFut(g).await,
            StartMode::Panic => panic!("start hook panic (intended)"),
            StartMode::Sel(g) => {
                let left = match xtra::select(_mailbox, self, Inner(g)).await {
                    futures_util::future::Either::Left(x) => x == g,
                    futures_util::future::Either::Right(_) => false,
                };
                log(Ev::NestEnd(HOOK + self.id, left));
            }
            StartMode::JoinF(g) => {
                let x = xtra::join(_mailbox, self, Inner(g)).await;
                log(Ev::NestEnd(HOOK + self.id, x == g));
            }
            _ => {}
        }
        log(Ev::StartedE(self.id));
        match self.start {
            StartMode::GateErr(_) | StartMode::Err | StartMode::Panic => Err(STOP_ERR + self.id),
            _ => Ok(()),
        }
    }
    async fn stopped(self) -> u32 {
        log(Ev::StoppedB(self.id));
        if self.start == StartMode::StopPanic {
            panic!("stop hook panic (intended)");
        }
        if let Some(g) = self.stop_gate {
            GateFut(g).await;
        }
        log(Ev::StoppedE(self.id));
        STOP_OK + self.id
    }
}

struct HGuard(u32, u32, bool);
impl Drop for HGuard {
    fn drop(&mut self) {
        log(if self.2 { Ev::End(self.0, self.1) } else { Ev::HDrop(self.0, self.1) });
    }
}

async fn behave(me: &mut Act, id: u32, kind: Kind, ctx: &mut Context<Act>) {
    let act = me.id;
    log(Ev::Start(act, id));
    let mut g = HGuard(act, id, false);
    match kind {
        Kind::Imm => {}
        Kind::Gate => GateFut(id).await,
        Kind::StopSelf => ctx.stop_self(),
        Kind::StopAll => ctx.stop_all(),
        Kind::StopSelfGate => {
            ctx.stop_self();
            GateFut(id).await
        }
        Kind::StopAllGate => {
            ctx.stop_all();
            GateFut(id).await
        }
        Kind::StopSelfAll => {
            ctx.stop_self();
            ctx.stop_all();
        }
        Kind::StopAllSelfGate => {
            ctx.stop_all();
            ctx.stop_self();
            GateFut(id).await
        }
        Kind::Panic => panic!("handler panic (intended)"),
        Kind::CtxNext | Kind::CtxMb | Kind::CtxAddr => crate::sim::stash(ctx.mailbox(), kind),
        Kind::CtxNextGate | Kind::CtxMbGate => {
            crate::sim::stash(ctx.mailbox(), kind);
            GateFut(id).await
        }
        Kind::Sel | Kind::SelStop => {
            let left = match xtra::select(ctx.mailbox(), me, Inner(id)).await {
                futures_util::future::Either::Left(g) => g == id,
                futures_util::future::Either::Right(_) => false,
            };
            log(Ev::NestEnd(id, left));
            if kind == Kind::SelStop {
                ctx.stop_self()
            }
        }
        Kind::JoinF => {
            let g = xtra::join(ctx.mailbox(), me, Inner(id)).await;
            log(Ev::NestEnd(id, g == id));
        }
        Kind::GatePanic => {
            GateFut(id).await;
            panic!("handler panic (intended)")
        }
    }
    g.2 = true;
}

impl Handler<Msg> for Act {
    type Return = Ret;
    async fn handle(&mut self, m: Msg, ctx: &mut Context<Self>) -> Ret {
        behave(self, m.id, m.kind, ctx).await;
        Ret::new(m.id)
    }
}
impl Handler<Bc> for Act {
    type Return = ();
    async fn handle(&mut self, m: Bc, ctx: &mut Context<Self>) {
        behave(self, m.id, m.kind, ctx).await;
    }
}
impl Handler<SinkMsg> for Act {
    type Return = ();
    async fn handle(&mut self, m: SinkMsg, ctx: &mut Context<Self>) {
        behave(self, m.0.id, m.0.kind, ctx).await;
    }
}

/// Any kind of handle.
pub enum AnyAddr {
    S(Address<Act>),
    W(WeakAddress<Act>),
    E(Address<Act, Either>),
    CS(MessageChannel<Msg, Ret, Strong>),
    CW(MessageChannel<Msg, Ret, Weak>),
    CE(MessageChannel<Msg, Ret, Either>),
}
#[macro_export]
macro_rules! each {
    ($s:expr, $a:ident => $e:expr) => {
        match $s {
            AnyAddr::S($a) => $e,
            AnyAddr::W($a) => $e,
            AnyAddr::E($a) => $e,
            AnyAddr::CS($a) => $e,
            AnyAddr::CW($a) => $e,
            AnyAddr::CE($a) => $e,
        }
    };
}

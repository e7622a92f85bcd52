//! The simulated world: real xtra objects side by side with the reference model.
//!
//! Every public op executes one API call (or one poll) on the real objects, then steps the
//! model and compares. Where the specification leaves a choice the model follows the choice the
//! code made, as far as it is one of the permitted ones.
use std::fmt::Debug;
use std::future::Future;
use std::ops::ControlFlow;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context as TCx, Poll, Waker};

use futures_util::future::Either as FEither;
use futures_util::future::FusedFuture;
use futures_util::{FutureExt, Sink};
use xtra::prelude::*;
use xtra::{Error, Receiver};

use crate::each;
use crate::rt::*;

pub type P = &'static str;
pub type BoxFut<T> = Pin<Box<dyn Future<Output = T> + Send>>;
pub type LocalFut<T> = Pin<Box<dyn Future<Output = T>>>;

#[derive(Clone, Debug)]
pub struct Mis {
    /// properties contradicted; empty: the path is abandoned (ambiguous observation)
    pub props: Vec<P>,
    pub what: String,
}
pub type R<T = ()> = Result<T, Mis>;

pub fn bad<T>(props: &[P], what: impl Into<String>) -> R<T> {
    Err(Mis { props: props.to_vec(), what: what.into() })
}

/// The property that is being decided. Observations that contradict others only are passed over
/// where the model can go on regardless, such that they do not hide what comes after them.
pub static TARGET: std::sync::OnceLock<String> = std::sync::OnceLock::new();
pub fn relevant(props: &[P]) -> bool {
    TARGET.get().map_or(true, |t| t == "ALL" || props.iter().any(|p| p == t))
}

const STOP: u32 = u32::MAX;
const STOP_PRIO: u64 = 1 << 40;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Flavor {
    S,
    E,
    CS,
    CE,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum OwnK {
    None,
    /// clone of handle h travels inside the message
    Addr(u8),
    /// handle h itself is moved into the message
    MoveAddr(u8),
    /// weak version of handle h
    WeakAddr(u8),
    /// clone of mailbox m
    Mb(u8),
    /// a waiting (already polled) receive future on mailbox m
    Recv(u8),
    /// an unpolled send future through handle h
    Send(u8),
    /// a polled (accepted or waiting) detached send future through handle h
    SendPolled(u8),
    /// a polled join future on handle h
    Join(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum D {
    Recv,
    Send,
    Reply,
    Run,
    Mb,
    H,
    Task,
    Sink,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Send { h: u8, p: u32, k: Kind, own: OwnK, plain: bool, poll: bool },
    Bcast { h: u8, p: u32, k: Kind, poll: bool },
    PollSend(u8),
    DropSend(u8),
    /// the n-th waiting send (or else accepted message): the future becomes a part of the message it sends
    Tie(u8),
    DropReply(u8),
    /// the n-th send that waits for its reply (accepted or not) is detached
    Detach(u8),
    /// another priority for the n-th unpolled send or broadcast
    Prio(u8, u32),
    /// the same for one that was polled already, which is refused
    PrioLate(u8, u32),
    Next(u8),
    Recv(u8),
    RecvDiscard(u8),
    PollRecv(u8),
    PollRecvDiscard(u8),
    DropRecv(u8),
    /// open the gate of the n-th running handler and poll it
    Finish(u8),
    PollRun(u8),
    DropRun(u8),
    CloneMb(u8),
    DropMb(u8),
    MbAddr(u8),
    CloneH(u8),
    DropH(u8),
    Downgrade(u8),
    Upgrade(u8),
    AsEither(u8),
    Channel(u8),
    Join(u8),
    JoinLazy(u8),
    PollJoin(u8),
    DropJoin(u8),
    /// the drop happens while a panic unwinds
    Unw(D, u8),
    // tasks: mailbox is moved (m) into the task
    Run { m: u8, start: StartMode, stop_gate: bool, poll: bool },
    Select { m: u8 },
    JoinF { m: u8 },
    /// with the future already complete
    SelectReady { m: u8 },
    JoinFReady { m: u8 },
    /// a select or join, and another actor run on the same mailbox once the first one is stopped
    SelectRun { m: u8 },
    JoinRun { m: u8 },
    Scoped { h: u8 },
    PollTask(u8),
    DropTask(u8),
    /// open the gate(s) the n-th task is waiting at (handler, hook or inner future)
    OpenTask(u8),
    /// open the inner future's gate of the n-th task
    OpenInner(u8),
    /// the inner future of the n-th task panics at its next poll, which happens at once
    PanicInner(u8),
    // sinks
    IntoSink(u8),
    IntoSinkCh(u8),
    SinkFeed(u8),
    SinkFlush(u8),
    SinkClose(u8),
    SinkDrop(u8),
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub cap: Option<usize>,
    pub mbs: usize,
    pub flavor: Flavor,
    pub spurious: bool,
    pub debug_counts: bool,
    pub compare: bool,
    pub max_msgs: usize,
    pub max_handles: usize,
    pub max_mbs: usize,
    pub max_recs: usize,
    /// added to the properties of every mismatch of the family
    pub extra: Vec<P>,
    pub prelude: Vec<Op>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum MSt {
    Unpolled,
    Waiting,
    Queued,
    Running,
    Handled,
    Interrupted,
    Cancelled,
    Rejected,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Rel {
    Strong,
    Rx(usize), // mbx ref
    /// an unpolled send of that message
    Cancel(u32),
    /// a waiting send
    Snd(usize),
    /// a waiting receive
    Rec(usize),
}

#[derive(Debug, Clone, Hash)]
struct MM {
    bcast: bool,
    sink: bool,
    kind: Kind,
    prio: u64,
    seq: u32,
    st: MSt,
    /// went back into the mailbox: 1 because its receive was dropped, 2 because a select or join ended
    requeued: u8,
    own: Vec<Rel>,
}

#[derive(Debug, Clone, Hash)]
struct Mbx {
    refs: usize,
    bq: Vec<(u32, u64)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum RSt {
    New,
    Idle,
    AMsg(u32),
    ABc,
    AStop,
    Done,
}

pub type GotFn = Box<dyn FnOnce(Act) -> LocalFut<ControlFlow<()>>>;

struct Rec {
    mbx: usize,
    st: RSt,
    fut: Option<LocalFut<GotFn>>,
    w: Option<Arc<W>>,
    seen: bool,
    live: bool,
    /// owned by a message: cannot be polled
    owned: bool,
}

enum SendOut {
    Reply(Receiver<Ret>),
    Value(Result<Ret, Error>),
    Bc(Result<(), Error>),
    Err(Error),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum SSt {
    Unpolled,
    Waiting,
    Admitted,
    Closed,
    Gone,
}

struct Snd {
    fut: Option<SendBox>,
    id: u32,
    plain: bool,
    bcast: bool,
    st: SSt,
    w: Option<Arc<W>>,
    seen: bool,
    strong: bool,
}

/// A send of any type of address, as the future it is and with what else it offers.
trait SendDyn: Future<Output = SendOut> + Send {
    fn detach(self: Pin<Box<Self>>) -> SendBox;
    fn priority(self: Pin<&mut Self>, p: u32);
}
type SendBox = Pin<Box<dyn SendDyn>>;

struct SendFut<F: Future> {
    f: Option<F>,
    out: fn(F::Output) -> SendOut,
    detach: fn(F) -> SendBox,
    prio: fn(F, u32) -> F,
}
impl<F: Future + Unpin> Future for SendFut<F> {
    type Output = SendOut;
    fn poll(mut self: Pin<&mut Self>, cx: &mut TCx<'_>) -> Poll<SendOut> {
        Pin::new(self.f.as_mut().unwrap()).poll(cx).map(self.out)
    }
}
impl<F: Future + Unpin + Send + 'static> SendDyn for SendFut<F> {
    fn detach(mut self: Pin<Box<Self>>) -> SendBox {
        (self.detach)(self.f.take().unwrap())
    }
    fn priority(mut self: Pin<&mut Self>, p: u32) {
        let f = self.f.take().unwrap();
        self.f = Some((self.prio)(f, p));
    }
}

fn reply_out(r: Result<Receiver<Ret>, Error>) -> SendOut {
    match r {
        Ok(r) => SendOut::Reply(r),
        Err(e) => SendOut::Err(e),
    }
}
/// A macro, as what a send offers is bounded by private traits.
macro_rules! detached {
    ($f:expr) => {
        Box::pin(SendFut { f: Some($f), out: reply_out, detach: |_| unreachable!(), prio: |f, p| f.priority(p) }) as SendBox
    };
}
macro_rules! attached {
    ($f:expr) => {
        Box::pin(SendFut { f: Some($f), out: SendOut::Value, detach: |f| detached!(f.detach()), prio: |f, p| f.priority(p) }) as SendBox
    };
}
macro_rules! broadcasting {
    ($f:expr) => {
        Box::pin(SendFut { f: Some($f), out: SendOut::Bc, detach: |_| unreachable!(), prio: |f, p| f.priority(p) }) as SendBox
    };
}

enum ReplyFut {
    Detached(BoxFut<Result<Option<Ret>, Error>>),
    Attached(SendBox),
}
impl Future for ReplyFut {
    type Output = Result<Option<Ret>, Error>;
    fn poll(self: Pin<&mut Self>, cx: &mut TCx<'_>) -> Poll<Self::Output> {
        match self.get_mut() {
            ReplyFut::Detached(f) => f.as_mut().poll(cx),
            ReplyFut::Attached(f) => f.as_mut().poll(cx).map(|o| match o {
                SendOut::Value(v) => v.map(Some),
                _ => unreachable!(),
            }),
        }
    }
}

struct Reply {
    fut: Option<ReplyFut>,
    id: u32,
    w: Option<Arc<W>>,
}

struct RunS {
    fut: Option<LocalFut<ControlFlow<()>>>,
    id: u32,
    bcast: bool,
    mbx: usize,
    act: u32,
    w: Arc<W>,
    live: bool,
}

struct JoinS {
    fut: Option<xtra::address::ActorJoinHandle>,
    w: Option<Arc<W>>,
    pre: bool,
    lazy: bool,
    done: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum TK {
    Run,
    Select,
    JoinF,
    Scoped,
}

#[derive(Debug)]
enum TOut {
    Stop(u32),
    /// select returned left, then run
    Left(u32, u32),
    Right,
    Joined(u32),
    Scoped(Option<u32>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Pc {
    Init,
    Starting,
    Loop,
    Handling(u32),
    MustStop,
    Stopping,
    Returning(u32),
    SelLoop,
    SelHandling(u32),
    SelMustRight,
    SelLeft,
    SelLeftHandling(u32),
    JoinOnly,
    ScopedWait,
    Finished,
}

struct Task {
    kind: TK,
    fut: Option<LocalFut<TOut>>,
    w: Option<Arc<W>>,
    act: u32,
    mbx: usize,
    pc: Pc,
    rec: Option<usize>,
    inner: u32,
    start: StartMode,
    stop_gate: Option<u32>,
    stop_panic: bool,
    pre: bool,
    stop_flag: bool,
    left_done: Option<u32>,
    /// handlers that run a select or join of their own, the innermost one last
    outer: Vec<Frame>,
    /// messages whose handlers ran an event loop that was stopped
    stopped_in: Vec<u32>,
    /// the actor to run on the same mailbox next
    second: Option<u32>,
}

struct Frame {
    /// the state to go on in
    pc: Pc,
    id: u32,
    kind: TK,
    inner: u32,
    left_done: Option<u32>,
}

struct SinkS {
    sink: Option<Pin<Box<dyn Sink<SinkMsg, Error = Error>>>>,
    w: Option<Arc<W>>,
    strong: bool,
    /// message currently inside the sink: (id, model state)
    cur: Option<u32>,
    cur_polled: bool,
    failed: bool,
}

struct HS {
    a: AnyAddr,
    strong: bool,
}

struct MbS {
    mb: Mailbox<Act>,
    mbx: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Got {
    Pending,
    Msg(u32),
    Stop,
    /// discarded without trace: a broadcast copy or a stop
    Silent,
}

pub struct Sim {
    pub cfg: Cfg,
    // real objects (dropped explicitly)
    handles: Vec<Option<HS>>,
    mailboxes: Vec<Option<MbS>>,
    sends: Vec<Snd>,
    replies: Vec<Reply>,
    runs: Vec<RunS>,
    joins: Vec<JoinS>,
    tasks: Vec<Task>,
    sinks: Vec<SinkS>,
    recs: Vec<Rec>,
    others: Vec<(Address<Act>, Mailbox<Act>)>,
    // model
    strong: usize,
    rx: usize,
    mbx: Vec<Mbx>,
    uq: Vec<u32>,
    idle: Vec<usize>,
    w1: Vec<usize>,
    w2: Vec<usize>,
    msgs: Vec<MM>,
    dead: bool,
    seq: u32,
    act_seq: u32,
    /// handlers started
    started: usize,
    /// a queued message owns a receiver of its own channel: never freed, as with any channel
    pub cycle: bool,
    gate_seq: u32,
    evs: Vec<Ev>,
    pub trace: Option<Vec<String>>,
}

fn poll_box<F: Future + Unpin>(f: &mut F, w: &Arc<W>) -> Result<Poll<F::Output>, ()> {
    let wk = Waker::from(w.clone());
    let r = catch_unwind(AssertUnwindSafe(|| Pin::new(f).poll(&mut TCx::from_waker(&wk))));
    r.map_err(|_| ())
}
fn poll_local<T>(f: &mut LocalFut<T>, w: &Arc<W>) -> Result<Poll<T>, ()> {
    let wk = Waker::from(w.clone());
    let r = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut TCx::from_waker(&wk))));
    r.map_err(|_| ())
}

/// Runs `f` in a destructor while a panic unwinds.
fn unwinding<T>(f: impl FnOnce() -> T) -> T {
    struct G<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for G<F> {
        fn drop(&mut self) {
            (self.0.take().unwrap())()
        }
    }
    let mut out = None;
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _g = G(Some(|| out = Some(catch_unwind(AssertUnwindSafe(f)))));
        panic!("unwinding (intended)");
    }));
    match out.unwrap() {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn mk_got(f: impl Future<Output = GotFn> + 'static) -> LocalFut<GotFn> {
    Box::pin(f)
}

thread_local! {
    /// A receive that is not complete claims to be, or the other way round.
    pub static TERMINATED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Checks whether a receive knows that it is complete.
struct Fused<F>(F);
impl<F: FusedFuture + Unpin> Future for Fused<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut TCx<'_>) -> Poll<Self::Output> {
        let r = Pin::new(&mut self.0).poll(cx);
        if self.0.is_terminated() != r.is_ready() {
            TERMINATED.with(|c| c.set(true));
        }
        r
    }
}

/// Pending receive as a boxed future yielding a dispatch closure.
fn mk_recv(mb: &Mailbox<Act>) -> LocalFut<GotFn> {
    let f = mb.next();
    if f.is_terminated() {
        TERMINATED.with(|c| c.set(true));
    }
    mk_got(Fused(f).map(|m| {
        Box::new(move |mut act: Act| {
            // the async block drops the dispatch future, then the actor
            let b: LocalFut<ControlFlow<()>> = Box::pin(async move { m.dispatch_to(&mut act).await });
            b
        }) as GotFn
    }))
}

/// What handlers leave behind.
pub enum Stash {
    Recv(LocalFut<GotFn>),
    Mb(Mailbox<Act>),
    Addr(xtra::WeakAddress<Act>),
}
thread_local! {
    pub static STASH: std::cell::RefCell<std::collections::VecDeque<Stash>> = Default::default();
}
pub fn stash(mb: &Mailbox<Act>, k: Kind) {
    let x = match k {
        Kind::CtxNext | Kind::CtxNextGate => Stash::Recv(mk_recv(mb)),
        Kind::CtxMb | Kind::CtxMbGate => Stash::Mb(mb.clone()),
        _ => Stash::Addr(mb.address()),
    };
    STASH.with(|s| s.borrow_mut().push_back(x));
}
fn is_stash(k: Kind) -> bool {
    matches!(k, Kind::CtxNext | Kind::CtxNextGate | Kind::CtxMb | Kind::CtxMbGate | Kind::CtxAddr)
}

fn is_gate(k: Kind) -> bool {
    matches!(k, Kind::StopAllSelfGate | Kind::CtxNextGate | Kind::CtxMbGate | Kind::Gate | Kind::StopSelfGate | Kind::StopAllGate | Kind::GatePanic)
}
fn is_panic(k: Kind) -> bool {
    matches!(k, Kind::Panic | Kind::GatePanic)
}
fn is_stop_self(k: Kind) -> bool {
    matches!(k, Kind::StopSelf | Kind::StopSelfGate | Kind::StopSelfAll | Kind::StopAllSelfGate | Kind::SelStop)
}
fn is_nest(k: Kind) -> Option<TK> {
    match k {
        Kind::Sel | Kind::SelStop => Some(TK::Select),
        Kind::JoinF => Some(TK::JoinF),
        _ => None,
    }
}
fn is_stop_all(k: Kind) -> bool {
    matches!(k, Kind::StopAll | Kind::StopAllGate | Kind::StopSelfAll | Kind::StopAllSelfGate)
}

impl Sim {
    pub fn new(cfg: Cfg, trace: bool) -> Sim {
        reset();
        let (addr, mb) = match cfg.cap {
            Some(c) => Mailbox::<Act>::bounded(c),
            None => Mailbox::<Act>::unbounded(),
        };
        let a = match cfg.flavor {
            Flavor::S => AnyAddr::S(addr),
            Flavor::E => AnyAddr::E(addr.as_either()),
            Flavor::CS => AnyAddr::CS(MessageChannel::new(addr)),
            Flavor::CE => AnyAddr::CE(MessageChannel::new(addr.as_either())),
        };
        let mut mailboxes = vec![Some(MbS { mb, mbx: 0 })];
        let mut mbx = vec![Mbx { refs: 1, bq: vec![] }];
        for i in 1..cfg.mbs {
            let m = mailboxes[0].as_ref().unwrap().mb.clone();
            mailboxes.push(Some(MbS { mb: m, mbx: i }));
            mbx.push(Mbx { refs: 1, bq: vec![] });
        }
        let others = if cfg.compare { (0..2).map(|_| Mailbox::<Act>::unbounded()).collect() } else { vec![] };
        let rx = cfg.mbs;
        Sim {
            cfg,
            handles: vec![Some(HS { a, strong: true })],
            mailboxes,
            sends: vec![],
            replies: vec![],
            runs: vec![],
            joins: vec![],
            tasks: vec![],
            sinks: vec![],
            recs: vec![],
            others,
            strong: 1,
            rx,
            mbx,
            uq: vec![],
            idle: vec![],
            w1: vec![],
            w2: vec![],
            msgs: vec![],
            dead: false,
            seq: 0,
            act_seq: 0,
            started: 0,
            cycle: false,
            gate_seq: 1000,
            evs: Vec::with_capacity(64),
            trace: if trace { Some(vec![]) } else { None },
        }
    }

    fn t(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f())
        }
    }

    fn nth<T>(v: &[T], n: u8, live: impl Fn(&T) -> bool) -> Option<usize> {
        v.iter().enumerate().filter(|(_, x)| live(x)).nth(n as usize).map(|(i, _)| i)
    }
    fn h(&self, n: u8) -> Option<usize> {
        Self::nth(&self.handles, n, |x| x.is_some())
    }
    fn m(&self, n: u8) -> Option<usize> {
        Self::nth(&self.mailboxes, n, |x| x.is_some())
    }
    fn s(&self, n: u8) -> Option<usize> {
        Self::nth(&self.sends, n, |x| x.fut.is_some())
    }
    fn r(&self, n: u8) -> Option<usize> {
        Self::nth(&self.recs, n, |x| x.live && x.fut.is_some() && !x.owned)
    }
    fn run(&self, n: u8) -> Option<usize> {
        Self::nth(&self.runs, n, |x| x.live)
    }
    fn tk(&self, n: u8) -> Option<usize> {
        Self::nth(&self.tasks, n, |x| x.fut.is_some())
    }

    // ------------------------------------------------------------------ model helpers

    /// An event loop keeps its mailbox in existence.
    fn running_prop(&self) -> Option<P> {
        self.tasks.iter().any(|t| t.kind == TK::Run && t.fut.is_some()).then_some("C17")
    }

    fn connected(&self) -> bool {
        self.strong > 0 && self.rx > 0
    }
    fn tail(&self) -> usize {
        self.mbx.iter().filter(|m| m.refs > 0).map(|m| m.bq.len()).max().unwrap_or(0)
    }
    fn cap(&self) -> usize {
        self.cfg.cap.unwrap_or(usize::MAX)
    }
    fn rec_newly(&self, rid: usize) -> bool {
        let r = &self.recs[rid];
        !r.seen && r.w.as_ref().map_or(false, |w| w.is())
    }
    fn snd_newly(&self, s: usize) -> bool {
        let r = &self.sends[s];
        !r.seen && r.w.as_ref().map_or(false, |w| w.is())
    }

    /// A unicast message is available while receivers are idle: one of them must have got it.
    fn assign_to_idle(&mut self, id: u32, props: &[P]) -> R {
        let c: Vec<usize> = (0..self.idle.len()).filter(|&i| self.rec_newly(self.idle[i])).collect();
        if c.is_empty() {
            let mut p = vec!["C04"];
            p.extend_from_slice(props);
            return bad(&p, format!("message {id} is available and receives are idle, but none of them was woken"));
        }
        if c.len() > 1 {
            return bad(&[], "ambiguous: several idle receives woken for one message");
        }
        let rid = self.idle.remove(c[0]);
        self.recs[rid].st = RSt::AMsg(id);
        self.recs[rid].seen = true;
        Ok(())
    }

    fn accept_unicast(&mut self, id: u32) -> R {
        self.msgs[id as usize].st = MSt::Queued;
        if !self.idle.is_empty() {
            self.assign_to_idle(id, &["C01"])
        } else {
            self.uq.push(id);
            Ok(())
        }
    }

    fn push_bcast(&mut self, id: u32, prio: u64, prop: P) -> R {
        for m in self.mbx.iter_mut().filter(|m| m.refs > 0) {
            m.bq.push((id, prio));
        }
        for rid in std::mem::take(&mut self.idle) {
            if !self.rec_newly(rid) {
                return bad(&["C04", prop], format!("broadcast {id} was accepted but idle receive {rid} was not woken"));
            }
            self.recs[rid].st = RSt::ABc;
            self.recs[rid].seen = true;
        }
        Ok(())
    }

    /// Room may have appeared in the unicast queue.
    fn admit_unicast(&mut self) -> R {
        if self.uq.len() >= self.cap() || self.w1.is_empty() {
            return Ok(());
        }
        let s = self.pick_waiter(true)?;
        let id = self.sends[s].id;
        self.msgs[id as usize].st = MSt::Queued;
        self.uq.push(id);
        Ok(())
    }

    fn pick_waiter(&mut self, unicast: bool) -> R<usize> {
        let list = if unicast { &self.w1 } else { &self.w2 };
        let props: &[P] = if unicast { &["C08", "C04", "C07"] } else { &["C08", "C04", "C10"] };
        let prio = |s: usize| self.msgs[self.sends[s].id as usize].prio;
        let seq = |s: usize| self.msgs[self.sends[s].id as usize].seq;
        let maxp = list.iter().map(|&s| prio(s)).max().unwrap();
        let min_seq = list.iter().filter(|&&s| prio(s) == maxp).map(|&s| seq(s)).min().unwrap();
        let ok = |s: usize| prio(s) == maxp && (maxp != 0 || seq(s) == min_seq);
        let newly: Vec<usize> = list.iter().copied().filter(|&s| self.snd_newly(s)).collect();
        if newly.is_empty() {
            return bad(props, "there is room and a waiting sender, but no waiting sender was woken");
        }
        let Some(s) = newly.iter().copied().find(|&s| ok(s)) else {
            let p0 = maxp == 0;
            let props: &[P] = if unicast && p0 { &["C08", "C06"] } else { &["C08"] };
            return bad(
                props,
                format!(
                    "waiting sender of message {} (priority {}, position {}) was admitted ahead of one with priority {} waiting since {}",
                    self.sends[newly[0]].id, prio(newly[0]), seq(newly[0]), maxp, min_seq
                ),
            );
        };
        let list = if unicast { &mut self.w1 } else { &mut self.w2 };
        list.retain(|&x| x != s);
        self.sends[s].st = SSt::Admitted;
        self.sends[s].seen = true;
        Ok(s)
    }

    fn admit_bcasts(&mut self) -> R {
        while self.tail() < self.cap() && !self.w2.is_empty() {
            let s = self.pick_waiter(false)?;
            let id = self.sends[s].id;
            let prio = self.msgs[id as usize].prio;
            self.msgs[id as usize].st = MSt::Queued;
            self.push_bcast(id, prio, "C09")?;
        }
        Ok(())
    }

    fn drop_strong(&mut self) -> R {
        self.strong -= 1;
        if self.strong == 0 {
            for rid in std::mem::take(&mut self.idle) {
                if !self.rec_newly(rid) {
                    return bad(&["C11", "C04"], format!("last strong address dropped but idle receive {rid} was not woken"));
                }
                self.recs[rid].st = RSt::AStop;
                self.recs[rid].seen = true;
            }
        }
        Ok(())
    }

    fn release_own(&mut self, id: u32) -> R {
        for r in std::mem::take(&mut self.msgs[id as usize].own) {
            match r {
                Rel::Strong => self.drop_strong()?,
                Rel::Rx(m) => self.drop_ref(m)?,
                Rel::Cancel(id) => self.msgs[id as usize].st = MSt::Cancelled,
                Rel::Snd(s) => {
                    let id = self.sends[s].id;
                    self.sends[s].w = None;
                    if self.sends[s].st == SSt::Waiting {
                        self.sends[s].st = SSt::Gone;
                        self.msgs[id as usize].st = MSt::Cancelled;
                        self.w1.retain(|&x| x != s);
                    }
                }
                Rel::Rec(r) => {
                    self.recs[r].w = None;
                    self.model_drop_rec(r)?
                }
            }
        }
        Ok(())
    }

    fn add_ref(&mut self, m: usize) {
        self.mbx[m].refs += 1;
        self.rx += 1;
    }

    fn drop_ref(&mut self, m: usize) -> R {
        self.mbx[m].refs -= 1;
        self.rx -= 1;
        if self.mbx[m].refs == 0 {
            self.mbx[m].bq.clear();
        }
        if self.rx == 0 {
            self.die()
        } else if self.mbx[m].refs == 0 {
            self.admit_bcasts()
        } else {
            Ok(())
        }
    }

    fn die(&mut self) -> R {
        self.dead = true;
        let mut rel = vec![];
        for id in std::mem::take(&mut self.uq) {
            self.msgs[id as usize].st = MSt::Interrupted;
            rel.push(id);
        }
        for s in std::mem::take(&mut self.w1).into_iter().chain(std::mem::take(&mut self.w2)) {
            let id = self.sends[s].id;
            self.sends[s].st = SSt::Closed;
            self.msgs[id as usize].st = MSt::Rejected;
            if !self.snd_newly(s) {
                return bad(&["C15", "C04"], format!("last mailbox gone but the waiting sender of message {id} was not woken"));
            }
            rel.push(id);
        }
        for id in rel {
            self.release_own(id)?;
        }
        Ok(())
    }

    fn umax(&self) -> Option<u64> {
        self.uq.iter().map(|&i| self.msgs[i as usize].prio).max()
    }
    fn bmax(&self, m: usize) -> Option<u64> {
        self.mbx[m].bq.iter().map(|x| x.1).max()
    }

    /// The receive `rid` was observed to produce `got`.
    fn on_recv(&mut self, rid: usize, got: Got) -> R {
        let st = self.recs[rid].st;
        let m = self.recs[rid].mbx;
        match st {
            RSt::New => self.fresh(rid, got),
            RSt::Idle => {
                if got == Got::Pending {
                    return Ok(());
                }
                self.idle.retain(|&x| x != rid);
                self.fresh(rid, got)
            }
            RSt::AMsg(id) => match got {
                Got::Msg(x) if x == id => {
                    self.recs[rid].st = RSt::Done;
                    self.msgs[id as usize].st = MSt::Running;
                    Ok(())
                }
                Got::Pending => bad(&["C01", "C04"], format!("receive was woken for message {id} but stays pending")),
                Got::Msg(_) => {
                    // Something else instead: then the message must be in its place in the mailbox again.
                    self.uq.push(id);
                    self.recs[rid].st = RSt::New;
                    self.fresh(rid, got)
                }
                g => bad(&["C01"], format!("receive was woken for message {id} but yields {g:?}")),
            },
            RSt::ABc => {
                if self.mbx[m].bq.is_empty() {
                    self.recs[rid].st = RSt::New;
                    return self.fresh(rid, got);
                }
                let bmax = self.bmax(m).unwrap();
                match got {
                    Got::Pending => bad(&["C09", "C04"], "receive was woken for a broadcast but stays pending"),
                    Got::Msg(id) if !self.msgs[id as usize].bcast => {
                        // returning something more urgent instead is allowed
                        self.recs[rid].st = RSt::New;
                        self.fresh(rid, got)
                    }
                    Got::Stop if bmax != STOP_PRIO => {
                        bad(&["C11", "C09"], "receive woken for a broadcast yields a stop although none was requested")
                    }
                    g => self.take_bcast(rid, g),
                }
            }
            RSt::AStop => match got {
                // something may have gone back into the mailbox, or was admitted, since
                Got::Stop if self.umax().is_some() => {
                    bad(&["C11", "C02", "C01"], "the actor stops for lack of addresses although messages are queued")
                }
                Got::Stop if self.bmax(m).map_or(false, |b| b != STOP_PRIO) => {
                    bad(&["C11", "C09"], "the actor stops for lack of addresses although broadcasts are pending for it")
                }
                Got::Stop => {
                    self.recs[rid].st = RSt::Done;
                    Ok(())
                }
                Got::Silent => {
                    self.recs[rid].st = RSt::Done;
                    Ok(())
                }
                Got::Pending => bad(&["C11", "C04"], "no strong address left but the receive stays pending"),
                g => {
                    self.recs[rid].st = RSt::New;
                    self.fresh(rid, g)
                }
            },
            RSt::Done => bad(&[], "model: receive on done"),
        }
    }

    fn take_bcast(&mut self, rid: usize, got: Got) -> R {
        let m = self.recs[rid].mbx;
        let bmax = self.bmax(m).unwrap();
        let (id, want_stop) = match got {
            Got::Stop => (STOP, true),
            Got::Msg(id) => (id, false),
            Got::Silent => {
                let c: Vec<u32> = self.mbx[m].bq.iter().filter(|x| x.1 == bmax).map(|x| x.0).collect();
                if c.iter().any(|&x| x != c[0]) {
                    return bad(&[], "ambiguous discard");
                }
                (c[0], c[0] == STOP)
            }
            Got::Pending => unreachable!(),
        };
        let Some(pos) = self.mbx[m].bq.iter().position(|x| x.0 == id) else {
            if want_stop {
                return bad(&["C11", "C14"], "a receive yields a stop although none was requested");
            }
            return bad(&["C09"], format!("broadcast {id} received by a mailbox that should not (or not again) receive it"));
        };
        let prio = self.mbx[m].bq[pos].1;
        if prio < bmax {
            if bmax == STOP_PRIO {
                return bad(&["C14", "C05"], format!("broadcast {id} received ahead of a requested stop"));
            }
            return bad(&["C05"], format!("broadcast {id} of priority {prio} received while one of priority {bmax} is pending"));
        }
        if prio == 0 {
            if let Some(o) = self.mbx[m].bq[..pos].iter().find(|x| x.1 == 0) {
                return bad(&["C06"], format!("broadcast {id} received before broadcast {}, which was sent earlier with the same (default) priority", o.0));
            }
        }
        self.mbx[m].bq.remove(pos);
        self.started += 1;
        self.recs[rid].st = RSt::Done;
        self.admit_bcasts()
    }

    fn fresh(&mut self, rid: usize, got: Got) -> R {
        let m = self.recs[rid].mbx;
        let (um, bm) = (self.umax(), self.bmax(m));
        let best = um.max(bm);
        match got {
            Got::Pending => {
                if let Some(b) = best {
                    let mut p = vec!["C01", "C04"];
                    if um.is_none() {
                        p = vec!["C09", "C04"];
                    }
                    if b == STOP_PRIO {
                        p.push("C14");
                    }
                    return bad(&p, format!("receive stays pending although work of priority {b} is queued for it"));
                }
                if self.strong == 0 {
                    return bad(&["C11", "C04"], "receive stays pending although no strong address exists");
                }
                self.recs[rid].st = RSt::Idle;
                self.recs[rid].seen = false;
                self.idle.push(rid);
                Ok(())
            }
            Got::Stop => {
                if bm == Some(STOP_PRIO) {
                    return self.take_bcast(rid, got);
                }
                if best.is_none() && self.strong == 0 {
                    self.recs[rid].st = RSt::Done;
                    return Ok(());
                }
                if self.strong == 0 {
                    return bad(&["C11", "C01"], "receive yields a stop although accepted messages are still queued");
                }
                let what = "receive yields a stop although none was requested and a strong address exists";
                if self.tasks.iter().any(|t| t.rec == Some(rid) && t.kind == TK::Run) {
                    return bad(&["C11", "C14", "C13", "C17"], what);
                }
                bad(&["C11", "C14", "C13"], what)
            }
            Got::Silent => {
                if best.is_none() && self.strong == 0 {
                    self.recs[rid].st = RSt::Done;
                    return Ok(());
                }
                if bm.is_none() || um >= bm {
                    return bad(&["C24", "C01"], "received message vanished without being dropped");
                }
                self.take_bcast(rid, got)
            }
            Got::Msg(id) => {
                if self.msgs[id as usize].bcast {
                    if let (Some(u), Some(b)) = (um, self.mbx[m].bq.iter().find(|x| x.0 == id).map(|x| x.1)) {
                        if b < u {
                            return bad(&["C05"], format!("broadcast {id} of priority {b} received while a message of priority {u} is queued"));
                        }
                    }
                    if bm.is_none() {
                        return bad(&["C09"], format!("broadcast {id} received by a mailbox that should not (or not again) receive it"));
                    }
                    return self.take_bcast(rid, got);
                }
                let Some(pos) = self.uq.iter().position(|&x| x == id) else {
                    let st = self.msgs[id as usize].st;
                    return bad(
                        match st {
                            MSt::Waiting => &["C07", "C08"][..],
                            MSt::Cancelled | MSt::Unpolled => &["C23", "C03"][..],
                            MSt::Rejected => &["C03", "C15"][..],
                            _ => &["C01"][..],
                        },
                        format!("message {id} received while its state is {st:?}"),
                    );
                };
                let mm = &self.msgs[id as usize];
                let prio = mm.prio;
                if Some(prio) < best {
                    if best == Some(STOP_PRIO) {
                        return bad(&["C14", "C05"], format!("message {id} received ahead of a requested stop"));
                    }
                    return bad(&["C05"], format!("message {id} of priority {prio} received while priority {} is available", best.unwrap()));
                }
                if prio == 0 && mm.requeued == 0 {
                    let seq = mm.seq;
                    // put back by the end of a select or join: nothing may overtake it
                    let mut back = self.uq.iter().filter(|&&o| self.msgs[o as usize].requeued != 0);
                    if let (Some(&o), None) = (back.next(), back.next()) {
                        let om = &self.msgs[o as usize];
                        if om.requeued == 2 && om.prio == 0 && om.seq < seq {
                            return bad(&["C18"], format!("message {id} received before message {o}, which was sent earlier and put back when the future running alongside the actor completed"));
                        }
                    }
                    if let Some(&o) = self.uq.iter().find(|&&o| {
                        let o = &self.msgs[o as usize];
                        o.prio == 0 && o.requeued == 0 && o.seq < seq
                    }) {
                        return bad(&["C06"], format!("message {id} received before message {o}, which was sent earlier with the same (default) priority"));
                    }
                }
                self.uq.remove(pos);
                self.msgs[id as usize].st = MSt::Running;
                self.recs[rid].st = RSt::Done;
                self.admit_unicast()
            }
        }
    }

    fn new_rec(&mut self, mbx: usize, fut: Option<LocalFut<GotFn>>) -> usize {
        self.add_ref(mbx);
        self.recs.push(Rec { mbx, st: RSt::New, fut, w: None, seen: false, live: true, owned: false });
        self.recs.len() - 1
    }

    /// Model effect of dropping a not yet completed receive.
    fn model_drop_rec(&mut self, rid: usize) -> R {
        self.model_drop_rec_as(rid, 1)
    }

    fn model_drop_rec_as(&mut self, rid: usize, how: u8) -> R {
        let st = self.recs[rid].st;
        self.recs[rid].live = false;
        self.recs[rid].st = RSt::Done;
        self.idle.retain(|&x| x != rid);
        if let RSt::AMsg(id) = st {
            if !self.idle.is_empty() {
                self.assign_to_idle(id, &["C02"])?;
            } else {
                self.msgs[id as usize].requeued = how;
                self.uq.push(id);
            }
        }
        let m = self.recs[rid].mbx;
        self.drop_ref(m)
    }

    fn finish_msg(&mut self, id: u32, st: MSt) -> R {
        if !self.msgs[id as usize].bcast {
            self.msgs[id as usize].st = st;
        }
        self.release_own(id)
    }

    /// The handler of `id` has just started.
    fn on_start(&mut self, id: u32, mbx: usize) -> R {
        self.started += 1;
        if is_stash(self.msgs[id as usize].kind) {
            match STASH.with(|s| s.borrow_mut().pop_front()) {
                Some(Stash::Recv(f)) => {
                    self.new_rec(mbx, Some(f));
                }
                Some(Stash::Mb(mb)) => {
                    self.mbx.push(Mbx { refs: 0, bq: vec![] });
                    let x = self.mbx.len() - 1;
                    self.add_ref(x);
                    self.mailboxes.push(Some(MbS { mb, mbx: x }));
                }
                Some(Stash::Addr(a)) => self.handles.push(Some(HS { a: AnyAddr::W(a), strong: false })),
                None => return bad(&["C01"], "a handler did not run"),
            }
        }
        if is_stop_all(self.msgs[id as usize].kind) && self.strong > 0 {
            self.push_bcast(STOP, STOP_PRIO, "C14")?;
        }
        Ok(())
    }

    fn drop_mbx_if_done(&mut self, mbx: usize) -> R {
        self.drop_ref(mbx)
    }

    // ------------------------------------------------------------------ real ops

    fn new_act(&mut self) -> Act {
        self.act_seq += 1;
        Act::new(self.act_seq)
    }

    fn take_evs(&mut self) -> Vec<Ev> {
        let mut v = std::mem::take(&mut self.evs);
        take_log(&mut v);
        v
    }

    fn put_evs(&mut self, v: Vec<Ev>) {
        self.evs = v;
    }

    /// A receive completed with `g`: dispatch it to a new actor (or discard it).
    fn got(&mut self, rid: usize, g: GotFn, discard: bool) -> R {
        let mbx = self.recs[rid].mbx;
        self.recs[rid].live = false;
        self.recs[rid].fut = None;
        if discard {
            let evs = self.take_evs();
            self.put_evs(evs);
            if catch_unwind(AssertUnwindSafe(move || drop(g))).is_err() {
                return bad(&["C22", "C24"], "dropping a received message panicked");
            }
            let evs = self.take_evs();
            // the first dropped message is the discarded one: anything else dropped at the same
            // time (the last mailbox may be gone) comes later
            let id = evs.iter().find_map(|e| if let Ev::MsgDrop(id) = e { Some(*id) } else { None });
            self.put_evs(evs);
            let got = match id {
                Some(id) if self.discard_plausible(rid, id) => Got::Msg(id),
                _ => Got::Silent,
            };
            self.on_recv(rid, got)?;
            if let Got::Msg(id) = got {
                self.finish_msg(id, MSt::Interrupted)?;
            }
            return self.drop_ref(mbx);
        }
        let act = self.new_act();
        let aid = act.id;
        let w = W::new();
        let mut fut = g(act);
        let out = poll_local(&mut fut, &w);
        let evs = self.take_evs();
        let start = evs.iter().find_map(|e| if let Ev::Start(a, id) = e { (*a == aid).then_some(*id) } else { None });
        let ended = evs.iter().any(|e| matches!(e, Ev::End(a, _) if *a == aid));
        let hdrop = evs.iter().any(|e| matches!(e, Ev::HDrop(a, _) if *a == aid));
        let starts = evs.iter().filter(|e| matches!(e, Ev::Start(a, _) if *a == aid)).count();
        self.put_evs(evs);
        if starts > 1 {
            return bad(&["C01", "C24"], "one received message ran more than one handler");
        }
        let got = match start {
            Some(id) => Got::Msg(id),
            None => Got::Stop,
        };
        self.on_recv(rid, got)?;
        match start {
            None => match out {
                Ok(Poll::Ready(ControlFlow::Break(()))) => {
                    drop(fut);
                    self.drop_ref(mbx)
                }
                Ok(Poll::Ready(ControlFlow::Continue(()))) => bad(&["C14", "C11"], "a stop was dispatched but the actor was told to continue"),
                Ok(Poll::Pending) => bad(&["C14", "C11", "C01"], "dispatch started no handler and stays pending"),
                Err(()) => bad(&["C22"], "dispatch panicked without running a handler"),
            },
            Some(id) => {
                self.on_start(id, mbx)?;
                let k = self.msgs[id as usize].kind;
                let bcast = self.msgs[id as usize].bcast;
                if is_gate(k) && !gate_is_open(id) {
                    if ended || hdrop || !matches!(out, Ok(Poll::Pending)) {
                        return bad(&["C24", "C17"], format!("handler of message {id} waits but its dispatch completed"));
                    }
                    self.runs.push(RunS { fut: Some(fut), id, bcast, mbx, act: aid, w, live: true });
                    return Ok(());
                }
                self.handler_done(id, mbx, out, Some(fut), ended)
            }
        }
    }

    fn discard_plausible(&self, rid: usize, id: u32) -> bool {
        match self.recs[rid].st {
            RSt::AMsg(x) => x == id,
            RSt::ABc | RSt::AStop => false,
            _ => {
                let m = self.recs[rid].mbx;
                self.uq.contains(&id) && self.umax() >= self.bmax(m)
            }
        }
    }

    fn handler_done(
        &mut self,
        id: u32,
        mbx: usize,
        out: Result<Poll<ControlFlow<()>>, ()>,
        fut: Option<LocalFut<ControlFlow<()>>>,
        ended: bool,
    ) -> R {
        let k = self.msgs[id as usize].kind;
        if is_panic(k) {
            if out.is_ok() {
                return bad(&["C24"], format!("panicking handler of message {id} did not propagate its panic"));
            }
            drop(fut);
            self.finish_msg(id, MSt::Interrupted)?;
            return self.drop_mbx_if_done(mbx);
        }
        match out {
            Ok(Poll::Ready(flow)) => {
                if !ended {
                    return bad(&["C03", "C01"], format!("dispatch of message {id} completed but its handler did not"));
                }
                let want = if is_stop_self(k) { ControlFlow::Break(()) } else { ControlFlow::Continue(()) };
                if flow != want {
                    return bad(&["C13"], format!("handling message {id} ({k:?}) returned {flow:?}"));
                }
                drop(fut);
                self.finish_msg(id, MSt::Handled)?;
                self.drop_mbx_if_done(mbx)
            }
            Ok(Poll::Pending) => bad(&["C01", "C04"], format!("handler of message {id} has nothing to wait for but its dispatch stays pending")),
            Err(()) => bad(&["C22", "C24"], format!("dispatch of message {id} panicked")),
        }
    }

    fn poll_rec(&mut self, rid: usize, discard: bool) -> R {
        let w = W::new();
        let r = poll_local(self.recs[rid].fut.as_mut().unwrap(), &w);
        match r {
            Err(()) => bad(&["C22", "C01"], "polling a receive panicked"),
            Ok(Poll::Pending) => {
                if self.recs[rid].st != RSt::Idle || self.recs[rid].w.is_none() || !w.is() {
                    // w stays the latest waker
                }
                self.recs[rid].w = Some(w);
                self.recs[rid].seen = false;
                self.on_recv(rid, Got::Pending)
            }
            Ok(Poll::Ready(g)) => {
                self.recs[rid].w = None;
                self.got(rid, g, discard)
            }
        }
    }

    fn new_msg(&mut self, bcast: bool, kind: Kind, prio: u32) -> u32 {
        let id = self.msgs.len() as u32;
        self.msgs.push(MM { bcast, sink: false, kind, prio: prio as u64, seq: 0, st: MSt::Unpolled, requeued: 0, own: vec![] });
        id
    }

    fn mk_send(&mut self, h: usize, id: u32, kind: Kind, p: u32, own: Own, plain: bool) -> SendBox {
        let msg = Msg { id, kind, own };
        let hs = self.handles[h].as_ref().unwrap();
        each!(&hs.a, a => {
            let f = a.send(msg);
            if plain {
                attached!(if p > 0 { f.priority(p) } else { f })
            } else if p > 0 && id % 2 == 0 {
                detached!(f.priority(p).detach())
            } else {
                let f = f.detach();
                detached!(if p > 0 { f.priority(p) } else { f })
            }
        })
    }

    fn first_poll(&mut self, s: usize) -> R {
        let id = self.sends[s].id;
        let bcast = self.sends[s].bcast;
        let plain = self.sends[s].plain;
        self.msgs[id as usize].seq = self.seq;
        self.seq += 1;
        #[derive(PartialEq, Debug, Clone, Copy)]
        enum X {
            Acc,
            Wait,
            Rej,
        }
        let want = if !self.connected() {
            X::Rej
        } else if bcast {
            if self.tail() < self.cap() { X::Acc } else { X::Wait }
        } else if !self.idle.is_empty() || self.uq.len() < self.cap() {
            X::Acc
        } else {
            X::Wait
        };
        let w = W::new();
        let out = poll_box(self.sends[s].fut.as_mut().unwrap(), &w);
        let Ok(out) = out else { return bad(&["C22", "C03"], "polling a send panicked") };
        let was_strong = self.sends[s].strong;
        self.sends[s].strong = false;
        self.sends[s].w = Some(w);
        self.sends[s].seen = false;
        let full: &[P] = if bcast { &["C10"] } else { &["C07"] };
        let seen = match &out {
            Poll::Pending => {
                if plain && want != X::Rej {
                    want
                } else {
                    X::Wait
                }
            }
            Poll::Ready(SendOut::Reply(_)) | Poll::Ready(SendOut::Bc(Ok(()))) => X::Acc,
            Poll::Ready(SendOut::Value(Ok(_))) => return bad(&["C03"], format!("send of message {id} resolved to a value before it was handled")),
            Poll::Ready(SendOut::Err(Error::Disconnected) | SendOut::Bc(Err(Error::Disconnected)) | SendOut::Value(Err(Error::Disconnected))) => X::Rej,
            Poll::Ready(_) => return bad(&["C03"], format!("send of message {id} resolved to Interrupted on its first poll")),
        };
        match (want, seen) {
            (X::Rej, X::Acc) => {
                return if self.rx == 0 {
                    bad(&["C15", "C03"], format!("message {id} was accepted although no mailbox exists"))
                } else {
                    bad(&["C12", "C03"], format!("message {id} was accepted although no strong address exists"))
                };
            }
            (X::Rej, X::Wait) => return bad(&["C15", "C04"], format!("send of message {id} to a disconnected address stays pending")),
            (X::Acc, X::Wait) => {
                return bad(full, format!("send of message {id} waits although there is room or an idle receive"));
            }
            (X::Wait, X::Acc) => return bad(full, format!("message {id} was accepted although the mailbox is full")),
            (_, X::Rej) if want != X::Rej => {
                let mut p = vec!["C03", "C15", "C11"];
                p.extend(self.running_prop());
                return bad(&p, format!("send of message {id} yields Disconnected although strong addresses and mailboxes exist"));
            }
            _ => {}
        }
        match seen {
            X::Rej => {
                self.sends[s].fut = None;
                self.sends[s].st = SSt::Gone;
                self.msgs[id as usize].st = MSt::Rejected;
                self.release_own(id)?;
            }
            X::Wait => {
                self.sends[s].st = SSt::Waiting;
                self.msgs[id as usize].st = MSt::Waiting;
                if bcast {
                    self.w2.push(s)
                } else {
                    self.w1.push(s)
                }
            }
            X::Acc => {
                self.sends[s].st = SSt::Gone;
                if bcast {
                    self.sends[s].fut = None;
                    let prio = self.msgs[id as usize].prio;
                    self.msgs[id as usize].st = MSt::Queued;
                    self.push_bcast(id, prio, "C09")?;
                } else {
                    self.to_reply(s, out);
                    self.accept_unicast(id)?;
                }
            }
        }
        if was_strong {
            self.drop_strong()?;
        }
        Ok(())
    }

    fn to_reply(&mut self, s: usize, out: Poll<SendOut>) {
        let id = self.sends[s].id;
        self.sends[s].st = SSt::Gone;
        match out {
            Poll::Ready(SendOut::Reply(r)) => {
                self.sends[s].fut = None;
                self.replies.push(Reply { fut: Some(ReplyFut::Detached(Box::pin(r.map(|r| r.map(Some))))), id, w: None });
            }
            Poll::Pending => {
                // plain send: keep the waker of the poll just made
                let f = self.sends[s].fut.take().unwrap();
                let w = self.sends[s].w.take();
                self.replies.push(Reply { fut: Some(ReplyFut::Attached(f)), id, w });
            }
            _ => {
                self.sends[s].fut = None;
            }
        }
    }

    fn poll_send(&mut self, s: usize) -> R {
        let id = self.sends[s].id;
        let bcast = self.sends[s].bcast;
        match self.sends[s].st {
            SSt::Unpolled => return self.first_poll(s),
            SSt::Gone => return Ok(()),
            _ => {}
        }
        let w = W::new();
        let out = poll_box(self.sends[s].fut.as_mut().unwrap(), &w);
        let Ok(out) = out else { return bad(&["C22", "C03"], "polling a send panicked") };
        match (self.sends[s].st, &out) {
            (SSt::Waiting, Poll::Pending) => {
                self.sends[s].w = Some(w);
                self.sends[s].seen = false;
                Ok(())
            }
            (SSt::Waiting, Poll::Ready(SendOut::Reply(_) | SendOut::Bc(Ok(())))) => {
                bad(if bcast { &["C10", "C08"] } else { &["C07", "C08"] }, format!("waiting send of message {id} completed without having been admitted"))
            }
            (SSt::Waiting, Poll::Ready(_)) => bad(&["C03", "C15"], format!("waiting send of message {id} failed although the actor is alive")),
            (SSt::Admitted, Poll::Pending) if self.sends[s].plain => {
                self.sends[s].w = Some(w);
                self.to_reply(s, out);
                Ok(())
            }
            (SSt::Admitted, Poll::Ready(SendOut::Reply(_))) => {
                self.to_reply(s, out);
                Ok(())
            }
            (SSt::Admitted, Poll::Ready(SendOut::Bc(Ok(())))) => {
                self.sends[s].fut = None;
                self.sends[s].st = SSt::Gone;
                Ok(())
            }
            (SSt::Admitted, Poll::Ready(SendOut::Value(v))) => {
                let ok = match (&self.msgs[id as usize].st, v) {
                    (MSt::Handled, Ok(r)) => r.0 == id,
                    (MSt::Interrupted, Err(Error::Interrupted)) => true,
                    _ => false,
                };
                let d = v.as_ref().map(|r| r.0);
                if !ok {
                    return bad(&["C03"], format!("send of message {id} resolved to {d:?} while its state is {:?}", self.msgs[id as usize].st));
                }
                self.sends[s].fut = None;
                self.sends[s].st = SSt::Gone;
                Ok(())
            }
            (SSt::Admitted, Poll::Pending) => bad(&["C04", "C08"], format!("send of message {id} was admitted but stays pending")),
            (SSt::Admitted, Poll::Ready(_)) => bad(&["C03"], format!("send of message {id} was admitted but yields an error")),
            (SSt::Closed, Poll::Ready(SendOut::Err(Error::Disconnected) | SendOut::Bc(Err(Error::Disconnected)) | SendOut::Value(Err(Error::Disconnected)))) => {
                self.sends[s].fut = None;
                self.sends[s].st = SSt::Gone;
                Ok(())
            }
            (SSt::Closed, Poll::Pending) => bad(&["C15", "C04"], format!("waiting send of message {id} stays pending although the last mailbox is gone")),
            (SSt::Closed, Poll::Ready(_)) => bad(&["C03", "C15"], format!("send of message {id} was waiting when the last mailbox went away but does not yield Disconnected")),
            _ => bad(&[], "model: poll_send"),
        }
    }

    fn drop_send(&mut self, s: usize) -> R {
        let id = self.sends[s].id;
        let f = self.sends[s].fut.take();
        if catch_unwind(AssertUnwindSafe(move || drop(f))).is_err() {
            return bad(&["C22", "C23"], "dropping a send panicked");
        }
        let st = self.sends[s].st;
        self.sends[s].st = SSt::Gone;
        match st {
            SSt::Unpolled | SSt::Waiting => {
                if self.live_msg(id) {
                    return bad(&["C23", "C27"], format!("send of message {id} was dropped before it was accepted, but the message was not released"));
                }
                self.msgs[id as usize].st = MSt::Cancelled;
                self.w1.retain(|&x| x != s);
                self.w2.retain(|&x| x != s);
                self.release_own(id)?;
                if self.sends[s].strong {
                    self.sends[s].strong = false;
                    self.drop_strong()?;
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn live_msg(&self, id: u32) -> bool {
        if self.msgs[id as usize].bcast {
            BC_LIVE.with(|c| c.borrow().get(id as usize).map_or(false, |n| *n > 0))
        } else {
            MSG_DROPS.with(|c| c.borrow().get(id as usize).map_or(true, |n| *n == 0))
        }
    }

    fn poll_run(&mut self, i: usize) -> R {
        let id = self.runs[i].id;
        let w = W::new();
        let out = poll_local(self.runs[i].fut.as_mut().unwrap(), &w);
        self.runs[i].w = w;
        let evs = self.take_evs();
        let aid = self.runs[i].act;
        let ended = evs.iter().any(|e| matches!(e, Ev::End(a, _) if *a == aid));
        let bad_start = evs.iter().any(|e| matches!(e, Ev::Start(a, _) if *a == aid));
        self.put_evs(evs);
        if bad_start {
            return bad(&["C01", "C24"], "one received message ran more than one handler");
        }
        if !gate_is_open(id) {
            if !matches!(out, Ok(Poll::Pending)) {
                return bad(&["C24", "C03"], format!("handler of message {id} is waiting but its dispatch completed"));
            }
            return Ok(());
        }
        self.runs[i].live = false;
        let f = self.runs[i].fut.take();
        let mbx = self.runs[i].mbx;
        self.handler_done(id, mbx, out, f, ended)
    }

    fn drop_run(&mut self, i: usize) -> R {
        let id = self.runs[i].id;
        let f = self.runs[i].fut.take();
        self.runs[i].live = false;
        if catch_unwind(AssertUnwindSafe(move || drop(f))).is_err() {
            return bad(&["C22", "C24"], "dropping a running handler panicked");
        }
        let mbx = self.runs[i].mbx;
        self.finish_msg(id, MSt::Interrupted)?;
        self.drop_ref(mbx)
    }

    // ------------------------------------------------------------------ tasks

    fn spawn_task(&mut self, kind: TK, m: usize, start: StartMode, stop_gate: bool) -> usize {
        self.spawn_tasks(kind, m, start, stop_gate, false)
    }

    fn spawn_tasks(&mut self, kind: TK, m: usize, start: StartMode, stop_gate: bool, two: bool) -> usize {
        let ms = self.mailboxes[m].take().unwrap();
        let mut act = self.new_act();
        let aid = act.id;
        let start = match start {
            StartMode::GateOk(_) => {
                self.gate_seq += 1;
                StartMode::GateOk(self.gate_seq)
            }
            StartMode::GateErr(_) => {
                self.gate_seq += 1;
                StartMode::GateErr(self.gate_seq)
            }
            StartMode::Sel(_) => {
                self.gate_seq += 1;
                StartMode::Sel(self.gate_seq)
            }
            StartMode::JoinF(_) => {
                self.gate_seq += 1;
                StartMode::JoinF(self.gate_seq)
            }
            s => s,
        };
        act.start = start;
        if stop_gate {
            self.gate_seq += 1;
            act.stop_gate = Some(self.gate_seq);
        }
        let sg = act.stop_gate;
        let stop_panics = start == StartMode::StopPanic;
        self.gate_seq += 1;
        let inner = self.gate_seq;
        let mb = ms.mb;
        let second = two.then(|| self.new_act());
        let second_id = second.as_ref().map(|a| a.id);
        let fut: LocalFut<TOut> = match kind {
            TK::Run => Box::pin(async move { TOut::Stop(xtra::run(mb, act).await) }),
            TK::Select => Box::pin(async move {
                match xtra::select(&mb, &mut act, Inner(inner)).await {
                    FEither::Left(v) => {
                        log(Ev::StartedB(1_000_000 + aid));
                        let r = xtra::run(mb, act).await;
                        TOut::Left(v, r)
                    }
                    FEither::Right(_f) => {
                        log(Ev::StoppedB(1_000_000 + aid));
                        match second {
                            Some(next) => TOut::Stop(xtra::run(mb, next).await),
                            None => TOut::Right,
                        }
                    }
                }
            }),
            TK::JoinF => Box::pin(async move {
                let v = xtra::join(&mb, &mut act, Inner(inner)).await;
                if let Some(next) = second {
                    log(Ev::StoppedB(1_000_000 + aid));
                    return TOut::Stop(xtra::run(mb, next).await);
                }
                TOut::Joined(v)
            }),
            TK::Scoped => unreachable!(),
        };
        let pc = match kind {
            TK::Run => Pc::Init,
            _ => Pc::SelLoop,
        };
        self.tasks.push(Task {
            kind,
            fut: Some(fut),
            w: None,
            act: aid,
            mbx: ms.mbx,
            pc,
            rec: None,
            inner,
            start,
            stop_gate: sg,
            stop_panic: stop_panics,
            pre: false,
            stop_flag: false,
            left_done: None,
            outer: vec![],
            stopped_in: vec![],
            second: second_id,
        });
        self.tasks.len() - 1
    }

    fn task_recv(&mut self, t: usize, got: Got) -> R {
        let rid = match self.tasks[t].rec {
            Some(r) => r,
            None => {
                let m = self.tasks[t].mbx;
                let r = self.new_rec(m, None);
                self.tasks[t].rec = Some(r);
                r
            }
        };
        if got == Got::Pending {
            self.recs[rid].w = self.tasks[t].w.clone();
            self.recs[rid].seen = false;
        }
        self.on_recv(rid, got)?;
        if got != Got::Pending {
            self.recs[rid].live = false;
            self.recs[rid].w = None;
            self.tasks[t].rec = None;
        }
        Ok(())
    }

    /// Must a receive of this task, polled now, yield a stop?
    fn stop_due(&self, t: usize) -> bool {
        let m = self.tasks[t].mbx;
        let top_stop = self.bmax(m) == Some(STOP_PRIO);
        match self.tasks[t].rec.map(|r| self.recs[r].st) {
            Some(RSt::AMsg(_)) => false,
            Some(RSt::AStop) => true,
            _ => top_stop || (self.strong == 0 && self.uq.is_empty() && self.mbx[m].bq.is_empty()),
        }
    }

    fn poll_task(&mut self, t: usize) -> R {
        let w = W::new();
        let out = poll_local(self.tasks[t].fut.as_mut().unwrap(), &w);
        self.tasks[t].w = Some(w);
        let evs = self.take_evs();
        let r = self.task_steps(t, &evs, out);
        self.put_evs(evs);
        r
    }

    fn task_steps(&mut self, t: usize, evs: &[Ev], out: Result<Poll<TOut>, ()>) -> R {
        let mut inner_polled_ready = false;
        for e in evs {
            let act = self.tasks[t].act;
            let kind = self.tasks[t].kind;
            let inner = self.tasks[t].inner;
            let pc = self.tasks[t].pc;
            if let Ev::Start(a, _) | Ev::End(a, _) | Ev::HDrop(a, _) = e {
                if *a != act {
                    continue;
                }
            }
            let next = match (*e, pc) {
                (Ev::MsgDrop(_), _) | (Ev::ActDrop(_), _) => continue,
                (Ev::StartedB(a), Pc::Init) if a == act => match self.tasks[t].start {
                    StartMode::Sel(g) => self.nest_as(t, HOOK + act, TK::Select, g, Pc::Starting),
                    StartMode::JoinF(g) => self.nest_as(t, HOOK + act, TK::JoinF, g, Pc::Starting),
                    _ => Pc::Starting,
                },
                (Ev::StartedE(a), Pc::Starting) if a == act => match self.tasks[t].start {
                    _ if self.tasks[t].stopped_in.contains(&(HOOK + act)) => Pc::MustStop,
                    StartMode::Ok | StartMode::GateOk(_) | StartMode::StopPanic | StartMode::Sel(_) | StartMode::JoinF(_) => Pc::Loop,
                    _ => Pc::Returning(STOP_ERR + act),
                },
                (Ev::Start(_, id), Pc::Loop) => {
                    self.task_recv(t, Got::Msg(id))?;
                    self.on_start(id, self.tasks[t].mbx)?;
                    self.nest(t, id, Pc::Handling(id))
                }
                (Ev::Start(_, id), Pc::SelLoop) => {
                    self.task_recv(t, Got::Msg(id))?;
                    self.on_start(id, self.tasks[t].mbx)?;
                    inner_polled_ready = false;
                    self.nest(t, id, Pc::SelHandling(id))
                }
                (Ev::Start(_, id), Pc::SelLeft) => {
                    self.task_recv(t, Got::Msg(id))?;
                    self.on_start(id, self.tasks[t].mbx)?;
                    Pc::SelLeftHandling(id)
                }
                (Ev::End(_, x), Pc::Handling(id) | Pc::SelHandling(id) | Pc::SelLeftHandling(id)) if x == id => {
                    let m = self.tasks[t].mbx;
                    self.finish_msg(id, MSt::Handled)?;
                    self.drop_ref(m)?;
                    let stop = is_stop_self(self.msgs[id as usize].kind) || self.tasks[t].stopped_in.contains(&id);
                    match (pc, stop) {
                        (Pc::Handling(_), false) => Pc::Loop,
                        (Pc::Handling(_), true) => Pc::MustStop,
                        (Pc::SelHandling(_), false) => Pc::SelLoop,
                        (Pc::SelHandling(_), true) => {
                            if kind == TK::JoinF {
                                Pc::JoinOnly
                            } else {
                                Pc::SelMustRight
                            }
                        }
                        _ => {
                            if stop {
                                self.tasks[t].stop_flag = true;
                            }
                            Pc::SelLeft
                        }
                    }
                }
                (Ev::HDrop(_, x), Pc::Handling(id) | Pc::SelHandling(id)) if x == id && is_panic(self.msgs[id as usize].kind) => {
                    continue;
                }
                (Ev::HDrop(_, x), _) if self.tasks[t].outer.iter().any(|f| f.id == x) => continue,
                (Ev::NestEnd(x, left), _) if self.tasks[t].outer.last().map(|f| f.id) == Some(x) => {
                    let ok = match pc {
                        Pc::SelLeft => left,
                        Pc::JoinOnly => left && inner_polled_ready,
                        Pc::SelMustRight => !left,
                        // the stop was received without an event that shows it
                        Pc::SelLoop if kind == TK::Select && !left => {
                            self.task_recv(t, Got::Stop)?;
                            let m = self.tasks[t].mbx;
                            self.drop_ref(m)?;
                            true
                        }
                        _ => false,
                    };
                    if !ok {
                        return bad(&["C18"], format!("select or join in the handler of message {x} returned (output: {left}) in state {pc:?}"));
                    }
                    if let Some(r) = self.tasks[t].rec.take() {
                        self.model_drop_rec_as(r, 2)?;
                    }
                    let f = self.tasks[t].outer.pop().unwrap();
                    let tk = &mut self.tasks[t];
                    if pc != Pc::SelLeft {
                        tk.stopped_in.push(x);
                    }
                    (tk.kind, tk.inner, tk.left_done) = (f.kind, f.inner, f.left_done);
                    f.pc
                }
                (Ev::StoppedB(a), Pc::Loop) if a == act => {
                    self.task_recv(t, Got::Stop)?;
                    let m = self.tasks[t].mbx;
                    self.drop_ref(m)?;
                    Pc::Stopping
                }
                (Ev::StoppedB(a), Pc::MustStop) if a == act => Pc::Stopping,
                (Ev::StoppedE(a), Pc::Stopping) if a == act => Pc::Returning(STOP_OK + act),
                (Ev::InnerPoll(g), Pc::SelLoop | Pc::JoinOnly) if g == inner && gate_panics(g) => continue,
                (Ev::InnerPoll(g), Pc::SelLoop) if g == inner => {
                    if gate_is_open(g) {
                        inner_polled_ready = true;
                        self.tasks[t].left_done = Some(g);
                        Pc::SelLeft
                    } else {
                        Pc::SelLoop
                    }
                }
                (Ev::InnerPoll(g), Pc::JoinOnly) if g == inner => {
                    if gate_is_open(g) {
                        inner_polled_ready = true;
                    }
                    Pc::JoinOnly
                }
                (Ev::InnerPoll(g), Pc::ScopedWait) if g == inner => {
                    if self.dead || self.tasks[t].pre {
                        return bad(&["C16"], "scoped future was polled although the actor is gone");
                    }
                    if gate_is_open(g) {
                        inner_polled_ready = true;
                    }
                    Pc::ScopedWait
                }
                // select returned Right
                (Ev::StoppedB(a), Pc::SelLoop) if a == 1_000_000 + act => {
                    self.task_recv(t, Got::Stop)?;
                    let m = self.tasks[t].mbx;
                    self.drop_ref(m)?;
                    self.second_actor(t)
                }
                (Ev::StoppedB(a), Pc::SelMustRight) if a == 1_000_000 + act => self.second_actor(t),
                // join returned
                (Ev::StoppedB(a), Pc::SelLeft) if a == 1_000_000 + act && kind == TK::JoinF => {
                    if let Some(r) = self.tasks[t].rec.take() {
                        self.model_drop_rec_as(r, 2)?;
                    }
                    self.second_actor(t)
                }
                (Ev::StoppedB(a), Pc::JoinOnly) if a == 1_000_000 + act && inner_polled_ready => self.second_actor(t),
                // select returned Left
                (Ev::StartedB(a), Pc::SelLeft) if a == 1_000_000 + act => {
                    if self.tasks[t].stop_flag {
                        return bad(
                            &["C18", "C13"],
                            "select handled a message that stopped the actor, yet reports the actor as still running",
                        );
                    }
                    if let Some(r) = self.tasks[t].rec.take() {
                        self.model_drop_rec_as(r, 2)?;
                    }
                    Pc::Init
                }
                (e, pc) => {
                    let mut p = vec!["C17"];
                    match pc {
                        Pc::MustStop if !self.tasks[t].stopped_in.is_empty() => p.extend(["C13", "C14"]),
                        Pc::MustStop | Pc::Stopping | Pc::Returning(_) => p.push("C13"),
                        Pc::SelLoop | Pc::SelMustRight | Pc::SelLeft | Pc::JoinOnly | Pc::SelHandling(_) | Pc::SelLeftHandling(_) => {
                            p = vec!["C18"];
                            if pc == Pc::SelMustRight {
                                p.push("C13");
                            }
                        }
                        _ => {}
                    }
                    if kind == TK::Select {
                        p.push("C18");
                    }
                    return bad(&p, format!("event loop protocol broken: {e:?} in state {pc:?}"));
                }
            };
            self.tasks[t].pc = next;
        }
        let pc = self.tasks[t].pc;
        let kind = self.tasks[t].kind;
        let inner = self.tasks[t].inner;
        let out = match out {
            Ok(o) => o,
            Err(()) => {
                if let Pc::Handling(id) | Pc::SelHandling(id) = pc {
                    if is_panic(self.msgs[id as usize].kind) {
                        // the whole event loop is gone
                        let f = self.tasks[t].fut.take();
                        drop(f);
                        self.tasks[t].pc = Pc::Finished;
                        let m = self.tasks[t].mbx;
                        self.finish_msg(id, MSt::Interrupted)?;
                        self.drop_ref(m)?; // handler context
                        self.drop_frames(t)?;
                        return self.drop_ref(m); // mailbox
                    }
                }
                let hook = match pc {
                    Pc::Starting => self.tasks[t].start == StartMode::Panic,
                    Pc::Stopping => self.tasks[t].stop_panic,
                    Pc::SelLoop | Pc::JoinOnly | Pc::ScopedWait => gate_panics(inner),
                    _ => false,
                };
                if hook {
                    return self.drop_task(t);
                }
                return bad(&["C22", "C17"], "event loop panicked");
            }
        };
        match out {
            Poll::Pending => match pc {
                Pc::Starting => match self.tasks[t].start {
                    StartMode::GateOk(g) | StartMode::GateErr(g) if !gate_is_open(g) => Ok(()),
                    _ => bad(&["C17"], "start hook completed but the event loop is stuck"),
                },
                Pc::Loop => self.task_recv(t, Got::Pending),
                Pc::Handling(id) | Pc::SelHandling(id) | Pc::SelLeftHandling(id) => {
                    let k = self.msgs[id as usize].kind;
                    if is_gate(k) && !gate_is_open(id) {
                        Ok(())
                    } else {
                        bad(&["C17", "C01"], format!("event loop stuck in the handler of message {id}"))
                    }
                }
                Pc::Stopping => match self.tasks[t].stop_gate {
                    Some(g) if !gate_is_open(g) => Ok(()),
                    _ => bad(&["C17"], "stop hook completed but the event loop is stuck"),
                },
                Pc::SelLoop => {
                    if kind == TK::JoinF && self.stop_due(t) {
                        self.task_recv(t, Got::Stop)?;
                        let m = self.tasks[t].mbx;
                        self.drop_ref(m)?;
                        self.tasks[t].pc = Pc::JoinOnly;
                        return Ok(());
                    }
                    self.task_recv(t, Got::Pending)
                }
                Pc::JoinOnly => {
                    if gate_is_open(inner) {
                        return bad(&["C18"], "join: the future completed but join is still pending");
                    }
                    Ok(())
                }
                Pc::ScopedWait => {
                    if self.dead || self.tasks[t].pre {
                        return bad(&["C16"], "scoped task still pending although the actor is gone");
                    }
                    if inner_polled_ready || gate_is_open(inner) {
                        return bad(&["C16"], "scoped future completed but the scoped task is pending");
                    }
                    Ok(())
                }
                pc => {
                    let p: &[P] = match pc {
                        Pc::MustStop if !self.tasks[t].stopped_in.is_empty() => &["C13", "C14", "C17"],
                        Pc::MustStop => &["C13", "C17"],
                        Pc::SelMustRight | Pc::SelLeft => &["C18"],
                        _ => &["C17"],
                    };
                    bad(p, format!("event loop stuck in state {pc:?}"))
                }
            },
            Poll::Ready(o) => {
                if !self.tasks[t].outer.is_empty() {
                    return bad(&["C18", "C17"], format!("task returned {o:?} in the middle of a handler"));
                }
                self.tasks[t].fut = None;
                self.tasks[t].w = None;
                let ok = match (&o, pc) {
                    (TOut::Stop(v), Pc::Returning(x)) => *v == x,
                    (TOut::Left(g, v), Pc::Returning(x)) => *v == x && Some(*g) == self.tasks[t].left_done,
                    (TOut::Right, Pc::Returning(0)) => self.tasks[t].left_done.is_none(),
                    (TOut::Joined(v), Pc::SelLeft) => *v == inner,
                    (TOut::Joined(v), Pc::JoinOnly) => *v == inner && inner_polled_ready,
                    (TOut::Scoped(Some(v)), Pc::ScopedWait) => *v == inner && inner_polled_ready,
                    (TOut::Scoped(None), Pc::ScopedWait) => self.dead || self.tasks[t].pre,
                    _ => false,
                };
                self.tasks[t].pc = Pc::Finished;
                if !ok {
                    let p: &[P] = match kind {
                        TK::Run => &["C17"],
                        TK::Scoped => &["C16"],
                        _ => &["C18"],
                    };
                    return bad(p, format!("task returned {o:?} in state {pc:?}"));
                }
                if kind == TK::Scoped {
                    return Ok(());
                }
                if let Some(r) = self.tasks[t].rec.take() {
                    self.model_drop_rec_as(r, 2)?;
                }
                let m = self.tasks[t].mbx;
                self.drop_ref(m)
            }
        }
    }

    fn drop_task(&mut self, t: usize) -> R {
        let f = self.tasks[t].fut.take();
        if catch_unwind(AssertUnwindSafe(move || drop(f))).is_err() {
            return bad(&["C22", "C17"], "dropping an event loop panicked");
        }
        let pc = self.tasks[t].pc;
        let m = self.tasks[t].mbx;
        self.tasks[t].pc = Pc::Finished;
        self.tasks[t].w = None;
        if self.tasks[t].kind == TK::Scoped {
            return Ok(());
        }
        if let Pc::Handling(id) | Pc::SelHandling(id) | Pc::SelLeftHandling(id) = pc {
            self.finish_msg(id, MSt::Interrupted)?;
            self.drop_ref(m)?;
        }
        if let Some(r) = self.tasks[t].rec.take() {
            self.recs[r].w = None;
            self.model_drop_rec(r)?;
        }
        self.drop_frames(t)?;
        self.drop_ref(m)
    }

    /// The first actor of a task is through: another one is run, or the task ends.
    fn second_actor(&mut self, t: usize) -> Pc {
        let tk = &mut self.tasks[t];
        let Some(act) = tk.second.take() else { return Pc::Returning(0) };
        tk.act = act;
        tk.kind = TK::Run;
        tk.left_done = None;
        tk.stop_flag = false;
        tk.stopped_in.clear();
        Pc::Init
    }

    /// Does the handler of message `id` run a select or join?
    fn nest(&mut self, t: usize, id: u32, pc: Pc) -> Pc {
        let Some(kind) = is_nest(self.msgs[id as usize].kind) else { return pc };
        self.nest_as(t, id, kind, id, pc)
    }

    fn nest_as(&mut self, t: usize, id: u32, kind: TK, inner: u32, pc: Pc) -> Pc {
        let tk = &mut self.tasks[t];
        tk.outer.push(Frame { pc, id, kind: tk.kind, inner: tk.inner, left_done: tk.left_done });
        (tk.kind, tk.inner, tk.left_done) = (kind, inner, None);
        Pc::SelLoop
    }

    /// The handlers around what a task was doing go away with it.
    fn drop_frames(&mut self, t: usize) -> R {
        while let Some(f) = self.tasks[t].outer.pop() {
            self.tasks[t].kind = f.kind;
            if f.id >= HOOK {
                continue;
            }
            self.finish_msg(f.id, MSt::Interrupted)?;
            let m = self.tasks[t].mbx;
            self.drop_ref(m)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------------ sinks

    fn sink_step(&mut self, i: usize, what: u8) -> R {
        // what: 0 feed (poll_ready + start_send), 1 flush, 2 close
        let w = W::new();
        let wk = Waker::from(w.clone());
        let mut cx = TCx::from_waker(&wk);
        let first = self.sinks[i].cur.is_some() && !self.sinks[i].cur_polled;
        // model: the first poll of the send inside
        #[derive(Clone, Copy, PartialEq, Debug)]
        enum X {
            Acc,
            Wait,
            Rej,
            None,
        }
        let mut want = X::None;
        if first {
            let id = self.sinks[i].cur.unwrap();
            self.msgs[id as usize].seq = self.seq;
            self.seq += 1;
            want = if !self.connected() {
                X::Rej
            } else if !self.idle.is_empty() || self.uq.len() < self.cap() {
                X::Acc
            } else {
                X::Wait
            };
        }
        let s = self.sinks[i].sink.as_mut().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| match what {
            0 => s.as_mut().poll_ready(&mut cx),
            1 => s.as_mut().poll_flush(&mut cx),
            _ => s.as_mut().poll_close(&mut cx),
        }));
        let Ok(r) = r else { return bad(&["C25", "C22"], "polling a sink panicked") };
        drop(wk);
        self.sinks[i].w = Some(w);
        if first {
            let id = self.sinks[i].cur.unwrap();
            self.sinks[i].cur_polled = true;
            match want {
                X::Acc => self.accept_unicast(id)?,
                X::Wait => {
                    self.msgs[id as usize].st = MSt::Waiting;
                    // a waiting sender without a send slot: families with sinks keep capacity
                    // large enough or drain through the sink's own slot
                    let sid = self.sends.len();
                    self.sends.push(Snd {
                        fut: None,
                        id,
                        plain: true,
                        bcast: false,
                        st: SSt::Waiting,
                        w: self.sinks[i].w.clone(),
                        seen: false,
                        strong: false,
                    });
                    self.w1.push(sid);
                }
                X::Rej => {
                    self.msgs[id as usize].st = MSt::Rejected;
                }
                X::None => {}
            }
            if self.sinks[i].strong {
                self.drop_strong()?; // the send's own handle
            }
        } else if let Some(id) = self.sinks[i].cur {
            // keep the waker of the model's waiting entry current
            if self.msgs[id as usize].st == MSt::Waiting {
                for s in self.sends.iter_mut().filter(|s| s.id == id) {
                    s.w = self.sinks[i].w.clone();
                    s.seen = false;
                }
            }
        }
        let st = self.sinks[i].cur.map(|id| self.msgs[id as usize].st);
        let exp: Poll<Result<(), ()>> = match st {
            None => Poll::Ready(Ok(())),
            Some(MSt::Handled) => Poll::Ready(Ok(())),
            Some(MSt::Interrupted) | Some(MSt::Rejected) => Poll::Ready(Err(())),
            _ => Poll::Pending,
        };
        let got = match &r {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
            Poll::Ready(Err(_)) => Poll::Ready(Err(())),
        };
        if exp != got {
            return bad(&["C25"], format!("sink step {what} yields {r:?} while its item is {st:?}"));
        }
        if let (Some(MSt::Rejected), Poll::Ready(Err(Error::Interrupted))) | (Some(MSt::Interrupted), Poll::Ready(Err(Error::Disconnected))) = (st, &r) {
            return bad(&["C25", "C03"], format!("sink reports {r:?} while its item is {st:?}"));
        }
        match got {
            Poll::Ready(Ok(())) => self.sinks[i].cur = None,
            Poll::Ready(Err(())) => {
                self.sinks[i].cur = None;
                self.sinks[i].failed = true;
            }
            Poll::Pending => {}
        }
        if what == 0 && got == Poll::Ready(Ok(())) {
            let id = self.new_msg(false, Kind::Imm, 0);
            self.msgs[id as usize].sink = true;
            let s = self.sinks[i].sink.as_mut().unwrap();
            let r = s.as_mut().start_send(SinkMsg(Msg::new(id, Kind::Imm)));
            if let Err(e) = r {
                return bad(&["C25"], format!("sink refuses an item although it was ready: {e:?}"));
            }
            self.sinks[i].cur = Some(id);
            self.sinks[i].cur_polled = false;
            if self.sinks[i].strong {
                self.strong += 1; // owned by the unpolled send inside
            }
        }
        Ok(())
    }

    fn drop_sink(&mut self, i: usize) -> R {
        let s = self.sinks[i].sink.take();
        drop(s);
        if let Some(id) = self.sinks[i].cur.take() {
            match self.msgs[id as usize].st {
                MSt::Unpolled => {
                    self.msgs[id as usize].st = MSt::Cancelled;
                    if self.sinks[i].strong {
                        self.drop_strong()?;
                    }
                }
                MSt::Waiting => {
                    self.msgs[id as usize].st = MSt::Cancelled;
                    let sends = &self.sends;
                    self.w1.retain(|&x| sends[x].id != id);
                }
                _ => {}
            }
        }
        if self.sinks[i].strong {
            self.drop_strong()?;
        }
        Ok(())
    }
    // (continued in ops.rs)
}

fn clone_addr(a: &AnyAddr) -> AnyAddr {
    match a {
        AnyAddr::S(a) => AnyAddr::S(a.clone()),
        AnyAddr::W(a) => AnyAddr::W(a.clone()),
        AnyAddr::E(a) => AnyAddr::E(a.clone()),
        AnyAddr::CS(a) => AnyAddr::CS(a.clone()),
        AnyAddr::CW(a) => AnyAddr::CW(a.clone()),
        AnyAddr::CE(a) => AnyAddr::CE(a.clone()),
    }
}

include!("ops.rs");

// Continuation of sim.rs: execution of operations, checks after every operation, closings.

use std::cmp::Ordering as O;
use std::hash::{Hash, Hasher};

/// Records what is hashed; tolerates `finish` calls.
struct Rec0(Vec<u8>);
impl Hasher for Rec0 {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hash_of(x: &impl Hash) -> Vec<u8> {
    let mut h = Rec0(vec![]);
    x.hash(&mut h);
    h.0
}

macro_rules! addr_only {
    ($s:expr, $a:ident => $e:expr) => {
        match $s {
            AnyAddr::S($a) => Some($e),
            AnyAddr::W($a) => Some($e),
            AnyAddr::E($a) => Some($e),
            _ => None,
        }
    };
}
macro_rules! chan_only {
    ($s:expr, $a:ident => $e:expr) => {
        match $s {
            AnyAddr::CS($a) => Some($e),
            AnyAddr::CW($a) => Some($e),
            AnyAddr::CE($a) => Some($e),
            _ => None,
        }
    };
}

impl Sim {
    fn room_for_msg(&self) -> bool {
        self.msgs.len() < self.cfg.max_msgs
    }
    fn live_handles(&self) -> usize {
        self.handles.iter().flatten().count()
    }
    fn live_mbs(&self) -> usize {
        self.mailboxes.iter().flatten().count()
    }
    fn live_recs(&self) -> usize {
        self.recs.iter().filter(|r| r.live && r.fut.is_some() && !r.owned).count()
    }

    /// Execute one operation and all checks that follow it. Ok(false): not applicable here.
    pub fn exec(&mut self, op: &Op) -> R<bool> {
        if self.trace.is_some() {
            let d = format!("{op:?}");
            self.t(|| d);
        }
        let r = self.exec0(op).and_then(|ok| if ok { self.settle().map(|_| true) } else { Ok(false) });
        r.map_err(|mut m| {
            if !m.props.is_empty() {
                let mut add = self.cfg.extra.clone();
                match op {
                    Op::DropRecv(_) => add.push("C02"),
                    Op::DropSend(_) => add.push("C23"),
                    Op::DropReply(_) => add.push("C23"),
                    Op::RecvDiscard(_) | Op::PollRecvDiscard(_) | Op::DropRun(_) => add.push("C24"),
                    Op::Unw(D::Recv, _) => add.extend(["C02", "C24"]),
                    Op::Unw(D::Send | D::Reply, _) => add.extend(["C23", "C24"]),
                    Op::Unw(D::Task, _) | Op::PanicInner(_) => add.extend(["C24", "C17"]),
                    Op::Unw(_, _) => add.push("C24"),
                    Op::DropTask(_) => {
                        add.push("C24");
                        add.push("C17")
                    }
                    _ => {}
                }
                for a in add {
                    if !m.props.contains(&a) {
                        m.props.push(a)
                    }
                }
            }
            m
        })
    }

    fn add_handle(&mut self, a: AnyAddr, strong: bool) {
        if strong {
            self.strong += 1;
        }
        self.handles.push(Some(HS { a, strong }));
    }

    fn exec0(&mut self, op: &Op) -> R<bool> {
        match *op {
            Op::Send { h, p, k, own, plain, poll } => {
                let Some(hi) = self.h(h) else { return Ok(false) };
                if !self.room_for_msg() {
                    return Ok(false);
                }
                let Some((o, rel, moved)) = self.mk_own(own)? else { return Ok(false) };
                let id = self.new_msg(false, k, p);
                self.msgs[id as usize].own = rel;
                let fut = self.mk_send(hi, id, k, p, o, plain);
                let strong = self.handles[hi].as_ref().unwrap().strong;
                if strong {
                    self.strong += 1;
                }
                self.sends.push(Snd { fut: Some(fut), id, plain, bcast: false, st: SSt::Unpolled, w: None, seen: false, strong });
                if let Some(m) = moved {
                    self.drop_handle(m)?;
                }
                if poll {
                    let s = self.sends.len() - 1;
                    self.first_poll(s)?;
                }
                Ok(true)
            }
            Op::Bcast { h, p, k, poll } => {
                let Some(hi) = self.h(h) else { return Ok(false) };
                if !self.room_for_msg() {
                    return Ok(false);
                }
                let strong = self.handles[hi].as_ref().unwrap().strong;
                let id = self.msgs.len() as u32;
                let f = addr_only!(&self.handles[hi].as_ref().unwrap().a, a => {
                    let f = a.broadcast(Bc::new(id, k));
                    let f = if p > 0 { f.priority(p) } else { f };
                    broadcasting!(f)
                });
                let Some(fut) = f else { return Ok(false) };
                self.new_msg(true, k, p);
                if strong {
                    self.strong += 1;
                }
                self.sends.push(Snd { fut: Some(fut), id, plain: false, bcast: true, st: SSt::Unpolled, w: None, seen: false, strong });
                if poll {
                    let s = self.sends.len() - 1;
                    self.first_poll(s)?;
                }
                Ok(true)
            }
            Op::PollSend(n) => {
                let Some(s) = self.s(n) else { return Ok(false) };
                if self.sends[s].st == SSt::Waiting && !self.cfg.spurious {
                    return Ok(false);
                }
                self.poll_send(s)?;
                Ok(true)
            }
            Op::DropSend(n) => {
                let Some(s) = self.s(n) else { return Ok(false) };
                self.drop_send(s)?;
                Ok(true)
            }
            Op::DropReply(n) => {
                let Some(i) = Self::nth(&self.replies, n, |r| r.fut.is_some()) else { return Ok(false) };
                let f = self.replies[i].fut.take();
                drop(f);
                self.replies[i].w = None;
                Ok(true)
            }
            Op::Detach(n) => {
                if let Some(s) = Self::nth(&self.sends, n, |s| s.fut.is_some() && s.plain) {
                    let f = self.sends[s].fut.take().unwrap();
                    self.sends[s].fut = Some(f.detach());
                    self.sends[s].plain = false;
                    return Ok(true);
                }
                // or an accepted one
                let attached = |r: &Reply| matches!(r.fut, Some(ReplyFut::Attached(_)));
                let Some(i) = Self::nth(&self.replies, n, attached) else { return Ok(false) };
                let Some(ReplyFut::Attached(f)) = self.replies[i].fut.take() else { unreachable!() };
                let id = self.replies[i].id;
                let Ok(Poll::Ready(SendOut::Reply(r))) = poll_box(&mut f.detach(), &W::new()) else {
                    return bad(&["C03", "C04"], format!("send of message {id} was accepted and then detached, but does not yield the reply to wait for"));
                };
                self.replies[i].fut = Some(ReplyFut::Detached(Box::pin(r.map(|r| r.map(Some)))));
                Ok(true)
            }
            Op::Prio(n, p) => {
                let Some(s) = Self::nth(&self.sends, n, |s| s.fut.is_some() && s.st == SSt::Unpolled) else { return Ok(false) };
                let id = self.sends[s].id;
                self.sends[s].fut.as_mut().unwrap().as_mut().priority(p);
                self.msgs[id as usize].prio = p as u64;
                Ok(true)
            }
            Op::Tie(n) => {
                // The message owns the future it is sent with.
                if let Some(s) = Self::nth(&self.sends, n, |s| s.fut.is_some() && s.st == SSt::Waiting && !s.bcast) {
                    let id = self.sends[s].id;
                    let f = self.sends[s].fut.take().unwrap();
                    TIED.with(|t| t.borrow_mut().insert(id, Box::pin(f.map(|_| ()))));
                    self.msgs[id as usize].own.push(Rel::Snd(s));
                    return Ok(true);
                }
                // or its own reply
                let Some(i) = Self::nth(&self.replies, n, |r| r.fut.is_some()) else { return Ok(false) };
                let id = self.replies[i].id;
                if self.msgs[id as usize].bcast || self.msgs[id as usize].st != MSt::Queued {
                    return Ok(false);
                }
                let f = self.replies[i].fut.take().unwrap();
                self.replies[i].w = None;
                TIED.with(|t| t.borrow_mut().insert(id, Box::pin(f.map(|_| ()))));
                Ok(true)
            }
            Op::Next(m) => {
                let Some(m) = self.m(m) else { return Ok(false) };
                if self.live_recs() >= self.cfg.max_recs {
                    return Ok(false);
                }
                let f = mk_recv(&self.mailboxes[m].as_ref().unwrap().mb);
                let x = self.mailboxes[m].as_ref().unwrap().mbx;
                self.new_rec(x, Some(f));
                Ok(true)
            }
            Op::Recv(m) | Op::RecvDiscard(m) => {
                let Some(m) = self.m(m) else { return Ok(false) };
                if self.live_recs() >= self.cfg.max_recs {
                    return Ok(false);
                }
                let f = mk_recv(&self.mailboxes[m].as_ref().unwrap().mb);
                let x = self.mailboxes[m].as_ref().unwrap().mbx;
                let rid = self.new_rec(x, Some(f));
                self.poll_rec(rid, matches!(op, Op::RecvDiscard(_)))?;
                if matches!(op, Op::RecvDiscard(_)) && self.recs[rid].live {
                    return Ok(false); // same as Recv
                }
                Ok(true)
            }
            Op::PollRecv(n) | Op::PollRecvDiscard(n) => {
                let Some(r) = self.r(n) else { return Ok(false) };
                if self.recs[r].st == RSt::Idle && !self.cfg.spurious {
                    return Ok(false);
                }
                let discard = matches!(op, Op::PollRecvDiscard(_));
                self.poll_rec(r, discard)?;
                Ok(!(discard && self.recs[r].live))
            }
            Op::DropRecv(n) => {
                let Some(r) = self.r(n) else { return Ok(false) };
                self.drop_recv(r)?;
                Ok(true)
            }
            Op::Finish(n) => {
                let Some(i) = self.run(n) else { return Ok(false) };
                self.finish_run(i)?;
                Ok(true)
            }
            Op::PollRun(n) => {
                let Some(i) = self.run(n) else { return Ok(false) };
                if !gate_is_open(self.runs[i].id) && !self.cfg.spurious {
                    return Ok(false);
                }
                self.poll_run(i)?;
                Ok(true)
            }
            Op::DropRun(n) => {
                let Some(i) = self.run(n) else { return Ok(false) };
                self.drop_run(i)?;
                Ok(true)
            }
            Op::CloneMb(m) => {
                let Some(m) = self.m(m) else { return Ok(false) };
                if self.live_mbs() >= self.cfg.max_mbs {
                    return Ok(false);
                }
                let mb = self.mailboxes[m].as_ref().unwrap().mb.clone();
                self.mbx.push(Mbx { refs: 0, bq: vec![] });
                let x = self.mbx.len() - 1;
                self.add_ref(x);
                self.mailboxes.push(Some(MbS { mb, mbx: x }));
                Ok(true)
            }
            Op::DropMb(m) => {
                let Some(m) = self.m(m) else { return Ok(false) };
                self.drop_mb(m)?;
                Ok(true)
            }
            Op::MbAddr(m) => {
                let Some(m) = self.m(m) else { return Ok(false) };
                if self.live_handles() >= self.cfg.max_handles {
                    return Ok(false);
                }
                let a = self.mailboxes[m].as_ref().unwrap().mb.address();
                self.add_handle(AnyAddr::W(a), false);
                Ok(true)
            }
            Op::CloneH(h) => {
                let Some(h) = self.h(h) else { return Ok(false) };
                if self.live_handles() >= self.cfg.max_handles {
                    return Ok(false);
                }
                let hs = self.handles[h].as_ref().unwrap();
                let (a, s) = (clone_addr(&hs.a), hs.strong);
                self.add_handle(a, s);
                Ok(true)
            }
            Op::DropH(h) => {
                let Some(h) = self.h(h) else { return Ok(false) };
                self.drop_handle(h)?;
                Ok(true)
            }
            Op::Downgrade(h) => {
                let Some(h) = self.h(h) else { return Ok(false) };
                if self.live_handles() >= self.cfg.max_handles {
                    return Ok(false);
                }
                let Some(a) = downgraded(&self.handles[h].as_ref().unwrap().a) else { return Ok(false) };
                self.add_handle(a, false);
                Ok(true)
            }
            Op::Upgrade(h) => {
                let Some(h) = self.h(h) else { return Ok(false) };
                let AnyAddr::W(a) = &self.handles[h].as_ref().unwrap().a else { return Ok(false) };
                if self.live_handles() >= self.cfg.max_handles {
                    return Ok(false);
                }
                let r = a.try_upgrade();
                match (r, self.strong > 0) {
                    (Some(a), true) => self.add_handle(AnyAddr::S(a), true),
                    (None, false) => {}
                    (Some(_), false) => return bad(&["C12"], "a weak address was upgraded although no strong address exists"),
                    (None, true) => return bad(&["C12"], "a weak address could not be upgraded although a strong address exists"),
                }
                Ok(true)
            }
            Op::AsEither(h) => {
                let Some(h) = self.h(h) else { return Ok(false) };
                if self.live_handles() >= self.cfg.max_handles {
                    return Ok(false);
                }
                let hs = self.handles[h].as_ref().unwrap();
                let s = hs.strong;
                let a = match &hs.a {
                    AnyAddr::S(a) => AnyAddr::E(a.as_either()),
                    AnyAddr::W(a) => AnyAddr::E(a.as_either()),
                    AnyAddr::E(a) => AnyAddr::E(a.as_either()),
                    AnyAddr::CS(a) => AnyAddr::CE(a.as_either()),
                    AnyAddr::CW(a) => AnyAddr::CE(a.as_either()),
                    AnyAddr::CE(a) => AnyAddr::CE(a.as_either()),
                };
                self.add_handle(a, s);
                Ok(true)
            }
            Op::Channel(h) => {
                let Some(h) = self.h(h) else { return Ok(false) };
                if self.live_handles() >= self.cfg.max_handles {
                    return Ok(false);
                }
                let hs = self.handles[h].as_ref().unwrap();
                let s = hs.strong;
                let a = match &hs.a {
                    AnyAddr::S(a) => AnyAddr::CS(MessageChannel::new(a.clone())),
                    AnyAddr::W(a) => AnyAddr::CW(a.clone().into()),
                    AnyAddr::E(a) => AnyAddr::CE(MessageChannel::new(a.clone())),
                    _ => return Ok(false),
                };
                self.add_handle(a, s);
                Ok(true)
            }
            Op::Join(h) | Op::JoinLazy(h) => {
                let Some(h) = self.h(h) else { return Ok(false) };
                let lazy = matches!(op, Op::JoinLazy(_));
                let f = each!(&self.handles[h].as_ref().unwrap().a, a => a.join());
                let pre = !self.connected();
                self.joins.push(JoinS { fut: Some(f), w: None, pre, lazy, done: false });
                if !lazy {
                    let j = self.joins.len() - 1;
                    self.poll_join(j)?;
                }
                Ok(true)
            }
            Op::PollJoin(n) => {
                let Some(j) = Self::nth(&self.joins, n, |j| j.fut.is_some()) else { return Ok(false) };
                if self.joins[j].w.is_some() && !self.cfg.spurious {
                    return Ok(false);
                }
                self.joins[j].lazy = false;
                self.poll_join(j)?;
                Ok(true)
            }
            Op::DropJoin(n) => {
                let Some(j) = Self::nth(&self.joins, n, |j| j.fut.is_some()) else { return Ok(false) };
                self.joins[j].fut = None;
                self.joins[j].w = None;
                Ok(true)
            }
            Op::Unw(d, n) => {
                let op = match d {
                    D::Recv => Op::DropRecv(n),
                    D::Send => Op::DropSend(n),
                    D::Reply => Op::DropReply(n),
                    D::Run => Op::DropRun(n),
                    D::Mb => Op::DropMb(n),
                    D::H => Op::DropH(n),
                    D::Task => Op::DropTask(n),
                    D::Sink => Op::SinkDrop(n),
                };
                unwinding(|| self.exec0(&op))
            }
            Op::PrioLate(n, p) => {
                let Some(s) = Self::nth(&self.sends, n, |s| s.fut.is_some() && s.st != SSt::Unpolled) else { return Ok(false) };
                let id = self.sends[s].id;
                let mut f = self.sends[s].fut.take().unwrap();
                if catch_unwind(AssertUnwindSafe(|| f.as_mut().priority(p))).is_ok() {
                    return bad(&["C05"], format!("the priority of message {id} can be changed although its send was polled already"));
                }
                self.sends[s].fut = Some(f);
                self.drop_send(s)?;
                Ok(true)
            }
            Op::PanicInner(n) => {
                let Some(t) = self.tk(n) else { return Ok(false) };
                let waits = match self.tasks[t].pc {
                    Pc::SelLoop => true,
                    Pc::JoinOnly | Pc::ScopedWait => true,
                    _ => false,
                };
                if !waits || self.tasks[t].kind == TK::Run || gate_is_open(self.tasks[t].inner) || self.dead && self.tasks[t].kind == TK::Scoped {
                    return Ok(false);
                }
                gate_panic(self.tasks[t].inner);
                self.poll_task(t)?;
                if self.tasks[t].fut.is_some() {
                    return bad(&["C18", "C16"], "the panic of an inner future is swallowed");
                }
                Ok(true)
            }
            Op::Run { m, start, stop_gate, poll } => {
                let Some(m) = self.m(m) else { return Ok(false) };
                let t = self.spawn_task(TK::Run, m, start, stop_gate);
                if poll {
                    self.poll_task(t)?;
                }
                Ok(true)
            }
            Op::Select { m } | Op::JoinF { m } => {
                let Some(m) = self.m(m) else { return Ok(false) };
                let k = if matches!(op, Op::Select { .. }) { TK::Select } else { TK::JoinF };
                let t = self.spawn_task(k, m, StartMode::Ok, false);
                self.poll_task(t)?;
                Ok(true)
            }
            Op::SelectRun { m } | Op::JoinRun { m } => {
                let Some(m) = self.m(m) else { return Ok(false) };
                let k = if matches!(op, Op::SelectRun { .. }) { TK::Select } else { TK::JoinF };
                let t = self.spawn_tasks(k, m, StartMode::Ok, false, true);
                self.poll_task(t)?;
                Ok(true)
            }
            Op::SelectReady { m } | Op::JoinFReady { m } => {
                let Some(m) = self.m(m) else { return Ok(false) };
                let k = if matches!(op, Op::SelectReady { .. }) { TK::Select } else { TK::JoinF };
                let t = self.spawn_task(k, m, StartMode::Ok, false);
                gate_set(self.tasks[t].inner, true);
                self.poll_task(t)?;
                Ok(true)
            }
            Op::Scoped { h } => {
                let Some(h) = self.h(h) else { return Ok(false) };
                self.gate_seq += 1;
                let inner = self.gate_seq;
                let f = addr_only!(&self.handles[h].as_ref().unwrap().a, a => {
                    let f = xtra::scoped_task::scoped(a, Inner(inner));
                    Box::pin(f.map(TOut::Scoped)) as LocalFut<TOut>
                });
                let Some(f) = f else { return Ok(false) };
                let pre = !self.connected();
                self.tasks.push(Task {
                    kind: TK::Scoped,
                    fut: Some(f),
                    w: None,
                    act: 2_000_000 + inner,
                    mbx: 0,
                    pc: Pc::ScopedWait,
                    rec: None,
                    inner,
                    start: StartMode::Ok,
                    stop_gate: None,
                    stop_panic: false,
                    pre,
                    stop_flag: false,
                    left_done: None,
                    outer: vec![],
                    stopped_in: vec![],
                    second: None,
                });
                let t = self.tasks.len() - 1;
                self.poll_task(t)?;
                Ok(true)
            }
            Op::PollTask(n) => {
                let Some(t) = self.tk(n) else { return Ok(false) };
                let woken = self.tasks[t].w.as_ref().map_or(true, |w| w.is());
                if !woken && !self.cfg.spurious {
                    return Ok(false);
                }
                self.poll_task(t)?;
                Ok(true)
            }
            Op::DropTask(n) => {
                let Some(t) = self.tk(n) else { return Ok(false) };
                self.drop_task(t)?;
                Ok(true)
            }
            Op::OpenTask(n) => {
                let Some(t) = self.tk(n) else { return Ok(false) };
                let g = match self.tasks[t].pc {
                    Pc::Starting => match self.tasks[t].start {
                        StartMode::GateOk(g) | StartMode::GateErr(g) => g,
                        _ => return Ok(false),
                    },
                    Pc::Handling(id) | Pc::SelHandling(id) | Pc::SelLeftHandling(id) => id,
                    Pc::Stopping => match self.tasks[t].stop_gate {
                        Some(g) => g,
                        None => return Ok(false),
                    },
                    _ => return Ok(false),
                };
                let was = gate_is_open(g);
                gate_set(g, true);
                if !was && !self.tasks[t].w.as_ref().map_or(false, |w| w.is()) {
                    return bad(&["C04", "C17"], "the waker of an actor's task did not reach its handler or hook");
                }
                self.poll_task(t)?;
                Ok(true)
            }
            Op::OpenInner(n) => {
                let Some(t) = self.tk(n) else { return Ok(false) };
                if self.tasks[t].kind == TK::Run || self.tasks[t].left_done.is_some() || gate_is_open(self.tasks[t].inner) {
                    return Ok(false);
                }
                gate_set(self.tasks[t].inner, true);
                let waits = matches!(self.tasks[t].pc, Pc::SelLoop | Pc::JoinOnly | Pc::ScopedWait);
                if waits && !self.tasks[t].w.as_ref().map_or(true, |w| w.is()) {
                    let p: &[P] = if self.tasks[t].kind == TK::Scoped { &["C04", "C16"] } else { &["C04", "C18"] };
                    return bad(p, "the waker of the task did not reach the inner future");
                }
                Ok(true)
            }
            Op::IntoSink(h) | Op::IntoSinkCh(h) => {
                let Some(h) = self.h(h) else { return Ok(false) };
                let hs = self.handles[h].take().unwrap();
                let ch = matches!(op, Op::IntoSinkCh(_));
                type SB = Pin<Box<dyn Sink<SinkMsg, Error = Error>>>;
                let sink: SB = match hs.a {
                    AnyAddr::S(a) if !ch => Box::pin(a.into_sink()),
                    AnyAddr::W(a) if !ch => Box::pin(a.into_sink()),
                    AnyAddr::E(a) if !ch => Box::pin(a.into_sink()),
                    AnyAddr::S(a) => Box::pin(MessageChannel::<SinkMsg, (), _>::new(a).into_sink()),
                    AnyAddr::W(a) => Box::pin(MessageChannel::<SinkMsg, (), _>::new(a).into_sink()),
                    AnyAddr::E(a) => Box::pin(MessageChannel::<SinkMsg, (), _>::new(a).into_sink()),
                    a => {
                        self.handles[h] = Some(HS { a, strong: hs.strong });
                        return Ok(false);
                    }
                };
                self.sinks.push(SinkS { sink: Some(sink), w: None, strong: hs.strong, cur: None, cur_polled: false, failed: false });
                Ok(true)
            }
            Op::SinkFeed(n) | Op::SinkFlush(n) | Op::SinkClose(n) => {
                let Some(i) = Self::nth(&self.sinks, n, |s| s.sink.is_some() && !s.failed) else { return Ok(false) };
                if matches!(op, Op::SinkFeed(_)) && !self.room_for_msg() {
                    return Ok(false);
                }
                let what = match op {
                    Op::SinkFeed(_) => 0,
                    Op::SinkFlush(_) => 1,
                    _ => 2,
                };
                self.sink_step(i, what)?;
                Ok(true)
            }
            Op::SinkDrop(n) => {
                let Some(i) = Self::nth(&self.sinks, n, |s| s.sink.is_some()) else { return Ok(false) };
                self.drop_sink(i)?;
                Ok(true)
            }
        }
    }

    fn drop_handle(&mut self, h: usize) -> R {
        let hs = self.handles[h].take().unwrap();
        let s = hs.strong;
        if catch_unwind(AssertUnwindSafe(move || drop(hs))).is_err() {
            return bad(&["C22"], "dropping a handle panicked");
        }
        if s {
            self.drop_strong()?;
        }
        Ok(())
    }

    fn drop_mb(&mut self, m: usize) -> R {
        let ms = self.mailboxes[m].take().unwrap();
        let x = ms.mbx;
        if catch_unwind(AssertUnwindSafe(move || drop(ms))).is_err() {
            return bad(&["C22", "C15"], "dropping a mailbox panicked");
        }
        self.drop_ref(x)
    }

    fn drop_recv(&mut self, r: usize) -> R {
        let f = self.recs[r].fut.take();
        if catch_unwind(AssertUnwindSafe(move || drop(f))).is_err() {
            return bad(&["C22", "C02"], "dropping a receive panicked");
        }
        self.recs[r].w = None;
        self.model_drop_rec(r)
    }

    fn finish_run(&mut self, i: usize) -> R {
        let id = self.runs[i].id;
        let was = gate_is_open(id);
        gate_set(id, true);
        if !was && !self.runs[i].w.is() && !self.msgs[id as usize].bcast {
            return bad(&["C04", "C24"], format!("the waker of the dispatch did not reach the handler of message {id}"));
        }
        self.poll_run(i)
    }

    fn poll_join(&mut self, j: usize) -> R {
        let due = self.joins[j].pre || self.dead;
        let w = W::new();
        let wk = Waker::from(w.clone());
        let f = self.joins[j].fut.as_mut().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| Pin::new(f).poll(&mut TCx::from_waker(&wk))));
        drop(wk);
        let Ok(r) = r else { return bad(&["C16", "C22"], "polling a join future panicked") };
        match (r, due) {
            (Poll::Ready(()), true) => {
                self.joins[j].fut = None;
                self.joins[j].w = None;
                self.joins[j].done = true;
                Ok(())
            }
            (Poll::Pending, false) => {
                self.joins[j].w = Some(w);
                Ok(())
            }
            (Poll::Ready(()), false) => {
                let mut p = vec!["C16"];
                p.extend(self.running_prop());
                bad(&p, "join completed although the address was connected and a mailbox still exists")
            }
            (Poll::Pending, true) => bad(&["C16", "C15"], "join stays pending although the actor is gone"),
        }
    }

    fn poll_reply(&mut self, i: usize) -> R {
        let id = self.replies[i].id;
        let st = self.msgs[id as usize].st;
        let w = W::new();
        let r = poll_box(self.replies[i].fut.as_mut().unwrap(), &w);
        let Ok(r) = r else { return bad(&["C03", "C22"], "polling a reply panicked") };
        match (r, st) {
            (Poll::Ready(Ok(Some(v))), MSt::Handled) if v.0 == id => {}
            (Poll::Ready(Ok(Some(v))), MSt::Handled) => return bad(&["C03"], format!("send of message {id} yields the value returned for message {}", v.0)),
            (Poll::Ready(Err(Error::Interrupted)), MSt::Interrupted) => {}
            (Poll::Pending, MSt::Queued | MSt::Running | MSt::Waiting) => {
                self.replies[i].w = Some(w);
                return Ok(());
            }
            (Poll::Pending, MSt::Handled) => return bad(&["C03", "C04"], format!("message {id} was handled but its send stays pending")),
            (Poll::Pending, _) => {
                let mut p = vec!["C03", "C04"];
                if self.dead {
                    p.push("C15")
                }
                return bad(&p, format!("message {id} was dropped unhandled but its send stays pending"));
            }
            (Poll::Ready(v), st) => {
                let v = v.map(|v| v.map(|v| v.0));
                let mut p = vec!["C03"];
                if self.dead {
                    p.push("C15")
                }
                if matches!(st, MSt::Queued) {
                    p.push("C01")
                }
                return bad(&p, format!("send of message {id} yields {v:?} while its state is {st:?}"));
            }
        }
        self.replies[i].fut = None;
        self.replies[i].w = None;
        Ok(())
    }

    // ------------------------------------------------------------------ checks after every operation

    fn settle(&mut self) -> R {
        if TERMINATED.with(|c| c.take()) {
            return bad(&["C04", "C01"], "a receive is wrong about whether it is terminated");
        }
        // replies
        for i in 0..self.replies.len() {
            if self.replies[i].fut.is_none() {
                continue;
            }
            let id = self.replies[i].id;
            let st = self.msgs[id as usize].st;
            let done = matches!(st, MSt::Handled | MSt::Interrupted);
            match &self.replies[i].w {
                None => {
                    if id % 2 == 0 || done {
                        self.poll_reply(i)?
                    }
                }
                Some(w) => {
                    let woken = w.is();
                    if done && !woken {
                        let mut p = vec!["C04", "C03"];
                        if self.dead {
                            p.push("C15")
                        }
                        return bad(&p, format!("message {id} is {st:?} but its sender was not woken"));
                    }
                    if woken {
                        self.poll_reply(i)?
                    }
                }
            }
        }
        // joins
        for j in 0..self.joins.len() {
            if self.joins[j].fut.is_none() {
                continue;
            }
            if let Some(w) = &self.joins[j].w {
                let woken = w.is();
                if self.dead && !woken {
                    return bad(&["C16", "C04"], "the last mailbox is gone but a polled join future was not woken");
                }
                if woken {
                    self.poll_join(j)?;
                }
            }
        }
        // scoped tasks
        for t in 0..self.tasks.len() {
            if self.tasks[t].fut.is_some() && self.tasks[t].kind == TK::Scoped {
                let woken = self.tasks[t].w.as_ref().map_or(false, |w| w.is());
                if self.dead && !woken {
                    return bad(&["C16", "C04"], "the last mailbox is gone but a scoped task was not woken");
                }
                if self.dead {
                    self.poll_task(t)?;
                }
            }
        }
        // sinks
        for s in &self.sinks {
            if let (Some(id), Some(w), true) = (s.cur, &s.w, s.cur_polled) {
                let st = self.msgs[id as usize].st;
                if matches!(st, MSt::Handled | MSt::Interrupted | MSt::Rejected) && !w.is() {
                    return bad(&["C25", "C04"], format!("item {id} of a sink is {st:?} but the sink was not woken"));
                }
            }
        }
        // idle receives and waiting sends woken without reason: poll them again
        for r in 0..self.recs.len() {
            if self.recs[r].live && self.recs[r].st == RSt::Idle && self.recs[r].fut.is_some() && !self.recs[r].owned && self.rec_newly(r) {
                self.poll_rec(r, false)?;
            }
        }
        for s in 0..self.sends.len() {
            if self.sends[s].fut.is_some() && self.sends[s].st == SSt::Waiting && self.snd_newly(s) {
                self.poll_send(s)?;
            }
        }
        // message accounting
        for id in 0..self.msgs.len() {
            let m = &self.msgs[id];
            if m.bcast {
                let n = BC_LIVE.with(|c| c.borrow().get(id).copied().unwrap_or(0));
                let pending = self.mbx.iter().filter(|x| x.refs > 0).any(|x| x.bq.iter().any(|b| b.0 == id as u32));
                let held = matches!(m.st, MSt::Unpolled | MSt::Waiting) || pending;
                let running = self.runs.iter().any(|r| r.live && r.id == id as u32)
                    || self.tasks.iter().any(|t| {
                        matches!(t.pc, Pc::Handling(x) | Pc::SelHandling(x) | Pc::SelLeftHandling(x) if x == id as u32) || t.outer.iter().any(|f| f.id == id as u32)
                    });
                if n < 0 {
                    return bad(&["C27"], format!("broadcast {id} dropped twice"));
                }
                if held && n == 0 {
                    return bad(&["C09", "C27"], format!("broadcast {id} was dropped while it is still to be received"));
                }
                if !held && !running && n > 0 {
                    return bad(&["C27"], format!("broadcast {id} can be received by no one but was not released"));
                }
            } else {
                let n = MSG_DROPS.with(|c| c.borrow().get(id).copied().unwrap_or(0));
                match m.st {
                    MSt::Unpolled | MSt::Waiting | MSt::Queued if n > 0 => {
                        let mut p = vec!["C01", "C27"];
                        if m.st != MSt::Queued {
                            p = vec!["C03", "C27", "C08"];
                        }
                        if m.st == MSt::Queued {
                            p.push("C03")
                        }
                        return bad(&p, format!("message {id} was dropped while its state is {:?}", m.st));
                    }
                    MSt::Handled | MSt::Interrupted | MSt::Cancelled | MSt::Rejected if n == 0 => {
                        let mut p = vec!["C27"];
                        if self.dead {
                            p.push("C15")
                        }
                        if m.st == MSt::Cancelled {
                            p.push("C23")
                        }
                        if m.st == MSt::Interrupted {
                            p.push("C24")
                        }
                        return bad(&p, format!("message {id} is {:?} but was not released", m.st));
                    }
                    _ if n > 1 => return bad(&["C27", "C01"], format!("message {id} dropped {n} times")),
                    _ => {}
                }
            }
        }
        // handles
        let len = self.uq.len() + self.tail();
        let plain = self.recs.iter().all(|r| !r.live) && self.runs.iter().all(|r| !r.live) && self.tasks.iter().all(|t| t.fut.is_none());
        for h in self.handles.iter().flatten() {
            let (l, e, c, con) = each!(&h.a, a => (a.len(), a.is_empty(), a.capacity(), a.is_connected()));
            let ch = chan_only!(&h.a, _a => ()).is_some();
            let mut p = vec!["C21"];
            if ch {
                p.push("C19")
            }
            if l != len {
                let mut p = p.clone();
                if l.wrapping_sub(self.uq.len()) != self.tail() && self.mbx.iter().any(|m| m.refs == 0) {
                    p.push("C10")
                }
                if relevant(&p) {
                return bad(&p, format!("length is {l} but {} messages are queued and the longest broadcast queue has {}", self.uq.len(), self.tail()));
                }
            }
            if e != (l == 0) && relevant(&p) {
                return bad(&p, format!("is_empty is {e} at length {l}"));
            }
            if c != self.cfg.cap && relevant(&p) {
                return bad(&p, format!("capacity is {c:?}, created with {:?}", self.cfg.cap));
            }
            if con != self.connected() {
                if self.rx == 0 {
                    p.push("C15")
                } else {
                    p.push("C11");
                    if self.strong > 0 {
                        p.push("C15");
                        p.extend(self.running_prop());
                    } else {
                        p.push("C12");
                    }
                }
                if relevant(&p) {
                    return bad(&p, format!("is_connected is {con} with {} strong handles and {} receiving handles", self.strong, self.rx));
                }
            }
            if self.cfg.debug_counts && plain {
                let d = each!(&h.a, a => format!("{a:?}"));
                let want = format!("addresses: {}, mailboxes: {} ", self.strong, self.rx);
                if !d.contains(&want) && relevant(&p) {
                    return bad(&p, format!("Debug shows {d}, expected {want}"));
                }
            }
        }
        if self.cfg.compare && relevant(&["C19", "C20"]) {
            self.compare()?;
        }
        Ok(())
    }

    fn compare(&self) -> R {
        struct X<'a> {
            a: &'a AnyAddr,
            own: Option<AnyAddr>,
            world: usize,
            strong: bool,
        }
        let mut xs: Vec<X> = self.handles.iter().flatten().map(|h| X { a: &h.a, own: None, world: 0, strong: h.strong }).collect();
        let mut extra: Vec<(AnyAddr, usize, bool)> = vec![];
        for (i, (a, _)) in self.others.iter().enumerate() {
            extra.push((AnyAddr::S(a.clone()), i + 1, true));
            extra.push((AnyAddr::W(a.downgrade()), i + 1, false));
            extra.push((AnyAddr::E(a.as_either()), i + 1, true));
            extra.push((AnyAddr::E(a.downgrade().as_either()), i + 1, false));
            extra.push((AnyAddr::CS(a.clone().into()), i + 1, true));
            extra.push((AnyAddr::CE(a.downgrade().as_either().into()), i + 1, false));
        }
        for (a, w, s) in &extra {
            xs.push(X { a, own: None, world: *w, strong: *s });
        }
        let _ = xs.iter().map(|x| x.own.is_none()).count();
        // order of actors as observed through the first pair of strong/any handles
        let mut ord: Vec<(usize, usize, O)> = vec![];
        let mut world_ord = |w1: usize, w2: usize, o: O| -> bool {
            if let Some(x) = ord.iter().find(|x| x.0 == w1 && x.1 == w2) {
                return x.2 == o;
            }
            ord.push((w1, w2, o));
            ord.push((w2, w1, o.reverse()));
            true
        };
        for x in &xs {
            for y in &xs {
                let same = x.world == y.world;
                let eq = same && x.strong == y.strong;
                // addresses among each other
                let r = addr_only!(x.a, a => addr_only!(y.a, b => (a == b, a.partial_cmp(b), a.same_actor(b))));
                if let Some(Some((e, po, sa))) = r {
                    if sa != same {
                        return bad(&["C20"], format!("same_actor is {sa} for handles of actors {} and {}", x.world, y.world));
                    }
                    if e != eq {
                        return bad(&["C20"], format!("== is {e} for handles (actor {}, strong {}) and (actor {}, strong {})", x.world, x.strong, y.world, y.strong));
                    }
                    let Some(po) = po else { return bad(&["C20"], "partial_cmp yields None") };
                    let want = if same { Some(x.strong.cmp(&y.strong)) } else { None };
                    if want.map_or(po == O::Equal, |w| w != po) {
                        return bad(&["C20"], format!("partial_cmp is {po:?} for handles (actor {}, strong {}) and (actor {}, strong {})", x.world, x.strong, y.world, y.strong));
                    }
                    if !same && !world_ord(x.world, y.world, po) {
                        return bad(&["C20"], "the order of two actors depends on the kind of handle compared");
                    }
                    let o = match (x.a, y.a) {
                        (AnyAddr::S(a), AnyAddr::S(b)) => Some(a.cmp(b)),
                        (AnyAddr::W(a), AnyAddr::W(b)) => Some(a.cmp(b)),
                        (AnyAddr::E(a), AnyAddr::E(b)) => Some(a.cmp(b)),
                        _ => None,
                    };
                    if o.map_or(false, |o| o != po) {
                        return bad(&["C20"], format!("cmp is {o:?} but partial_cmp is {po:?} for handles (actor {}, strong {}) and (actor {}, strong {})", x.world, x.strong, y.world, y.strong));
                    }
                    let (hx, hy) = (addr_only!(x.a, a => hash_of(a)), addr_only!(y.a, b => hash_of(b)));
                    if eq && hx != hy {
                        return bad(&["C20"], "equal handles hash differently");
                    }
                }
                let r = chan_only!(x.a, a => chan_only!(y.a, b => a.same_actor(b)));
                if let Some(Some(sa)) = r {
                    if sa != same {
                        return bad(&["C20", "C19"], format!("channels: same_actor is {sa} for actors {} and {}", x.world, y.world));
                    }
                    let e = match (x.a, y.a) {
                        (AnyAddr::CS(a), AnyAddr::CS(b)) => Some((a == b, hash_of(a) == hash_of(b))),
                        (AnyAddr::CW(a), AnyAddr::CW(b)) => Some((a == b, hash_of(a) == hash_of(b))),
                        (AnyAddr::CE(a), AnyAddr::CE(b)) => Some((a == b, hash_of(a) == hash_of(b))),
                        _ => None,
                    };
                    if let Some((e, h)) = e {
                        if e != eq {
                            return bad(&["C20", "C19"], format!("channels: == is {e} for (actor {}, strong {}) and (actor {}, strong {})", x.world, x.strong, y.world, y.strong));
                        }
                        if eq && !h {
                            return bad(&["C20", "C19"], "equal channels hash differently");
                        }
                    }
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ closings

    fn open_all(&mut self) {
        for (id, m) in self.msgs.iter().enumerate() {
            if is_nest(m.kind).is_some() {
                gate_set(id as u32, true)
            }
        }
        for r in &self.runs {
            if r.live {
                gate_set(r.id, true)
            }
        }
    }

    fn open_task_gates(&mut self, t: usize) {
        let tk = &self.tasks[t];
        match tk.start {
            StartMode::GateOk(g) | StartMode::GateErr(g) => gate_set(g, true),
            _ => {}
        }
        if let Some(g) = tk.stop_gate {
            gate_set(g, true)
        }
        match tk.pc {
            Pc::Handling(id) | Pc::SelHandling(id) | Pc::SelLeftHandling(id) => gate_set(id, true),
            _ => {}
        }
        gate_set(self.tasks[t].inner, true);
        for f in &self.tasks[t].outer {
            gate_set(f.inner, true);
        }
    }

    /// Let everything runnable run. `recv`: also keep receiving on all mailboxes.
    fn run_all(&mut self, recv: bool) -> R {
        for round in 0.. {
            if round > 300 {
                return bad(&["C04"], "no quiescence");
            }
            let mut progress = false;
            crate::explore::tick();
            for s in 0..self.sends.len() {
                if self.sends[s].fut.is_some() && self.sends[s].st != SSt::Waiting {
                    self.poll_send(s)?;
                    self.settle()?;
                    progress = true;
                }
            }
            self.open_all();
            for i in 0..self.runs.len() {
                if self.runs[i].live {
                    self.poll_run(i)?;
                    self.settle()?;
                    progress = true;
                }
            }
            for t in 0..self.tasks.len() {
                if self.tasks[t].fut.is_some() {
                    self.open_task_gates(t);
                    if self.tasks[t].w.as_ref().map_or(true, |w| w.is()) {
                        self.poll_task(t)?;
                        self.settle()?;
                        progress = true;
                    }
                }
            }
            for r in 0..self.recs.len() {
                if self.recs[r].live && self.recs[r].fut.is_some() && !self.recs[r].owned && self.recs[r].st != RSt::Idle {
                    self.poll_rec(r, false)?;
                    self.settle()?;
                    progress = true;
                }
            }
            for i in 0..self.sinks.len() {
                if self.sinks[i].sink.is_some() && !self.sinks[i].failed && self.sinks[i].cur.is_some() && self.sinks[i].w.as_ref().map_or(true, |w| w.is() || !self.sinks[i].cur_polled) {
                    self.sink_step(i, 1)?;
                    self.settle()?;
                    progress = true;
                }
            }
            if recv {
                for m in 0..self.mailboxes.len() {
                    let Some(ms) = &self.mailboxes[m] else { continue };
                    let f = mk_recv(&ms.mb);
                    let x = ms.mbx;
                    let before = self.work();
                    let rid = self.new_rec(x, Some(f));
                    crate::explore::tick();
                    self.poll_rec(rid, false)?;
                    if self.recs[rid].live {
                        self.drop_recv(rid)?;
                    }
                    self.settle()?;
                    if self.work() != before {
                        progress = true;
                    }
                }
            }
            if !progress {
                break;
            }
        }
        Ok(())
    }

    fn work(&self) -> (usize, usize, usize) {
        (self.uq.len(), self.mbx.iter().map(|m| m.bq.len()).sum(), self.started)
    }

    pub fn close(&mut self, which: u8) -> R {
        self.t(|| format!("closing {which}"));
        let r = self.close0(which);
        r.map_err(|mut m| {
            if !m.props.is_empty() {
                for a in &self.cfg.extra {
                    if !m.props.contains(a) {
                        m.props.push(a)
                    }
                }
            }
            m
        })
    }

    fn close0(&mut self, which: u8) -> R {
        match which {
            0 => {
                // drain with everything alive
                self.run_all(true)?;
                for j in 0..self.joins.len() {
                    if self.joins[j].fut.is_some() {
                        self.poll_join(j)?
                    }
                }
                if self.rx > 0 && self.live_mbs() > 0 {
                    if let Some(&id) = self.uq.first() {
                        return bad(&["C01"], format!("message {id} is still queued after draining"));
                    }
                    // a mailbox that only exists inside of messages cannot be drained
                    let stuck = self.mbx.iter().enumerate().any(|(x, b)| b.refs > 0 && !b.bq.is_empty() && !self.mailboxes.iter().flatten().any(|m| m.mbx == x));
                    if !self.w1.is_empty() || (!stuck && !self.w2.is_empty()) {
                        return bad(&["C04", "C08"], "a sender still waits after draining");
                    }
                }
            }
            1 => {
                // everything that receives goes away first
                for i in 0..self.runs.len() {
                    if self.runs[i].live {
                        self.drop_run(i)?;
                        self.settle()?;
                    }
                }
                for r in 0..self.recs.len() {
                    if self.recs[r].live && self.recs[r].fut.is_some() && !self.recs[r].owned {
                        self.drop_recv(r)?;
                        self.settle()?;
                    }
                }
                for m in 0..self.mailboxes.len() {
                    if self.mailboxes[m].is_some() {
                        self.drop_mb(m)?;
                        self.settle()?;
                    }
                }
                for t in 0..self.tasks.len() {
                    if self.tasks[t].fut.is_some() && self.tasks[t].kind != TK::Scoped {
                        self.drop_task(t)?;
                        self.settle()?;
                    }
                }
                if self.rx == 0 {
                    for h in 0..self.handles.len() {
                        let Some(hs) = &self.handles[h] else { continue };
                        let strong = hs.strong;
                        let id = self.new_msg(false, Kind::Imm, 0);
                        let fut = self.mk_send(h, id, Kind::Imm, 0, Own::None, false);
                        if strong {
                            self.strong += 1;
                        }
                        self.sends.push(Snd { fut: Some(fut), id, plain: false, bcast: false, st: SSt::Unpolled, w: None, seen: false, strong });
                        let f = each!(&self.handles[h].as_ref().unwrap().a, a => a.join());
                        self.joins.push(JoinS { fut: Some(f), w: None, pre: true, lazy: false, done: false });
                    }
                    for s in 0..self.sends.len() {
                        if self.sends[s].fut.is_some() {
                            self.poll_send(s)?;
                            self.settle()?;
                        }
                    }
                    for j in 0..self.joins.len() {
                        if self.joins[j].fut.is_some() {
                            self.poll_join(j)?
                        }
                    }
                    for i in 0..self.sinks.len() {
                        if self.sinks[i].sink.is_some() && !self.sinks[i].failed {
                            self.sink_step(i, 1)?;
                            self.settle()?;
                        }
                    }
                }
            }
            _ => {
                // all addresses go away first, then drain until every receiver stops
                for h in 0..self.handles.len() {
                    if self.handles[h].is_some() {
                        self.drop_handle(h)?;
                        self.settle()?;
                    }
                }
                for i in 0..self.sinks.len() {
                    if self.sinks[i].sink.is_some() {
                        self.drop_sink(i)?;
                        self.settle()?;
                    }
                }
                for s in 0..self.sends.len() {
                    if self.sends[s].fut.is_some() && self.sends[s].st == SSt::Unpolled {
                        self.drop_send(s)?;
                        self.settle()?;
                    }
                }
                self.run_all(true)?;
                if self.strong == 0 {
                    for t in 0..self.tasks.len() {
                        if self.tasks[t].fut.is_some() && self.tasks[t].kind != TK::Scoped {
                            return bad(&["C11", "C17"], format!("no strong address left, but an event loop does not end (state {:?})", self.tasks[t].pc));
                        }
                    }
                }
            }
        }
        self.finish_all()
    }

    /// Drop everything that is left and check that nothing is leaked.
    fn finish_all(&mut self) -> R {
        for h in 0..self.handles.len() {
            if self.handles[h].is_some() {
                self.drop_handle(h)?;
            }
        }
        for s in 0..self.sends.len() {
            if self.sends[s].fut.is_some() {
                self.drop_send(s)?;
            }
        }
        for r in &mut self.replies {
            r.fut = None;
            r.w = None;
        }
        for i in 0..self.sinks.len() {
            if self.sinks[i].sink.is_some() {
                self.drop_sink(i)?;
            }
        }
        for i in 0..self.runs.len() {
            if self.runs[i].live {
                self.drop_run(i)?;
            }
        }
        for r in 0..self.recs.len() {
            if self.recs[r].live && self.recs[r].fut.is_some() && !self.recs[r].owned {
                self.drop_recv(r)?;
            }
        }
        for t in 0..self.tasks.len() {
            if self.tasks[t].fut.is_some() {
                self.drop_task(t)?;
            }
        }
        for m in 0..self.mailboxes.len() {
            if self.mailboxes[m].is_some() {
                self.drop_mb(m)?;
            }
        }
        for j in &mut self.joins {
            j.fut = None;
            j.w = None;
        }
        self.settle()?;
        if self.rx > 0 {
            self.cycle = true;
            return Ok(());
        }
        gates_clear_wakers();
        self.others.clear();
        self.runs.clear();
        self.sends.clear();
        self.recs.clear();
        self.sinks.clear();
        self.tasks.clear();
        let w = LIVE_WAKERS.with(|c| c.get());
        let r = LIVE_RETS.with(|c| c.get());
        let a = LIVE_ACTS.with(|c| c.get());
        if w != 0 {
            return bad(&["C27"], format!("{w} wakers are still held after everything was dropped"));
        }
        if r != 0 {
            return bad(&["C27"], format!("{r} return values are still held (or were dropped twice) after everything was dropped"));
        }
        if a != 0 {
            return bad(&["C27"], format!("{a} actors are still held (or were dropped twice) after everything was dropped"));
        }
        for (id, m) in self.msgs.iter().enumerate() {
            if m.bcast {
                let n = BC_LIVE.with(|c| c.borrow().get(id).copied().unwrap_or(0));
                if n != 0 {
                    return bad(&["C27"], format!("{n} copies of broadcast {id} are still held after everything was dropped"));
                }
            } else {
                let n = MSG_DROPS.with(|c| c.borrow().get(id).copied().unwrap_or(0));
                if n != 1 {
                    return bad(&["C27"], format!("message {id} was dropped {n} times after everything was dropped"));
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ payloads

    /// Build what a message owns. None: not applicable. The third part is a handle to drop after
    /// the send future was made.
    #[allow(clippy::type_complexity)]
    fn mk_own(&mut self, own: OwnK) -> R<Option<(Own, Vec<Rel>, Option<usize>)>> {
        Ok(Some(match own {
            OwnK::None => (Own::None, vec![], None),
            OwnK::Addr(h) | OwnK::MoveAddr(h) => {
                let Some(i) = self.h(h) else { return Ok(None) };
                let hs = self.handles[i].as_ref().unwrap();
                let s = hs.strong;
                let a = clone_addr(&hs.a);
                if s {
                    self.strong += 1;
                }
                let moved = matches!(own, OwnK::MoveAddr(_)).then_some(i);
                (Own::Addr(a), if s { vec![Rel::Strong] } else { vec![] }, moved)
            }
            OwnK::WeakAddr(h) => {
                let Some(i) = self.h(h) else { return Ok(None) };
                let Some(a) = downgraded(&self.handles[i].as_ref().unwrap().a) else { return Ok(None) };
                (Own::Addr(a), vec![], None)
            }
            OwnK::Mb(m) => {
                let Some(i) = self.m(m) else { return Ok(None) };
                let mb = self.mailboxes[i].as_ref().unwrap().mb.clone();
                self.mbx.push(Mbx { refs: 0, bq: vec![] });
                let x = self.mbx.len() - 1;
                self.add_ref(x);
                (Own::Mb(mb), vec![Rel::Rx(x)], None)
            }
            OwnK::Recv(m) => {
                // a receive that is already waiting travels inside the message
                let Some(i) = self.m(m) else { return Ok(None) };
                let x = self.mailboxes[i].as_ref().unwrap().mbx;
                if !self.uq.is_empty() || !self.mbx[x].bq.is_empty() || self.strong == 0 {
                    return Ok(None);
                }
                let mut f = Box::pin(self.mailboxes[i].as_ref().unwrap().mb.next());
                let w = W::new();
                let wk = Waker::from(w.clone());
                let p = f.as_mut().poll(&mut TCx::from_waker(&wk));
                drop(wk);
                if p.is_ready() {
                    return bad(&["C04", "C11", "C01"], "a receive on an empty mailbox is ready");
                }
                let rid = self.new_rec(x, None);
                self.recs[rid].owned = true;
                self.recs[rid].w = Some(w);
                self.on_recv(rid, Got::Pending)?;
                (Own::Fut(Box::pin(f.map(|_| ()))), vec![Rel::Rec(rid)], None)
            }
            OwnK::Send(h) => {
                let Some(hi) = self.h(h) else { return Ok(None) };
                let id = self.new_msg(false, Kind::Imm, 0);
                let f = self.mk_send(hi, id, Kind::Imm, 0, Own::None, false);
                let mut rel = vec![Rel::Cancel(id)];
                if self.handles[hi].as_ref().unwrap().strong {
                    self.strong += 1;
                    rel.push(Rel::Strong);
                }
                (Own::Fut(Box::pin(f.map(|_| ()))), rel, None)
            }
            OwnK::SendPolled(h) => {
                let Some(hi) = self.h(h) else { return Ok(None) };
                let id = self.new_msg(false, Kind::Imm, 0);
                let fut = self.mk_send(hi, id, Kind::Imm, 0, Own::None, true);
                let strong = self.handles[hi].as_ref().unwrap().strong;
                if strong {
                    self.strong += 1;
                }
                self.sends.push(Snd { fut: Some(fut), id, plain: true, bcast: false, st: SSt::Unpolled, w: None, seen: false, strong });
                let s = self.sends.len() - 1;
                self.first_poll(s)?;
                if self.sends[s].st == SSt::Waiting {
                    let f = self.sends[s].fut.take().unwrap();
                    (Own::Fut(Box::pin(f.map(|_| ()))), vec![Rel::Snd(s)], None)
                } else if let Some(r) = self.replies.iter_mut().find(|r| r.id == id && r.fut.is_some()) {
                    let f = r.fut.take().unwrap();
                    r.w = None;
                    (Own::Fut(Box::pin(f.map(|_| ()))), vec![], None)
                } else {
                    return Ok(None);
                }
            }
            OwnK::Join(h) => {
                let Some(hi) = self.h(h) else { return Ok(None) };
                let mut f = Box::pin(each!(&self.handles[hi].as_ref().unwrap().a, a => a.join()));
                let w = W::new();
                let wk = Waker::from(w.clone());
                let _ = f.as_mut().poll(&mut TCx::from_waker(&wk));
                (Own::Fut(f), vec![], None)
            }
        }))
    }
}

fn downgraded(a: &AnyAddr) -> Option<AnyAddr> {
    Some(match a {
        AnyAddr::S(a) => AnyAddr::W(a.downgrade()),
        AnyAddr::E(a) => AnyAddr::W(a.downgrade()),
        AnyAddr::CS(a) => AnyAddr::CW(a.downgrade()),
        AnyAddr::CE(a) => AnyAddr::CW(a.downgrade()),
        _ => return None,
    })
}

impl Drop for Sim {
    fn drop(&mut self) {
        // an abandoned path: release whatever is left, whatever it does
        let _ = catch_unwind(AssertUnwindSafe(|| {
            self.handles.clear();
            self.sends.clear();
            self.replies.clear();
            self.sinks.clear();
            self.runs.clear();
            self.recs.clear();
            self.tasks.clear();
            self.mailboxes.clear();
            self.joins.clear();
            self.others.clear();
            let tied = TIED.with(|t| std::mem::take(&mut *t.borrow_mut()));
            drop(tied);
        }));
    }
}

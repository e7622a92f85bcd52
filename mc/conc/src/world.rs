//! What happened in one execution, and the checks on it.
use spin::rt;
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Out {
    Reply(u32),
    Accepted,
    Disconnected,
    Interrupted,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Plain,
    StopSelf,
    StopAll,
    Yield,
    DropSends,
    Nested,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub kind: Kind,
    pub bcast: bool,
    pub prio: u32,
    pub by: usize,
    pub inv: u64,
    pub polled: Option<u64>,
    pub adm: Option<u64>,
    pub ret: Option<(u64, Out)>,
    pub cancelled: Option<u64>,
    pub made: u32,
    pub drops: u32,
    pub handled: Vec<(usize, u64, Option<u64>)>,
    pub in_op: bool,
    pub dropped_by_op: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Span {
    pub owner: usize,
    /// When its creation began, and when it was done.
    pub from: u64,
    pub born: u64,
    pub end0: Option<u64>,
    pub end1: Option<u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum At {
    Nothing,
    Admission(u32),
    Reply(u32),
    Recv,
    Join,
    Other,
}

#[derive(Default)]
pub struct World {
    pub clock: u64,
    pub cap: Option<usize>,
    pub requeue: bool,
    pub discard: bool,
    pub mains: usize,
    pub msgs: Vec<Msg>,
    pub mbx: Vec<Span>,
    pub strong: Vec<Span>,
    pub at: Vec<At>,
    pub recv_inv: Vec<u64>,
    pub stop_all: Option<u64>,
    pub stop_all_end: Option<u64>,
    pub stop_self: Vec<usize>,
    pub rets_made: i64,
    pub acts: i64,
    pub seq: Vec<u64>,
    pub discarding: Vec<bool>,
    pub started: Vec<u32>,
    pub stopped: Vec<u32>,
    pub has_stop_all: bool,
    pub interrupted: u32,
    pub stop_all_actor: Option<usize>,
    pub upgraded: bool,
    pub has_join: bool,
    pub maybe_stop_all: bool,
}

thread_local! {
    pub static W: RefCell<World> = RefCell::new(World::default());
}

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

pub fn fail(prop: &'static str, msg: String) {
    rt::fail(prop, msg)
}

impl World {
    pub fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
    pub fn mailbox_alive(&self) -> bool {
        self.mbx.iter().any(|m| m.end0.is_none())
    }
    pub fn strong_alive(&self) -> bool {
        // Not the ones that come and go within an operation.
        self.strong.iter().any(|m| m.end0.is_none() && m.owner < 90)
    }
    /// Unicast messages that were polled but neither handled nor dropped.
    fn unhandled(&self) -> Vec<u32> {
        (0..self.msgs.len() as u32)
            .filter(|i| {
                let m = &self.msgs[*i as usize];
                !m.bcast && m.polled.is_some() && m.handled.is_empty() && m.drops == 0
            })
            .collect()
    }
    /// Broadcasts the mailbox has yet to receive.
    fn pending(&self, mb: usize) -> Vec<u32> {
        let b = &self.mbx[mb];
        (0..self.msgs.len() as u32)
            .filter(|i| {
                let m = &self.msgs[*i as usize];
                m.bcast
                    && m.polled.is_some()
                    && b.born < m.inv
                    && !m.handled.iter().any(|h| h.0 == b.owner)
                    && m.drops < m.made
                    && !matches!(m.ret, Some((_, Out::Disconnected)))
                    && m.cancelled.is_none()
            })
            .collect()
    }

    /// All fibers are blocked or done.
    pub fn quiescent(&mut self, phase: &str, len: Option<usize>) {
        let stuck = rt::locked_up();
        if !stuck.is_empty() {
            let n: Vec<_> = stuck.iter().map(|i| rt::fiber_name(*i)).collect();
            fail("C22", format!("{phase}: tasks {} wait for a lock forever", n.join(", ")));
            return;
        }
        let u = self.unhandled();
        let alive = self.mailbox_alive();
        let strong = self.strong_alive();
        let cap = self.cap.unwrap_or(usize::MAX);
        if !alive {
            for i in &u {
                fail("C15", format!("{phase}: message {i} is neither handled nor released although no mailbox is left"));
                fail("C27", format!("{phase}: message {i} is not released although no mailbox is left"));
            }
        }
        for f in 0..rt::fibers() {
            if !rt::is_parked(f) {
                continue;
            }
            let name = rt::fiber_name(f);
            match self.at[f] {
                At::Recv => {
                    if !u.is_empty() {
                        let m = &self.msgs[u[0] as usize];
                        let who = if self.requeue { "C02" } else { "C01" };
                        fail("C04", format!("{phase}: {name} waits for a message although message {} is there", u[0]));
                        fail(who, format!("{phase}: message {} (by task {}) is not delivered to the idle {name}", u[0], m.by));
                        if m.ret.map_or(false, |r| r.1 == Out::Accepted) && !strong {
                            fail("C11", format!("{phase}: message {} accepted before the last address was dropped is not handled", u[0]));
                        }
                    }
                    if let Some(mb) = self.mbx.iter().position(|m| m.owner == f && m.end0.is_none()) {
                        let mut p = self.pending(mb);
                        p.retain(|i| self.msgs[*i as usize].adm.is_some());
                        if !p.is_empty() {
                            fail("C04", format!("{phase}: {name} waits although broadcast {} is pending for it", p[0]));
                            fail(if self.requeue { "C02" } else { "C09" }, format!("{phase}: broadcast {} is not delivered to the idle {name}", p[0]));
                        }
                        if let Some(t) = self.stop_all {
                            if self.mbx[mb].born < t && !self.discard && !self.has_join {
                                fail("C14", format!("{phase}: {name} goes on waiting after stop_all"));
                                if self.requeue {
                                    fail("C02", format!("{phase}: stop_all is lost for {name}"));
                                }
                            }
                        }
                    }
                    if !strong {
                        fail("C11", format!("{phase}: {name} goes on waiting although no strong address is left"));
                        fail("C04", format!("{phase}: {name} is not woken when the last strong address is gone"));
                    }
                }
                At::Admission(i) => {
                    let m = &self.msgs[i as usize];
                    if !alive {
                        fail("C15", format!("{phase}: {name} waits for room for message {i} although no mailbox is left"));
                        fail("C04", format!("{phase}: {name} waits for room for message {i} although no mailbox is left"));
                    } else if !m.bcast {
                        if !m.handled.is_empty() || m.drops > 0 {
                            fail("C04", format!("{phase}: {name} waits for room for message {i}, which was handled or dropped"));
                        } else if u.len() <= cap {
                            fail("C07", format!("{phase}: {name} waits for room although only {} messages are there", u.len() - 1));
                            fail("C04", format!("{phase}: {name} waits for room although only {} messages are there", u.len() - 1));
                            fail("C08", format!("{phase}: {name} is not admitted although only {} messages are there", u.len() - 1));
                            if self.msgs.iter().any(|m| m.cancelled.is_some()) {
                                fail("C23", format!("{phase}: {name} is not admitted although only {} messages are there", u.len() - 1));
                            }
                        }
                    } else {
                        let most = (0..self.mbx.len())
                            .filter(|k| self.mbx[*k].end0.is_none())
                            .map(|k| self.pending(k).len())
                            .max()
                            .unwrap_or(0);
                        if most <= cap && !self.has_stop_all {
                            fail("C10", format!("{phase}: {name} waits for room for broadcast {i} although no mailbox is full"));
                            fail("C04", format!("{phase}: {name} waits for room for broadcast {i} although no mailbox is full"));
                            fail("C08", format!("{phase}: {name} is not admitted with broadcast {i} although no mailbox is full"));
                            if self.msgs.iter().any(|m| m.cancelled.is_some()) {
                                fail("C23", format!("{phase}: {name} is not admitted with broadcast {i} although no mailbox is full"));
                            }
                        }
                    }
                }
                At::Reply(i) => {
                    let m = &self.msgs[i as usize];
                    if !u.contains(&i) {
                        let p = if m.handled.iter().any(|h| h.2.is_some()) { "C04" } else { "C03" };
                        fail("C04", format!("{phase}: {name} waits for the reply to message {i}, which is not there any more"));
                        fail(p, format!("{phase}: {name} never learns what became of message {i}"));
                    } else if !alive {
                        fail("C15", format!("{phase}: {name} waits for a reply to message {i} although no mailbox is left"));
                        fail("C03", format!("{phase}: {name} waits for a reply to message {i} although no mailbox is left"));
                    }
                }
                At::Join => {
                    if !alive {
                        fail("C16", format!("{phase}: {name} waits for the end of the actors although no mailbox is left"));
                    }
                }
                At::Nothing | At::Other => {}
            }
        }
        // Every message that waits must have found the mailbox full.
        if let (Some(len), true, false) = (len, alive, self.has_stop_all) {
            let tail = (0..self.mbx.len())
                .filter(|k| self.mbx[*k].end0.is_none())
                .map(|k| self.pending(k).len())
                .max()
                .unwrap_or(0)
                .min(cap);
            let uni = u.len().min(cap);
            if len != uni + tail && !(self.requeue && len > uni + tail) {
                let (p, what) = if tail == 0 && !self.msgs.iter().any(|m| m.bcast) {
                    ("C07", "messages")
                } else if uni == 0 {
                    ("C10", "broadcasts")
                } else {
                    ("C21", "messages and broadcasts")
                };
                fail(p, format!("{phase}: the length is {len}, but {} {what} should be queued", uni + tail));
                fail("C21", format!("{phase}: the length is {len}, but {} should be queued", uni + tail));
            }
        }
    }

    /// A message value goes away.
    pub fn dropped(&mut self, id: u32, f: usize) {
        let t = self.tick();
        let alive = self.mailbox_alive();
        let disc = f != rt::NONE && self.discarding.get(f).copied().unwrap_or(false);
        let has_main_disc = f == rt::NONE;
        let m = &mut self.msgs[id as usize];
        m.drops += 1;
        if m.drops > m.made {
            fail("C27", format!("message {id} is dropped twice"));
        }
        if m.bcast || !m.handled.is_empty() {
            return;
        }
        if m.in_op && m.by == f {
            m.dropped_by_op = true;
            return;
        }
        let _ = (t, has_main_disc);
        if disc || !alive || rt::aborting() {
            return;
        }
        let p = if self.requeue { "C02" } else { "C01" };
        fail(p, format!("message {id} is dropped without having been handled although there is a mailbox"));
        fail("C03", format!("message {id} is dropped without having been handled although there is a mailbox"));
    }

    pub fn handle_start(&mut self, id: u32, actor: usize) {
        let t = self.tick();
        let single = self.mbx.len() == 1;
        let recv_inv = self.recv_inv.get(actor).copied().unwrap_or(0);
        let m = &self.msgs[id as usize];
        let (bcast, prio) = (m.bcast, m.prio);
        if bcast {
            if m.handled.iter().any(|h| h.0 == actor) {
                fail("C09", format!("broadcast {id} is handled twice by actor {actor}"));
            }
            if let Some(b) = self.mbx.iter().find(|b| b.owner == actor) {
                if m.adm.map_or(false, |a| a < b.from) {
                    fail("C09", format!("broadcast {id} is handled by actor {actor}, which came later"));
                }
            }
        } else if !m.handled.is_empty() {
            fail("C01", format!("message {id} is handled twice"));
        }
        if matches!(m.ret, Some((_, Out::Disconnected))) {
            fail("C03", format!("message {id} is handled although its send ended with Disconnected"));
        }
        if m.dropped_by_op && !bcast {
            fail("C23", format!("message {id} is handled although it was dropped before"));
        }
        if self.stop_self.contains(&actor) && !self.has_join {
            fail("C13", format!("actor {actor} handles message {id} after it stopped itself"));
        }
        // Order.
        if single && !self.requeue {
            for (j, o) in self.msgs.iter().enumerate() {
                if j as u32 == id || !o.handled.is_empty() || o.drops > 0 || o.cancelled.is_some() {
                    continue;
                }
                if o.bcast == bcast && o.prio == prio && prio == 0 && o.polled.map_or(false, |p| p < m.inv) {
                    let p = if self.cap.is_some() { "C08" } else { "C06" };
                    fail("C06", format!("message {id} is handled before message {j}, which was sent earlier"));
                    if p == "C08" {
                        fail(p, format!("message {id} is admitted before message {j}, which waited longer"));
                    }
                }
                if o.prio > prio && o.adm.map_or(false, |a| a < recv_inv) && o.kind != Kind::DropSends {
                    fail("C05", format!("message {id} is received before message {j}, which has a higher priority and was queued"));
                }
            }
        }
        if let Some(s) = self.stop_all_end {
            // At most one after stop_all.
            let after = self.msgs.iter().flat_map(|m| m.handled.iter()).filter(|h| h.0 == actor && h.1 > s).count();
            let own = self.stop_all_actor == Some(actor);
            let joined = self.mbx.iter().any(|b| b.owner == actor && b.born < self.stop_all.unwrap_or(0));
            if joined && !self.discard && !self.has_join && after >= if own { 0 } else { 1 } {
                fail("C14", format!("actor {actor} handles message {id} after stop_all"));
            }
        }
        self.msgs[id as usize].handled.push((actor, t, None));
    }

    pub fn handle_end(&mut self, id: u32, actor: usize) {
        let t = self.tick();
        let m = &mut self.msgs[id as usize];
        if let Some(h) = m.handled.iter_mut().rev().find(|h| h.0 == actor) {
            h.2 = Some(t);
        }
        if let Some(r) = self.recv_inv.get_mut(actor) {
            *r = t;
        }
    }

    pub fn returned(&mut self, id: u32, out: Out) {
        let t = self.tick();
        let (mbx, strong) = (&self.mbx, &self.strong);
        let covers = |s: &[Span], a: u64, b: u64| s.iter().any(|x| x.born <= a && x.end0.map_or(true, |e| e > b));
        let m = &mut self.msgs[id as usize];
        m.ret = Some((t, out));
        m.in_op = false;
        match out {
            Out::Reply(r) => {
                if r != id {
                    fail("C03", format!("message {id} resolves to the reply to message {r}"));
                }
                if !m.handled.iter().any(|h| h.2.is_some()) {
                    fail("C03", format!("message {id} resolves to a reply although its handler did not complete"));
                }
            }
            Out::Accepted => {
                if m.adm.is_none() {
                    m.adm = Some(t);
                }
                if mbx.iter().all(|b| b.end1.map_or(false, |e| e < m.inv)) {
                    fail("C15", format!("message {id} is accepted although no mailbox was left"));
                }
            }
            Out::Disconnected => {
                if !m.handled.is_empty() {
                    fail("C03", format!("message {id} resolves to Disconnected although it was handled"));
                }
                if covers(mbx, m.inv, t) && covers(strong, m.inv, t) {
                    fail("C03", format!("message {id} resolves to Disconnected although the address was connected all the time"));
                }
                if m.adm.is_some() {
                    fail("C03", format!("message {id} resolves to Disconnected although it was accepted"));
                }
            }
            Out::Interrupted => {
                if m.handled.iter().any(|h| h.2.is_some()) {
                    fail("C03", format!("message {id} resolves to Interrupted although its handler completed"));
                }
                if m.handled.is_empty() && m.drops == 0 {
                    fail("C03", format!("message {id} resolves to Interrupted although it is still there"));
                }
            }
        }
    }

    /// The actor got a stop.
    pub fn actor_stopped(&mut self, actor: usize) {
        self.tick();
        if self.stop_self.contains(&actor) || self.maybe_stop_all {
            return;
        }
        if self.strong_alive() {
            fail("C11", format!("actor {actor} is stopped although there is a strong address"));
            if self.upgraded {
                fail("C12", format!("actor {actor} is stopped although an upgraded address exists"));
            }
            if !self.stop_self.is_empty() {
                fail("C13", format!("actor {actor} is stopped although another one stopped itself"));
            }
        }
        if self.mbx.len() == 1 && !self.requeue {
            for (i, m) in self.msgs.iter().enumerate() {
                if !m.bcast && m.adm.is_some() && m.handled.is_empty() && m.drops == 0 {
                    fail("C11", format!("actor {actor} is stopped before it has received message {i}, which was accepted"));
                }
            }
        }
        if let Some(k) = self.mbx.iter().position(|m| m.owner == actor) {
            if let Some(i) = self.pending(k).into_iter().find(|i| self.msgs[*i as usize].adm.is_some()) {
                fail("C11", format!("actor {actor} is stopped before it has received broadcast {i}, which was accepted"));
                fail("C09", format!("actor {actor} is stopped before it has received broadcast {i}, which was accepted"));
            }
        }
    }

    pub fn end(&mut self) {
        for (i, m) in self.msgs.iter().enumerate() {
            if m.drops != m.made {
                fail("C27", format!("message {i}: {} values were made and {} dropped", m.made, m.drops));
            }
            if m.cancelled.is_some() && m.dropped_by_op && !m.handled.is_empty() && !m.bcast {
                fail("C23", format!("message {i} was handled although its send was dropped while waiting"));
            }
        }
        if self.rets_made != 0 {
            fail("C27", format!("{} return values are left", self.rets_made));
        }
        if self.acts != 0 {
            fail("C27", format!("{} actors are left", self.acts));
        }
        if rt::live_arcs() != 0 {
            fail("C27", format!("{} shared allocations are left", rt::live_arcs()));
        }
        for a in 0..self.started.len() {
            if self.started[a] > 1 || self.stopped[a] > 1 || self.stopped[a] > self.started[a] {
                fail("C17", format!("actor {a}: started {} times, stopped {} times", self.started[a], self.stopped[a]));
            }
        }
    }
}

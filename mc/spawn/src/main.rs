//! All sequences of operations, up to a depth, on actors spawned by the helpers for each runtime. What the
//! runtime does in between is not controlled; what is checked holds whatever it does.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll};
use std::time::{Duration, Instant};
use xtra::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Send,
    Bcast,
    /// the handler calls stop_self
    StopSelf,
    StopAll,
    Clone,
    DropAddr,
    /// another actor on the same mailbox
    Spawn,
    /// a handler that stays pending until the next operation
    Slow,
}
const OPS: [Op; 8] = [Op::Send, Op::Bcast, Op::StopSelf, Op::StopAll, Op::Clone, Op::DropAddr, Op::Spawn, Op::Slow];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Rt {
    TokioLocal,
    TokioThreads,
    Smol,
    AsyncStd,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    Started(usize),
    Handle(usize, u32),
    Stopped(usize),
    Gone(usize),
}
type Log = Arc<Mutex<Vec<Ev>>>;

struct Act {
    id: usize,
    log: Log,
}
impl Actor for Act {
    type Stop = ();
    async fn started(&mut self, _: &Mailbox<Self>) -> Result<(), ()> {
        self.log.lock().unwrap().push(Ev::Started(self.id));
        Ok(())
    }
    async fn stopped(self) {
        self.log.lock().unwrap().push(Ev::Stopped(self.id));
    }
}
impl Drop for Act {
    fn drop(&mut self) {
        self.log.lock().unwrap().push(Ev::Gone(self.id));
    }
}

#[derive(Clone)]
struct Msg(u32, Op, Arc<AtomicBool>);
impl Handler<Msg> for Act {
    type Return = u32;
    async fn handle(&mut self, m: Msg, ctx: &mut Context<Self>) -> u32 {
        self.log.lock().unwrap().push(Ev::Handle(self.id, m.0));
        match m.1 {
            Op::StopSelf => ctx.stop_self(),
            Op::StopAll => ctx.stop_all(),
            Op::Slow => {
                while !m.2.load(SeqCst) {
                    Yield(false).await
                }
            }
            _ => {}
        }
        m.0
    }
}

#[derive(Clone)]
struct Bc(u32);
impl Handler<Bc> for Act {
    type Return = ();
    async fn handle(&mut self, m: Bc, _: &mut Context<Self>) {
        self.log.lock().unwrap().push(Ev::Handle(self.id, m.0));
    }
}

/// Receives all that is pending for a mailbox.
async fn drain(m: &Mailbox<Act>) {
    loop {
        let mut f = Box::pin(m.next());
        let done = std::future::poll_fn(|cx| Poll::Ready(f.as_mut().poll(cx).is_ready())).await;
        if !done {
            return;
        }
    }
}

struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        std::thread::yield_now();
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

type Bad = (&'static [&'static str], String);
const PATIENCE: Duration = Duration::from_secs(20);

/// Waits until the condition holds.
async fn until(props: &'static [&'static str], what: &str, mut f: impl FnMut() -> bool) -> Result<(), Bad> {
    let t = Instant::now();
    while !f() {
        if t.elapsed() > PATIENCE {
            return Err((props, what.into()));
        }
        Yield(false).await;
        if t.elapsed() > Duration::from_millis(20) {
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    Ok(())
}
/// Waits for a future, but not forever.
async fn within<F: Future>(props: &'static [&'static str], what: &str, f: F) -> Result<F::Output, Bad> {
    let mut f = Box::pin(f);
    let t = Instant::now();
    let mut timed_out = false;
    let r = std::future::poll_fn(|cx| {
        if let Poll::Ready(r) = f.as_mut().poll(cx) {
            return Poll::Ready(Some(r));
        }
        if t.elapsed() > PATIENCE {
            timed_out = true;
            return Poll::Ready(None);
        }
        std::thread::yield_now();
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await;
    r.ok_or_else(|| (props, what.into()))
}

async fn history(rt: Rt, cap: Option<usize>, ops: &[Op]) -> Result<(), Bad> {
    let log: Log = Default::default();
    let mut spawned = 0;
    let mut ended = 0;
    let mut sent: Vec<(u32, bool)> = vec![];
    let mut bcasts: Vec<(u32, usize)> = vec![];
    let (a0, mb) = match cap {
        None => Mailbox::unbounded(),
        Some(n) => Mailbox::bounded(n),
    };
    let mut spare = Some(mb);
    let mut id = 0;
    let mut slow: Option<Arc<AtomicBool>> = None;
    let spawn = |a: Address<Act>, m: Mailbox<Act>, id: usize| {
        let act = Act { id, log: log.clone() };
        match rt {
            Rt::TokioLocal | Rt::TokioThreads => xtra::spawn_tokio(act, (a, m)),
            Rt::Smol => xtra::spawn_smol(act, (a, m)),
            Rt::AsyncStd => xtra::spawn_async_std(act, (a, m)),
        }
    };
    let stopped = || log.lock().unwrap().iter().filter(|e| matches!(e, Ev::Stopped(_))).count();
    let gone = || log.lock().unwrap().iter().filter(|e| matches!(e, Ev::Gone(_))).count();
    let started = || log.lock().unwrap().iter().filter(|e| matches!(e, Ev::Started(_))).count();
    // The clone of the mailbox makes further actors possible, but must not outlive the first phase.
    let more = if ops.contains(&Op::Spawn) { spare.clone() } else { None };
    let other = a0.clone();
    let addr = spawn(a0, spare.take().unwrap(), spawned);
    if addr != other {
        return Err((&["C17", "C20"], "the address returned is not the one of the mailbox".into()));
    }
    drop(other);
    let mut addrs = vec![addr];
    spawned += 1;
    for op in ops {
        if addrs.is_empty() {
            break;
        }
        if !matches!(op, Op::Clone | Op::DropAddr | Op::Spawn) {
            if let Some(f) = slow.take() {
                f.store(true, SeqCst)
            }
        }
        let a = addrs[0].clone();
        let running = spawned - ended;
        let flag = Arc::new(AtomicBool::new(false));
        id += 1;
        // With an idle mailbox around, messages may be accepted that no actor is there to receive.
        let unreceived = running == 0 && more.is_some();
        if unreceived && matches!(op, Op::Send | Op::StopSelf | Op::StopAll | Op::Slow | Op::Bcast) {
            continue;
        }
        match op {
            Op::Send | Op::StopSelf | Op::StopAll => {
                let r = within(&["C17", "C01", "C04"], "the outcome of a send never comes", a.send(Msg(id, *op, flag))).await?;
                let want = if running > 0 { Ok(id) } else { Err(xtra::Error::Disconnected) };
                if r != want {
                    return Err((&["C17", "C03", "C01", "C15"], format!("send of {id} gave {r:?} instead of {want:?}")));
                }
                if running > 0 {
                    sent.push((id, true));
                    if *op == Op::StopSelf {
                        ended += 1;
                    }
                    if *op == Op::StopAll {
                        ended = spawned;
                    }
                    until(&["C17", "C13", "C14"], "an actor does not stop", || stopped() == ended && gone() == ended).await?;
                    if ended == spawned && more.is_none() {
                        within(&["C17", "C16", "C15"], "all actors are stopped but the address is connected", a.join()).await?;
                    }
                }
            }
            Op::Bcast => {
                let r = within(&["C17", "C10", "C04"], "a broadcast never ends", a.broadcast(Bc(id))).await?;
                if r.is_ok() != (running > 0) {
                    return Err((&["C17", "C03", "C15"], format!("broadcast {id} gave {r:?} with {running} actors")));
                }
                if r.is_ok() {
                    bcasts.push((id, running));
                    let n = running;
                    until(&["C17", "C09"], "a broadcast is not handled by every actor", || {
                        log.lock().unwrap().iter().filter(|e| matches!(e, Ev::Handle(_, x) if *x == id)).count() == n
                    })
                    .await?;
                }
            }
            Op::Slow => {
                if running == 0 {
                    continue;
                }
                let r = within(&["C17", "C04"], "a send is not accepted", a.send(Msg(id, *op, flag.clone())).detach()).await?;
                if r.is_err() {
                    return Err((&["C17", "C03"], format!("send of {id} is rejected with {running} actors")));
                }
                sent.push((id, true));
                until(&["C17", "C01"], "a message is not handled", || {
                    log.lock().unwrap().iter().any(|e| matches!(e, Ev::Handle(_, x) if *x == id))
                })
                .await?;
                slow = Some(flag);
            }
            Op::Clone => addrs.push(a),
            Op::DropAddr => {
                drop(addrs.pop());
            }
            Op::Spawn => {
                let Some(m) = more.clone() else { continue };
                let r = spawn(a.clone(), m, spawned);
                spawned += 1;
                drop(r);
                until(&["C17"], "an actor is not started", || started() == spawned).await?;
            }
        }
        // the mailbox that is kept must not hold up others
        if let (Op::Bcast | Op::StopAll, Some(m)) = (op, &more) {
            drain(m).await
        }
    }
    if let Some(f) = slow.take() {
        f.store(true, SeqCst)
    }
    let weak = addrs.first().map(|a| a.downgrade());
    drop(more);
    drop(addrs);
    until(&["C11", "C17", "C27"], "all addresses are gone but an actor does not stop", || stopped() == spawned && gone() == spawned).await?;
    if let Some(w) = weak {
        within(&["C16", "C17"], "all actors are stopped but the address is connected", w.join()).await?;
    }
    // the whole history
    let l = log.lock().unwrap().clone();
    for n in 0..spawned {
        let mine: Vec<Ev> = l.iter().copied().filter(|e| matches!(e, Ev::Started(x) | Ev::Handle(x, _) | Ev::Stopped(x) | Ev::Gone(x) if *x == n)).collect();
        let k = mine.len();
        let ok = k >= 3
            && mine[0] == Ev::Started(n)
            && mine[k - 2] == Ev::Stopped(n)
            && mine[k - 1] == Ev::Gone(n)
            && mine[1..k - 2].iter().all(|e| matches!(e, Ev::Handle(..)));
        if !ok {
            return Err((&["C17"], format!("actor {n} went through {mine:?}")));
        }
    }
    for (id, n) in sent.iter().map(|s| (s.0, 1)).chain(bcasts) {
        let k = l.iter().filter(|e| matches!(e, Ev::Handle(_, x) if *x == id)).count();
        if k != n {
            return Err((&["C01", "C09", "C17"], format!("message {id} was handled {k} times instead of {n}")));
        }
    }
    Ok(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let depth: usize = get("--depth").map_or(3, |s| s.parse().unwrap());
    let prop = get("--prop").unwrap_or("ALL".into());
    let out = get("--out").expect("--out");
    let secs: u64 = get("--secs").map_or(60, |s| s.parse().unwrap());
    let t0 = Instant::now();
    let mut seqs: Vec<Vec<Op>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let to = seqs.len();
        for i in from..to {
            for o in OPS {
                let mut s = seqs[i].clone();
                s.push(o);
                seqs.push(s);
            }
        }
        from = to;
    }
    let (n, o, foreign, cut) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicBool::new(false));
    let found: Mutex<Option<String>> = Mutex::new(None);
    let work = |rt: Rt, skip: usize, step: usize, drive: &dyn Fn(Pin<Box<dyn Future<Output = Result<(), Bad>> + '_>>) -> Result<(), Bad>| {
        for s in seqs.iter().skip(skip).step_by(step) {
            for cap in [None, Some(1)] {
                if t0.elapsed().as_secs() > secs {
                    cut.store(true, SeqCst);
                    return;
                }
                if found.lock().unwrap().is_some() {
                    return;
                }
                n.fetch_add(1, SeqCst);
                o.fetch_add(s.len(), SeqCst);
                if let Err((props, what)) = drive(Box::pin(history(rt, cap, s))) {
                    let text = format!("{props:?} {rt:?} capacity {cap:?} {s:?}: {what}");
                    if prop == "ALL" || props.contains(&prop.as_str()) {
                        found.lock().unwrap().get_or_insert(text);
                    } else {
                        println!("FOREIGN {text}");
                        // each of these may take long
                        if foreign.fetch_add(1, SeqCst) >= 2 {
                            return;
                        }
                    }
                }
            }
        }
    };
    std::thread::scope(|sc| {
        for k in 0..3 {
            let work = &work;
            sc.spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                work(Rt::TokioLocal, k, 3, &|f| rt.block_on(f))
            });
        }
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).build().unwrap();
        let rt = Arc::new(rt);
        for k in 0..2 {
            let (work, rt) = (&work, rt.clone());
            sc.spawn(move || work(Rt::TokioThreads, k, 2, &|f| rt.block_on(f)));
            sc.spawn(move || work(Rt::Smol, k, 2, &|f| smol::block_on(f)));
            sc.spawn(move || work(Rt::AsyncStd, k, 2, &|f| async_std::task::block_on(f)));
        }
    });
    let found = found.into_inner().unwrap();
    println!(
        "histories {} operations {} sequences {} depth {depth} foreign {} cut {} wall {:.1}",
        n.load(SeqCst),
        o.load(SeqCst),
        seqs.len(),
        foreign.load(SeqCst),
        cut.load(SeqCst),
        t0.elapsed().as_secs_f64()
    );
    if let Some(f) = found {
        println!("FOUND {f}");
        std::fs::write(out + ".replay", f + "\n").unwrap();
        std::process::exit(1);
    }
    let j = format!(
        "{{\"executions\": {}, \"operations\": {}, \"sequences\": {}, \"depth\": {depth}, \"mismatches_of_other_properties\": {}, \"truncated\": {}}}",
        n.load(SeqCst),
        o.load(SeqCst),
        seqs.len(),
        foreign.load(SeqCst),
        cut.load(SeqCst)
    );
    std::fs::write(out, j).unwrap();
}

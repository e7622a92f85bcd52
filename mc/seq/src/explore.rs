//! Exhaustive exploration of a family, in parallel, with a watchdog against hangs.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::families::{Family, Space};
use crate::sim::{Mis, Op, Sim};

#[derive(Default)]
pub struct Stats {
    pub nodes: AtomicU64,
    pub execs: AtomicU64,
    pub ops: AtomicU64,
    pub abandoned: AtomicU64,
    pub foreign: AtomicU64,
    pub samples: Mutex<Vec<(String, String)>>,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub family: String,
    pub ops: Vec<Op>,
    pub closing: Option<u8>,
    pub mis: Mis,
}

/// What a worker is doing, for the watchdog.
#[derive(Default)]
pub struct Slot {
    pub beat: AtomicU64,
    pub cur: Mutex<(String, Vec<Op>, Option<u8>)>,
}

pub struct Explorer<'a> {
    pub prop: &'a str,
    pub stats: &'a Stats,
    pub timeup: &'a AtomicBool,
    pub found: &'a Mutex<Vec<Found>>,
    pub foreign_ex: &'a Mutex<Vec<Found>>,
    pub known: &'a (dyn Fn(&Found) -> bool + Sync),
    pub stop: &'a AtomicBool,
    pub truncated: &'a AtomicBool,
}

pub enum Out {
    Ok,
    Disabled,
    Bad,
}

/// Net number of live allocations made by this thread.
pub fn live_allocs() -> i64 {
    crate::alloc::LIVE.with(|c| c.get())
}

thread_local! {
    /// What this worker is doing.
    pub static SLOT: std::cell::Cell<Option<&'static Slot>> = const { std::cell::Cell::new(None) };
}
pub fn tick() {
    SLOT.with(|b| {
        if let Some(b) = b.get() {
            b.beat.fetch_add(1, Relaxed);
        }
    })
}

pub fn run_path(fam: &Family, ops: &[Op], closing: Option<u8>, trace: bool) -> (Result<bool, Mis>, Option<Vec<String>>, u64) {
    let before = live_allocs();
    let mut n = 0u64;
    let (r, t, cycle) = {
        let mut sim = Sim::new(fam.cfg.clone(), trace);
        let r = catch_unwind(AssertUnwindSafe(|| {
            for op in &fam.cfg.prelude {
                n += 1;
                tick();
                if !sim.exec(op)? {
                    return Ok(false);
                }
            }
            for op in ops {
                n += 1;
                tick();
                if !sim.exec(op)? {
                    return Ok(false);
                }
            }
            if let Some(c) = closing {
                sim.close(c)?;
            }
            Ok(true)
        }));
        let r = r.unwrap_or_else(|e| {
            let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(Mis { props: vec!["C22"], what: format!("panic: {s}") })
        });
        let t = sim.trace.take();
        (r, t, sim.cycle)
    };
    crate::rt::reset();
    if let (Ok(true), Some(_)) = (&r, closing) {
        let after = live_allocs();
        if after != before && !trace && !cycle {
            return (Err(Mis { props: vec!["C27"], what: format!("{} allocations are still live after everything was dropped", after - before) }), t, n);
        }
    }
    (r, t, n)
}

/// Run a long history: what it contradicts, and how many operations it made.
pub fn run_with(f: impl FnOnce(&mut crate::long::Cnt) -> crate::long::Res) -> (Result<(), Mis>, u64) {
    let mut c = crate::long::Cnt { ops: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c))).unwrap_or_else(|e| {
        let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        Err(Mis { props: vec![], what: format!("panic: {s}") })
    });
    crate::rt::reset();
    (r, c.ops)
}

/// The pass over the families that are explored for other properties.
pub const OTHERS: usize = usize::MAX;
pub const OTHERS_MORE: usize = usize::MAX - 1;

impl<'a> Explorer<'a> {
    fn set(&self, slot: &Slot, fam: &Family, ops: &[Op], c: Option<u8>) {
        let mut g = slot.cur.lock().unwrap();
        g.0.clear();
        g.0.push_str(&fam.name);
        g.1.clear();
        g.1.extend_from_slice(ops);
        g.2 = c;
        drop(g);
        // SAFETY: slots live as long as the workers do.
        SLOT.with(|b| b.set(Some(unsafe { &*(slot as *const Slot) })));
        slot.beat.fetch_add(1, Relaxed);
    }

    fn report(&self, fam: &Family, ops: &[Op], closing: Option<u8>, mis: Mis) {
        if mis.props.is_empty() {
            self.stats.abandoned.fetch_add(1, Relaxed);
            return;
        }
        let f = Found { family: fam.name.clone(), ops: ops.to_vec(), closing, mis };
        if f.mis.props.iter().any(|p| *p == self.prop) {
            let mut g = self.found.lock().unwrap();
            if !(self.known)(&f) {
                self.stop.store(true, Relaxed);
            }
            if g.len() < 2000 {
                g.push(f);
            }
        } else {
            self.stats.foreign.fetch_add(1, Relaxed);
            let mut g = self.foreign_ex.lock().unwrap();
            if g.iter().filter(|x| x.family == f.family).count() < 100 {
                g.push(f);
            }
        }
    }

    /// Execute one sequence with all closings.
    pub fn node(&self, slot: &Slot, fam: &Family, ops: &[Op]) -> Out {
        let mut first = true;
        for &c in &fam.closings {
            self.set(slot, fam, ops, Some(c));
            let (mut r, _, n) = run_path(fam, ops, Some(c), false);
            if let Err(m) = &r {
                if m.what.contains("allocations are still live") {
                    // thread-local caches may have grown: must be reproducible
                    r = run_path(fam, ops, Some(c), false).0;
                }
            }
            self.stats.execs.fetch_add(1, Relaxed);
            self.stats.ops.fetch_add(n, Relaxed);
            match r {
                Ok(true) => {}
                Ok(false) => return Out::Disabled,
                Err(mis) => {
                    // does it happen without the closing already?
                    let (r2, _, _) = run_path(fam, ops, None, false);
                    let in_ops = r2.is_err();
                    self.report(fam, ops, if in_ops { None } else { Some(c) }, mis);
                    if in_ops {
                        return Out::Bad;
                    }
                }
            }
            if first {
                self.stats.nodes.fetch_add(1, Relaxed);
                first = false;
            }
            if self.stop.load(Relaxed) {
                return Out::Bad;
            }
        }
        Out::Ok
    }

    fn sample(&self, fam: &Family, path: &[Op]) {
        if let Ok(mut g) = self.stats.samples.try_lock() {
            if g.iter().filter(|x| x.0 == fam.name).count() < 1 {
                g.push((fam.name.clone(), crate::short(path)));
            }
        }
    }

    /// Everything up to length `done` was explored before.
    fn dfs(&self, slot: &Slot, fam: &Family, ops: &[Op], path: &mut Vec<Op>, done: usize, depth: usize) {
        if self.stop.load(Relaxed) {
            return;
        }
        if self.timeup.load(Relaxed) {
            self.truncated.store(true, Relaxed);
            return;
        }
        if path.len() <= done {
            self.set(slot, fam, path, None);
            if !matches!(run_path(fam, path, None, false).0, Ok(true)) {
                return;
            }
        } else {
            match self.node(slot, fam, path) {
                Out::Ok => {}
                _ => return,
            }
        }
        if path.len() == depth {
            self.sample(fam, path);
            return;
        }
        for op in ops {
            path.push(*op);
            self.dfs(slot, fam, ops, path, done, depth);
            path.pop();
        }
    }

    /// Explore one family: pass 0 up to the first depth, pass 1 from there to the second one, later
    /// passes one level each. Returns the depth that is reached.
    pub fn family(&self, slots: &[Slot], fam: &Family, pass: usize) -> usize {
        let next = AtomicUsize::new(0);
        match &fam.space {
            Space::Dfs(ops, q, t) => {
                let (done, depth) = match pass {
                    0 => (0, *q),
                    1 => (*q, *t),
                    // a family of other properties
                    OTHERS => (0, *q - 1),
                    OTHERS_MORE => (*q - 1, *q),
                    n => (*t + n - 2, *t + n - 1),
                };
                if done >= depth {
                    return depth;
                }
                // work items: all prefixes of length 2 (their subtrees), after the shorter ones
                let mut shorter = vec![vec![]];
                let mut items = vec![];
                for a in ops {
                    shorter.push(vec![*a]);
                    for b in ops {
                        items.push(vec![*a, *b]);
                    }
                }
                for p in &shorter {
                    if done == 0 && p.len() <= depth && !self.stop.load(Relaxed) {
                        self.node(&slots[0], fam, p);
                    }
                }
                std::thread::scope(|s| {
                    for slot in slots {
                        let (items, next) = (&items, &next);
                        s.spawn(move || loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= items.len() || self.stop.load(Relaxed) {
                                slot.cur.lock().unwrap().0.clear();
                                break;
                            }
                            let mut path = items[i].clone();
                            // the prefix itself must be fine
                            let (r, _, _) = {
                                self.set(slot, fam, &path[..1], None);
                                run_path(fam, &path[..1], None, false)
                            };
                            if !matches!(r, Ok(true)) {
                                continue;
                            }
                            self.dfs(slot, fam, ops, &mut path, done, depth);
                        });
                    }
                });
                depth
            }
            Space::Long(f) => {
                if pass == 0 || pass == OTHERS {
                    self.set(&slots[0], fam, &[], None);
                    let (r, n) = run_with(*f);
                    self.stats.nodes.fetch_add(1, Relaxed);
                    self.stats.execs.fetch_add(1, Relaxed);
                    self.stats.ops.fetch_add(n, Relaxed);
                    if let Err(mut mis) = r {
                        if mis.props.is_empty() {
                            // a panic contradicts everything explored here
                            mis.props = fam.props.clone();
                            mis.props.push("C22");
                        }
                        self.report(fam, &[], None, mis);
                    }
                    slots[0].cur.lock().unwrap().0.clear();
                }
                0
            }
            Space::Cycle(sp) => {
                let lens: &[usize] = match pass {
                    0 => &[1, 2],
                    OTHERS => &[1],
                    1 => &[3],
                    _ => &[],
                };
                let n = crate::cycles::NAMES.len();
                let items: Vec<(usize, Vec<usize>)> = lens
                    .iter()
                    .flat_map(|len| (0..n.pow(len.min(&2).to_owned() as u32)).map(move |k| (*len, if *len == 1 { vec![k] } else { vec![k / n, k % n] })))
                    .collect();
                std::thread::scope(|s| {
                    for slot in slots {
                        let (items, next) = (&items, &next);
                        s.spawn(move || loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= items.len() || self.stop.load(Relaxed) {
                                slot.cur.lock().unwrap().0.clear();
                                break;
                            }
                            if pass != 0 && self.timeup.load(Relaxed) {
                                self.truncated.store(true, Relaxed);
                                break;
                            }
                            let (len, prefix) = &items[i];
                            self.set(slot, fam, &[], None);
                            let (r, ops) = run_with(|c| crate::cycles::words(c, *sp, prefix, *len));
                            let words = n.pow((len - prefix.len()) as u32) as u64;
                            self.stats.nodes.fetch_add(words, Relaxed);
                            self.stats.execs.fetch_add(words, Relaxed);
                            self.stats.ops.fetch_add(ops, Relaxed);
                            if let Err(mut mis) = r {
                                if mis.props.is_empty() {
                                    mis.props = vec!["C22", "C29"];
                                }
                                self.report(fam, &[], None, mis);
                            }
                        });
                    }
                });
                lens.last().copied().unwrap_or(3)
            }
            Space::Scripts(q, t) => {
                let all: Vec<&Vec<Op>> = match pass {
                    0 | OTHERS => q.iter().collect(),
                    1 => t.iter().collect(),
                    _ => vec![],
                };
                std::thread::scope(|s| {
                    for slot in slots {
                        let (all, next) = (&all, &next);
                        s.spawn(move || loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= all.len() || self.stop.load(Relaxed) {
                                slot.cur.lock().unwrap().0.clear();
                                break;
                            }
                            if self.timeup.load(Relaxed) {
                                self.truncated.store(true, Relaxed);
                                break;
                            }
                            // a script with operations that do not apply is cut there
                            let mut s = all[i].clone();
                            loop {
                                match self.node(slot, fam, &s) {
                                    Out::Disabled => {
                                        self.set(slot, fam, &s, None);
                                        let k = longest_enabled(fam, &s);
                                        if k < s.len() {
                                            s.remove(k);
                                        } else {
                                            break;
                                        }
                                    }
                                    Out::Ok => {
                                        self.sample(fam, &s);
                                        break;
                                    }
                                    _ => break,
                                }
                            }
                        });
                    }
                });
                0
            }
        }
    }
}

/// Position of the first operation that does not apply.
fn longest_enabled(fam: &Family, ops: &[Op]) -> usize {
    match run_path(fam, ops, None, false) {
        (Ok(false), _, n) => (n as usize - 1).saturating_sub(fam.cfg.prelude.len()),
        _ => ops.len(),
    }
}

/// Remove operations as long as the same property is still violated.
pub fn minimise(fam: &Family, f: &Found, prop: &str) -> Found {
    let mut best = f.clone();
    loop {
        let mut improved = false;
        for i in 0..best.ops.len() {
            let mut o = best.ops.clone();
            o.remove(i);
            for c in [None, best.closing] {
                if let (Err(m), _, _) = run_path(fam, &o, c, false) {
                    if m.props.iter().any(|p| *p == prop) {
                        best = Found { family: best.family.clone(), ops: o.clone(), closing: c, mis: m };
                        improved = true;
                        break;
                    }
                }
            }
            if improved {
                break;
            }
        }
        if !improved {
            return best;
        }
    }
}

pub fn watchdog(slots: &[Slot], done: &AtomicBool, limit: Duration, deadline: &Mutex<Instant>, timeup: &AtomicBool, on_hang: impl Fn(&Slot)) {
    let mut last: Vec<(u64, Instant)> = slots.iter().map(|s| (s.beat.load(Relaxed), Instant::now())).collect();
    while !done.load(Relaxed) {
        std::thread::sleep(Duration::from_millis(20));
        if Instant::now() > *deadline.lock().unwrap() {
            timeup.store(true, Relaxed);
        }
        for (i, s) in slots.iter().enumerate() {
            let b = s.beat.load(Relaxed);
            if b != last[i].0 || s.cur.try_lock().map_or(false, |g| g.0.is_empty()) {
                last[i] = (b, Instant::now());
            } else if last[i].1.elapsed() > limit {
                on_hang(s);
                last[i].1 = Instant::now();
            }
        }
    }
}

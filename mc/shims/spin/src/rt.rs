//! Controlled scheduler and explorer.
//!
//! Tasks are fibers on one OS thread. A fiber only loses control at a *point*, which every visible
//! operation of the stand-ins announces just before it happens. At a point the explorer may switch
//! to any other enabled fiber; switching away from a fiber that could have gone on costs one
//! preemption. Depth-first search over all these decisions (and over `choose`), within a bound on
//! preemptions; states are identified by a hash of the happens-before relation of the operations
//! executed so far, and are expanded once per remaining budget.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::Cell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub const NONE: usize = usize::MAX;
const MAX_FIBERS: usize = 8;

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0 ^ *x as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
type Map<K, V> = HashMap<K, V, BuildHasherDefault<IdHasher>>;

#[inline]
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Lock(u64),
    Park,
    Yielded,
    Done,
}

type Co = Coroutine<(), (), (), DefaultStack>;

struct Fib {
    name: String,
    st: St,
    woken: bool,
    n: u64,
    last: u64,
    created: u64,
    co: Option<Co>,
    yielder: *const Yielder<(), ()>,
}

#[derive(Default, Clone, Copy)]
struct Obj {
    w: u64,
    r: u64,
}

#[derive(Clone, Debug)]
struct Br {
    opts: [u8; MAX_FIBERS],
    n: u8,
    i: u8,
    data: bool,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub prop: &'static str,
    pub msg: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub execs: u64,
    pub steps: u64,
    pub states: u64,
    pub max_steps: u64,
    pub complete: bool,
    pub nondet: bool,
}

pub struct Rt {
    gen: u32,
    cur: usize,
    fibers: Vec<Fib>,
    stacks: Vec<DefaultStack>,
    objs: Map<u64, Obj>,
    addrs: Map<usize, u64>,
    sum: u64,
    path: Vec<Br>,
    pos: usize,
    bound: u32,
    budget: u32,
    frozen: bool,
    nondet: bool,
    steps: u64,
    cache: Map<u64, u32>,
    pub failures: Vec<Failure>,
    pub trace: Option<Vec<String>>,
    aborting: bool,
    pub live_arcs: i64,
    overrun: bool,
    progress: u64,
    /// Also stop before each `unlock`: who tries a lock can tell that it is held.
    sections: bool,
}

thread_local! {
    static RT: Cell<*mut Rt> = const { Cell::new(std::ptr::null_mut()) };
}

#[inline]
fn rt() -> Option<&'static mut Rt> {
    let p = RT.with(|r| r.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

/// Whether anything tried a lock so far.
static TRIED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// In the bound of a replay: with stops before each `unlock`.
const SECTIONS: u32 = 256;

const MAX_STEPS: u64 = 200_000;

impl Rt {
    fn new() -> Self {
        Rt {
            gen: 0,
            cur: NONE,
            fibers: vec![],
            stacks: vec![],
            objs: Map::default(),
            addrs: Map::default(),
            sum: 0,
            path: vec![],
            pos: 0,
            bound: 0,
            budget: 0,
            frozen: false,
            nondet: false,
            steps: 0,
            cache: Map::default(),
            failures: vec![],
            trace: None,
            aborting: false,
            live_arcs: 0,
            overrun: false,
            progress: 0,
            sections: false,
        }
    }

    fn branch(&mut self, opts: &[u8], data: bool, key: u64) -> u8 {
        if opts.len() == 1 {
            return opts[0];
        }
        if self.pos < self.path.len() {
            let b = &self.path[self.pos];
            if b.n as usize != opts.len() || b.opts[..opts.len()] != *opts || b.data != data {
                self.nondet = true;
                self.frozen = true;
                self.path.truncate(self.pos);
                return opts[0];
            }
            self.pos += 1;
            return b.opts[b.i as usize];
        }
        if self.frozen {
            return opts[0];
        }
        let seen = self.cache.entry(key).or_insert(u32::MAX);
        if *seen != u32::MAX && *seen >= self.budget {
            self.frozen = true;
            return opts[0];
        }
        *seen = self.budget;
        let mut o = [0u8; MAX_FIBERS];
        o[..opts.len()].copy_from_slice(opts);
        self.path.push(Br { opts: o, n: opts.len() as u8, i: 0, data });
        self.pos += 1;
        opts[0]
    }

    /// Which fiber goes on; `enabled` tells whether the current one can.
    fn pick(&mut self, enabled: bool) -> usize {
        let mut opts = [0u8; MAX_FIBERS];
        let mut n = 0;
        if enabled {
            opts[0] = self.cur as u8;
            n = 1;
            if self.budget == 0 || (self.frozen && self.pos >= self.path.len()) {
                return self.cur;
            }
        }
        for (i, f) in self.fibers.iter().enumerate() {
            if i != self.cur && f.st == St::Run {
                opts[n] = i as u8;
                n += 1;
            }
        }
        if n == 0 {
            // Those that asked to let the others go first.
            for (i, f) in self.fibers.iter_mut().enumerate() {
                if f.st == St::Yielded {
                    f.st = St::Run;
                    opts[n] = i as u8;
                    n += 1;
                }
            }
        }
        if n == 0 {
            return NONE;
        }
        let key = mix(self.sum ^ mix(self.cur as u64 + 77 * enabled as u64));
        let c = self.branch(&opts[..n], false, key) as usize;
        if enabled && c != self.cur {
            self.budget = self.budget.saturating_sub(1);
        }
        c
    }

    fn switch(&mut self, to: usize) {
        let me = self.cur;
        if me == to {
            return;
        }
        self.cur = to;
        let y = self.fibers[me].yielder;
        unsafe { (*y).suspend(()) }
    }

    fn event(&mut self, obj: u64, write: bool, info: u64) {
        let f = &mut self.fibers[self.cur];
        f.n += 1;
        let o = self.objs.entry(obj).or_default();
        let dep = if write { o.w.wrapping_add(o.r) } else { o.w };
        let h = mix(mix(mix(f.last ^ obj) ^ dep) ^ (info << 1 | write as u64)) ^ mix(self.cur as u64);
        let h = mix(h);
        f.last = h;
        if write {
            o.w = h;
            o.r = 0;
            self.progress += 1;
            for g in self.fibers.iter_mut() {
                if g.st == St::Yielded {
                    g.st = St::Run;
                }
            }
        } else {
            o.r = o.r.wrapping_add(mix(h));
        }
        self.sum = self.sum.wrapping_add(mix(h ^ 0x5555));
    }

    fn new_id(&mut self) -> u64 {
        if self.cur == NONE {
            // During set-up: deterministic order.
            self.progress += 1;
            return mix(0xabcdef ^ self.progress);
        }
        let f = &mut self.fibers[self.cur];
        f.created += 1;
        mix(mix(f.last) ^ (f.created << 8) ^ self.cur as u64)
    }
}

#[inline]
fn active() -> Option<&'static mut Rt> {
    match rt() {
        Some(r) if r.cur != NONE && !std::thread::panicking() => Some(r),
        _ => None,
    }
}

/// Announce a visible operation.
#[inline]
pub fn point(what: &str) {
    if let Some(r) = active() {
        r.steps += 1;
        if r.steps > MAX_STEPS {
            overrun(r);
        }
        if r.trace.is_some() {
            note(what);
        }
        let n = r.pick(true);
        r.switch(n);
    }
}

fn overrun(r: &mut Rt) {
    if !r.overrun {
        r.overrun = true;
        let who = r.fibers[r.cur].name.clone();
        fail("C04", format!("no end after {MAX_STEPS} steps, {who} is running in circles"));
    }
    r.fibers[r.cur].st = St::Done;
    let n = r.pick(false);
    r.switch(n);
}

/// Lets the others go first until one of them has done something.
pub fn yield_now() {
    if let Some(r) = active() {
        r.steps += 1;
        if r.steps > MAX_STEPS {
            overrun(r);
        }
        r.fibers[r.cur].st = St::Yielded;
        let n = r.pick(false);
        r.switch(n);
    }
}

pub fn note(what: &str) {
    if let Some(r) = rt() {
        if r.trace.is_some() {
            let who = if r.cur == NONE { "main".to_string() } else { r.fibers[r.cur].name.clone() };
            r.trace.as_mut().unwrap().push(format!("{who}: {what}"));
        }
    }
}

/// The operation happens.
#[inline]
pub fn event(id: &Id, write: bool, info: u64) {
    if let Some(r) = rt() {
        let i = id.get(r);
        if r.cur != NONE {
            r.event(i, write, info);
        }
    }
}

pub fn event_addr(addr: usize, write: bool, info: u64) {
    if let Some(r) = rt() {
        let i = match r.addrs.get(&addr) {
            Some(i) => *i,
            None => {
                let i = r.new_id();
                r.addrs.insert(addr, i);
                i
            }
        };
        if r.cur != NONE {
            r.event(i, write, info);
        }
    }
}

pub fn forget_addr(addr: usize) {
    if let Some(r) = rt() {
        r.addrs.remove(&addr);
    }
}

pub fn arc_count(d: i64) {
    if let Some(r) = rt() {
        r.live_arcs += d;
    }
}

pub fn live_arcs() -> i64 {
    rt().map_or(0, |r| r.live_arcs)
}

/// Identity of an object, the same in equivalent executions: given out upon first use.
#[derive(Default)]
pub struct Id(Cell<(u32, u64)>);
unsafe impl Sync for Id {}
unsafe impl Send for Id {}
impl Id {
    pub const fn new() -> Self {
        Id(Cell::new((0, 0)))
    }
    fn get(&self, r: &mut Rt) -> u64 {
        let (g, i) = self.0.get();
        if g == r.gen {
            return i;
        }
        let i = r.new_id();
        self.0.set((r.gen, i));
        i
    }
}

/// Take a lock whose state is `held` (0: free, else 1 + the holder, or MAX: the main context).
pub fn lock(id: &Id, held: &Cell<usize>, what: &str) {
    let r = match rt() {
        Some(r) => r,
        None => {
            assert_eq!(held.get(), 0, "lock held outside of an execution");
            held.set(usize::MAX);
            return;
        }
    };
    if r.cur == NONE || std::thread::panicking() {
        if held.get() != 0 {
            let by = if held.get() == usize::MAX { "main".into() } else { r.fibers[held.get() - 1].name.clone() };
            fail("C22", format!("deadlock: {what} locked by {by} while outside of the tasks"));
            stop_here(r);
        }
        held.set(if r.cur == NONE { usize::MAX } else { r.cur + 1 });
        return;
    }
    point(what);
    loop {
        if held.get() == 0 {
            held.set(r.cur + 1);
            event(id, true, 1);
            return;
        }
        if held.get() == r.cur + 1 {
            let who = r.fibers[r.cur].name.clone();
            fail("C22", format!("deadlock: {who} locks {what}, which it holds already"));
        }
        let i = id.get(r);
        r.fibers[r.cur].st = St::Lock(i);
        let n = r.pick(false);
        r.switch(n);
    }
}

pub fn try_lock(id: &Id, held: &Cell<usize>, what: &str) -> bool {
    TRIED.store(true, std::sync::atomic::Ordering::Relaxed);
    point(what);
    let ok = held.get() == 0;
    if ok {
        held.set(rt().map_or(usize::MAX, |r| if r.cur == NONE { usize::MAX } else { r.cur + 1 }));
    }
    event(id, true, 2 + ok as u64);
    ok
}

pub fn unlock(id: &Id, held: &Cell<usize>) {
    if rt().is_some_and(|r| r.sections) {
        point("unlock");
    }
    held.set(0);
    if let Some(r) = rt() {
        let i = id.get(r);
        if r.cur != NONE {
            r.event(i, true, 4);
        }
        for f in r.fibers.iter_mut() {
            if f.st == St::Lock(i) {
                f.st = St::Run;
            }
        }
    }
}

/// Block on a lock-like object until `unlock` is called for it.
pub fn block_on_obj(id: &Id, what: &str) {
    let r = rt().expect("blocked outside of an execution");
    if r.cur == NONE {
        fail("C22", format!("deadlock: {what} blocks outside of the tasks"));
        stop_here(r);
    }
    let i = id.get(r);
    r.fibers[r.cur].st = St::Lock(i);
    let n = r.pick(false);
    r.switch(n);
}

/// The main context cannot go on: abandon the execution.
fn stop_here(r: &mut Rt) -> ! {
    r.cur = NONE;
    std::panic::resume_unwind(Box::new(Abandon));
}
pub struct Abandon;

fn waker_obj(i: usize) -> u64 {
    mix(0x77ac ^ (i as u64) << 20)
}

/// Wait until the fiber is woken. False if it is asked to give up.
pub fn park() -> bool {
    let r = rt().unwrap();
    let me = r.cur;
    loop {
        if r.aborting {
            return false;
        }
        if r.fibers[me].woken {
            r.fibers[me].woken = false;
            r.event(waker_obj(me), true, 5);
            return true;
        }
        r.event(waker_obj(me), false, 6);
        r.fibers[me].st = St::Park;
        let n = r.pick(false);
        r.switch(n);
    }
}

pub fn aborting() -> bool {
    rt().map_or(false, |r| r.aborting)
}

pub fn clear_woken() {
    let r = rt().unwrap();
    let me = r.cur;
    if r.fibers[me].woken {
        r.fibers[me].woken = false;
        r.event(waker_obj(me), true, 7);
    }
}

pub fn wake(fiber: usize, gen: u32) {
    if let Some(r) = rt() {
        if gen != r.gen || fiber >= r.fibers.len() {
            return;
        }
        if r.cur != NONE {
            r.event(waker_obj(fiber), true, 8);
        }
        if r.trace.is_some() {
            let t = r.fibers[fiber].name.clone();
            note(&format!("wakes {t}"));
        }
        r.fibers[fiber].woken = true;
        if r.fibers[fiber].st == St::Park {
            r.fibers[fiber].st = St::Run;
        }
    }
}

pub fn cur() -> usize {
    rt().map_or(NONE, |r| r.cur)
}
pub fn gen() -> u32 {
    rt().map_or(0, |r| r.gen)
}

/// A nondeterministic value below `n`.
pub fn choose(n: usize) -> usize {
    match active() {
        Some(r) if n > 1 => {
            let opts = [0u8, 1, 2, 3, 4, 5, 6, 7];
            let key = mix(r.sum ^ mix(r.cur as u64 + 1_000_003));
            let c = r.branch(&opts[..n], true, key) as usize;
            let o = mix(0xc400 ^ r.cur as u64);
            r.event(o, true, 10 + c as u64);
            c
        }
        _ => 0,
    }
}

pub fn fail(prop: &'static str, msg: String) {
    note(&format!("*** {prop}: {msg}"));
    if let Some(r) = rt() {
        r.failures.push(Failure { prop, msg });
    }
}

pub fn failed() -> bool {
    rt().map_or(false, |r| !r.failures.is_empty())
}

pub fn is_parked(i: usize) -> bool {
    rt().map_or(false, |r| r.fibers[i].st == St::Park)
}
pub fn is_done(i: usize) -> bool {
    rt().map_or(true, |r| r.fibers[i].st == St::Done)
}
pub fn fibers() -> usize {
    rt().map_or(0, |r| r.fibers.len())
}
pub fn fiber_name(i: usize) -> String {
    rt().map_or(String::new(), |r| r.fibers[i].name.clone())
}
/// Fibers that wait for a lock nobody is going to release.
pub fn locked_up() -> Vec<usize> {
    let r = rt().unwrap();
    (0..r.fibers.len()).filter(|i| matches!(r.fibers[*i].st, St::Lock(_))).collect()
}

pub fn spawn(name: String, f: impl FnOnce() + 'static) -> usize {
    let r = rt().expect("spawn outside of an execution");
    assert!(r.fibers.len() < MAX_FIBERS);
    let i = r.fibers.len();
    let stack = r.stacks.pop().unwrap_or_else(|| DefaultStack::new(256 * 1024).unwrap());
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        let r = rt().unwrap();
        r.fibers[i].yielder = y;
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            let m = panic_text(&e);
            fail("C22", format!("task {} panicked: {m}", r.fibers[i].name));
        }
    });
    r.fibers.push(Fib {
        name,
        st: St::Run,
        woken: false,
        n: 0,
        last: mix(i as u64 + 1),
        created: 0,
        co: Some(co),
        yielder: std::ptr::null(),
    });
    i
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into())
}

/// Run the fibers until none can go on.
pub fn run() {
    let r = rt().unwrap();
    if r.cur == NONE {
        r.cur = r.pick(false);
    }
    while r.cur != NONE {
        let c = r.cur;
        let mut co = r.fibers[c].co.take().expect("fiber to resume");
        match co.resume(()) {
            CoroutineResult::Yield(()) => r.fibers[c].co = Some(co),
            CoroutineResult::Return(()) => {
                r.fibers[c].st = St::Done;
                r.stacks.push(co.into_stack());
                // The end of a fiber is no event; whoever goes on does so for free.
                r.cur = c;
                let n = r.pick(false);
                r.cur = n;
            }
        }
    }
}

/// No more branching from here on.
pub fn freeze() {
    let r = rt().unwrap();
    r.frozen = true;
    r.budget = 0;
}

/// Ask all parked fibers to give up.
pub fn abort() {
    let r = rt().unwrap();
    r.aborting = true;
    for f in r.fibers.iter_mut() {
        if f.st == St::Park {
            f.st = St::Run;
        }
    }
}

pub struct Found {
    pub failures: Vec<Failure>,
    pub path: Vec<u8>,
    /// The bound to give to `replay`.
    pub bound: u32,
}

/// Explore all executions of `f` within `bound` preemptions. `f` sets up, spawns, calls `run` and
/// checks. Ends early when `stop` says so (called after each execution, with its failures).
pub fn explore(bound: u32, f: &mut dyn FnMut(), stop: &mut dyn FnMut(&Stats, Option<Found>) -> bool) -> Stats {
    explore_from(bound, None, false, f, stop).0
}

/// Repeat the one execution of the given path and return its trace.
pub fn replay(bound: u32, path: &[u8], f: &mut dyn FnMut()) -> (Vec<Failure>, Vec<String>) {
    let mut fs = vec![];
    let (_, t) = explore_from(bound, Some(path), true, f, &mut |_, x| {
        if let Some(x) = x {
            fs = x.failures;
        }
        true
    });
    (fs, t)
}

fn explore_from(
    bound: u32,
    path: Option<&[u8]>,
    trace: bool,
    f: &mut dyn FnMut(),
    stop: &mut dyn FnMut(&Stats, Option<Found>) -> bool,
) -> (Stats, Vec<String>) {
    thread_local! {
        static KEEP: Cell<Option<Box<Rt>>> = const { Cell::new(None) };
    }
    let mut b = KEEP.with(|k| k.take()).unwrap_or_else(|| Box::new(Rt::new()));
    let r: &mut Rt = unsafe { &mut *(&mut *b as *mut Rt) };
    RT.with(|c| c.set(r));
    let mut st = Stats::default();
    r.cache.clear();
    r.path.clear();
    r.sections = bound & SECTIONS != 0 || path.is_none() && TRIED.load(std::sync::atomic::Ordering::Relaxed);
    let bound = bound & !SECTIONS;
    r.bound = bound;
    let forced: Vec<u8> = path.map(|p| p.to_vec()).unwrap_or_default();
    if path.is_some() {
        // Branches are not known in advance; take the choices as they come.
        REPLAY.with(|x| x.set(Some(forced)));
    }
    let mut out = vec![];
    loop {
        r.gen = r.gen.wrapping_add(1).max(1);
        r.cur = NONE;
        r.fibers.clear();
        r.objs.clear();
        r.addrs.clear();
        r.sum = 0;
        r.pos = 0;
        r.budget = bound;
        r.frozen = false;
        r.nondet = false;
        r.steps = 0;
        r.failures.clear();
        r.aborting = false;
        r.live_arcs = 0;
        r.overrun = false;
        r.progress = 0;
        r.trace = trace.then(Vec::new);
        if let Some(p) = REPLAY.with(|x| x.take()) {
            r.path = p
                .iter()
                .map(|_| Br { opts: [0; MAX_FIBERS], n: 0, i: 0, data: false })
                .collect();
            // Resolve the choices lazily: see `branch`; here they are filled in by a dry run.
            r.path.clear();
            fill(r, &p, f);
            r.trace = trace.then(Vec::new);
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        if let Err(e) = res {
            if !e.is::<Abandon>() {
                let m = panic_text(&e);
                fail("C22", format!("panic outside of the tasks: {m}"));
            }
        }
        r.cur = NONE;
        st.execs += 1;
        st.steps += r.steps;
        st.max_steps = st.max_steps.max(r.steps);
        st.states = r.cache.len() as u64;
        st.nondet |= r.nondet;
        let found = if r.failures.is_empty() {
            None
        } else {
            Some(Found {
                failures: r.failures.clone(),
                path: r.path[..r.pos.min(r.path.len())].iter().map(|b| b.i).collect(),
                bound: bound | if r.sections { SECTIONS } else { 0 },
            })
        };
        // Fibers that did not end are abandoned.
        for f in r.fibers.iter_mut() {
            if let Some(co) = f.co.take() {
                if co.started() && !co.done() {
                    std::mem::forget(co);
                }
            }
        }
        if trace {
            out = r.trace.take().unwrap_or_default();
        }
        let bad = found.is_some();
        if stop(&st, found) {
            break;
        }
        let _ = bad;
        // Next path.
        loop {
            match r.path.last_mut() {
                None => {
                    st.complete = true;
                    break;
                }
                Some(b) if b.i + 1 < b.n => {
                    b.i += 1;
                    break;
                }
                Some(_) => {
                    r.path.pop();
                }
            }
        }
        if st.complete {
            break;
        }
    }
    r.cache.clear();
    r.fibers.clear();
    RT.with(|c| c.set(std::ptr::null_mut()));
    KEEP.with(|k| k.set(Some(b)));
    (st, out)
}

thread_local! {
    static REPLAY: Cell<Option<Vec<u8>>> = const { Cell::new(None) };
}

/// Find the branches that belong to a list of choices: one execution per choice.
fn fill(r: &mut Rt, p: &[u8], f: &mut dyn FnMut()) {
    let reset = |r: &mut Rt| {
        for f in r.fibers.iter_mut() {
            if let Some(co) = f.co.take() {
                if co.started() && !co.done() {
                    std::mem::forget(co);
                }
            }
        }
        r.gen = r.gen.wrapping_add(1).max(1);
        r.cur = NONE;
        r.fibers.clear();
        r.objs.clear();
        r.addrs.clear();
        r.sum = 0;
        r.pos = 0;
        r.budget = r.bound;
        r.frozen = false;
        r.nondet = false;
        r.steps = 0;
        r.failures.clear();
        r.aborting = false;
        r.live_arcs = 0;
        r.overrun = false;
        r.progress = 0;
        r.trace = None;
        r.cache.clear();
    };
    for k in 0..p.len() {
        reset(r);
        let keep = k;
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        r.cur = NONE;
        if r.path.len() <= keep {
            break;
        }
        r.path.truncate(keep + 1);
        r.path[keep].i = p[k];
    }
    reset(r);
}

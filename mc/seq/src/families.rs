//! The bounded spaces that are enumerated: per family a configuration and either a set of
//! operations explored to a depth, or a list of scripts.
use crate::rt::{Kind, StartMode};
use crate::sim::{Cfg, Flavor, Op, OwnK, D, P};

pub enum Space {
    /// all sequences of these operations, to the given depth (quick, thorough)
    Dfs(Vec<Op>, usize, usize),
    /// all scripts (quick, additional thorough)
    Scripts(Vec<Vec<Op>>, Vec<Vec<Op>>),
    /// a long history with its own oracle
    Long(crate::long::LongFn),
    /// words that are repeated, up to this length (quick, thorough)
    Cycle(crate::cycles::Space),
}
impl Space {
    /// The operations that occur.
    pub fn ops(&self) -> Vec<Op> {
        let mut uniq: Vec<Op> = vec![];
        match self {
            Space::Dfs(ops, _, _) => uniq.extend(ops.iter().copied()),
            Space::Scripts(a, b) => {
                for op in a.iter().chain(b).flatten() {
                    if !uniq.contains(op) {
                        uniq.push(*op)
                    }
                }
            }
            Space::Long(_) | Space::Cycle(_) => {}
        }
        uniq
    }
}

pub struct Family {
    pub name: String,
    pub cfg: Cfg,
    pub space: Space,
    /// properties this family is explored for
    pub props: Vec<P>,
    pub closings: Vec<u8>,
}

fn cfg(cap: Option<usize>, mbs: usize) -> Cfg {
    Cfg {
        cap,
        mbs,
        flavor: Flavor::S,
        spurious: false,
        debug_counts: true,
        compare: false,
        max_msgs: 8,
        max_handles: 4,
        max_mbs: 3,
        max_recs: 4,
        extra: vec![],
        prelude: vec![],
    }
}

fn send(p: u32) -> Op {
    Op::Send { h: 0, p, k: Kind::Imm, own: OwnK::None, plain: false, poll: true }
}
fn sendk(k: Kind) -> Op {
    Op::Send { h: 0, p: 0, k, own: OwnK::None, plain: false, poll: true }
}
fn sendp(p: u32) -> Op {
    Op::Send { h: 0, p, k: Kind::Imm, own: OwnK::None, plain: true, poll: true }
}
fn lazy(p: u32) -> Op {
    Op::Send { h: 0, p, k: Kind::Imm, own: OwnK::None, plain: false, poll: false }
}
fn lazyp(p: u32) -> Op {
    Op::Send { h: 0, p, k: Kind::Imm, own: OwnK::None, plain: true, poll: false }
}
fn own(o: OwnK) -> Op {
    Op::Send { h: 0, p: 0, k: Kind::Imm, own: o, plain: false, poll: true }
}
fn bc(p: u32) -> Op {
    Op::Bcast { h: 0, p, k: Kind::Imm, poll: true }
}
fn bck(k: Kind) -> Op {
    Op::Bcast { h: 0, p: 0, k, poll: true }
}
fn bclazyp(p: u32) -> Op {
    Op::Bcast { h: 0, p, k: Kind::Imm, poll: false }
}
fn bclazy() -> Op {
    Op::Bcast { h: 0, p: 0, k: Kind::Imm, poll: false }
}
fn run(m: u8) -> Op {
    Op::Run { m, start: StartMode::Ok, stop_gate: false, poll: true }
}
fn run_full(start: StartMode) -> Op {
    Op::Run { m: 0, start, stop_gate: true, poll: true }
}

pub const PRIOS: [u32; 16] =
    [0, 1, 2, 127, 128, 255, 256, 32768, 65535, 65536, 65537, 1 << 24, (1 << 24) + 1, 1 << 31, u32::MAX - 1, u32::MAX];

pub fn families() -> Vec<Family> {
    let mut v: Vec<Family> = vec![];
    let mut dfs = |name: &str, cfg: Cfg, ops: Vec<Op>, q: usize, t: usize, props: &[P]| {
        v.push(Family { name: name.into(), cfg, space: Space::Dfs(ops, q, t), props: props.to_vec(), closings: vec![0, 1, 2] });
    };
    use Op::*;

    // ---------------------------------------------------------------- unicast
    dfs(
        "uni-prio",
        cfg(None, 1),
        vec![send(0), send(1), send(5), Recv(0), DropRecv(0), PollRecv(0)],
        6,
        8,
        &["C01", "C05", "C06", "C03", "C21", "C27", "C02"],
    );
    dfs("uni-fifo", cfg(None, 1), vec![send(0), sendp(0), Recv(0), RecvDiscard(0)], 8, 11, &["C06", "C01", "C24", "C03"]);
    for (cap, q, t) in [(1usize, 6usize, 8usize), (2, 6, 8)] {
        dfs(
            &format!("cap{cap}-uni"),
            cfg(Some(cap), 1),
            vec![send(0), send(1), lazy(0), PollSend(0), DropSend(0), Recv(0), DropRecv(0), PollRecv(0)],
            q,
            t,
            &["C07", "C08", "C23", "C01", "C03", "C04", "C06", "C21", "C27", "C15"],
        );
        let mut c = cfg(Some(cap), 1);
        c.spurious = true;
        dfs(
            &format!("cap{cap}-spurious"),
            c,
            vec![sendp(0), send(2), PollSend(0), PollSend(1), Recv(0), PollRecv(0), DropMb(0)],
            q,
            t,
            &["C04", "C07", "C08", "C03", "C15"],
        );
        for (n, f) in [("", Flavor::S), ("-e", Flavor::E), ("-cs", Flavor::CS), ("-ce", Flavor::CE)] {
            let mut c = cfg(Some(cap), 1);
            c.flavor = f;
            if matches!(f, Flavor::CS | Flavor::CE) {
                c.extra = vec!["C19"];
            }
            dfs(
                &format!("cap{cap}-detach{n}"),
                c,
                vec![sendp(0), lazyp(0), Detach(0), Detach(1), Prio(0, 4), PrioLate(0, 4), PollSend(0), DropSend(0), DropReply(0), Recv(0), DropMb(0)],
                q - 1,
                t - 2,
                &["C03", "C23", "C04", "C19"],
            );
        }
        let mut c = cfg(Some(cap), 1);
        c.max_msgs = 10;
        dfs(
            &format!("cap{cap}-waiters"),
            c,
            vec![send(0), send(3), DropSend(0), DropSend(1), DropSend(2), Recv(0)],
            q + 1,
            t + 2,
            &["C08", "C07", "C23", "C06", "C04"],
        );
    }
    dfs(
        "two-mb",
        cfg(None, 2),
        vec![send(0), send(1), Recv(0), Recv(1), DropRecv(0), DropRecv(1), PollRecv(0), PollRecv(1)],
        6,
        7,
        &["C01", "C02", "C04", "C05", "C06", "C03"],
    );
    dfs(
        "two-mb-cap1",
        cfg(Some(1), 2),
        vec![send(0), Recv(0), Recv(1), DropRecv(0), PollRecv(0), DropMb(0), DropSend(0)],
        6,
        8,
        &["C01", "C02", "C04", "C07", "C08", "C15", "C23"],
    );
    // ---------------------------------------------------------------- cancelled receives
    dfs(
        "cancel",
        cfg(None, 2),
        vec![send(0), bc(0), Recv(0), Recv(1), DropRecv(0), DropRecv(1), DropRecv(2), PollRecv(0)],
        6,
        7,
        &["C02", "C01", "C09", "C04"],
    );
    dfs(
        "cancel-stop",
        cfg(None, 2),
        vec![sendk(Kind::StopAll), send(0), Recv(0), Recv(1), DropRecv(0), DropRecv(1), PollRecv(0), DropH(0)],
        6,
        7,
        &["C02", "C14", "C11", "C04"],
    );
    dfs(
        "cancel-cap1",
        cfg(Some(1), 1),
        vec![send(0), send(1), Next(0), Recv(0), DropRecv(0), DropRecv(1), PollRecv(0), PollRecv(1), DropH(0)],
        6,
        7,
        &["C02", "C07", "C08", "C01", "C11"],
    );
    // ---------------------------------------------------------------- broadcasts
    for (cap, n) in [(None, "none"), (Some(1), "1"), (Some(2), "2")] {
        dfs(
            &format!("bcast-cap{n}"),
            cfg(cap, 2),
            vec![bc(0), bc(3), Recv(0), Recv(1), CloneMb(0), DropMb(0), DropRecv(0), PollRecv(0), DropSend(0)],
            if cap == Some(2) { 6 } else { 5 },
            7,
            &["C09", "C10", "C05", "C04", "C21", "C23", "C27", "C02"],
        );
        dfs(
            &format!("bcast-mixed-cap{n}"),
            cfg(cap, 2),
            vec![bc(0), bc(2), send(0), send(1), Recv(0), Recv(1), PollRecv(0), DropRecv(0)],
            5,
            7,
            &["C09", "C10", "C07", "C05", "C01", "C21", "C04", "C02"],
        );
    }
    dfs(
        "bcast-order",
        cfg(None, 2),
        vec![bc(0), send(0), Recv(0), Recv(1)],
        9,
        11,
        &["C06", "C09", "C01"],
    );
    dfs(
        "bcast-order-prio",
        cfg(None, 1),
        vec![bc(0), bc(1), send(0), send(1), Recv(0), PollRecv(0), DropRecv(0)],
        6,
        8,
        &["C06", "C09", "C05"],
    );
    let mut c = cfg(Some(1), 3);
    c.max_mbs = 3;
    dfs(
        "bcast-lag",
        c,
        vec![bc(0), bclazy(), PollSend(0), DropSend(0), Recv(0), Recv(1), DropMb(0), DropMb(1), DropMb(2)],
        6,
        7,
        &["C10", "C09", "C21", "C04", "C08", "C23"],
    );
    let mut c = cfg(Some(1), 2);
    c.max_msgs = 10;
    dfs("bcast-waiters", c, vec![bc(0), bc(2), DropSend(0), DropSend(1), Recv(0), Recv(1), RecvDiscard(0)], 7, 8, &["C10", "C08", "C23", "C09", "C05"]);
    // ---------------------------------------------------------------- a receive or a message is all that is left of a mailbox
    for (name, cap) in [("last-recv", None), ("last-recv-cap1", Some(1))] {
        let mut c = cfg(cap, 2);
        c.max_recs = 1;
        dfs(
            name,
            c,
            vec![send(0), bc(0), Next(1), DropMb(1), PollRecv(0), PollRecvDiscard(0), DropRecv(0), RecvDiscard(0)],
            6,
            7,
            &["C10", "C21", "C04", "C09", "C15", "C02"],
        );
    }
    // ---------------------------------------------------------------- outcome of sends
    dfs(
        "outcome",
        cfg(Some(2), 1),
        vec![sendp(0), sendk(Kind::Gate), Recv(0), RecvDiscard(0), Finish(0), DropRun(0), DropReply(0), DropMb(0)],
        6,
        8,
        &["C03", "C15", "C24", "C27", "C23", "C01"],
    );
    dfs(
        "panic",
        cfg(Some(2), 2),
        vec![sendk(Kind::Panic), sendk(Kind::GatePanic), send(0), bck(Kind::Panic), Recv(0), Recv(1), Finish(0), DropRun(0)],
        5,
        7,
        &["C24", "C03", "C27", "C22", "C01", "C09"],
    );
    let mut c = cfg(Some(1), 2);
    c.max_msgs = 6;
    dfs(
        "interrupt",
        c,
        vec![sendk(Kind::Gate), bck(Kind::Gate), Recv(0), Recv(1), RecvDiscard(1), Finish(0), DropRun(0), PollRun(0)],
        6,
        7,
        &["C24", "C03", "C13", "C09"],
    );
    // ---------------------------------------------------------------- stopping
    dfs(
        "stop-self",
        cfg(None, 2),
        vec![send(0), sendk(Kind::StopSelf), bck(Kind::StopSelf), sendk(Kind::StopSelfGate), Recv(0), Recv(1), Finish(0)],
        6,
        7,
        &["C13", "C03", "C14"],
    );
    dfs(
        "stop-all",
        cfg(Some(1), 2),
        vec![send(0), bc(0), sendk(Kind::StopAll), bck(Kind::StopAll), Recv(0), Recv(1), PollRecv(0), DropH(0)],
        6,
        7,
        &["C14", "C21", "C10", "C05", "C07", "C09"],
    );
    dfs(
        "stop-all-gate",
        cfg(Some(1), 2),
        vec![send(u32::MAX), bc(u32::MAX), sendk(Kind::StopAllGate), Recv(0), Recv(1), Finish(0), DropRun(0), CloneMb(0)],
        5,
        7,
        &["C14", "C10", "C05", "C12"],
    );
    dfs(
        "stop-both",
        cfg(Some(1), 2),
        vec![sendk(Kind::StopSelfAll), sendk(Kind::StopAllSelfGate), bck(Kind::StopSelfAll), send(0), Recv(0), Recv(1), Finish(0), CloneMb(0), DropH(0)],
        5,
        7,
        &["C14", "C13", "C09", "C11"],
    );
    let mut c = cfg(None, 2);
    c.prelude = vec![run(0), run(0)];
    dfs(
        "stop-both-run",
        c,
        vec![sendk(Kind::StopSelfAll), sendk(Kind::StopAllSelfGate), bck(Kind::StopAllSelfGate), send(1), PollTask(0), PollTask(1), OpenTask(0), DropH(0), DropTask(0)],
        6,
        7,
        &["C14", "C13", "C15", "C17"],
    );
    // Handlers that are polled many times before they end.
    let mut c = cfg(None, 2);
    c.spurious = true;
    c.max_msgs = 3;
    dfs(
        "stop-polls",
        c,
        vec![sendk(Kind::StopSelfGate), bck(Kind::StopSelfGate), Recv(0), PollRun(0), Finish(0)],
        8,
        10,
        &["C13", "C03", "C24"],
    );
    let mut c = cfg(None, 1);
    c.spurious = true;
    c.prelude = vec![run(0)];
    dfs(
        "stop-polls-run",
        c,
        vec![sendk(Kind::StopSelfGate), sendk(Kind::Gate), bck(Kind::StopAllSelfGate), PollTask(0), OpenTask(0)],
        7,
        9,
        &["C13", "C14", "C03", "C17", "C15"],
    );
    let mut c = cfg(None, 1);
    c.spurious = true;
    c.extra = vec!["C18"];
    c.max_msgs = 4;
    c.prelude = vec![Select { m: 0 }];
    dfs("select-polls", c.clone(), vec![sendk(Kind::StopSelfGate), sendk(Kind::Gate), PollTask(0), OpenTask(0), OpenInner(0)], 7, 9, &["C18", "C13"]);
    c.prelude = vec![JoinF { m: 0 }];
    dfs("joinf-polls", c, vec![sendk(Kind::StopSelfGate), sendk(Kind::Gate), PollTask(0), OpenTask(0), OpenInner(0)], 7, 9, &["C18", "C13"]);
    let mut c = cfg(Some(1), 2);
    c.prelude = vec![run(0), run(0)];
    dfs(
        "stop-run",
        c,
        vec![sendk(Kind::StopSelf), sendk(Kind::StopAll), send(0), bck(Kind::StopSelf), bck(Kind::StopAll), PollTask(0), PollTask(1), DropH(0)],
        6,
        7,
        &["C13", "C14", "C15", "C17", "C11"],
    );
    let mut c = cfg(None, 3);
    c.prelude = vec![run(0), run(0), run(0)];
    c.max_msgs = 6;
    dfs(
        "stop-run3",
        c,
        vec![sendk(Kind::StopSelf), sendk(Kind::StopAll), send(9), bck(Kind::StopSelf), PollTask(0), PollTask(1), PollTask(2)],
        6,
        7,
        &["C13", "C14", "C17", "C01"],
    );
    // ---------------------------------------------------------------- lifecycle
    dfs(
        "life-1",
        cfg(None, 1),
        vec![CloneH(0), DropH(0), DropH(1), Downgrade(0), Upgrade(0), Upgrade(1), AsEither(0), Recv(0), send(0)],
        5,
        6,
        &["C11", "C12", "C21", "C27"],
    );
    dfs(
        "life-2",
        cfg(None, 1),
        vec![MbAddr(0), Upgrade(0), Upgrade(1), DropH(0), DropH(1), AsEither(0), AsEither(1), Channel(0), Channel(1), Recv(0)],
        5,
        6,
        &["C11", "C12", "C19", "C21"],
    );
    dfs(
        "life-send",
        cfg(Some(1), 1),
        vec![lazy(0), send(0), DropH(0), PollSend(0), DropSend(0), Recv(0), PollRecv(0), MbAddr(0), Upgrade(0)],
        6,
        7,
        &["C11", "C12", "C23", "C03"],
    );
    let mut c = cfg(None, 1);
    c.flavor = Flavor::CS;
    c.extra = vec!["C19"];
    dfs(
        "life-chan",
        c,
        vec![CloneH(0), DropH(0), DropH(1), Downgrade(0), AsEither(0), AsEither(1), Recv(0), send(0), Join(0)],
        5,
        6,
        &["C11", "C12", "C19", "C21"],
    );
    for (n, r) in [("run", run(0))] {
        let mut c = cfg(None, 1);
        c.prelude = vec![r];
        dfs(
            &format!("life-{n}"),
            c,
            vec![CloneH(0), DropH(0), Downgrade(0), Upgrade(0), AsEither(0), send(0), PollTask(0), Join(0)],
            6,
            7,
            &["C11", "C12", "C15", "C16", "C17"],
        );
    }
    // ---------------------------------------------------------------- disconnection, join
    dfs(
        "disconnect",
        cfg(Some(1), 1),
        vec![send(0), bc(0), sendp(1), DropMb(0), Recv(0), DropRecv(0), DropH(0), CloneMb(0)],
        6,
        7,
        &["C15", "C03", "C04", "C27", "C21"],
    );
    dfs(
        "disconnect-send",
        cfg(Some(1), 2),
        vec![send(0), bc(0), lazy(0), PollSend(0), DropMb(0), Join(0), CloneH(0), DropH(0)],
        6,
        7,
        &["C15", "C03", "C04", "C16"],
    );
    dfs(
        "join",
        cfg(None, 1),
        vec![Join(0), JoinLazy(0), PollJoin(0), DropJoin(0), Scoped { h: 0 }, DropMb(0), CloneMb(0), DropH(0), Downgrade(0)],
        6,
        7,
        &["C16", "C04", "C27"],
    );
    let mut c = cfg(None, 1);
    c.spurious = true;
    dfs(
        "join-spurious",
        c,
        vec![Join(0), JoinLazy(0), PollJoin(0), PollJoin(1), DropJoin(0), DropMb(0), Next(0), DropRecv(0)],
        6,
        7,
        &["C16", "C04"],
    );
    let mut c = cfg(None, 1);
    c.prelude = vec![run_full(StartMode::Ok)];
    dfs(
        "join-run",
        c,
        vec![Join(0), Scoped { h: 0 }, sendk(Kind::StopSelf), sendk(Kind::StopAll), PollTask(0), OpenTask(0), OpenInner(0), DropH(0), DropTask(0)],
        6,
        7,
        &["C16", "C15", "C17", "C04"],
    );
    dfs(
        "scoped",
        cfg(None, 1),
        vec![Scoped { h: 0 }, OpenInner(0), PollTask(0), PollTask(1), DropTask(0), DropMb(0), DropH(0), CloneH(0)],
        6,
        8,
        &["C16"],
    );
    // ---------------------------------------------------------------- event loop
    for (n, s) in [("ok", StartMode::GateOk(0)), ("err", StartMode::GateErr(0)), ("fail", StartMode::Err)] {
        let mut c = cfg(Some(1), 1);
        c.max_msgs = 6;
        dfs(
            &format!("run-{n}"),
            c,
            vec![run_full(s), sendk(Kind::Gate), send(1), bck(Kind::StopSelfGate), PollTask(0), OpenTask(0), DropTask(0), DropH(0)],
            6,
            7,
            &["C17", "C03", "C13", "C15", "C24"],
        );
    }
    let mut c = cfg(None, 1);
    c.prelude = vec![run_full(StartMode::GateOk(0))];
    dfs(
        "run-stop",
        c,
        vec![sendk(Kind::Gate), send(1), sendk(Kind::StopSelf), sendk(Kind::StopAllGate), bc(0), PollTask(0), OpenTask(0), DropTask(0), DropH(0)],
        6,
        7,
        &["C17", "C13", "C14", "C15", "C24", "C27"],
    );
    for (n, o) in [("select", SelectRun { m: 0 }), ("join", JoinRun { m: 0 })] {
        let mut c = cfg(Some(1), 1);
        c.prelude = vec![o];
        dfs(
            &format!("again-{n}"),
            c,
            vec![
                sendk(Kind::Gate),
                send(1),
                sendk(Kind::StopSelf),
                sendk(Kind::StopAllGate),
                bck(Kind::SelStop),
                PollTask(0),
                OpenTask(0),
                OpenInner(0),
                DropTask(0),
                DropH(0),
            ],
            6,
            7,
            &["C17", "C13", "C14", "C18"],
        );
    }
    for (n, s) in [("select", StartMode::Sel(0)), ("join", StartMode::JoinF(0))] {
        let mut c = cfg(Some(1), 1);
        c.prelude = vec![run_full(s)];
        dfs(
            &format!("start-{n}"),
            c,
            vec![
                sendk(Kind::Gate),
                send(1),
                sendk(Kind::StopSelf),
                sendk(Kind::StopAllGate),
                bck(Kind::SelStop),
                PollTask(0),
                OpenTask(0),
                OpenInner(0),
                DropTask(0),
                DropH(0),
            ],
            6,
            7,
            &["C17", "C13", "C14", "C15", "C18", "C24"],
        );
    }
    let mut c = cfg(None, 2);
    c.spurious = true;
    c.prelude = vec![Op::Run { m: 0, start: StartMode::Ok, stop_gate: false, poll: false }];
    dfs(
        "run-two",
        c,
        vec![sendk(Kind::Gate), send(0), bc(1), Recv(0), PollRecv(0), DropRecv(0), PollTask(0), OpenTask(0), DropTask(0)],
        6,
        7,
        &["C17", "C01", "C02", "C24", "C04"],
    );
    let mut c = cfg(None, 1);
    c.prelude = vec![run(0)];
    dfs("run-panic", c, vec![sendk(Kind::Panic), sendk(Kind::GatePanic), send(0), OpenTask(0), PollTask(0), Join(0), DropTask(0)], 6, 7, &["C24", "C17", "C15", "C16"]);
    // ---------------------------------------------------------------- select / join
    for (n, t, r) in [("select", Select { m: 0 }, SelectReady { m: 0 }), ("joinf", JoinF { m: 0 }, JoinFReady { m: 0 })] {
        let mut c = cfg(Some(2), 1);
        c.extra = vec!["C18"];
        c.max_msgs = 6;
        dfs(
            &format!("{n}-1"),
            c.clone(),
            vec![t, r, send(0), sendk(Kind::Gate), sendk(Kind::StopSelf), sendk(Kind::StopAll), PollTask(0), OpenTask(0), OpenInner(0)],
            6,
            7,
            &["C18", "C13", "C14"],
        );
        c.prelude = vec![t];
        dfs(
            &format!("{n}-2"),
            c.clone(),
            vec![send(0), bc(0), send(2), sendk(Kind::StopSelf), bck(Kind::Gate), PollTask(0), OpenTask(0), OpenInner(0), DropTask(0), DropH(0)],
            6,
            7,
            &["C18", "C02", "C01", "C24"],
        );
        c.spurious = true;
        dfs(
            &format!("{n}-3"),
            c.clone(),
            vec![send(0), sendk(Kind::StopAll), CloneMb(0), PollTask(0), OpenInner(0), DropH(0)],
            6,
            7,
            &["C18", "C14"],
        );
        c.spurious = false;
        c.mbs = 2;
        dfs(
            &format!("{n}-4"),
            c,
            vec![send(0), sendk(Kind::StopAll), bc(0), Recv(0), DropRecv(0), PollTask(0), OpenInner(0)],
            6,
            7,
            &["C18", "C02", "C14", "C01"],
        );
    }
    // ---------------------------------------------------------------- channels
    for (n, f) in [("cs", Flavor::CS), ("ce", Flavor::CE), ("e", Flavor::E)] {
        let mut c = cfg(Some(1), 1);
        c.flavor = f;
        if f != Flavor::E {
            c.extra = vec!["C19"];
        }
        dfs(
            &format!("chan-{n}-cap1"),
            c.clone(),
            vec![send(0), sendp(1), lazy(2), PollSend(0), DropSend(0), Recv(0), DropRecv(0), DropMb(0), DropH(0)],
            5,
            7,
            &["C19", "C11"],
        );
        c.cap = None;
        dfs(
            &format!("chan-{n}-prio"),
            c.clone(),
            vec![send(0), send(1), sendp(3), Recv(0), CloneH(0), DropH(0), Downgrade(0), Join(0)],
            5,
            6,
            &["C19", "C11", "C05"],
        );
        c.compare = true;
        dfs(
            &format!("chan-{n}-cmp"),
            c,
            vec![CloneH(0), DropH(0), Downgrade(0), AsEither(0), AsEither(1), DropH(1), DropMb(0)],
            5,
            6,
            &["C19", "C20"],
        );
    }
    let mut c = cfg(None, 1);
    c.compare = true;
    c.max_handles = 5;
    dfs("cmp", c, vec![CloneH(0), Downgrade(0), AsEither(0), AsEither(1), Channel(0), Channel(1), Upgrade(1), DropH(0), DropMb(0)], 5, 6, &["C20", "C21"]);
    // ---------------------------------------------------------------- re-entrancy
    for (cap, n) in [(None, "none"), (Some(1), "1")] {
        let mut c = cfg(cap, 1);
        c.extra = vec!["C22"];
        dfs(
            &format!("own-handles-cap{n}"),
            c.clone(),
            vec![own(OwnK::MoveAddr(0)), own(OwnK::Addr(0)), own(OwnK::Mb(0)), own(OwnK::WeakAddr(0)), DropMb(0), Recv(0), RecvDiscard(0), DropSend(0), CloneH(0)],
            5,
            6,
            &["C22", "C15", "C11", "C27"],
        );
        dfs(
            &format!("own-futs-cap{n}"),
            c.clone(),
            vec![own(OwnK::Recv(0)), own(OwnK::Send(0)), own(OwnK::SendPolled(0)), own(OwnK::Join(0)), send(0), DropMb(0), Recv(0), DropSend(0), DropRecv(0)],
            5,
            6,
            &["C22", "C15", "C02", "C27"],
        );
        dfs(
            &format!("own-self-cap{n}"),
            c.clone(),
            vec![send(0), sendp(1), Tie(0), Tie(1), own(OwnK::Addr(0)), DropMb(0), Recv(0), RecvDiscard(0), DropSend(0), DropRecv(0), DropH(0)],
            5,
            6,
            &["C22", "C15", "C27", "C23"],
        );
        c.prelude = vec![run(0)];
        dfs(
            &format!("own-run-cap{n}"),
            c,
            vec![
                own(OwnK::MoveAddr(0)),
                own(OwnK::Addr(0)),
                own(OwnK::SendPolled(0)),
                Op::Send { h: 0, p: 0, k: Kind::Gate, own: OwnK::Addr(0), plain: false, poll: true },
                Op::Send { h: 0, p: 0, k: Kind::StopSelf, own: OwnK::Addr(0), plain: false, poll: true },
                PollTask(0),
                OpenTask(0),
                DropTask(0),
                DropH(0),
            ],
            5,
            6,
            &["C22", "C11", "C24"],
        );
    }
    let mut c = cfg(Some(1), 2);
    c.extra = vec!["C22"];
    dfs(
        "own-two",
        c,
        vec![own(OwnK::Recv(0)), own(OwnK::Mb(0)), own(OwnK::MoveAddr(0)), sendk(Kind::Panic), bc(0), DropMb(0), Recv(0), DropSend(0), DropH(0)],
        5,
        6,
        &["C22", "C27", "C10"],
    );
    // ---------------------------------------------------------------- sinks
    for (n, cap) in [("none", None), ("1", Some(1))] {
        let mut c = cfg(cap, 1);
        c.debug_counts = true;
        dfs(
            &format!("sink-cap{n}"),
            c.clone(),
            vec![IntoSink(0), CloneH(0), SinkFeed(0), SinkFlush(0), SinkClose(0), SinkDrop(0), Recv(0), RecvDiscard(0), DropMb(0), send(0)],
            6,
            7,
            &["C25"],
        );
        c.prelude = vec![MbAddr(0), IntoSinkCh(0)];
        dfs(
            &format!("sink-chan-cap{n}"),
            c.clone(),
            vec![SinkFeed(0), SinkFlush(0), SinkClose(0), SinkDrop(0), Recv(0), DropRecv(0), PollRecv(0), DropMb(0), IntoSink(0)],
            6,
            7,
            &["C25", "C19"],
        );
        c.prelude = vec![MbAddr(0), IntoSink(1), IntoSinkCh(0)];
        dfs(
            &format!("sink-weak-cap{n}"),
            c,
            vec![SinkFeed(0), SinkFeed(1), SinkFlush(0), SinkFlush(1), SinkDrop(0), SinkDrop(1), Recv(0), DropMb(0)],
            6,
            7,
            &["C25", "C11"],
        );
    }

    // ---------------------------------------------------------------- the context's mailbox
    for cap in [None, Some(1)] {
        let n = cap.map_or("none".to_string(), |c: usize| c.to_string());
        let mut c = cfg(cap, 1);
        c.max_recs = 3;
        dfs(
            &format!("ctx-next-cap{n}"),
            c.clone(),
            vec![sendk(Kind::CtxNext), sendk(Kind::CtxNextGate), send(0), bc(0), Recv(0), PollRecv(0), DropRecv(0), DropRun(0), DropMb(0)],
            5,
            6,
            &["C02", "C01", "C09", "C10", "C04", "C17"],
        );
        dfs(
            &format!("ctx-bcast-cap{n}"),
            c.clone(),
            vec![bck(Kind::CtxNext), bck(Kind::CtxNextGate), bck(Kind::CtxMb), bc(0), Recv(0), Recv(1), PollRecv(0), DropRun(0), DropMb(0)],
            5,
            6,
            &["C09", "C10", "C02", "C21", "C15"],
        );
        dfs(
            &format!("ctx-mb-cap{n}"),
            c.clone(),
            vec![sendk(Kind::CtxMb), sendk(Kind::CtxMbGate), send(0), bc(0), Recv(0), Recv(1), DropMb(0), DropH(0), DropRun(0)],
            5,
            6,
            &["C15", "C09", "C10", "C01", "C16", "C21"],
        );
        c.max_handles = 3;
        dfs(
            &format!("ctx-addr-cap{n}"),
            c.clone(),
            vec![sendk(Kind::CtxAddr), send(0), Recv(0), Upgrade(1), DropH(0), DropH(1), DropMb(0), PollRecv(0)],
            5,
            7,
            &["C11", "C12", "C21", "C15"],
        );
        c.max_handles = 4;
        dfs(
            &format!("ctx-run-cap{n}"),
            c,
            vec![run(0), sendk(Kind::CtxNext), sendk(Kind::CtxMbGate), bck(Kind::CtxNextGate), bc(0), OpenTask(0), PollTask(0), DropTask(0), PollRecv(0), Recv(0)],
            5,
            6,
            &["C17", "C15", "C09", "C01", "C02"],
        );
    }

    // ---------------------------------------------------------------- panics
    for cap in [None, Some(1)] {
        let n = cap.map_or("none".to_string(), |c: usize| c.to_string());
        dfs(
            &format!("unw-recv-cap{n}"),
            cfg(cap, 2),
            vec![send(0), bc(0), Recv(0), Recv(1), Unw(D::Recv, 0), Unw(D::Recv, 1), Unw(D::Send, 0), PollRecv(0), Unw(D::H, 0)],
            6,
            7,
            &["C24", "C02", "C01", "C09", "C23", "C11"],
        );
        dfs(
            &format!("unw-drops-cap{n}"),
            cfg(cap, 1),
            vec![sendk(Kind::Gate), own(OwnK::Addr(0)), lazy(0), Recv(0), Unw(D::Run, 0), Unw(D::Mb, 0), Unw(D::H, 0), Unw(D::Send, 0), Unw(D::Reply, 0), Join(0)],
            6,
            7,
            &["C24", "C15", "C11", "C16", "C23", "C22", "C27", "C03"],
        );
        let mut c = cfg(cap, 1);
        c.prelude = vec![run(0)];
        dfs(
            &format!("unw-run-cap{n}"),
            c,
            vec![send(0), sendk(Kind::Gate), bc(0), sendk(Kind::StopSelf), PollTask(0), Unw(D::Task, 0), Unw(D::Send, 0), Unw(D::H, 0), Join(0)],
            6,
            7,
            &["C24", "C17", "C15", "C16", "C03", "C11"],
        );
    }
    let mut c = cfg(Some(1), 1);
    c.debug_counts = true;
    c.prelude = vec![IntoSink(0)];
    dfs("unw-sink", c, vec![SinkFeed(0), SinkFlush(0), Unw(D::Sink, 0), Recv(0), Unw(D::Recv, 0), Unw(D::Run, 0), DropH(0)], 6, 8, &["C25", "C24", "C11"]);
    for (n, start, gate) in [("start", StartMode::Panic, false), ("stop", StartMode::StopPanic, false), ("stop-gate", StartMode::StopPanic, true)] {
        let mut c = cfg(Some(1), 1);
        c.max_msgs = 6;
        let r = Op::Run { m: 0, start, stop_gate: gate, poll: true };
        dfs(
            &format!("run-hook-panic-{n}"),
            c,
            vec![r, send(0), bc(0), sendk(Kind::StopSelf), PollTask(0), OpenTask(0), Join(0), DropH(0), Scoped { h: 0 }, Recv(0)],
            6,
            7,
            &["C24", "C17", "C15", "C16", "C03"],
        );
    }
    for (n, t) in [("select", Select { m: 0 }), ("joinf", JoinF { m: 0 })] {
        let mut c = cfg(Some(2), 2);
        c.prelude = vec![t];
        dfs(
            &format!("{n}-panic"),
            c,
            vec![send(0), bc(0), sendk(Kind::Gate), sendk(Kind::Panic), PollTask(0), PanicInner(0), OpenTask(0), Unw(D::Task, 0), Recv(0), DropH(0)],
            5,
            7,
            &["C24", "C18", "C02", "C01", "C15"],
        );
    }
    // ---------------------------------------------------------------- event loops in handlers
    for (n, cap) in [("", None), ("-cap1", Some(1))] {
        let mut c = cfg(cap, 1);
        c.max_msgs = 5;
        c.extra = vec!["C18"];
        c.prelude = vec![run(0)];
        dfs(
            &format!("nest-select{n}"),
            c.clone(),
            vec![sendk(Kind::Sel), send(0), sendk(Kind::Gate), sendk(Kind::StopSelf), PollTask(0), OpenTask(0), OpenInner(0), DropH(0)],
            6,
            8,
            &["C18", "C13", "C17", "C01", "C24"],
        );
        dfs(
            &format!("nest-join{n}"),
            c.clone(),
            vec![sendk(Kind::JoinF), send(0), sendk(Kind::Gate), sendk(Kind::StopSelf), PollTask(0), OpenTask(0), OpenInner(0), DropH(0)],
            6,
            8,
            &["C18", "C13", "C17", "C01", "C24"],
        );
        dfs(
            &format!("nest-both{n}"),
            c.clone(),
            vec![sendk(Kind::Sel), sendk(Kind::JoinF), sendk(Kind::SelStop), bc(0), PollTask(0), OpenInner(0), DropTask(0)],
            6,
            8,
            &["C18", "C13", "C17", "C02", "C24"],
        );
        dfs(
            &format!("nest-stop-all{n}"),
            c.clone(),
            vec![sendk(Kind::Sel), bck(Kind::JoinF), sendk(Kind::StopAll), send(0), sendk(Kind::Gate), PollTask(0), OpenTask(0), OpenInner(0), DropH(0)],
            5,
            7,
            &["C18", "C14", "C17", "C15", "C24"],
        );
        dfs(
            &format!("nest-panic{n}"),
            c.clone(),
            vec![sendk(Kind::Sel), sendk(Kind::JoinF), sendk(Kind::Panic), send(0), PollTask(0), PanicInner(0), OpenInner(0), Unw(D::Task, 0), Join(0)],
            5,
            7,
            &["C18", "C24", "C17", "C15", "C16"],
        );
        for (o, t) in [("select", Select { m: 0 }), ("join", JoinF { m: 0 })] {
            c.prelude = vec![t];
            dfs(
                &format!("nest-in-{o}{n}"),
                c.clone(),
                vec![sendk(Kind::Sel), sendk(Kind::JoinF), send(0), sendk(Kind::StopSelf), PollTask(0), OpenTask(0), OpenInner(0), DropTask(0)],
                5,
                7,
                &["C18", "C13", "C02", "C24"],
            );
        }
    }
    let mut c = cfg(Some(1), 2);
    c.max_msgs = 5;
    c.extra = vec!["C18"];
    c.prelude = vec![run(0), run(0)];
    dfs(
        "nest-two",
        c,
        vec![sendk(Kind::Sel), bck(Kind::Sel), send(0), sendk(Kind::StopAll), PollTask(0), PollTask(1), OpenInner(0), OpenInner(1)],
        5,
        7,
        &["C18", "C14", "C02", "C10", "C08"],
    );
    dfs(
        "scoped-panic",
        cfg(None, 1),
        vec![Scoped { h: 0 }, OpenInner(0), PanicInner(0), PollTask(0), Unw(D::Task, 0), DropMb(0), DropH(0), CloneH(0), Join(0)],
        6,
        7,
        &["C16", "C24", "C11"],
    );

    // ---------------------------------------------------------------- scripts
    let mut sc = |name: &str, cfg: Cfg, q: Vec<Vec<Op>>, t: Vec<Vec<Op>>, props: &[P], closings: Vec<u8>| {
        v.push(Family { name: name.into(), cfg, space: Space::Scripts(q, t), props: props.to_vec(), closings });
    };
    // all ordered tuples of boundary priorities, unicast / broadcast, then drained
    let mut q = vec![];
    let mut t = vec![];
    for a in PRIOS {
        for b in PRIOS {
            for kinds in 0..4 {
                let o = |k: bool, p: u32| if k { bc(p) } else { send(p) };
                q.push(vec![o(kinds & 1 == 1, a), o(kinds & 2 == 2, b), Recv(0)]);
                for c in PRIOS {
                    for k3 in [false, true] {
                        t.push(vec![o(kinds & 1 == 1, a), o(kinds & 2 == 2, b), o(k3, c), Recv(0)]);
                    }
                }
            }
        }
    }
    sc("prio-pairs", cfg(None, 1), q, t, &["C05", "C06", "C14"], vec![0, 2]);
    for (n, f) in [("cs", Flavor::CS), ("ce", Flavor::CE), ("e", Flavor::E)] {
        let mut c = cfg(None, 1);
        c.flavor = f;
        if f != Flavor::E {
            c.extra = vec!["C19"];
        }
        let mut q = vec![];
        for a in PRIOS {
            for b in PRIOS {
                q.push(vec![send(a), send(b), Recv(0)]);
                q.push(vec![lazy(a), send(b), PollSend(0), Recv(0)]);
            }
        }
        sc(&format!("chan-{n}-prio-pairs"), c.clone(), q, vec![], &["C19", "C05"], vec![0, 2]);
        // and through a full mailbox
        let mut q = vec![];
        for a in PRIOS {
            for b in PRIOS {
                q.push(vec![send(0), send(a), send(b), Recv(0)]);
            }
        }
        c.cap = Some(1);
        c.max_msgs = 10;
        sc(&format!("chan-{n}-prio-waiters"), c, q, vec![], &["C19", "C08"], vec![0, 1]);
    }
    // a priority that is set twice
    for (n, f) in [("", Flavor::S), ("-e", Flavor::E), ("-cs", Flavor::CS), ("-ce", Flavor::CE)] {
        let mut c = cfg(None, 1);
        c.flavor = f;
        if matches!(f, Flavor::CS | Flavor::CE) {
            c.extra = vec!["C19"];
        }
        let mut q = vec![];
        for a in PRIOS {
            for b in PRIOS {
                q.push(vec![lazy(a), Prio(0, b), send(65536), PollSend(0), Recv(0)]);
                if matches!(f, Flavor::S | Flavor::E) {
                    q.push(vec![bclazyp(a), Prio(0, b), bc(65536), PollSend(0), Recv(0)]);
                }
            }
        }
        sc(&format!("prio-twice{n}"), c, q, vec![], &["C05", "C19"], vec![0]);
    }
    let mut q = vec![];
    for a in PRIOS {
        for b in PRIOS {
            for k in [false, true] {
                let o = |p: u32| if k { bc(p) } else { send(p) };
                q.push(vec![o(0), o(a), o(b), Recv(0)]);
                q.push(vec![o(0), o(a), o(b), DropSend(0), Recv(0)]);
            }
        }
    }
    let mut c = cfg(Some(1), 1);
    c.max_msgs = 10;
    sc("prio-waiters", c, q, vec![], &["C08", "C05", "C10", "C07"], vec![0, 1]);
    // stop requests against every boundary priority
    let mut q = vec![];
    for a in PRIOS {
        for b in [false, true] {
            let o = if b { bc(a) } else { send(a) };
            q.push(vec![sendk(Kind::StopAllGate), Recv(0), o, Recv(0), Recv(0)]);
            q.push(vec![sendk(Kind::StopAllGate), o, Recv(0), Recv(0), Recv(0)]);
            q.push(vec![sendk(Kind::StopAll), Recv(0), o, o, Recv(0), Recv(0)]);
        }
    }
    sc("prio-stop", cfg(None, 1), q, vec![], &["C14", "C05"], vec![0, 2]);
    // every capacity: fill beyond it, drain
    for cap in [1usize, 2, 3, 4, 5, 7, 8, 16, 33, 64, 255, 256, 257, usize::MAX - 1, usize::MAX] {
        let n = cap.min(80) + 3;
        let mut c = cfg(Some(cap), 1);
        c.max_msgs = 2 * n + 10;
        let mut scripts = vec![];
        for k in [false, true] {
            for other in [false, true] {
                let o = |k: bool| if k { bc(0) } else { send(0) };
                let mut s = vec![];
                if other {
                    s.push(o(!k));
                }
                s.extend(std::iter::repeat(o(k)).take(n));
                s.extend(std::iter::repeat(Recv(0)).take(n + 2));
                scripts.push(s);
            }
        }
        if cap >= 255 && cap < 1000 {
            let n = cap + 3;
            c.max_msgs = 2 * n + 10;
            let mut s: Vec<Op> = std::iter::repeat(send(0)).take(n).collect();
            s.extend(std::iter::repeat(Recv(0)).take(n));
            scripts.push(s);
        }
        sc(&format!("fill-cap{cap}"), c, scripts, vec![], &["C07", "C10", "C21", "C06"], vec![0, 1]);
    }
    let mut c = cfg(None, 1);
    c.max_msgs = 5000;
    let fill = |n: usize, step: usize| -> Vec<Op> {
        let mut s = vec![];
        let mut left = n;
        for i in 0..n {
            s.push(send(0));
            if step > 0 && i % step == 0 {
                s.push(Recv(0));
                left -= 1;
            }
        }
        s.extend(std::iter::repeat(Recv(0)).take(left));
        s
    };
    let mut q: Vec<Vec<Op>> = (1..=40).map(|n| fill(n, 0)).collect();
    q.extend((2..=6).map(|st| fill(60, st)));
    q.push(fill(300, 0));
    let t = vec![fill(700, 0), fill(700, 3)];
    sc("fifo-long", c, q, t, &["C06", "C07", "C21", "C01"], vec![0]);
    // many waiting senders: FIFO among them
    let mut c = cfg(Some(2), 1);
    c.max_msgs = 500;
    let q: Vec<Vec<Op>> = (1..=24)
        .map(|n| {
            let mut s: Vec<Op> = std::iter::repeat(send(0)).take(n).collect();
            s.extend(std::iter::repeat(Recv(0)).take(n));
            s
        })
        .collect();
    sc("waiters-long", c, q, vec![], &["C08", "C06", "C07"], vec![0]);
    // dropped waiters in every position
    let mut q = vec![];
    for n in 2u8..=6 {
        for mask in 0u32..(1 << n) {
            let mut s: Vec<Op> = vec![send(0), send(0)];
            s.extend((0..n).map(|i| send(if i % 3 == 2 { 1 } else { 0 })));
            for i in (0..n).rev() {
                if mask & (1 << i) != 0 {
                    s.push(DropSend(i));
                }
            }
            s.extend(std::iter::repeat(Recv(0)).take(n as usize));
            q.push(s);
        }
    }
    let mut c = cfg(Some(2), 1);
    c.max_msgs = 50;
    sc("waiters-dropped", c, q, vec![], &["C08", "C23", "C07"], vec![0, 1]);
    // k idle receives on one mailbox, any of them dropped, then messages
    let mut q = vec![];
    for k in 1u8..=4 {
        for mask in 0u32..(1 << k) {
            for n in 0..=(k as usize) {
                for when in 0..2 {
                    let mut s: Vec<Op> = std::iter::repeat(Recv(0)).take(k as usize).collect();
                    let sends = (0..n).map(|i| if i % 2 == 0 { send(0) } else { bc(0) });
                    if when == 0 {
                        s.extend(sends.clone());
                    }
                    for i in (0..k).rev() {
                        if mask & (1 << i) != 0 {
                            s.push(DropRecv(i));
                        }
                    }
                    if when == 1 {
                        s.extend(sends);
                    }
                    q.push(s);
                }
            }
        }
    }
    let mut c = cfg(None, 1);
    c.max_recs = 8;
    sc("idle-many", c, q, vec![], &["C02", "C04", "C01", "C09"], vec![0, 1, 2]);
    for cap in crate::cycles::CAPS {
        for keep in crate::cycles::KEEPS {
            use crate::cycles::Keep::*;
            if cap.is_none() && matches!(keep, Waiting | WaitingBroadcast) {
                continue;
            }
            let name = format!("cycle-{}-{keep:?}", cap.map_or("none".into(), |c| c.to_string())).to_lowercase();
            let space = Space::Cycle(crate::cycles::Space { cap, keep });
            v.push(Family { name, cfg: self::cfg(None, 1), space, props: vec!["C29"], closings: vec![] });
        }
    }
    for (name, f, props) in crate::long::all() {
        v.push(Family { name: name.into(), cfg: cfg(None, 1), space: Space::Long(f), props, closings: vec![] });
    }
    v
}

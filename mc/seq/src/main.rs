//! Exhaustive exploration of operation sequences on the real crate, against a reference model.
mod alloc;
mod cycles;
mod explore;
mod families;
mod long;
mod rt;
mod sim;

use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use explore::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

extern "C" {
    fn signal(n: i32, h: extern "C" fn(i32)) -> usize;
    fn _exit(n: i32) -> !;
}
static CRASH: std::sync::OnceLock<(Option<String>, String)> = std::sync::OnceLock::new();

/// The process is about to die (abort, segmentation fault): report what was being executed.
extern "C" fn on_crash(n: i32) {
    static ONCE: AtomicBool = AtomicBool::new(false);
    if ONCE.swap(true, SeqCst) {
        std::thread::sleep(Duration::from_secs(5));
        // SAFETY: ends the process
        unsafe { _exit(4) }
    }
    let code = (|| {
        let slot = SLOT.with(|s| s.get())?;
        let g = slot.cur.try_lock().ok()?.clone();
        let (out, prop) = CRASH.get()?;
        let fams = families::families();
        let fam = fams.iter().find(|x| x.name == g.0)?;
        let f = Found { family: g.0.clone(), ops: g.1, closing: g.2, mis: sim::Mis { props: vec![], what: format!("the process dies with signal {n}") } };
        emit(out, prop, &f, fam, true);
        println!("CRASH family={} ops={} closing={:?}", f.family, short(&f.ops), f.closing);
        Some(1)
    })();
    // SAFETY: ends the process
    unsafe { _exit(code.unwrap_or(4)) }
}

pub fn short(ops: &[sim::Op]) -> String {
    let mut s = format!("{ops:?}");
    if s.len() > 600 {
        s.truncate(600);
        s += "...";
    }
    s
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = get("--prop").unwrap_or_else(|| "ALL".into());
    let thorough = get("--tier").as_deref() == Some("thorough");
    let secs: u64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(600);
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let extra: usize = get("--extra-depth").and_then(|s| s.parse().ok()).unwrap_or(0);
    let only = get("--family");
    let out = get("--out");
    let known_file = get("--known");
    std::panic::set_hook(Box::new(|_| {}));
    let _ = sim::TARGET.set(prop.clone());
    let _ = CRASH.set((out.clone(), prop.clone()));
    for s in [6, 11, 4, 7, 8] {
        // SAFETY: plain installation of a handler
        unsafe { signal(s, on_crash) };
    }
    let fams = families::families();
    if args.iter().any(|a| a == "--list") {
        for f in &fams {
            println!("{} {:?}", f.name, f.props);
        }
        return;
    }
    if let Some(r) = get("--replay") {
        return replay(&fams, &r);
    }
    let t0 = Instant::now();
    let end = t0 + Duration::from_secs(secs);
    let deadline = Mutex::new(end);
    let timeup = AtomicBool::new(false);
    let stats = Stats::default();
    let found = Mutex::new(vec![]);
    let foreign = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let truncated = AtomicBool::new(false);
    let known: Vec<(String, String)> = known_file
        .and_then(|f| std::fs::read_to_string(f).ok())
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            // seq <family> <message prefix>
            let mut p = l.strip_prefix("seq ")?.splitn(2, ' ');
            Some((p.next()?.to_string(), p.next()?.to_string()))
        })
        .collect();
    let is_known = |f: &Found| known.iter().any(|(fam, w)| *fam == f.family && f.mis.what.starts_with(w.as_str()));
    let slots: Vec<Slot> = (0..threads).map(|_| Slot::default()).collect();
    let done = AtomicBool::new(false);
    let mut per = vec![];
    let mut others = (0u64, 0u64, 0u64, 0f64, 0u64);
    std::thread::scope(|s| {
        s.spawn(|| {
            watchdog(&slots, &done, Duration::from_secs(20), &deadline, &timeup, |slot| {
                let g = slot.cur.lock().unwrap().clone();
                let f = Found {
                    family: g.0.clone(),
                    ops: g.1.clone(),
                    closing: g.2,
                    mis: sim::Mis { props: vec![], what: "no progress: an operation of the library does not return".into() },
                };
                let fam = families::families().into_iter().find(|x| x.name == f.family).unwrap();
                // a hang contradicts every property explored by this family
                if prop == "ALL" || prop == "C04" || prop == "C22" || fam.props.iter().any(|p| *p == prop) {
                    emit(&out, &prop, &f, &fam, true);
                    println!("HANG family={} ops={} closing={:?}", f.family, short(&f.ops), f.closing);
                    std::process::exit(1);
                }
                std::process::exit(3);
            })
        });
        let todo: Vec<&families::Family> = fams
            .iter()
            .filter(|f| only.as_ref().map_or(prop == "ALL" || f.props.iter().any(|p| *p == prop), |o| f.name == *o))
            .collect();
        let rest: Vec<&families::Family> = fams.iter().filter(|f| only.is_none() && prop != "ALL" && !todo.iter().any(|t| t.name == f.name)).collect();
        let mut passes: Vec<(&Vec<&families::Family>, usize)> = vec![(&todo, 0), (&rest, OTHERS), (&rest, OTHERS_MORE)];
        if thorough {
            passes.extend((1..2 + extra).map(|p| (&todo, p)));
        }
        for (list, pass) in passes {
            let other = pass == OTHERS || pass == OTHERS_MORE;
            let secs = match (pass, thorough) {
                (OTHERS, _) => 30,
                (_, false) => 10,
                (_, true) => 60,
            };
            let end = if other { Instant::now() + Duration::from_secs(secs) } else { end };
            for (k, f) in list.iter().enumerate() {
                if stop.load(Relaxed) || (pass > 0 && Instant::now() >= end) {
                    break;
                }
                // deeper passes share the remaining time fairly; the first one is always completed
                if pass == 0 {
                    *deadline.lock().unwrap() = end + Duration::from_secs(3600);
                } else {
                    let now = Instant::now();
                    *deadline.lock().unwrap() = now + (end - now) / (list.len() - k) as u32;
                }
                timeup.store(false, Relaxed);
                truncated.store(false, Relaxed);
                let (n0, o0, t) = (stats.nodes.load(Relaxed), stats.ops.load(Relaxed), Instant::now());
                let ex = Explorer {
                    prop: &prop,
                    stats: &stats,
                    timeup: &timeup,
                    found: &found,
                    foreign_ex: &foreign,
                    known: &is_known,
                    stop: &stop,
                    truncated: &truncated,
                };
                let depth = ex.family(&slots, f, pass);
                let tr = truncated.load(Relaxed);
                if other {
                    let o = &mut others;
                    o.0 += (pass == OTHERS) as u64;
                    o.1 += stats.nodes.load(Relaxed) - n0;
                    o.2 += stats.ops.load(Relaxed) - o0;
                    o.3 += t.elapsed().as_secs_f64();
                    o.4 += tr as u64;
                    continue;
                }
                if per.len() <= k {
                    per.push(Per { name: f.name.clone(), ..Per::default() });
                }
                let p = &mut per[k];
                p.sequences += stats.nodes.load(Relaxed) - n0;
                p.ops += stats.ops.load(Relaxed) - o0;
                p.time += t.elapsed().as_secs_f64();
                if tr {
                    p.partial = depth;
                } else {
                    p.depth = depth;
                    p.passes = pass + 1;
                }
            }
        }
        done.store(true, Relaxed);
    });
    let found = found.into_inner().unwrap();
    let foreign = foreign.into_inner().unwrap();
    let min = get("--min-passes").and_then(|s| s.parse().ok()).unwrap_or(1);
    for p in &per {
        println!("family {}: sequences {} operations {} time {:.2} complete to depth {}{}", p.name, p.sequences, p.ops, p.time, p.depth, if p.partial > 0 { format!(", {} in part", p.partial) } else { "".into() });
    }
    println!("{} families of other properties: sequences {} operations {} time {:.1} unfinished {}", others.0, others.1, others.2, others.3, others.4);
    let cut = per.iter().any(|p| p.passes < min);
    println!(
        "total sequences {} executions {} operations {} abandoned {} foreign {} found {} cut {} wall {:.1}",
        stats.nodes.load(Relaxed),
        stats.execs.load(Relaxed),
        stats.ops.load(Relaxed),
        stats.abandoned.load(Relaxed),
        stats.foreign.load(Relaxed),
        found.len(),
        cut,
        t0.elapsed().as_secs_f64()
    );
    if args.iter().any(|a| a == "--show-foreign") {
        let mut seen = std::collections::BTreeMap::new();
        for f in &foreign {
            let e = seen.entry((f.mis.props.clone(), f.family.clone())).or_insert((0, f.clone()));
            e.0 += 1;
            if f.ops.len() < e.1.ops.len() {
                e.1 = f.clone();
            }
        }
        for ((p, fam), (n, f)) in seen {
            println!("FOREIGN {p:?} {fam} x{n}: {} | {} closing {:?}", f.mis.what, short(&f.ops), f.closing);
        }
    }
    let mut new: Vec<&Found> = found.iter().filter(|f| !is_known(f)).collect();
    new.sort_by_key(|f| f.ops.len());
    for f in found.iter().filter(|f| is_known(f)) {
        println!("KNOWN {} {}", f.family, f.mis.what);
        break;
    }
    if let Some(f) = new.first() {
        let fam = fams.iter().find(|x| x.name == f.family).unwrap();
        let f = minimise(fam, f, &prop);
        emit(&out, &prop, &f, fam, false);
        println!("FOUND {:?}: {} | family {} ops {} closing {:?}", f.mis.props, f.mis.what, f.family, short(&f.ops), f.closing);
        std::process::exit(1);
    }
    if let Some(o) = &out {
        write_out(o, &stats, &per, cut, others);
    }
}

#[derive(Default)]
struct Per {
    name: String,
    sequences: u64,
    ops: u64,
    time: f64,
    /// completely explored up to this length
    depth: usize,
    passes: usize,
    /// and up to this one in part
    partial: usize,
}

fn write_out(o: &str, stats: &Stats, per: &[Per], trunc: bool, others: (u64, u64, u64, f64, u64)) {
    let fams: Vec<String> = per
        .iter()
        .map(|p| format!("{{\"family\":\"{}\",\"sequences\":{},\"operations\":{},\"wall_s\":{:.2},\"complete_to_depth\":{},\"partly_to_depth\":{}}}", p.name, p.sequences, p.ops, p.time, p.depth, p.partial))
        .collect();
    let s = format!(
        "{{\"samples\":[{}],\"states\":{},\"transitions\":{},\"executions\":{},\"abandoned\":{},\"foreign\":{},\"truncated\":{},\"families_of_other_properties\":{{\"explored\":{},\"sequences\":{},\"operations\":{},\"wall_s\":{:.1},\"cut_short\":{}}},\"families\":[{}]}}",
        stats.samples.lock().unwrap().iter().map(|(f, o)| format!("\"{f}: {}\"", o.replace('"', "'"))).collect::<Vec<_>>().join(","),
        stats.nodes.load(Relaxed),
        stats.ops.load(Relaxed),
        stats.execs.load(Relaxed),
        stats.abandoned.load(Relaxed),
        stats.foreign.load(Relaxed),
        trunc,
        others.0,
        others.1,
        others.2,
        others.3,
        others.4,
        fams.join(",")
    );
    std::fs::write(o, s).unwrap();
}

/// Replay file: the family, the operations by index and readable, the closing.
fn emit(out: &Option<String>, prop: &str, f: &Found, fam: &families::Family, hang: bool) {
    let Some(o) = out else { return };
    let mut txt = format!("family {}\nproperty {prop}\n", f.family);
    let uniq = fam.space.ops();
    let idx: Vec<String> = f.ops.iter().map(|o| uniq.iter().position(|x| x == o).unwrap().to_string()).collect();
    txt += &format!("path {}\n", idx.join(","));
    txt += &format!("closing {}\n", f.closing.map_or("none".into(), |c| c.to_string()));
    txt += &format!("what {}\n", f.mis.what);
    txt += &format!("contradicts {}\n", f.mis.props.join(" "));
    txt += &format!("prelude {:?}\n", fam.cfg.prelude);
    txt += &format!("ops {:?}\n", f.ops);
    if !hang {
        let (_, t, _) = run_path(fam, &f.ops, f.closing, true);
        for l in t.unwrap_or_default() {
            txt += &format!("trace {l}\n");
        }
    }
    std::fs::write(format!("{o}.replay"), txt).unwrap();
}

fn replay(fams: &[families::Family], file: &str) {
    let s = std::fs::read_to_string(file).unwrap();
    let field = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).unwrap_or("").to_string();
    let fam = fams.iter().find(|f| f.name == field("family")).expect("family");
    let uniq = fam.space.ops();
    let ops: Vec<sim::Op> = field("path").split(',').filter(|x| !x.is_empty()).map(|x| uniq[x.parse::<usize>().unwrap()]).collect();
    let c = field("closing").parse::<u8>().ok();
    if let families::Space::Cycle(sp) = fam.space {
        let r = run_with(|c| cycles::replay(c, sp)).0;
        println!("{r:?}");
        std::process::exit(r.is_err() as i32)
    }
    if let families::Space::Long(f) = fam.space {
        let r = run_with(f).0;
        println!("{r:?}");
        std::process::exit(r.is_err() as i32)
    }
    let (r, t, _) = run_path(fam, &ops, c, true);
    for l in t.unwrap_or_default() {
        println!("{l}");
    }
    println!("{r:?}");
    if r.is_err() {
        std::process::exit(1)
    }
}

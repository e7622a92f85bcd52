mod families;
mod scenario;
mod world;

use scenario::{execute, Scenario};
use spin::rt;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
struct Total {
    execs: u64,
    steps: u64,
    states: u64,
    scenarios: u64,
    incomplete: u64,
    nondet: u64,
    foreign: BTreeMap<String, (u64, String)>,
    violation: Option<(Scenario, u32, Vec<u8>, Vec<rt::Failure>)>,
}

const KINDS: [&str; 3] = ["main", "further", "other"];

/// A prime, larger than the number of scenarios of any property and so coprime to it.
const STRIDE: usize = 15_485_863;

fn opt(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).map(|i| args[i + 1].clone())
}

fn show(sc: &Scenario, bound: u32, path: &[u8]) -> String {
    let (fs, trace) = rt::replay(bound, path, &mut || execute(sc));
    let mut s = format!("scenario {}\nbound {bound}\nchoices {}\n", sc.text(), path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    for f in &fs {
        s += &format!("{}: {}\n", f.prop, f.msg);
    }
    s += "trace\n";
    for l in trace.iter().take(600) {
        s += &format!("  {l}\n");
    }
    s
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    if let Some(p) = opt(&args, "--replay") {
        let t = std::fs::read_to_string(p).unwrap();
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
        let sc = Scenario::parse(&get("scenario "));
        let path: Vec<u8> = get("choices").split_whitespace().map(|x| x.parse().unwrap()).collect();
        println!("{}", show(&sc, get("bound ").parse().unwrap(), &path));
        return;
    }
    let prop = opt(&args, "--prop").unwrap_or("ALL".into());
    let tier = opt(&args, "--tier").unwrap_or("quick".into());
    let secs: u64 = opt(&args, "--secs").map_or(20, |s| s.parse().unwrap());
    let jobs: usize = opt(&args, "--jobs").map_or(8, |s| s.parse().unwrap());
    let min_bound: u32 = opt(&args, "--bound").map_or(2, |s| s.parse().unwrap());
    let max_bound: u32 = opt(&args, "--max-bound").map_or(min_bound, |s| s.parse().unwrap());
    let forced: Option<Vec<u8>> = opt(&args, "--path").map(|p| p.split_whitespace().map(|x| x.parse().unwrap()).collect());
    let only = opt(&args, "--scenario");
    let foreign = args.iter().any(|a| a == "--show-foreign");
    let t0 = Instant::now();
    let end = t0 + Duration::from_secs(secs);
    let (list, classes): (Vec<Scenario>, [usize; 3]) = match only {
        Some(s) => (vec![Scenario::parse(&s)], [1, 0, 0]),
        None => families::list(&prop, &tier),
    };
    if let Some(p) = forced {
        println!("{}", show(&list[0], min_bound, &p));
        return;
    }
    if args.iter().any(|a| a == "--list") {
        for s in &list {
            println!("{}", s.text());
        }
        println!("{} {classes:?}", list.len());
        return;
    }
    let total = Mutex::new(Total::default());
    let stop = AtomicBool::new(false);
    let mut passes = vec![];
    // Which bound for which kind of scenario, most relevant first.
    let order: [(u32, usize); 14] = [
        (0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (1, 2), (2, 1), (3, 0), (2, 2), (3, 1), (4, 0), (3, 2), (4, 1),
    ];
    for (bound, class) in order.into_iter().filter(|(b, c)| (min_bound..=max_bound).contains(b) && classes[*c] > 0) {
        let from: usize = classes[..class].iter().sum();
        let list = &list[from..from + classes[class]];
        let next = AtomicUsize::new(0);
        let before = {
            let t = total.lock().unwrap();
            (t.execs, t.states, t.incomplete)
        };
        let tp = Instant::now();
        std::thread::scope(|s| {
            for _ in 0..jobs {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= list.len() || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        // Spread over all families, in case the time runs out.
                        let sc = &list[(i * STRIDE) % list.len()];
                        if Instant::now() >= end {
                            total.lock().unwrap().incomplete += 1;
                            continue;
                        }
                        let mut viol = None;
                        let mut fore: BTreeMap<String, (u64, String)> = BTreeMap::new();
                        let mut nf = 0;
                        let ts = Instant::now();
                        let b = bound + if sc.tasks.len() <= 2 { 2 } else { 0 };
                        let st = rt::explore(b, &mut || execute(sc), &mut |st, found| {
                            if let Some(f) = found {
                                if std::env::var("SHOWALL").is_ok() {
                                    println!("{:?}", f.failures);
                                }
                                if f.failures.iter().any(|x| x.prop == prop) {
                                    viol = Some((f.path, f.bound, f.failures));
                                    return true;
                                }
                                for x in f.failures.iter() {
                                    let e = fore.entry(x.prop.to_string()).or_insert((0, String::new()));
                                    e.0 += 1;
                                    if e.1.is_empty() {
                                        e.1 = format!("{} @ {} [{}] bound {b}", x.msg, sc.text(), f.path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                                    }
                                }
                                nf += 1;
                                if nf > 20 {
                                    return true;
                                }
                            }
                            st.execs % 64 == 0 && (Instant::now() >= end || stop.load(Ordering::SeqCst))
                        });
                        let mut t = total.lock().unwrap();
                        if std::env::var("SLOW").is_ok() && ts.elapsed().as_millis() > 300 {
                            println!("slow {} execs {} states {} {:?}", sc.text(), st.execs, st.states, ts.elapsed());
                        }
                        t.execs += st.execs;
                        t.steps += st.steps;
                        t.states += st.states;
                        t.scenarios += 1;
                        t.incomplete += !st.complete as u64;
                        t.nondet += st.nondet as u64;
                        for (k, v) in fore {
                            let e = t.foreign.entry(k).or_insert((0, v.1));
                            e.0 += v.0;
                        }
                        if let Some((p, b, f)) = viol {
                            stop.store(true, Ordering::SeqCst);
                            if t.violation.is_none() {
                                t.violation = Some((sc.clone(), b, p, f));
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let t = total.lock().unwrap();
        let inc = t.incomplete - before.2;
        println!(
            "bound {bound}, {} families: {} scenarios, {} schedules, {} states, {} unfinished, {:.1} s",
            KINDS[class], list.len(), t.execs - before.0, t.states - before.1, inc, tp.elapsed().as_secs_f64()
        );
        passes.push((bound, class, inc == 0));
        if stop.load(Ordering::SeqCst) || Instant::now() >= end {
            break;
        }
    }
    let t = total.into_inner().unwrap();
    println!(
        "prop {prop}: {} scenarios, {} executions, {} steps, {} states, {} unfinished, {} nondeterministic, {:.1} s",
        list.len(), t.execs, t.steps, t.states, t.incomplete, t.nondet, t0.elapsed().as_secs_f64()
    );
    if foreign {
        for (k, v) in &t.foreign {
            println!("foreign {k}: {} e.g. {}", v.0, v.1);
        }
    }
    let out = opt(&args, "--out");
    if let Some((sc, b, p, f)) = &t.violation {
        let _ = f;
        let s = show(sc, *b, p);
        println!("{}", s.lines().take(120).collect::<Vec<_>>().join("\n"));
        if let Some(o) = &out {
            std::fs::write(format!("{o}.replay"), format!("property {prop}\n{s}")).unwrap();
        }
        std::process::exit(1);
    }
    if let Some(o) = &out {
        let step = (list.len() / 4).max(1);
        let samples: Vec<String> = list.iter().step_by(step).take(4).map(|s| format!("\"schedules of {}\"", s.text())).collect();
        let done: Vec<String> = passes.iter().map(|(b, c, d)| format!("{{\"preemptions\": {b}, \"families\": \"{}\", \"complete\": {d}}}", KINDS[*c])).collect();
        let nf: u64 = t.foreign.values().map(|v| v.0).sum();
        std::fs::write(
            o,
            format!(
                "{{\"scenarios\": {}, \"executions\": {}, \"steps\": {}, \"states\": {}, \"unfinished\": {}, \"foreign\": {nf}, \"nondeterministic\": {}, \"passes\": [{}], \"samples\": [{}]}}",
                list.len(), t.execs, t.steps, t.states, t.incomplete, t.nondet, done.join(", "), samples.join(", ")
            ),
        )
        .unwrap();
    }
}

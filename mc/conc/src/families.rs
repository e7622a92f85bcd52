//! The scenarios: for each family all combinations of the given tasks, capacities and handles kept.
use crate::scenario::Scenario;
use std::collections::BTreeSet;

/// All words up to the given length over the letters.
fn words(letters: &str, min: usize, max: usize) -> Vec<String> {
    let mut all = vec![];
    let mut cur = vec![String::new()];
    for n in 0..=max {
        if n >= min {
            all.extend(cur.iter().cloned());
        }
        cur = cur.iter().flat_map(|w| letters.chars().map(move |c| format!("{w}{c}"))).collect();
    }
    all
}
fn list_of(s: &str) -> Vec<String> {
    s.split_whitespace().map(|x| x.to_string()).collect()
}

struct Family {
    name: &'static str,
    props: &'static str,
    caps: &'static str,
    mains: &'static str,
    tasks: Vec<(&'static str, Vec<String>)>,
}

fn fam(name: &'static str, props: &'static str, caps: &'static str, mains: &'static str, tasks: Vec<(&'static str, Vec<String>)>) -> Family {
    Family { name, props, caps, mains, tasks }
}

fn families(deep: bool) -> Vec<Family> {
    let d = deep as usize;
    let l = list_of;
    let mut f = vec![];
    const DELIVER: &str = "C01 C03 C04 C05 C06 C17; C07 C08 C11 C15 C21 C27";
    f.push(fam("deliver-2", DELIVER, "- 1 2", "- a m am", vec![("a", words("SHDEY", 1, 2 + d)), ("m", l("L R RR Rm RRm"))]));
    f.push(fam("deliver-2s", DELIVER, "- 1", "- am", vec![("a", words("SD", 1, 1 + d)), ("a", words("SHDE", 1, 1 + d)), ("m", l("L R RR"))]));
    f.push(fam("deliver-2r", DELIVER, "- 1", "- am", vec![("a", words("SDE", 1, 1 + d)), ("m", l("L R Rm")), ("m", l("L R Rm"))]));
    const CANCEL: &str = "C02; C04 C01";
    f.push(fam("cancel-recv", CANCEL, "- 1", "- am", vec![("a", words("SDBZ", 1, 2 + d)), ("m", l("Q QR qR qL QL qQR QQR qqR RqL"))]));
    f.push(fam("cancel-recv-2r", CANCEL, "- 1", "am", vec![("a", words("DB", 1, 1 + d)), ("m", l("Q q QR qR")), ("m", l("L R q"))]));
    f.push(fam("cancel-recv-stop", "C02 C14", "-", "am", vec![("a", l("Z ZD DZ")), ("m", l("Q q QR qR qL")), ("m", l("L R"))]));
    const CANCELS: &str = "C23 C08 C07; C04 C01 C27";
    f.push(fam("cancel-send", CANCELS, "1 2", "- am m", vec![("a", words("CDW", 1, 3 + d)), ("m", l("L R RR Rm m"))]));
    f.push(fam("cancel-send-2s", CANCELS, "1", "am m", vec![("a", words("CDWe", 1, 1 + d)), ("a", l("D DD DDD CD DC DW e De")), ("m", l("L R RR Rm"))]));
    const BC: &str = "C09 C10 C04; C05 C27 C23 C21";
    f.push(fam("broadcast-2", BC, "- 1", "- a am", vec![("a", words("BVDK", 1, 2 + d)), ("m", l("L R RR Rm m MR RM"))]));
    f.push(fam("broadcast-2r", BC, "- 1", "- am", vec![("a", words("BK", 1, 2 + d)), ("m", l("L R")), ("m", l("L m Rm"))]));
    f.push(fam("broadcast-2s", BC, "- 1", "am", vec![("a", words("BK", 1, 1 + d)), ("a", l("B BB BBB D")), ("m", l("L R Rm m"))]));
    f.push(fam("cancel-early", CANCELS, "1", "am -", vec![("a", if deep { words("CDe", 1, 3) } else { l("e De ee Ce eD") }), ("m", l("L R RR Rm"))]));
    const CANCELB: &str = "C23 C10 C08; C04 C09 C27";
    f.push(fam("cancel-bcast", CANCELB, "1", "- am", vec![("a", if deep { words("KBg", 1, 3) } else { l("K BK BBK Bg g KK") }), ("m", l("L R RR Rm m"))]));
    f.push(fam("cancel-bcast-2r", CANCELB, "1", "am", vec![("a", l("Bg BK")), ("m", l("L R")), ("m", l("R m"))]));
    const LIFE: &str = "C11 C12 C16; C15 C04 C21 C03";
    f.push(fam("life-2", LIFE, "- 1", "- a m", vec![("aw", l("D Da a Oa OU UaD Si ai Ois OUDa DaU DaUD oD oDa oS")), ("m", l("L R Rm m"))]));
    f.push(fam("life-3", LIFE, "-", "- m", vec![("a", l("a Da O")), ("w", l("U UD UaU i iU s US")), ("m", l("L R"))]));
    f.push(fam("life-join", LIFE, "-", "- a", vec![("a", l("a D S T")), ("w", l("T iT")), ("m", l("L m Rm"))]));
    f.push(fam("join-2r", "C16", "-", "a -", vec![("w", l("T TT iT")), ("m", l("m Mm Rm")), ("m", l("m L"))]));
    f.push(fam("scoped", "C16", "-", "- a", vec![("w", l("t")), ("a", l("F DF Fa")), ("m", l("m L"))]));
    const STOP: &str = "C13 C14; C04 C01 C17 C03";
    f.push(fam("stop-2", STOP, "- 1", "- a am", vec![("a", words("XZDS", 1, 2 + d)), ("m", l("L RR RL Rm"))]));
    f.push(fam("stop-2r", STOP, "-", "a -", vec![("a", l("X Z XD ZD DZ DX BZ")), ("m", l("L RR")), ("m", l("L R"))]));
    f.push(fam("stop-2s", STOP, "- 1", "a", vec![("a", l("Z DZ X")), ("a", l("D S a B")), ("m", l("L RR"))]));
    const DOWN: &str = "C15 C27; C03 C22 C24 C04";
    f.push(fam("down-2", DOWN, "- 1", "- a", vec![("a", words("SDBNC", 1, 2 + d)), ("m", l("m Rm Mm Qm qm Im"))]));
    f.push(fam("down-2s", DOWN, "1", "- a", vec![("a", words("SDB", 1, 1)), ("a", words("DB", 1, 2)), ("m", l("m Rm"))]));
    f.push(fam("down-2r", DOWN, "- 1", "- a", vec![("a", l("S D B DS BB")), ("m", l("m Rm")), ("m", l("m L"))]));
    f.push(fam("reentrant-2", "C22", "- 1", "- a m am", vec![("a", words("NbcD", 1, 2 + d)), ("m", l("m Rm L RR Q Mm MR Im qm"))]));
    f.push(fam("reentrant-2r", "C22", "- 1", "- a", vec![("a", l("b bb N NN bN c")), ("m", l("m L Q")), ("m", l("m Rm"))]));
    f.push(fam("reentrant-2s", "C22", "1", "- a", vec![("a", l("b N c")), ("a", l("b N c bb NN a")), ("m", l("m Rm L"))]));
    f.push(fam("alongside", "C18; C04", "- 1", "- a am", vec![("a", words("DFXSZ", 1, 2 + d)), ("m", l("A AR AL j jL jR"))]));
    f.push(fam("alongside-3", "C18; C04", "-", "a am", vec![("a", l("F")), ("a", l("D DD S X Z")), ("m", l("AR AL jL"))]));
    f.push(fam("alongside-2r", "C18 C02", "-", "am", vec![("a", l("DF FD D")), ("m", l("A AR")), ("m", l("L R"))]));
    f.push(fam("sink", "C25", "- 1", "- a am", vec![("a", l("k")), ("m", l("L RR R Rm m RRm MRR"))]));
    f.push(fam("sink-3", "C25", "- 1", "a", vec![("a", l("k")), ("a", l("D S k")), ("m", l("L Rm RR"))]));
    f.push(fam("channel", "C19; C11 C03", "- 1", "- a", vec![("aw", l("oS oD oDD oDa oaU oSS")), ("m", l("L R Rm m"))]));
    f.push(fam("interrupt", "C24; C27 C03 C04", "- 1", "- am", vec![("a", words("SYD", 1, 2 + d)), ("m", l("J JR I IR JL IL JJ Jm"))]));
    f.push(fam("interrupt-2r", "C24", "-", "am", vec![("a", l("S SS YS DS")), ("m", l("J I JR")), ("m", l("L R"))]));
    f.push(fam("replies", "C03; C04 C15 C24", "- 1", "- a am", vec![("a", l("PG PPG PDG PSG")), ("m", l("L R Rm m J I RR"))]));
    f.push(fam("observe", "C21 C07; C10", "1 -", "am", vec![("a", l("D DD B BB DB C K")), ("w", l("l li ll i")), ("m", l("R L m Q"))]));
    f
}

/// The scenarios, those of the families made for the property (before the `;`) first, and then those
/// of the families of other properties: how many there are of each kind.
pub fn list(prop: &str, tier: &str) -> (Vec<Scenario>, [usize; 3]) {
    let deep = tier == "thorough";
    let mut out: Vec<(usize, Scenario)> = vec![];
    let mut all: Vec<(usize, Scenario)> = vec![];
    for f in families(deep) {
        let (first, second) = f.props.split_once(';').unwrap_or((f.props, ""));
        let has = |l: &str| prop == "ALL" || l.split(' ').any(|p| p == prop);
        let class = if has(first) { 0 } else { 2 - has(second) as usize };
        for cap in f.caps.split(' ') {
            for main in f.mains.split(' ') {
                let mut combos: Vec<Vec<(String, String)>> = vec![vec![]];
                for (h, ws) in &f.tasks {
                    combos = combos
                        .into_iter()
                        .flat_map(|c| {
                            ws.iter().map(move |w| {
                                let mut c = c.clone();
                                c.push((h.to_string(), w.clone()));
                                c
                            })
                        })
                        .collect();
                }
                for mut c in combos {
                    c.sort();
                    let s = Scenario { cap: cap.parse().ok(), main: main.replace('-', ""), tasks: c };
                    all.push((class, s));
                }
            }
        }
    }
    // Small ones first.
    all.sort_by_key(|(c, s)| (*c, s.tasks.len(), s.tasks.iter().map(|t| t.1.len()).sum::<usize>()));
    let mut seen = BTreeSet::new();
    for (c, s) in all {
        if seen.insert(s.clone()) {
            out.push((c, s));
        }
    }
    let n = [0, 1, 2].map(|k| out.iter().filter(|x| x.0 == k).count());
    (out.into_iter().map(|x| x.1).collect(), n)
}

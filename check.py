#!/usr/bin/env python3
"""check.py <property> <quick|thorough>

Builds the machines that decide the property from /repo's working tree, runs them, writes
/verif/evidence/<property>.json. Exit 0: held on everything explored. Exit 1: violated, with a line
"VIOLATION property=<id> replay=<path>". Anything else is an error of the check itself.
"""
import json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
EV = os.path.join(HERE, "evidence")
T0 = time.time()

sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402


def log(*a):
    print(*a, flush=True)


def run(cmd, cwd, env=None, timeout=None, mem_gb=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTC_WRAPPER", None)
    e.update(env or {})

    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))

    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", preexec_fn=lim, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return "timeout", out
    return p.returncode, out


def build(crate, env=None, extra=()):
    t = time.time()
    rc, out = run(["cargo", "build", "--release", "--offline", "--quiet", *extra], os.path.join(HERE, "mc", crate), env, timeout=600)
    if rc != 0:
        log(f"building {crate} failed ({rc})")
        log("\n".join(out.splitlines()[-60:]))
        return False
    log(f"built {crate} in {time.time() - t:.1f} s")
    return True


def known():
    fixed, findings = [], []
    for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        l = l.strip()
        if not l or l.startswith("#"):
            continue
        (fixed if l.startswith("fixed:") else findings).append(l)
    return findings


class Res:
    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.assume = [], [], []
        self.violations, self.known, self.errors = [], [], []
        self.exhaustive = True


def seq(prop, tier, cfg, res):
    if not build("seq"):
        res.errors.append("build of seq failed")
        return
    out = os.path.join(EV, f"{prop}.seq.json")
    for f in (out, out + ".replay"):
        if os.path.exists(f):
            os.remove(f)
    t = time.time()
    args = ["--prop", prop, "--out", out, "--known", os.path.join(HERE, "KNOWN_FINDINGS.txt")]
    args += ["--tier", "thorough", "--secs", str(cfg.get("secs", 20 if tier == "quick" else 420 if len(PLAN[prop]) < 3 else 340))]
    if tier == "thorough":
        args += ["--extra-depth", str(cfg.get("extra", 1)), "--min-passes", "2"]
    rc, txt = run([os.path.join(HERE, "mc/seq/target/release/seq"), *args], HERE, timeout=300 if tier == "quick" else 700, mem_gb=28)
    for l in txt.splitlines():
        if not l.startswith("family "):
            log("seq:", l[:2000])
    for l in txt.splitlines():
        if l.startswith("KNOWN "):
            res.known.append(l[6:])
    if rc == 0 and os.path.exists(out):
        j = json.load(open(out))
        res.states += j["states"]
        res.transitions += j["transitions"]
        res.traces += j["executions"]
        res.samples += j["samples"][:6]
        res.exhaustive = res.exhaustive and not j["truncated"]
        res.parts.append({"machine": "seq", "families": j["families"], "operation_sequences": j["states"], "operations_executed": j["transitions"],
                          "executions": j["executions"], "abandoned_ambiguous": j["abandoned"], "mismatches_of_other_properties": j["foreign"],
                          "families_of_other_properties": j.get("families_of_other_properties"), "stated_bound_complete": not j["truncated"], "wall_s": round(time.time() - t, 1)})
    elif rc == 1 and os.path.exists(out + ".replay"):
        d = os.path.join(EV, "replays")
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, f"{prop}.seq.replay")
        shutil.move(out + ".replay", dst)
        res.violations.append(dst)
    else:
        log(txt[-3000:])
        res.errors.append(f"seq ended with {rc}")
    if os.path.exists(out):
        os.remove(out)


CONC_ENV = {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "--cfg xtra_mc -Awarnings"}


def conc(prop, tier, cfg, res):
    if not build("conc", CONC_ENV):
        # The code uses the primitives in a way the shims do not know. That says nothing about the property.
        res.parts.append({"machine": "conc", "skipped": "does not build with the controlled primitives"})
        res.exhaustive = False
        res.assume.append("thread schedules were not explored: the tree does not build with the controlled primitives")
        return
    out = os.path.join(EV, f"{prop}.conc.json")
    for f in (out, out + ".replay"):
        if os.path.exists(f):
            os.remove(f)
    t = time.time()
    secs = cfg.get("secs", 40 if tier == "quick" else 420 if len(PLAN[prop]) < 3 else 340)
    args = ["--prop", prop, "--out", out, "--tier", tier, "--secs", str(secs), "--bound", "0",
            "--max-bound", str(cfg.get("bound", 2 if tier == "quick" else 4)), "--jobs", str(os.cpu_count() or 8)]
    rc, txt = run([os.path.join(HERE, "mc/conc/target/release/conc"), *args], HERE, timeout=secs + 60)
    for l in txt.splitlines()[-200:]:
        log("conc:", l[:2000])
    if rc == 0 and os.path.exists(out):
        j = json.load(open(out))
        res.states += j["states"]
        res.transitions += j["steps"]
        res.traces += j["executions"]
        res.samples += j["samples"][:4]
        res.parts.append({"machine": "conc", "scenarios": j["scenarios"], "schedules": j["executions"], "states": j["states"], "scheduling_steps": j["steps"],
                          "passes": j["passes"], "scenarios_cut_short_by_time": j["unfinished"], "nondeterministic": j["nondeterministic"],
                          "mismatches_of_other_properties": j["foreign"], "wall_s": round(time.time() - t, 1)})
        if not any(p["complete"] for p in j["passes"]):
            res.exhaustive = False
    elif rc == 1 and os.path.exists(out + ".replay"):
        d = os.path.join(EV, "replays")
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, f"{prop}.conc.replay")
        shutil.move(out + ".replay", dst)
        res.violations.append(dst)
    else:
        # The code blocks or ends the process by means the shims do not control. That, too, says nothing about the property.
        log(txt[-3000:])
        res.parts.append({"machine": "conc", "skipped": f"ended with {rc}"})
        res.exhaustive = False
        res.assume.append(f"thread schedules were not explored: the machine ended with {rc}")
    if os.path.exists(out):
        os.remove(out)


def main():
    if len(sys.argv) != 3 or sys.argv[2] not in ("quick", "thorough") or sys.argv[1] not in PLAN:
        log(__doc__)
        sys.exit(2)
    prop, tier = sys.argv[1:3]
    os.makedirs(EV, exist_ok=True)
    res = Res()
    for name, cfg in PLAN[prop].items():
        globals()[name](prop, tier, cfg, res)
        if res.violations:
            break
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": res.states,
            "transitions": res.transitions,
            "traces_validated_against_impl": res.traces,
            "samples": res.samples or ["(violation found before the exploration was complete)"],
            "exhaustive": res.exhaustive and not res.violations,
            "machines": res.parts,
            "explanation": "Every trace is an execution of the real code; states are distinct operation sequences or schedules, transitions the operations or scheduling steps executed.",
        },
        "assumptions": res.assume,
        "violations": len(res.violations),
        "wall_s": round(time.time() - T0, 2),
    }
    with open(os.path.join(EV, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in res.known:
        log(f"KNOWN-FINDING: property={prop} {k}")
    for v in res.violations:
        log(f"VIOLATION property={prop} replay={v}")
    if res.violations:
        sys.exit(1)
    if res.errors:
        log("ERROR", res.errors)
        sys.exit(2)
    log(f"OK property={prop} tier={tier} states={res.states} transitions={res.transitions} exhaustive={res.exhaustive} wall={time.time() - T0:.1f}")


def instr(prop, tier, cfg, res):
    if not build("instr"):
        res.errors.append("build of instr failed")
        return
    out = os.path.join(EV, f"{prop}.instr.json")
    runs = [["--depth", "4", "--secs", "100"], ["--depth", "5", "--focus", "--secs", "60"], ["--depth", "5", "--secs", "30"]]
    if tier == "thorough":
        runs = [["--depth", "5", "--secs", "200"], ["--depth", "6", "--secs", "450"]]
    if prop == "C22":
        runs = [["--depth", "4", "--secs", "30"]] if tier == "quick" else [["--depth", "4", "--secs", "30"], ["--depth", "5", "--secs", "100"]]
    for args in runs:
        for f in (out, out + ".replay"):
            if os.path.exists(f):
                os.remove(f)
        t = time.time()
        rc, txt = run([os.path.join(HERE, "mc/instr/target/release/instr"), *args, "--prop", prop, "--jobs", str(os.cpu_count() or 8), "--out", out], HERE, timeout=600)
        for l in txt.splitlines()[-60:]:
            log("instr:", l[:2000])
        if rc == 0 and os.path.exists(out):
            j = json.load(open(out))
            res.states += j["sequences"]
            res.transitions += j["operations"]
            res.traces += j["executions"]
            res.parts.append({"machine": "instr", **j, "wall_s": round(time.time() - t, 1)})
            res.samples.append(f"all sequences of {j['depth']} operations under {j['configurations']} combinations of enabled spans, user spans, capacity and number of mailboxes")
            if j["unfinished"] and args is runs[0]:
                res.exhaustive = False
        elif rc == 1 and os.path.exists(out + ".replay"):
            d = os.path.join(EV, "replays")
            os.makedirs(d, exist_ok=True)
            dst = os.path.join(d, f"{prop}.instr.replay")
            shutil.move(out + ".replay", dst)
            res.violations.append(dst)
            break
        else:
            log(txt[-3000:])
            res.errors.append(f"instr ended with {rc}")
    if os.path.exists(out):
        os.remove(out)


def spawn(prop, tier, cfg, res):
    if not build("spawn"):
        res.parts.append({"machine": "spawn", "skipped": "does not build with the features of all runtimes"})
        res.exhaustive = False
        res.assume.append("the spawn helpers were not explored: the tree does not build with the features of all runtimes")
        return
    out = os.path.join(EV, f"{prop}.spawn.json")
    for f in (out, out + ".replay"):
        if os.path.exists(f):
            os.remove(f)
    t = time.time()
    args = ["--prop", prop, "--out", out, "--depth", "4" if tier == "quick" else "5", "--secs", "60" if tier == "quick" else "200"]
    rc, txt = run([os.path.join(HERE, "mc/spawn/target/release/spawn"), *args], HERE, timeout=400)
    for l in txt.splitlines()[-20:]:
        log("spawn:", l[:2000])
    if rc == 0 and os.path.exists(out):
        j = json.load(open(out))
        res.states += j["sequences"]
        res.transitions += j["operations"]
        res.traces += j["executions"]
        res.exhaustive = res.exhaustive and not j["truncated"]
        res.parts.append({"machine": "spawn", **j, "wall_s": round(time.time() - t, 1)})
    elif rc == 1 and os.path.exists(out + ".replay"):
        d = os.path.join(EV, "replays")
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, f"{prop}.spawn.replay")
        shutil.move(out + ".replay", dst)
        res.violations.append(dst)
    else:
        log(txt[-3000:])
        res.parts.append({"machine": "spawn", "skipped": f"ended with {rc}"})
        res.exhaustive = False
        res.assume.append(f"the spawn helpers were not explored: the machine ended with {rc}")
    if os.path.exists(out):
        os.remove(out)


def derive_package(tier, how):
    """Generates, compiles and runs the package. Returns (info, {module: what failed}, other errors)."""
    d = os.path.join(HERE, "mc/derive/target", how)
    os.makedirs(d, exist_ok=True)
    rc, txt = run([sys.executable, os.path.join(HERE, "mc/derive/gen.py"), d, tier, how], HERE)
    if rc != 0:
        return None, {}, [txt[-2000:]]
    info = json.loads(txt.splitlines()[-1])
    bad, other = {}, []
    rc, txt = run(["cargo", "build", "--offline", "--keep-going", "--quiet", "--message-format", "json"], d, timeout=700)
    starts = {}
    for l in txt.splitlines():
        if not l.startswith("{"):
            continue
        j = json.loads(l)
        m = j.get("message")
        if j.get("reason") != "compiler-message" or m["level"] != "error":
            continue
        mods = set()
        for s in m["spans"]:
            f = os.path.join(d, s["file_name"])
            if "src/bin/b" not in s["file_name"] or not os.path.exists(f):
                continue
            if f not in starts:
                starts[f] = [(n, x.split()[2]) for n, x in enumerate(open(f), 1) if x.startswith("pub mod m")]
            below = [x for n, x in starts[f] if n <= s["line_start"]]
            if below and s["is_primary"]:
                mods.add(below[-1])
        for x in mods:
            bad.setdefault(x, m["rendered"])
        if not mods and not m["message"].startswith(("aborting", "could not compile")):
            other.append(m["rendered"])
    if rc != 0 and not bad and not other:
        other.append(txt[-2000:])
    info["ran"] = 0
    if not bad and not other:
        for b in range(info["bins"]):
            rc, txt = run([os.path.join(d, "target/debug", f"b{b}")], d, timeout=100)
            for l in txt.splitlines():
                if l.startswith("FAILED "):
                    bad.setdefault(l.split()[1].rstrip(":"), l)
                if l.startswith("ran "):
                    info["ran"] += int(l.split()[1])
            if rc not in (0, 1):
                other.append(f"b{b} ended with {rc}: " + txt[-500:])
    info["dir"] = d
    return info, bad, other


def derive(prop, tier, cfg, res):
    t = time.time()
    info, bad, other = derive_package(tier, "derived")
    if bad or other:
        # Is it the macro, or does the trait implemented by hand fail, too?
        _, bad2, other2 = derive_package(tier, "by-hand")
        log(f"derive: {len(bad)} items fail, {len(other)} other errors; by hand {len(bad2)} and {len(other2)}")
        only = sorted((m for m in bad if m not in bad2), key=lambda m: int(m[1:]))
        if other2 or bad2 and not only:
            res.errors.append("items with a trait implemented by hand do not compile or run: " + "\n".join((other2 + list(bad2.values()))[:3])[:3000])
            return
        if only:
            import glob
            dst = os.path.join(EV, "replays", f"{prop}.derive.replay")
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(dst, "w") as f:
                for m in only[:5]:
                    for s in glob.glob(info["dir"] + "/src/bin/*.rs"):
                        x = open(s).read().split(f"pub mod {m} {{", 1)
                        if len(x) == 2:
                            f.write(f"pub mod {m} {{" + x[1].split("\n}\n")[0] + "\n}\n")
                    f.write(bad[m] + "\n")
            log("derive:", open(dst).read()[:3000])
            res.violations.append(dst)
        else:
            # The macro cannot even be compiled or run.
            res.errors.append("\n".join(other)[:3000])
        return
    res.states += info["cases"]
    res.transitions += info["ran"]
    res.traces += info["ran"]
    res.samples += info["samples"]
    res.parts.append({"machine": "derive", "items_compiled": info["cases"], "items_checked": info["ran"], "wall_s": round(time.time() - t, 1)})


if __name__ == "__main__":
    main()

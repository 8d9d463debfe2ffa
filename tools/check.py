#!/usr/bin/env python3
"""Decides one property: builds the simulator from /repo's working tree, runs seeded
simulations on all cores, verifies and reports violations, writes the evidence file.

    tools/check.py PROPERTY            (VERIF_SEED, VERIF_TIER in the environment)
    tools/check.py PROPERTY --seconds N --keep
"""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
from checks import CHECKS

T0 = time.time()
KNOWN_FILE = os.path.join(VERIF, "KNOWN-FINDINGS.txt")


def known_findings(prop):
    """Lines 'known: property=<id> key=<key> <what fails>' of the known findings file."""
    out = []
    for line in open(KNOWN_FILE) if os.path.exists(KNOWN_FILE) else []:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def z(path):
    return "Z:" + path.replace("/", "\\")


class Wine:
    """A scratch Wine prefix of our own."""
    def __init__(self):
        os.makedirs(B.OUT, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=B.OUT)
        os.chmod(self.dir, 0o700)
        self.env = dict(os.environ)
        self.env.update(HOME=self.dir, WINEPREFIX=os.path.join(self.dir, "wp"), WINEDEBUG="-all",
                        WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe=")
        self.env.pop("DISPLAY", None)
        err = ""
        for attempt in range(3):
            try:
                p = subprocess.run(["wineboot", "-i"], env=self.env, capture_output=True, text=True, timeout=120)
                if p.returncode == 0 and os.path.exists(os.path.join(self.dir, "wp", "system.reg")):
                    return
                err = p.stderr[-500:]
            except subprocess.TimeoutExpired:
                err = "timeout"
            subprocess.run(["wineserver", "-k"], env=self.env, capture_output=True)
            shutil.rmtree(os.path.join(self.dir, "wp"), ignore_errors=True)
        raise SystemExit(f"cannot create a Wine prefix: {err}")

    def popen(self, args, log):
        return subprocess.Popen(["wine", os.path.join(B.OUT, "clinksim.exe")] + args, env=self.env, stdin=subprocess.DEVNULL,
                                stdout=log, stderr=subprocess.STDOUT, cwd=self.dir)

    def close(self):
        subprocess.run(["wineserver", "-k"], env=self.env, capture_output=True)
        subprocess.run(["wineserver", "-w"], env=self.env, capture_output=True, timeout=60)
        shutil.rmtree(self.dir, ignore_errors=True)


def main():
    prop = sys.argv[1]
    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    seconds = spec.get("quick", 60) if tier == "quick" else spec.get("thorough", 780)
    if "--seconds" in sys.argv:
        seconds = int(sys.argv[sys.argv.index("--seconds") + 1])
    evidence = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    known = known_findings(prop)

    build_s = B.build()
    wine = Wine()
    code = 2
    try:
        code = run(prop, spec, tier, seed, seconds, evidence, known, wine, build_s)
    finally:
        wine.close()
    sys.stdout.flush()
    sys.exit(code)


def run(prop, spec, tier, seed, seconds, evidence, known, wine, build_s):
    jobs = spec["jobs"]
    ncpu = max(2, min(8, len(os.sched_getaffinity(0))))
    # Workers are dealt to jobs by weight.
    total = sum(j.get("weight", 1) for j in jobs)
    slots = []
    acc = 0.0
    for j in jobs:
        acc += j.get("weight", 1) * ncpu / total
        while len(slots) < round(acc):
            slots.append(j)
    # A job that got no worker of its own shares the time of the one it follows.
    alloc = []
    for i, j in enumerate(slots):
        alloc.append([j])
    for j in jobs:
        if not any(s is j for s in slots):
            min(alloc, key=lambda a: len(a)).append(j)
    stop = os.path.join(wine.dir, "stop")
    rdir = os.path.join(wine.dir, "replays")
    os.makedirs(rdir)
    workers = []
    for w, js in enumerate(alloc):
        workers.append({"w": w, "queue": list(js), "share": seconds / len(js), "proc": None, "outs": []})
    minimise = 20 if tier == "quick" else 60

    def start(wk):
        j = wk["queue"].pop(0)
        k = len(wk["outs"])
        out = os.path.join(wine.dir, f"w{wk['w']}-{k}.json")
        args = ["run", "--scenario", j["scenario"], "--seed", str(seed * 1000003 + wk["w"] * 131 + k * 17 + 1), "--stride", "1048573",
                "--seconds", str(max(1, int(wk["share"]))), "--tier", "0" if tier == "quick" else "1", "--out", z(out),
                "--replays", z(rdir), "--tag", f"w{wk['w']}_{k}", "--min-seconds", str(minimise), "--max-violations", "1", "--stop-file", z(stop)]
        for key, v in j.get("set", {}).items():
            args += ["--set", f"{key}={v}"]
        if known:
            args += ["--known", ",".join(k for k, _ in known)]
        wk["log"] = open(out + ".log", "w")
        wk["proc"] = wine.popen(args, wk["log"])
        wk["limit"] = time.time() + wk["share"] + minimise + 120
        wk["outs"].append((j, out))

    for wk in workers:
        start(wk)
    failed = []
    while any(wk["proc"] for wk in workers):
        time.sleep(0.1)
        for wk in workers:
            p = wk["proc"]
            if not p:
                continue
            rc = p.poll()
            if rc is None:
                if time.time() > wk["limit"]:
                    p.kill()
                    failed.append(f"worker {wk['w']} hung")
                    wk["proc"] = None
                continue
            wk["proc"] = None
            j, out = wk["outs"][-1]
            if not os.path.exists(out):
                failed.append(f"worker {wk['w']} ({j['scenario']}) ended with {rc}: " + open(out + ".log").read()[-600:])
                continue
            if json.load(open(out))["violations"]:
                open(stop, "w").close()
            elif wk["queue"] and not os.path.exists(stop):
                start(wk)

    # Collect.
    tot = {k: 0 for k in ("runs", "steps", "switches", "sim_ns", "procs", "threads", "crashes", "det_checks", "det_bad", "minimise_runs")}
    faults, counters, viol, il, st, cov, samples, per = {}, {}, [], set(), set(), set(), [], {}
    busy_ms = 0
    for wk in workers:
        for j, out in wk["outs"]:
            if not os.path.exists(out):
                continue
            r = json.load(open(out))
            for k in tot:
                tot[k] += r[k]
            busy_ms += r["elapsed_ms"]
            for src, dst in ((r["faults"], faults), (r["counters"], counters)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
            viol += r["violations"]
            p = per.setdefault(j["scenario"], {"runs": 0, "interleavings": set(), "states": set()})
            p["runs"] += r["runs"]
            for ext, dst, sz in ((".il", p["interleavings"], 8), (".st", p["states"], 8), (".cov", cov, 4)):
                d = open(out + ext, "rb").read()
                dst.update(struct.unpack(f"<{len(d)//sz}{'Q' if sz == 8 else 'I'}", d))
            samples += [s for s in r.get("samples", [])]
    for n, p in per.items():
        il |= p["interleavings"]
        st |= p["states"]
    measure = spec.get("measure", "interleavings")
    distinct = len(il) if measure == "interleavings" else len(st)
    hours = max(1e-9, (time.time() - T0 - build_s) / 3600)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": min(distinct, tot["runs"]),
            "rule": spec["rule"] + f" Distinct = distinct {'thread/process interleavings (hash of the sequence of context switches with the operation each switch happened at)' if measure == 'interleavings' else 'histories (hash of the events and results the oracle saw)'}; every run executes at least one complete generated operation sequence.",
            "samples": samples[:4],
            "runs_per_hour": int(tot["runs"] * 3600000 / max(1, busy_ms) * len(workers)), "seeds": tot["runs"],
            "simulated_seconds": round(tot["sim_ns"] / 1e9, 1), "scheduling_points": tot["steps"], "context_switches": tot["switches"],
            "processes": tot["procs"], "threads": tot["threads"],
            "faults_injected": dict(faults, **({"process crash": tot["crashes"]} if tot["crashes"] else {})),
            "distinct_interleavings": len(il), "distinct_states": len(st), "basic_blocks_reached": len(cov),
            "counters": counters, "runs_per_scenario": {n: p["runs"] for n, p in per.items()},
            "repeatability": {"runs_executed_twice": tot["det_checks"], "differing": tot["det_bad"]},
            "real_code": spec["real"], "simulated": spec["stub"],
            "build_seconds": round(build_s, 1), "workers": len(workers),
        },
        "assumptions": spec.get("assumptions", []) + ["The simulated Windows API (files, locks, processes, threads, events, clocks, console, registry) behaves like Windows for the calls the code makes.",
            "Compiled with MinGW GCC in debug configuration; code compiled by other compilers behaves the same."],
        "wall_s": 0, "violations": 0,
    }

    result, printed = 0, []
    # Every violation must reproduce exactly in a fresh process.
    for v in viol:
        src = os.path.join(rdir, v["file"])
        log = os.path.join(wine.dir, "replay.log")
        with open(log, "w") as f:
            rc = wine.popen(["replay", z(src)], f).wait(timeout=300)
        if rc != 1:
            failed.append(f"violation {v['id']} (seed {v['seed']}) did not reproduce: {open(log).read()[-300:]}")
            continue
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        dst = os.path.join(VERIF, "replays", f"{prop}-{v['file']}")
        shutil.copy(src, dst)
        printed.append((v, dst))
    if failed:
        for f in failed:
            print("ERROR:", f)
        result = 2
    if tot["det_bad"]:
        print(f"ERROR: {tot['det_bad']} runs were not repeatable")
        result = 2
    if not tot["runs"]:
        print("ERROR: nothing was run")
        result = 2
    for key, what in known:
        print(f"KNOWN-FINDING: property={prop} {what} (met {counters.get('known:' + key, 0)} times in this run)")
    for v, dst in printed:
        print(f"VIOLATION property={prop} replay={dst}")
        print(f"  {v['id']}: {v['msg']}")
        print(f"  seed {v['seed']}; minimised from {v['ops_before']} operations and {v['decisions_before']} scheduling/fault decisions to {v['ops']} and {v['decisions']}; replay with: {VERIF}/tools/replay.py {dst}")
        result = 1
    ev["violations"] = len(printed)
    ev["wall_s"] = round(time.time() - T0, 1)
    with open(evidence, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {tot['runs']} runs, {len(il)} interleavings, {len(st)} states, {len(cov)} blocks, {sum(faults.values()) + tot['crashes']} faults, {ev['wall_s']} s, "
          + ("ok" if result == 0 else f"result {result}"))
    return result


if __name__ == "__main__":
    main()

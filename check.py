#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property by simulation
   check.py replay FILE           execute a replay file (exit 1 if the violation occurs)
   check.py determinism [N]       run N seeds of every check twice, in different processes, and compare
"""
import concurrent.futures, json, os, re, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as builder
from props import PROPS

WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
ENV = dict(os.environ, LC_ALL="C", TZ="UTC")


def sim(exe, *args, timeout=300):
    r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, timeout=timeout, errors="replace")
    return r.stdout


def norm(r):
    """Frames of shared libraries are at random addresses: not part of the comparison."""
    r["stack"] = [x for x in r.get("stack", []) if len(x) <= 8]
    return r


def core(r):
    """What has to be identical when a run is repeated in another process."""
    return {k: r.get(k) for k in ("status", "kind", "msg", "pcs", "switches", "sched", "ev", "simns")}


def run_plan(exe, text, trace=None):
    with tempfile.NamedTemporaryFile("w", suffix=".plan", delete=False) as f:
        f.write(text)
    try:
        out = sim(exe, "run", f.name, *([trace] if trace else []))
        return norm(json.loads(out.strip().splitlines()[-1]))
    except (ValueError, IndexError, subprocess.TimeoutExpired) as e:
        return {"status": "error", "kind": "harness", "msg": "no result: %s" % e, "pcs": [], "stack": []}
    finally:
        os.unlink(f.name)


def symbolise(exe, pcs):
    pcs = [p for p in pcs if p not in ("0", "")]
    if not pcs:
        return []
    r = subprocess.run(["addr2line", "-Cfe", exe] + ["0x%x" % (int(p, 16) - 1) for p in pcs], stdout=subprocess.PIPE, text=True)
    l = r.stdout.splitlines()
    out = []
    for i in range(0, len(l) - 1, 2):
        fn = re.sub(r"\(.*", "", l[i])
        out.append("%s (%s)" % (fn[:110], os.path.basename(l[i + 1].split(" ")[0])))
    return out


def sig(r):
    """Class of a violation: what has to persist while minimising."""
    return (r.get("status"), r.get("kind"))


class Plan:
    def __init__(self, text):
        self.head, self.cfg, self.ops, self.sw = [], [], [], []
        for l in text.splitlines():
            k = l.split(" ", 1)[0]
            {"cfg": self.cfg, "op": self.ops, "sw": self.sw}.get(k, self.head).append(l)

    def text(self):
        return "\n".join(self.head + self.cfg + self.ops + self.sw) + "\n"

    def with_(self, **kw):
        p = Plan("")
        p.head, p.cfg, p.ops, p.sw = (list(kw.get(k, getattr(self, k))) for k in ("head", "cfg", "ops", "sw"))
        return p

    def cfgval(self, k, d=None):
        for l in self.cfg:
            if l.startswith("cfg %s=" % k):
                return int(l.split("=", 1)[1])
        return d

    def setcfg(self, k, v):
        return self.with_(cfg=[l for l in self.cfg if not l.startswith("cfg %s=" % k)] + ["cfg %s=%d" % (k, v)])


def minimise(exe, plan, want, budget):
    """ddmin over operations, configuration values and, for concurrent runs, the explicit switches."""
    t_end = time.time() + budget
    tries = [0]

    def bad(p):
        if time.time() > t_end:
            return False
        tries[0] += 1
        return sig(run_plan(exe, p.text())) == want

    def bad_many(ps):
        """index of the first plan of the list that still fails, or None"""
        if time.time() > t_end or not ps:
            return None
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            for i, r in enumerate(ex.map(bad, ps)):
                if r:
                    return i
        return None

    def ddmin(p, field):
        items = getattr(p, field)
        n = 2
        if items and bad(p.with_(**{field: []})):
            return p.with_(**{field: []})
        while len(items) >= 2 and time.time() < t_end:
            size = max(1, len(items) // n)
            cands = [items[:i] + items[i + size:] for i in range(0, len(items), size)]
            k = bad_many([p.with_(**{field: c}) for c in cands])
            if k is not None:
                items = cands[k]
                p = p.with_(**{field: items})
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
        return p

    def shrink_cfg(p):
        for l in list(p.cfg):
            k, v = l[4:].split("=")
            v = int(v)
            if k in ("oracles", "mode", "schedseed", "build", "explicit") or v <= 0:
                continue
            for nv in sorted({0, 1, v // 2, v - 1}):
                if nv < v:
                    q = p.setcfg(k, nv)
                    if bad(q):
                        p = q
                        break
        return p

    p = ddmin(plan, "ops")
    p = shrink_cfg(p)
    p = ddmin(p, "ops")
    if p.cfgval("mode") not in (None, 0, 3):
        tr = tempfile.mktemp(suffix=".trace")
        r = run_plan(exe, p.text(), tr)
        if sig(r) == want and os.path.exists(tr):
            q = p.setcfg("mode", 3).with_(sw=open(tr).read().split("\n")[:-1])
            os.unlink(tr)
            if bad(q):
                p = ddmin(q, "sw")
                p = ddmin(p, "ops")
                p = shrink_cfg(p)
    return p, tries[0]


def known():
    """known-findings.jsonl: {"property","probe","kind","match","what"} or fixed entries (ignored here)."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                out.append(json.loads(l[len("finding:"):]))
    return out


def fatal(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def describe(exe, r):
    s = "%s: %s" % (r.get("kind"), r.get("msg"))
    st = symbolise(exe, r.get("pcs", []))
    if st:
        s += "\n    at " + "\n    and ".join(st)
    st = symbolise(exe, r.get("stack", []))
    if st:
        s += "\n    called from " + " < ".join(st[:8])
    return s


def write_replay(exe, pid, seed, plan, r, r0):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.plan" % (pid, seed))
    with open(path, "w") as f:
        f.write("# replay with: python3 check.py replay %s\n" % path)
        for l in ("violation of %s\n%s\noriginal run (seed %s): %s" % (pid, describe(exe, r), seed, r0.get("msg"))).splitlines():
            f.write("# " + l + "\n")
        f.write(plan.text())
    return path


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = PROPS[pid]
    exe = builder.main()
    t_build = time.time() - t0
    per, secs = conf[tier]
    base = (seed * 1000003) % (1 << 40) + 1
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    bad = False
    # known findings: fixed probe plans
    kn = [k for k in known() if k["property"] == pid]
    shown = []
    violations = []      # (plan, result, seed)
    for k in kn:
        text = open(os.path.join(HERE, k["probe"])).read()
        r = run_plan(exe, text)
        if r["status"] == "violation" and r["kind"] == k["kind"] and re.search(k["match"], r["msg"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            shown.append(k["what"])
        elif r["status"] == "violation":
            violations.append((Plan(text), r, os.path.basename(k["probe"])))
        elif r["status"] == "error":
            fatal("probe %s: %s" % (k["probe"], r["msg"]))
    # regression plans: minimised failures of the past, run first
    rd = os.path.join(HERE, "regress", pid)
    nreg = 0
    for f in sorted(os.listdir(rd)) if os.path.isdir(rd) else []:
        text = open(os.path.join(rd, f)).read()
        r = run_plan(exe, text)
        nreg += 1
        if r["status"] == "violation":
            violations.append((Plan(text), r, "regress-" + f))
        elif r["status"] == "error":
            fatal("regression plan %s: %s" % (f, r["msg"]))
    tmp = tempfile.mkdtemp(prefix="sim-")
    t1 = time.time()

    def worker(w):
        hf = os.path.join(tmp, "h%d" % w)
        p = subprocess.run([exe, "batch", pid, str(base + w * 100000007), str(per), str(secs), hf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, errors="replace")
        return p.stdout, p.stderr, p.returncode, hf

    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        res = list(ex.map(worker, range(WORKERS)))
    t_run = time.time() - t1
    tot, counters, faults, oks, errs = {}, {}, {}, [], []
    scheds, hists = set(), set()
    for out, err, rc, hf in res:
        if rc:
            fatal("a worker ended with %d: %s" % (rc, err[-400:]))
        for l in out.splitlines():
            if l.startswith("S "):
                s = json.loads(l[2:])
                for k, v in s.pop("counters").items():
                    counters[k] = counters.get(k, 0) + v
                for k, v in s.pop("faults").items():
                    faults[k] = faults.get(k, 0) + v
                for k, v in s.items():
                    tot[k] = tot.get(k, 0) + v
            elif l[:2] in ("V ", "O ", "E "):
                t, sd, js = l.split(" ", 2)
                (oks if t == "O" else errs if t == "E" else violations).append((sd, norm(json.loads(js))) if t != "V" else (None, norm(json.loads(js)), sd))
        with open(hf, "rb") as f:
            d = f.read()
        n = struct.unpack_from("<Q", d)[0]
        v = struct.unpack("<%dQ" % ((len(d) - 8) // 8), d[8:])
        scheds.update(v[:n])
        hists.update(v[n:])
        os.unlink(hf)
    os.rmdir(tmp)
    # determinism sample: replay in fresh processes, from the plan text
    det = undet = 0
    for sd, js in oks[:: max(1, len(oks) // 12)][:12]:
        r = run_plan(exe, sim(exe, "gen", pid, sd))
        if core(r) != core(js):
            print("WARNING: seed %s gave another execution in a fresh process:\n  %s\n  %s" % (sd, js, r))
            undet += 1
            continue
        det += 1
    # violations: gate, minimise, report one per class
    reported = []
    classes = {}
    for plan, r, sd in violations:
        key = (r["kind"], tuple(r.get("pcs", []))[:1] if r["kind"] in ("race", "use-after-free", "heap-overflow", "assert") else re.sub(r"[0-9'][^ ]*", "#", r["msg"].split(":")[-1])[:60])
        classes.setdefault(key, (plan, r, sd))
    for key, (plan, r, sd) in list(classes.items())[:4]:
        if plan is None:
            plan = Plan(sim(exe, "gen", pid, sd))
        a, b = run_plan(exe, plan.text()), run_plan(exe, plan.text())
        if not sig(a) == sig(b) == sig(r):
            fatal("violation of seed %s does not replay:\n  %s\n  %s\n  %s" % (sd, r, a, b))
        m, tries = minimise(exe, plan, sig(r), 60 if tier == "quick" else 200)
        mr = run_plan(exe, m.text())
        if sig(mr) != sig(r):
            m, mr = plan, r
        if sig(run_plan(exe, m.text())) != sig(mr):
            fatal("minimised plan of seed %s does not replay" % sd)
        path = write_replay(exe, pid, sd, m, mr, r)
        print("%s (seed %s, %d operations, %d switches after %d reduction runs)" % (describe(exe, mr), sd, len(m.ops), len(m.sw), tries))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()
        reported.append(path)
    if errs and not reported:
        fatal("seed %s: %s" % (errs[0][0], describe(exe, errs[0][1])))
    runs = tot.get("runs", 0)
    samples = []
    for sd, js in oks[:2]:
        samples.append({"seed": int(sd), "plan": sim(exe, "gen", pid, sd).splitlines()[:40], "result": {k: js[k] for k in ("status", "steps", "switches", "sched", "ev", "simns") if k in js}})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs + nreg + len(kn),
            "distinct_nontrivial": len(scheds) if conf.get("conc") else len(hists),
            "rule": conf["rule"],
            "samples": samples,
            "simulated_runs": runs,
            "runs_per_hour": int(runs / max(t_run, 0.01) * 3600),
            "simulated_seconds": round(tot.get("simns", 0) * 1e-9, 3),
            "distinct_event_histories": len(hists),
            "distinct_interleavings": len(scheds),
            "runs_with_context_switches": tot.get("runs_with_switches", 0),
            "memory_accesses_checked": tot.get("accesses", 0),
            "context_switches": tot.get("switches", 0),
            "lock_waits": tot.get("blocked", 0),
            "faults_fired": dict({"io_" + k: v for k, v in faults.items() if v}, **{k[6:]: v for k, v in counters.items() if k.startswith("fault.")}),
            "reached": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault.")},
            "determinism_sample": "%d of %d seeds replayed in fresh processes with identical event hashes" % (det, det + undet),
            "regression_plans": nreg,
            "known_findings_seen": shown,
            "real_components": "all of /repo (src, extensions), libstdc++, libxml2, boost: compiled or linked as they are",
            "simulated_components": conf.get("stubs", "scheduler, mutexes, once-guards, allocator, clock"),
            "build_seconds": round(t_build, 1),
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(reported),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d runs (%d distinct histories, %d distinct interleavings) in %.1fs + build %.1fs, %d violation(s)" % (pid, tier, runs, len(hists), len(scheds), t_run, t_build, len(reported)))
    if not reported and runs < conf.get("min_runs", 50):
        fatal("only %d runs were made" % runs)
    sys.exit(1 if reported else 0)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == "replay":
        exe = builder.main()
        r = run_plan(exe, open(sys.argv[2]).read())
        print(describe(exe, r) if r["status"] != "ok" else json.dumps(r))
        sys.exit(1 if r["status"] == "violation" else 0 if r["status"] == "ok" else 2)
    if sys.argv[1] == "determinism":
        exe = builder.main()
        n = int(sys.argv[2]) if len(sys.argv) > 2 else 100
        diffs = 0
        for pid in sim(exe, "list").split():
            plans = [sim(exe, "gen", pid, 7000 + i) for i in range(n)]
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                a = list(ex.map(lambda t: run_plan(exe, t), plans))
            with concurrent.futures.ThreadPoolExecutor(3) as ex:
                b = list(ex.map(lambda t: run_plan(exe, t), plans))
            d = sum(1 for x, y in zip(a, b) if x != y)
            diffs += d
            print("%s: %d seeds, %d differ" % (pid, n, d))
        sys.exit(1 if diffs else 0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    check(sys.argv[1], tier)


if __name__ == "__main__":
    main()

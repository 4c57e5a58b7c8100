"""Runs plans in simcora processes: workers, gate, minimiser, replay, evidence."""
import hashlib, json, os, random, select, signal, subprocess, sys, time, threading, queue
from concurrent.futures import ThreadPoolExecutor
from .build import Build, BuildError, BootError, VERIF

STREAMS = ["gc", "rand", "prog", "net", "netev", "fs", "fscrash", "sys", "peer", "clock"]


class Plan:
    """cfg: dict of knobs; ops: list of strings; ov: explicit decisions."""
    __slots__ = ("cfg", "ops", "ov", "meta")

    def __init__(self, cfg, ops, ov=None, meta=None):
        self.cfg, self.ops, self.ov, self.meta = dict(cfg), list(ops), list(ov or []), meta

    def text(self):
        l = ["cfg %s=%s" % (k, v) for k, v in self.cfg.items()]
        l += ["ov %d %d %d" % tuple(o) for o in sorted(self.ov)]
        l += ["op " + o for o in self.ops]
        return ("\n".join(l) + "\n").encode()

    def to_json(self):
        return {"cfg": self.cfg, "ops": self.ops, "ov": [list(o) for o in self.ov], "meta": self.meta}

    @staticmethod
    def from_json(j):
        return Plan(j["cfg"], j["ops"], [tuple(o) for o in j["ov"]], j.get("meta"))

    def copy(self, **kw):
        p = Plan(self.cfg, self.ops, self.ov, self.meta)
        for k, v in kw.items():
            setattr(p, k, v)
        return p


class Result:
    __slots__ = ("status", "log", "lines", "stats", "decisions", "nd", "clock", "raw")

    def __init__(self, status, raw):
        self.status, self.raw = status, raw
        self.lines, self.stats, self.decisions, self.nd, self.clock = [], {}, [], 0, 0
        for ln in raw.decode("utf-8", "replace").split("\n"):
            if not ln:
                continue
            if ln[0] == "@":
                w = ln.split(" ")
                if w[0] == "@stat":
                    self.stats[w[1]] = int(w[2])
                elif w[0] == "@d":
                    self.decisions.append((int(w[1]), int(w[2]), int(w[3])))
                elif w[0] == "@nd":
                    self.nd = int(w[1])
                elif w[0] == "@simclock":
                    self.clock = int(w[1])
            else:
                self.lines.append(ln)

    def loghash(self):
        h = hashlib.sha256(self.status.encode())
        for ln in self.lines:
            h.update(ln.encode())
            h.update(b"\n")
        return h.hexdigest()[:16]


class SimDied(Exception):
    pass


class Sim:
    def __init__(self, build, modules):
        self.build, self.modules = build, list(modules)
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.build.sim, self.build.dir] + self.modules, cwd=self.build.dir,
                                  env={**{k: v for k, v in os.environ.items() if k not in ("CORADEBUG", "SIM_STDOUT")},
                                       **self.build.env()},
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  bufsize=1 << 20)
        l = self.p.stdout.readline()
        if l.strip() != b"READY":
            self.close()
            raise SimDied("no READY: %r" % l)

    def run(self, plan):
        for attempt in range(2):
            try:
                if self.p is None:
                    self.start()
                t = plan.text()
                self.p.stdin.write(b"%d\n" % len(t) + t)
                self.p.stdin.flush()
                l = self.p.stdout.readline().split()
                if len(l) != 2:
                    raise SimDied("bad reply %r" % l)
                n = int(l[1])
                d = self.p.stdout.read(n)
                if len(d) != n:
                    raise SimDied("short log")
                return Result(l[0].decode(), d)
            except (OSError, SimDied, ValueError):
                self.close()
                if attempt:
                    raise

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p = None


# ---------------------------------------------------------------- check driver
class Check:
    id = "P00"
    title = ""
    modules = []
    technique = "deterministic simulation: seeded search over schedules and faults"
    quick_runs = 400
    thorough_runs = 20000
    quick_wall = 60
    thorough_wall = 600
    chunk = 1
    real = []      # components that ran real code
    stub = []      # components that ran a stub
    rule = "a run counts as distinct when the hash of its status and event log differs"
    assumptions = []

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def judge(self, plan, res):
        """None, or (class, message)."""
        raise NotImplementedError

    def sanitize(self, plan):
        """After the minimiser dropped ops: a plan whose ops are valid, or None."""
        return plan

    def nontrivial(self, plan, res):
        return True


BAD_STATUS = {"segv", "trap", "abort", "hang", "livelock", "memory", "overlap", "alloc", "heap", "gc-lost", "sigpipe", "signal",
              "nomain", "logfull"}


def status_violation(res):
    if res.status != "ok":
        note = next((l for l in res.lines if l.startswith("!")), "")
        return (res.status, "the run ended with status %s %s" % (res.status, note))
    f = next((l for l in res.lines if l.startswith("!")), None)
    if f:
        return ("self-check", f)
    return None


def make_plan(check, seed, i, tier):
    rng = random.Random("%s:%s:%d:%s" % (check.id, seed, i, tier))
    p = check.gen(rng, i, tier)
    p.cfg.setdefault("seed", rng.getrandbits(62))
    return p


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                continue
            j = json.loads(ln)
            out.setdefault(j["property"], []).append(j)
    return out


def match_known(check, v, plan, res, known):
    for k in known:
        if check.known_match(k, v, plan, res):
            return k
    return None


Check.known_match = lambda self, k, v, plan, res: False


def proc_worker(args):
    """Runs in a forked process: its share of the runs."""
    check, build, tier, seed, wid, jobs, nruns, wall_end, known, conn = args
    sim = Sim(build, check.modules)
    agg = {"runs": 0, "stats": {}, "clock": 0, "hashes": set(), "nontrivial": 0, "ops": 0, "nd": 0, "samples": [],
           "viol": [], "error": None, "known": {}, "probes": {}}
    try:
        i = wid
        while i < nruns and time.time() < wall_end:
            plan = make_plan(check, seed, i, tier)
            res = sim.run(plan)
            v = check.judge(plan, res)
            agg["runs"] += 1
            agg["ops"] += len(plan.ops)
            agg["nd"] += res.nd
            agg["clock"] += res.clock
            for k, n in res.stats.items():
                agg["stats"][k] = agg["stats"].get(k, 0) + n
            if check.nontrivial(plan, res):
                agg["nontrivial"] += 1
                agg["hashes"].add(res.loghash())
            if len(agg["samples"]) < 2 and wid < 3:
                agg["samples"].append({"run": i, "seed": plan.cfg["seed"], "ops": plan.ops[:6],
                                       "cfg": {k: v2 for k, v2 in plan.cfg.items() if k != "seed"},
                                       "log_head": [l[:160] for l in res.lines[:4]], "status": res.status})
            if v:
                k = match_known(check, v, plan, res, known)
                if k:
                    agg["known"][k["key"]] = agg["known"].get(k["key"], 0) + 1
                else:
                    agg["viol"].append((i, v))
                    if len(agg["viol"]) >= 3:
                        break
            i += jobs
    except Exception:
        import traceback
        agg["error"] = traceback.format_exc()
    finally:
        sim.close()
    conn.send(agg)
    conn.close()


def parallel_runs(check, build, tier, seed, jobs, nruns, wall, known):
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    end = time.time() + wall
    procs = []
    for w in range(jobs):
        a, b = ctx.Pipe()
        p = ctx.Process(target=proc_worker, args=((check, build, tier, seed, w, jobs, nruns, end, known, b),))
        p.start()
        b.close()
        procs.append((p, a))
    out = []
    for p, a in procs:
        try:
            out.append(a.recv())
        except EOFError:
            out.append({"error": "worker died", "runs": 0, "stats": {}, "clock": 0, "hashes": set(), "nontrivial": 0,
                        "ops": 0, "nd": 0, "samples": [], "viol": [], "known": {}, "probes": {}})
        p.join()
    return out


def explicit_of(plan, res):
    p = plan.copy(ov=list(res.decisions))
    p.cfg = dict(plan.cfg)
    p.cfg["explicit"] = 1
    return p


def minimise(check, build, plan, vclass, budget=60):
    """ddmin over ops, then over the listed decisions, then ops again."""
    sim = Sim(build, check.modules)
    end = time.time() + budget

    def fails(p):
        try:
            p2 = check.sanitize(p)
            if p2 is None:
                return None
            r = sim.run(p2)
            v = check.judge(p2, r)
        except SimDied:
            return None
        return p2 if v and v[0] == vclass else None

    def ddmin(items, mk, cur):
        n = 2
        while len(items) >= 1 and time.time() < end:
            size = max(1, len(items) // n)
            reduced = False
            k = 0
            while k < len(items) and time.time() < end:
                cand = items[:k] + items[k + size:]
                got = fails(mk(cand))
                if got is not None:
                    cur = got
                    items = cand if mk is not mk_ops else list(got.ops)
                    reduced = True
                else:
                    k += size
            if not reduced:
                if size == 1:
                    break
                n = min(len(items), n * 2)
            else:
                n = max(2, n - 1)
        return cur

    best = plan
    try:
        for rnd in range(3):
            before = (len(best.ops), len(best.ov))
            b0 = best

            def mk_ops(ops):
                return b0.copy(ops=list(ops))
            best = ddmin(list(b0.ops), mk_ops, best)
            if check.ops_shrink:
                best = check.ops_shrink(best, fails, end)
            b1 = best

            def mk_ov(ov):
                return b1.copy(ov=list(ov))
            best = ddmin(list(b1.ov), mk_ov, best)
            if (len(best.ops), len(best.ov)) == before or time.time() > end:
                break
    finally:
        sim.close()
    return best


Check.ops_shrink = None


def run_check(check, tier, seed, jobs=None, runs=None, wall=None):
    t0 = time.time()
    build = Build(bare="@bare" in check.modules, docs="work/docs" in check.modules)
    bad = boot_failure(build, check)
    t_build = time.time() - t0
    if bad:
        return report_boot(check, tier, seed, bad, t0, t_build)
    jobs = jobs or max(1, min(8, os.cpu_count() or 1))
    nruns = runs or (check.quick_runs if tier == "quick" else check.thorough_runs)
    wall = wall or (check.quick_wall if tier == "quick" else check.thorough_wall)
    known = known_findings().get(check.id, [])
    t1 = time.time()
    parts = parallel_runs(check, build, tier, seed, jobs, nruns, wall, known)
    t_run = time.time() - t1
    errs = [p["error"] for p in parts if p["error"]]
    if errs:
        sys.stderr.write(errs[0])
        return 2
    viol = sorted((v for p in parts for v in p["viol"]), key=lambda x: x[0])
    knownhits = {}
    for p in parts:
        for k, n in p["known"].items():
            knownhits[k] = knownhits.get(k, 0) + n
    # directed plans for the known findings, so that each is reported on every run
    sim = Sim(build, check.modules)
    for k in known:
        if k.get("plan"):
            plan = Plan.from_json(k["plan"])
            res = sim.run(plan)
            v = check.judge(plan, res)
            if v and match_known(check, v, plan, res, [k]):
                knownhits[k["key"]] = knownhits.get(k["key"], 0) + 1
            elif v:
                viol.append((-1, v))
    for k in known:
        if knownhits.get(k["key"]):
            print("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]))
    # determinism sample: same plan twice, second time in another process
    det = {"sampled": 0, "equal": 0}
    sim2 = Sim(build, check.modules)
    for i in range(min(6 if tier == "quick" else 40, nruns)):
        p = make_plan(check, seed, i, tier)
        a, b = sim.run(p), sim2.run(p)
        det["sampled"] += 1
        det["equal"] += a.loghash() == b.loghash() and a.nd == b.nd
    rc = 0
    replays = []
    if not viol and det["equal"] != det["sampled"]:
        sys.stderr.write("determinism sample failed: %s\n" % det)
        rc = 2
    if viol:
        rc = 2
        for i, v in viol[:8]:
            path = confirm(check, build, sim, sim2, tier, seed, known, i, v)
            if path:
                replays.append(path)
                rc = 1
                break
    sim.close()
    sim2.close()
    write_evidence(check, tier, seed, parts, t0, t_build, t_run, viol, det, knownhits, jobs, replays)
    return rc


def confirm(check, build, sim, sim2, tier, seed, known, i, v):
    """Gate: the violation has to come back in two processes; then minimise, write the replay file, and replay it in a third."""
    if i < 0:
        plan = next(Plan.from_json(k["plan"]) for k in known if k.get("plan"))
    else:
        plan = make_plan(check, seed, i, tier)
    plan.cfg["trace"] = 1
    r1, r2 = sim.run(plan), sim2.run(plan)
    v1, v2 = check.judge(plan, r1), check.judge(plan, r2)
    if not v1 or not v2:
        sys.stderr.write("gate: violation of run %d did not reproduce: %r / %r / %r\n" % (i, v, v1, v2))
        return None
    exact = r1.loghash() == r2.loghash()
    cands = [plan]
    ex = explicit_of(plan, r1)
    ve = check.judge(ex, sim.run(ex))
    if ve and ve[0] == v1[0] and exact:
        cands = [minimise(check, build, ex, v1[0], 45 if tier == "quick" else 120), ex, plan]
    for final in cands:
        r = sim.run(final)
        fv = check.judge(final, r)
        if not fv:
            continue
        s3 = Sim(build, check.modules)
        r3 = s3.run(final)
        s3.close()
        if not check.judge(final, r3):
            sys.stderr.write("gate: a candidate replay of run %d did not reproduce in a fresh process\n" % i)
            continue
        path = write_replay(check, seed, tier, i, final, r, fv, plan)
        print("# %s: %s (run %d; %d ops, %d decisions after minimising%s)" %
              (fv[0], fv[1], i, len(final.ops), len(final.ov), "" if r3.loghash() == r.loghash() else "; the log differs between processes"))
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return path
    return None


def boot_failure(build, check):
    """The runtime built, but it cannot load the program of this property: twice, or it is not reported."""
    try:
        build.warm(check.modules)
        return None
    except BootError as e:
        first = str(e)
    try:
        build.warm(check.modules)
        sys.stderr.write("boot failed once only: %s\n" % first)
        return None
    except BootError as e:
        return str(e)


def report_boot(check, tier, seed, bad, t0, t_build):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-boot.json" % (check.id, seed))
    with open(p, "w") as f:
        json.dump({"property": check.id, "seed": seed, "tier": tier, "boot": True, "violation": {"class": "boot", "what": bad[:4000]}}, f, indent=1)
    print("# boot: the runtime cannot compile and load the program of this property: %s" % bad[:300].replace("\n", " "))
    print("VIOLATION property=%s replay=%s" % (check.id, p))
    empty = {"runs": 1, "stats": {}, "clock": 0, "hashes": {"boot"}, "nontrivial": 1, "ops": 0, "nd": 0, "samples": [{"boot": bad[:300]}],
             "viol": [], "known": {}}
    write_evidence(check, tier, seed, [empty], t0, t_build, 1, [(-1, ("boot", bad[:300]))], {"sampled": 0, "equal": 0}, {}, 1, [p])
    return 1


def write_replay(check, seed, tier, i, plan, res, v, orig):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%d.json" % (check.id, seed, i))
    with open(p, "w") as f:
        json.dump({"property": check.id, "seed": seed, "tier": tier, "run": i, "violation": {"class": v[0], "what": v[1]},
                   "plan": plan.to_json(), "log_hash": res.loghash(), "status": res.status,
                   "streams": STREAMS, "log": res.lines[-60:]}, f, indent=1)
    return p


def replay(check, path):
    j = json.load(open(path))
    build = Build(bare="@bare" in check.modules, docs="work/docs" in check.modules)
    bad = boot_failure(build, check)
    if bad:
        print("# boot: %s" % bad[:600])
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    if j.get("boot"):
        print("the program boots")
        return 0
    plan = Plan.from_json(j["plan"])
    sim = Sim(build, check.modules)
    res = sim.run(plan)
    sim.close()
    v = check.judge(plan, res)
    for l in res.lines[-40:]:
        print(l[:300])
    print("status %s, log hash %s (recorded %s)" % (res.status, res.loghash(), j["log_hash"]))
    if v:
        print("# %s: %s" % v)
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    return 0


def write_evidence(check, tier, seed, parts, t0, t_build, t_run, viol, det, knownhits, jobs, replays):
    runs = sum(p["runs"] for p in parts)
    stats = {}
    for p in parts:
        for k, n in p["stats"].items():
            stats[k] = stats.get(k, 0) + n
    hashes = set()
    for p in parts:
        hashes |= p["hashes"]
    samples = [s for p in parts for s in p["samples"]][:4]
    ev = {
        "property": check.id, "tier": tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0,
        "level": check.level,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": check.rule,
            "samples": samples,
            "simulated_runs": runs,
            "seeds": runs,
            "runs_per_hour": int(runs / max(t_run, 1e-3) * 3600),
            "simulated_time_us": sum(p["clock"] for p in parts),
            "ops_executed": sum(p["ops"] for p in parts),
            "non_default_decisions": sum(p["nd"] for p in parts),
            "events_and_faults": stats,
            "determinism_sample": det,
            "known_finding_hits": knownhits,
            "real_components": check.real,
            "stub_components": check.stub,
            "workers": jobs,
            "build_s": round(t_build, 2),
            "replays": replays,
        },
        "assumptions": check.assumptions or ["process-local simulation of one Cora VM"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


Check.level = "exploration"

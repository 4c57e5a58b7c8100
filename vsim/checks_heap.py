"""P01..P07: the VM, its collector and its control operators, against the model in heapmodel."""
from .runner import Check, Plan, status_violation
from . import heapmodel as H

VM_REAL = ["src/runtime.c", "src/gc.c", "src/types.c", "src/str.c", "init.cora and lib/toc.cora (compiled workload)",
           "generated C of the workload, compiled by the real compiler and gcc"]
VM_STUB = ["the decision when a GC cycle starts and how many mark steps each allocation does (seeded)", "rand, clock_gettime"]


class HeapCheck(Check):
    modules = ["work/heap"]
    real, stub = VM_REAL, VM_STUB
    technique = "deterministic simulation: seeded GC-schedule and program search against an executable heap model"
    weights = H.BASE
    maxframes, maxdeep = 60, 400
    lens = (30, 100, 300)
    quick_runs, thorough_runs = 4000, 400000
    quick_wall, thorough_wall = 45, 780
    rule = "distinct hash of (status, event log); a run is non-trivial when at least one GC cycle completed and it logged at least one object graph"
    assumptions = ["x86-64, gcc -O1, one VM per process", "GC cycles start only at trampoline safe points, as in the code under test",
                   "continuations are resumed at most once (the VM implements one-shot continuations)"]

    def gen(self, rng, i, tier):
        cfg = {"main": "work/heap#main", "cpu": 30}
        H.gcknobs(rng, cfg)
        g = H.Gen(rng, self.weights, self.maxframes, self.maxdeep)
        ops = g.run(rng.choice(self.lens))
        return Plan(cfg, ops + self.tailops(rng, g))

    def tailops(self, rng, g):
        return []

    def sanitize(self, p):
        return p.copy(ops=H.sanitize(p.ops))

    def nontrivial(self, plan, res):
        return res.stats.get("gc-cycle", 0) > 0 and len(res.lines) > 1

    def judge(self, plan, res):
        v = status_violation(res)
        if v:
            return v
        exp = H.run_model(plan.ops)
        for k in range(max(len(exp), len(res.lines))):
            a = res.lines[k] if k < len(res.lines) else "<nothing>"
            e = exp[k] if k < len(exp) else "<nothing>"
            if a != e:
                m = self.soft(plan, e, a)
                if m is None:
                    continue
                return ("diff", m or "event %d: got %s, the model says %s" % (k, a[:200], e[:200]))
        return None

    def soft(self, plan, want, got):
        return ""


def w(**kw):
    return {k: v for k, v in kw.items() if v}


class P01(HeapCheck):
    id = "P01"
    weights = w(cons=12, num=3, lst=8, upd=6, rev=5, apnd=4, car=4, cdr=4, clo=6, call=4, fcall=3, tcall=2, lit=2, sapp=2,
                clr=4, mov=2, garb=12, garbv=2, log=4, enter=6, enterk=2, deep=2, exit=6, gref=1, glob=1)


class P02(HeapCheck):
    id = "P02"
    weights = w(cons=6, num=2, lst=3, vec=4, vfill=3, vset=14, vnew=12, vget=8, vcap=1, vapp=4, gs=4, gset=8, gnew=8,
                gget=5, glob=6, gldyn=3, gref=5, clr=4, mov=2, garb=16, garbv=2, log=4, enter=2, exit=4, clo=2, call=2)


class P03(HeapCheck):
    id = "P03"
    weights = w(str=30, chk=14, vec=6, vfill=4, vset=4, vget=2, lst=3, cons=3, sapp=3, lit=3, clr=12, mov=3, garb=6, garbv=6, log=2,
                enter=2, exit=3)
    quick_runs, thorough_runs = 2500, 200000

    def gen(self, rng, i, tier):
        p = super().gen(rng, i, tier)
        # some runs allocate objects of up to a whole 64 MB arena
        if i % 5 == 0:
            extra, live = [], {}
            arena = 64 << 20
            for k in range(rng.randrange(4, 25)):
                b = rng.random()
                if b < 0.35:
                    n = rng.choice([1, 2, 3, 4, 8, 16, 64, 512, 4096]) * 4096 - 16 + rng.randrange(-20, 20)
                elif b < 0.45 and len(live) < 2:
                    n = arena - rng.choice([24, 40, 4000, 4096, 4130, 8192, 8300, 70000])
                elif b < 0.8:
                    n = rng.randrange(3000, 300000)
                else:
                    n = rng.randrange(1 << 20, 30 << 20)
                r = rng.randrange(8)
                if sum(live.values()) + n > 100 << 20:
                    for q in list(live):
                        extra.append("clr %d" % q)
                    live = {}
                extra.append("str %d %d %d" % (r, n, rng.randrange(10**6)))
                live[r] = n
                for q in list(live):
                    if rng.random() < 0.3:
                        s = [o for o in extra if o.startswith("str %d " % q)][-1].split()
                        extra.append("chk %d %s %s" % (q, s[3], s[2]))
                if rng.random() < 0.3:
                    q = rng.choice(list(live))
                    extra.append("clr %d" % q)
                    del live[q]
                extra.append("garb %d" % rng.choice([1, 30, 300]))
            for q in range(8):
                extra.append("clr %d" % q)
            p.ops += extra
            p.ops = H.sanitize(p.ops)
            p.cfg["cpu"] = 60
            # filling is bulk work: keep the number of forced cycles moderate
            if p.cfg.get("gcp", 0) > 100:
                p.cfg["gcp"] = 30
            p.cfg["arenamax"] = 12
        return p


class P04(HeapCheck):
    """Unreachable objects are reclaimed and their memory reused."""
    id = "P04"
    weights = dict(H.BASE, vcap=0, vapp=0, gldyn=0, garb=6, enter=5, enterk=3, deep=2, resume=4)
    lens = (20, 60, 150)
    quick_runs, thorough_runs = 1500, 120000
    SETTLE = 60
    LIVE_MAX = 4000
    CHEAP_MAX = 4096
    CHURN_MAX = 32 << 20
    rule = ("distinct hash of (status, event log) among runs in which at least %d GC cycles completed after everything "
            "was dropped") % SETTLE

    DROP = ["clr %d" % r for r in range(16)] + ["glob %d 0" % k for k in range(4)]

    def gen(self, rng, i, tier):
        cfg = {"main": "work/heap#main", "cpu": 60}
        H.gcknobs(rng, cfg)
        mode = i % 4
        if mode in (0, 1):
            g = H.Gen(rng, self.weights, 30, 100)
            ops = ["mark"] + g.run(rng.choice(self.lens if mode else (20, 40)))
            m = H.Machine()
            for o in ops:
                m.step(o)
            while m.frames:
                m.step("exit")
                ops.append("exit")
            ops += self.DROP + ["settle %d" % self.SETTLE]
            if mode == 0:
                # once more from the state it started with: what it needs of the C heap, it holds by now
                ops = self.DROP + ops + ops
            ops += ["live"]
            if cfg["gcmode"] == 0 or cfg.get("gcp", 0) < 10:
                cfg["gcmode"], cfg["gcp"] = 1, rng.choice([10, 30, 100, 300])
            if cfg["gcsteps"] in (1, 2, 5):
                cfg["gcsteps"] = 20
        else:
            # steady state: a bounded live set, unbounded allocation, natural triggering
            cfg["gcmode"], cfg["gcsteps"], cfg["reach"] = 0, 0, 0
            cfg["poison"] = 0
            ops = ["mark", "vfill 0 16 1", "lst 2 %d 5" % rng.choice([10, 1000, 5000])]
            cfg["tickcap"] = cfg["stepcap"] = 10**9
            sz = rng.choice([0, 0, 24, 100, 700, 1500, 3000, 5000, 20000, 100000, 1000000, 8000000])
            n = 200000 if sz < 100 else 60000 if sz < 4000 else 8000 if sz < 50000 else 900 if sz < 500000 else 300
            if i % 8 == 2:
                # large objects among small ones through more cycles than it takes to sweep twice
                sz = rng.choice([4000, 20000, 1 << 20, 3 << 20, 4 << 20, 7 << 20, 15 << 20]) + rng.randrange(5000)
                ops.append("mix 0 %d %d %d" % (rng.choice([200, 400, 3000]), sz, rng.choice([1, 3, 10, 30, 100, 300])))
            for _ in range(rng.randrange(2, 5) if i % 8 != 2 else 0):
                if sz <= 100 and rng.random() < 0.4:
                    ops.append("churnk %d %d" % (30000, rng.choice([0, 1, 3, 30, 200])))
                elif rng.random() < 0.5:
                    ops.append("churn %d %d" % (n, sz))
                else:
                    ops.append("stirv 0 %d %d" % (n // 2, sz))
            ops += ["arenas", "vec 0 1"]
        return Plan(cfg, ops)

    def sanitize(self, p):
        ops = H.sanitize(p.ops)
        if "live" in p.ops:
            # the checked drop phase has to stay whole
            need = self.DROP + ["settle %d" % self.SETTLE, "live"]
            if ops[-len(need):] != need or "mark" not in ops:
                return None
            if p.ops.count("mark") > 1:
                # the same program, twice
                if ops[:len(self.DROP)] != self.DROP or ops.count("mark") != 2:
                    return None
                i, j = [k for k, o in enumerate(ops) if o == "mark"]
                half = ops[i:j]
                if i != len(self.DROP) or half[1 - len(need):] != need[:-1]:
                    return None
                ops = self.DROP + half + half + ["live"]
            m = H.Machine()
            try:
                for o in ops:
                    m.step(o)
            except H.Invalid:
                return None
            if m.frames:
                return None
        elif ops[-1:] != ["vec 0 1"] or "arenas" not in ops:
            return None
        return p.copy(ops=ops)

    def soft(self, plan, want, got):
        g = got.split()
        if want == "live" and g[0] == "live":
            n, c = int(g[2]), int(g[4])
            if plan.ops.count("mark") > 1 and c > self.CHEAP_MAX:
                return ("%d bytes of the C heap more are held after a computation, whose results were dropped, was repeated "
                        "and %d GC cycles passed" % (c, self.SETTLE))
            return None if n <= self.LIVE_MAX else "%d bytes of unreachable objects are still held after %d GC cycles" % (n, self.SETTLE)
        if want == "arenas" and g[0] == "arenas":
            pages, sz, n = int(g[4]), 0, 0
            for o in plan.ops:
                w_ = o.split()
                if w_[0] in ("churn", "stirv"):
                    sz, n = max(sz, int(w_[-1])), n + int(w_[-2])
                elif w_[0] == "mix":
                    sz, n = max(sz, int(w_[3])), n + int(w_[2])
            if int(g[6]) > self.CHURN_MAX:
                return ("%s bytes of the C heap more are held after a steady state with a bounded live set (bound %d)" %
                        (g[6], self.CHURN_MAX))
            bound = 400 if sz <= 1500 else 2500 if sz < 4000 else 2000 + 400 * ((sz + 4095) // 4096)
            plan.meta = {"pages": pages, "bound": bound, "sz": sz}
            return None if pages <= bound else ("%d allocations of %d bytes with a bounded live set spread over %d pages of "
                                                "heap (bound %d): dead memory is not reused" % (n, sz, pages, bound))
        return ""


class P05(HeapCheck):
    id = "P05"
    weights = w(cons=6, num=3, lst=4, car=1, cdr=1, vec=1, vset=2, vfill=1, clr=2, mov=2, garb=10, garbv=1, log=3, enter=9,
                enterk=7, deep=2, exit=9, clo=1, call=1, **{"try": 14, "throw": 16, "resume": 14})
    lens = (30, 80, 200)

    def gen(self, rng, i, tier):
        p = super().gen(rng, i, tier)
        if i % 6 == 0:
            # a continuation resumed while a collection is under way
            ops = []
            for r in range(8, 8 + rng.randrange(1, 6)):
                ops.append("vfill %d %d 0" % (r, rng.choice([20, 60, 200])))
            for j in range(rng.randrange(3, 14)):
                ops += ["num 0 %d" % j, "lst 1 5 %d" % j, rng.choice(["tryh 1", "tryh 1", "try"])]
                body = rng.choice([[], ["enterk 0 1 4"], ["enter 1 1", "deep 5 1"], ["enter 4 1"]])
                ops += body + ["throw 2 3 0", "garb %d" % rng.choice([5, 20, 200]), rng.choice(["resumeh 3 0", "resume 3 1"])]
                ops += ["exit"] * (len(body) + 1) + ["deep 30 0"] * rng.randrange(1, 4) + ["exit"] * rng.randrange(0, 3)
                ops += ["garb %d" % rng.choice([20, 400]), "exit", "exit"]
            p.ops = H.sanitize(ops)
            p.cfg.update(gcmode=1, gcp=rng.choice([10, 100, 300]), gcsteps=rng.choice([1, 2, 5]), poison=1, reach=rng.choice([0, 1]))
        return p


class P06(HeapCheck):
    id = "P06"
    weights = w(cons=4, num=2, lst=3, garb=6, log=2, enter=14, enterk=6, deep=8, exit=9, tail=10, clo=3, call=3, fcall=3, tcall=3, clr=1,
                apl=3, mov=1, **{"try": 3, "throw": 2, "resume": 2})
    maxdeep = 3000
    lens = (20, 50, 120)
    quick_runs, thorough_runs = 2000, 150000

    def gen(self, rng, i, tier):
        p = super().gen(rng, i, tier)
        if p.cfg.get("gcp", 0) >= 100:
            p.cfg["gcp"] = 30
        return p


class P07(HeapCheck):
    id = "P07"
    weights = w(cons=4, num=4, lst=3, clo=10, call=12, tcall=12, fcall=12, apl=5, car=3, cdr=3, log=3, garb=6, clr=1, mov=2, enter=5,
                deep=1, exit=4, glob=1, gref=1)

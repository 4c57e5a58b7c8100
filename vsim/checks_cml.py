"""P08..P10: channels, choice and the scheduler of cora/lib/cml and cora/lib/chan, judged from the recorded history."""
import re
from .runner import Check, Plan, status_violation
from . import heapmodel as H
from .simlog import parse, py, to_list, Sym

REAL = ["lib/cml.cora, lib/chan.cora, lib/queue.cora, lib/sys.cora (compiled by lib/toc.cora and gcc)", "lib/rand.c", "src/*.c (VM, collector)"]
STUB = ["rand() (seeded decisions: the order in which a choice tries its operations)",
        "event sources registered through register-scheduler (seeded: when and in which order external events arrive)",
        "when a GC cycle starts and how many mark steps each allocation does"]


def sx(s):
    """'(a (b c))' style op text -> nested lists"""
    toks = re.findall(r"[()]|[^\s()]+", s)
    st = [[]]
    for t in toks:
        if t == "(":
            st.append([])
        elif t == ")":
            x = st.pop()
            st[-1].append(x)
        else:
            st[-1].append(int(t) if t.lstrip("-").isdigit() else t)
    return st[0]


def unsx(x):
    return "(" + " ".join(unsx(y) for y in x) + ")" if isinstance(x, list) else str(x)


def val_of(k, f, pc):
    if k == 0:
        return py(["c", f, pc])
    if k == 1:
        return ("b", False)
    if k == 2:
        return ("b", True)
    if k == 3:
        return None
    if k == 4:
        return ("y", "Done")
    if k == 5:
        return b"block"
    if k == 6:
        return 0
    if k == 7:
        return ("l", (("y", "block"), f), None)
    return ("l", tuple(100 * (f + 1) + n for n in range(k, 0, -1)), None)


def wrapped(w, v):
    if w == 1:
        if isinstance(v, tuple) and v and v[0] == "l":
            return ("l", (("y", "w"),) + v[1], v[2])
        return ("l", (("y", "w"),), v)
    if w == 2:
        return ("b", False)
    return ("l", (w, v), None)


def ext_val(f, pc):
    return py(["c", f, pc])


class Bad(Exception):
    pass


class Hist:
    """Checks one event log against its program; raises Bad((class, message))."""

    def __init__(self, plan, lines):
        self.progs = [sx(o)[1:] for o in plan.ops]
        self.plan, self.lines = plan, lines

    def fail(self, cls, msg):
        raise Bad((cls, msg))

    def alts(self, f, pc, i):
        """The ways instruction i can complete: list of (kind, channel or source, value sent, function result_value -> expected result)."""
        o = i[0]
        ident = lambda v: v
        if o in ("s", "r", "x"):
            return [self.alt(f, pc, i, ident)]
        if o == "w":
            return [self.alt(f, pc, i[2], lambda v, w=i[1]: wrapped(w, v))]
        if o == "c":
            return [self.alt(f, pc, b, lambda v, k=k: ("l", (k, v), None)) for k, b in enumerate(i[1:])]
        if o == "cb":
            return [self.alt(f, pc, b, ident) for b in i[1:]]
        if o == "cw":
            return [self.alt(f, pc, b, lambda v, k=k, w=i[1]: wrapped(w, ("l", (k, v), None))) for k, b in enumerate(i[2:])]
        return None

    def alt(self, f, pc, i, fn):
        if i[0] == "s":
            return ("s", i[1], val_of(i[2], f, pc), fn)
        return (i[0], i[1], None, fn)

    def read(self):
        """Events: per fiber program order; collects blocking operations."""
        nf = len(self.progs)
        started, done = {}, {}
        at = {}        # fiber -> next pc
        inside = {}    # fiber -> position of its open 'b'
        self.ops = []  # dict(f, pc, alts, b, e, res)
        self.yields = []
        self.stk = []
        self.gots = {}
        ret = None
        spawned = {0: -1}
        openop = {}
        for n, ln in enumerate(self.lines):
            tag, _, rest = ln.partition(" ")
            if ret is not None and tag != "result":
                self.fail("late", "event %d (%s) after the scheduler had returned" % (n, ln[:80]))
            if tag == "S":
                f = int(rest)
                if f in started:
                    self.fail("twice", "fiber %d started twice" % f)
                if f not in spawned:
                    self.fail("order", "fiber %d ran before it was spawned" % f)
                started[f] = n
                at[f] = self.skip(f, 0)
            elif tag == "b":
                o = parse(rest)
                f, pc = o[1], o[2]
                if f not in started or f in inside or at[f] != pc or f in done:
                    self.fail("order", "event %d: fiber %d begins step %d, but it is %s" %
                              (n, f, pc, "inside step %d" % at[f] if f in inside else "at step %s" % at.get(f)))
                if pc >= len(self.progs[f]):
                    self.fail("order", "event %d: fiber %d has no step %d" % (n, f, pc))
                inside[f] = n
                i = self.progs[f][pc]
                a = self.alts(f, pc, i)
                if a is not None:
                    op = dict(f=f, pc=pc, alts=a, b=n, e=None, res=None, i=i)
                    self.ops.append(op)
                    openop[f] = op
                if i[0] == "sp":
                    if i[1] in spawned:
                        self.fail("order", "program spawns %d twice" % i[1])
                    spawned[i[1]] = n
            elif tag == "e":
                o = to_list(parse(rest))
                f, pc, res = o[0], o[1], o[2]
                if f not in inside or at[f] != pc or f in done:
                    self.fail("twice" if f in started and at[f] != pc else "order",
                              "event %d: step %d of fiber %d completes, but the fiber is %s" %
                              (n, pc, f, "inside step %d" % at[f] if f in inside else "at step %s" % at.get(f)))
                i = self.progs[f][pc]
                if f in openop:
                    openop[f].update(e=n, res=py(res))
                    del openop[f]
                elif i[0] == "y":
                    self.yields.append((f, inside[f], n))
                elif i[0] == "st":
                    self.stk.append((n, f, to_list(res)))
                del inside[f]
                at[f] = self.skip(f, pc + 1)
            elif tag == "D":
                f = int(rest)
                if f in inside or f in done or at.get(f) != len(self.progs[f]):
                    self.fail("order", "fiber %d ends at step %s of %d" % (f, at.get(f), len(self.progs[f])))
                done[f] = n
            elif tag == "ret":
                ret = n
            elif tag != "result":
                self.fail("log", "unexpected line %r" % ln[:100])
        if ret is None:
            self.fail("stuck", "the scheduler did not return")
        for f in spawned:
            if f < nf and f not in started:
                self.fail("lost", "fiber %d was spawned and never ran" % f)
        for f in started:
            if f in done:
                continue
            if f in inside and f in openop:
                continue
            self.fail("lost", "fiber %d stopped at step %s (%s) although it was not waiting" %
                      (f, at[f], self.progs[f][at[f]] if at[f] < len(self.progs[f]) else "end"))
        self.started, self.done = started, done

    def skip(self, f, pc):
        while pc < len(self.progs[f]) and self.progs[f][pc][0] == "deep":
            pc += 1
        return pc

    def classify(self):
        """Which alternative did every completed operation take? Results of bare choices can be ambiguous: resolved by counting."""
        amb = []
        for op in self.ops:
            op["took"] = None
            if op["e"] is None:
                continue
            cand = []
            for a in op["alts"]:
                kind, ch, sent, fn = a
                if kind == "s":
                    if op["res"] == fn(None):
                        cand.append(a)
                elif kind == "x":
                    if op["res"] == fn(ext_val(op["f"], op["pc"])):
                        cand.append(a)
                else:
                    v = self.unwrap(op, a)
                    if v is not NOPE:
                        cand.append(a)
            if not cand:
                self.fail("value", "step %d of fiber %d (%s) returned %r, which no branch gives" % (op["pc"], op["f"], unsx(op["i"]), op["res"]))
            if len(cand) > 1 and len({(a[0], a[1], a[2]) for a in cand}) > 1:
                amb.append(op)
                op["cand"] = cand
            op["took"] = cand[0]
        self.amb = amb
        return not amb

    def unwrap(self, op, a):
        """For a receive branch: the received value from the result, NOPE when the result has the wrong shape, ANY when the wrapper dropped it."""
        i, res = op["i"], op["res"]
        o = i[0]
        if o in ("r", "cb"):
            return res
        if o == "w":
            return unwrap1(i[1], res)
        k = op["alts"].index(a)
        if o == "cw":
            res = unwrap1(i[1], res)
            if res is NOPE or res is ANY:
                return res
        if isinstance(res, tuple) and len(res) == 3 and res[0] == "l" and len(res[1]) == 2 and res[2] is None and res[1][0] == k:
            return res[1][1]
        return NOPE

    def pair(self):
        """On each channel the k-th completed send (by the time it began) meets the k-th completed receive."""
        sends, recvs = {}, {}
        for op in sorted((o for o in self.ops if o["took"]), key=lambda o: o["b"]):
            k = op["took"][0]
            if k == "s":
                sends.setdefault(op["took"][1], []).append(op)
            elif k == "r":
                recvs.setdefault(op["took"][1], []).append(op)
        for c in sorted(set(sends) | set(recvs)):
            s, r = sends.get(c, []), recvs.get(c, [])
            for k in range(max(len(s), len(r))):
                if k >= len(s):
                    self.fail("conserve", "channel %d: step %d of fiber %d received a value, but only %d sends completed" % (c, r[k]["pc"], r[k]["f"], len(s)))
                if k >= len(r):
                    self.fail("conserve", "channel %d: the send of step %d of fiber %d completed, but only %d receives did" % (c, s[k]["pc"], s[k]["f"], len(r)))
                a, b = s[k], r[k]
                got = self.unwrap(b, b["took"])
                if got is not ANY and got != a["took"][2]:
                    self.fail("fifo", "channel %d: receive %d (step %d of fiber %d) got %r, the %d. send (step %d of fiber %d) sent %r" %
                              (c, k + 1, b["pc"], b["f"], got, k + 1, a["pc"], a["f"], a["took"][2]))
                if a["e"] < b["b"] or b["e"] < a["b"]:
                    self.fail("rendezvous", "channel %d: a send and a receive that met do not overlap (fiber %d step %d, fiber %d step %d)" %
                              (c, a["f"], a["pc"], b["f"], b["pc"]))
                if a["f"] == b["f"]:
                    self.fail("self", "channel %d: fiber %d met itself" % (c, a["f"]))
        self.sends, self.recvs = sends, recvs

    def waiting(self):
        ws, wr = {}, {}
        for op in self.ops:
            if op["e"] is not None:
                continue
            for a in op["alts"]:
                if a[0] == "x":
                    self.fail("stuck", "step %d of fiber %d waits for an external event, and the scheduler returned" % (op["pc"], op["f"]))
                (ws if a[0] == "s" else wr).setdefault(a[1], []).append(op)
        for c in set(ws) & set(wr):
            for a in ws[c]:
                for b in wr[c]:
                    if a["f"] != b["f"]:
                        self.fail("stuck", "channel %d: fiber %d waits to send and fiber %d waits to receive when the scheduler returns" % (c, a["f"], b["f"]))
        for wait, com, what in ((ws, self.sends, "send"), (wr, self.recvs, "receive")):
            for c, l in wait.items():
                for w in l:
                    for o in com.get(c, []):
                        if o["b"] > w["b"] and o["f"] != w["f"]:
                            self.fail("overtake", "channel %d: the %s of fiber %d step %d never completed, one that began later did (fiber %d step %d)" %
                                      (c, what, w["f"], w["pc"], o["f"], o["pc"]))

    def fair(self, limit):
        # turns: ends of yields
        ends = {}
        for f, b, e in self.yields:
            ends.setdefault(f, []).append(e)

        def check(f, lo, hi, what, limit=limit):
            for g, l in ends.items():
                if g == f:
                    continue
                n = sum(1 for e in l if lo < e < hi)
                if n > limit:
                    self.fail("starve", "fiber %d (%s) was runnable while fiber %d got %d turns" % (f, what, g, n))
        for f, b, e in self.yields:
            check(f, b, e, "yield")
        for op in self.ops:
            if op["took"] and op["took"][0] == "x":
                check(op["f"], op["b"], op["e"], "an event it waits for had arrived", limit + 3 * self.plan.cfg.get("extn", 0) + 60)
        for c in set(self.sends) | set(self.recvs):
            for a, b in zip(self.sends.get(c, []), self.recvs.get(c, [])):
                lo = min(a["e"], b["e"])
                check(a["f"], lo, a["e"], "its send met a receive")
                check(b["f"], lo, b["e"], "its receive met a send")


NOPE, ANY = object(), object()


def unwrap1(w, res):
    if w == 2:
        return ANY if res == ("b", False) else NOPE
    if w == 1:
        if isinstance(res, tuple) and res[0] == "l" and res[1][0] == ("y", "w"):
            if len(res[1]) == 1:
                return res[2]
            return ("l", res[1][1:], res[2])
        return NOPE
    if isinstance(res, tuple) and res[0] == "l" and len(res[1]) == 2 and res[2] is None and res[1][0] == w:
        return res[1][1]
    return NOPE


class CmlCheck(Check):
    modules = ["work/cml"]
    real, stub = REAL, STUB
    technique = "deterministic simulation: seeded fiber programs, choice orders, event arrivals and GC schedules; history checked against rendezvous semantics"
    rule = "distinct hash of (status, event log); a run is non-trivial when at least one send met a receive"
    assumptions = ["x86-64, gcc -O1, one VM per process", "fibers of one VM are cooperative: they switch at yield and at blocking operations only"]
    quick_runs, thorough_runs = 4000, 300000
    quick_wall, thorough_wall = 45, 780
    fair_limit = 3

    def knobs(self, rng):
        cfg = {"main": "work/cml#main", "cpu": 30}
        H.gcknobs(rng, cfg)
        return cfg

    def sources(self, rng, cfg, choices):
        cfg["ext"] = rng.choice(choices)
        cfg["extn"] = rng.choice([1, 2, 6, 20])
        cfg["dep"] = rng.choice([0, 1, 2]) if cfg["ext"] == 2 else 0

    def sanitize(self, p):
        n = len(p.ops)
        seen = {0}
        ops = []
        for o in p.ops:
            if not o.startswith("fib"):
                return None
            items = []
            for i in sx(o)[1:]:
                if i[0] == "sp":
                    if i[1] >= n or i[1] in seen:
                        continue
                    seen.add(i[1])
                items.append(i)
            ops.append("fib " + " ".join(unsx(i) for i in items))
        return p.copy(ops=ops)

    def ops_shrink(self, best, fails, end):
        """Drop single instructions of fibers."""
        import time
        f = 0
        while f < len(best.ops):
            items = sx(best.ops[f])[1:]
            k = 0
            while k < len(items) and time.time() < end:
                cand = items[:k] + items[k + 1:]
                ops = list(best.ops)
                ops[f] = "fib " + " ".join(unsx(i) for i in cand)
                got = fails(best.copy(ops=ops))
                if got is not None:
                    best, items = got, sx(got.ops[f])[1:]
                else:
                    k += 1
            f += 1
        return best

    def judge(self, plan, res):
        v = status_violation(res)
        if v:
            return v
        h = Hist(plan, res.lines)
        try:
            h.read()
            if h.classify():
                h.pair()
                h.waiting()
                h.fair(self.fair_limit)
            else:
                self.counts(h)
            self.extra(h, plan)
        except Bad as b:
            return b.args[0]
        return None

    def counts(self, h):
        pass

    def extra(self, h, plan):
        pass

    def nontrivial(self, plan, res):
        return any(l.startswith("e ") for l in res.lines)


class Gen:
    def __init__(self, rng, nf, nch, length, ext=0, special=0.2, choice=0.0, wrapp=0.2, yieldp=0.1, deep=0.05, gc=0.1, skew=None):
        self.rng = rng
        self.p = dict(nf=nf, nch=nch, length=length, ext=ext, special=special, choice=choice, wrapp=wrapp, yieldp=yieldp, deep=deep, gc=gc)

    def prim(self, allowx=True):
        rng, p = self.rng, self.p
        x = rng.random()
        if p["ext"] and allowx and x < 0.12:
            return ["x", rng.randrange(p["ext"])]
        c = rng.randrange(p["nch"])
        if rng.random() < 0.5:
            return ["s", c, rng.randrange(1, 10) if rng.random() < p["special"] else 0]
        return ["r", c]

    def instr(self):
        rng, p = self.rng, self.p
        x = rng.random()
        if x < p["yieldp"]:
            return ["y"]
        if rng.random() < p["gc"]:
            return ["g", rng.choice([1, 10, 60])]
        if rng.random() < p["deep"]:
            return ["deep", rng.choice([1, 10, 100])]
        if rng.random() < p["choice"]:
            n = rng.choice([1, 2, 2, 2, 3, 3, 4])
            bs = [self.prim() for _ in range(n)]
            if rng.random() < p["wrapp"]:
                return ["cw", rng.choice([1, 2, 3])] + bs
            return ["c"] + bs
        i = self.prim()
        if rng.random() < p["wrapp"]:
            return ["w", rng.choice([1, 2, 3]), i]
        return i

    def program(self):
        rng, p = self.rng, self.p
        nf = p["nf"]
        progs = [[] for _ in range(nf)]
        for f in range(nf):
            n = rng.randrange(1, p["length"] + 1)
            progs[f] = [self.instr() for _ in range(n)]
        # spawn tree: fiber f is spawned by an earlier one
        for f in range(1, nf):
            g = 0 if rng.random() < 0.7 else rng.randrange(f)
            progs[g].insert(rng.randrange(0, min(len(progs[g]), 4) + 1), ["sp", f])
        return ["fib " + " ".join(unsx(i) for i in pr) for pr in progs]


def balance(rng, ops):
    """Extra fibers that send or receive what is missing, so that most programs run to completion."""
    need = {}
    for o in ops:
        for i in sx(o)[1:]:
            if i[0] == "w":
                i = i[2]
            if i[0] in ("s", "r"):
                need[i[1]] = need.get(i[1], 0) + (1 if i[0] == "s" else -1)
    nf = len(ops)
    new = []
    for c, n in need.items():
        if n:
            new.append("fib " + " ".join(["(r %d)" % c if n > 0 else "(s %d 0)" % c] * abs(n)))
    if new:
        ops = list(ops)
        ops[0] = "fib " + " ".join("(sp %d)" % (nf + k) for k in range(len(new))) + " " + ops[0][4:]
        ops += new
    return ops


class P08(CmlCheck):
    """Channels."""
    id = "P08"

    def gen(self, rng, i, tier):
        cfg = self.knobs(rng)
        cfg["ext"], cfg["extn"], cfg["dep"] = (0, 2, 0) if rng.random() < 0.7 else (1, 8, 0)
        g = Gen(rng, rng.choice([2, 3, 4, 6, 10]), rng.choice([1, 1, 2, 3]), rng.choice([4, 10, 25]), ext=cfg["ext"],
                choice=0, special=rng.choice([0, 0.3]), yieldp=rng.choice([0.02, 0.2]))
        ops = g.program()
        if rng.random() < 0.6:
            ops = balance(rng, ops)
        return Plan(cfg, ops)


class P09(CmlCheck):
    """Choice commits exactly one branch."""
    id = "P09"

    def gen(self, rng, i, tier):
        cfg = self.knobs(rng)
        self.sources(rng, cfg, [0, 0, 1, 2])
        g = Gen(rng, rng.choice([2, 3, 4, 6, 10]), rng.choice([1, 2, 2, 3, 4]), rng.choice([4, 10, 25]), ext=cfg["ext"],
                choice=rng.choice([0.2, 0.5, 0.9]), special=rng.choice([0, 0.2]), yieldp=rng.choice([0.02, 0.2]))
        return Plan(cfg, g.program())


class P10(CmlCheck):
    """Scheduling: progress, fairness, constant stack."""
    id = "P10"
    assumptions = CmlCheck.assumptions + ["a runnable fiber may wait while every other fiber takes up to %d turns" % CmlCheck.fair_limit]

    def gen(self, rng, i, tier):
        cfg = self.knobs(rng)
        self.sources(rng, cfg, [0, 1, 2, 2])
        if i % 3:
            g = Gen(rng, rng.choice([2, 4, 8, 14]), rng.choice([1, 2, 3]), rng.choice([10, 30]), ext=cfg["ext"],
                    choice=rng.choice([0, 0.2]), yieldp=rng.choice([0.3, 0.6, 0.9]), gc=0.03)
            return Plan(cfg, g.program())
        # marathon: long-lived fibers; the stack must not grow with the number of switches
        n = rng.choice([60, 200, 400])
        kind = rng.randrange(6)
        st = lambda k: ["(st)"] if k % max(1, n // 6) == 3 else []
        if kind == 0:
            a = [x for k in range(n) for x in ["(s 0 0)", "(r 1)"] + st(k)]
            b = [x for k in range(n) for x in ["(r 0)", "(s 1 0)"] + st(k)]
            progs = [["(sp 1)"] + a, b]
        elif kind == 1:
            progs = [["(sp 1)", "(sp 2)"]] + [[x for k in range(n) for x in ["(y)"] + st(k)] for _ in range(2)]
        elif kind == 2:
            cfg["ext"] = max(1, cfg["ext"])
            progs = [["(sp 1)"]] + [[x for k in range(n) for x in ["(x 0)"] + st(k)] for _ in range(1)]
        elif kind == 3:
            a = [x for k in range(n) for x in ["(c (s 0 0) (s 1 0))", "(y)"] + st(k)]
            b = [x for k in range(n) for x in ["(c (r 0) (r 1))"] + st(k)]
            progs = [["(sp 1)"] + a, b]
        elif kind == 4:
            # an event source next to fibers that never stop yielding
            cfg["ext"], cfg["dep"] = max(1, cfg["ext"]), 0
            progs = [["(sp 1)", "(sp 2)", "(x 0)"] + st(3) + ["(x 0)"], [x for k in range(n) for x in ["(y)"] + st(k)], ["(x 0)", "(y)"] * 10]
        else:
            # two sources, one of which waits for the other
            cfg["ext"], cfg["dep"] = 2, rng.choice([1, 2])
            progs = [["(sp 1)", "(sp 2)", "(sp 3)"]] + [["(x %d)" % (f % 2)] * rng.choice([1, 5, 30]) for f in range(3)]
        cfg["marathon"] = 1
        return Plan(cfg, ["fib " + " ".join(p) for p in progs])

    def extra(self, h, plan):
        if plan.cfg.get("marathon"):
            if len(h.stk) > 1:
                first = h.stk[0][2]
                for n, f, s in h.stk:
                    # [try marks, call frames, segments] in the order of sim-stack
                    if s[0] > first[0] + 6 or s[1] > first[1] + 24 or s[2] > first[2] + 8:
                        raise Bad(("stack", "stack use grew from %s to %s while fibers only switched (fiber %d)" % (first, s, f)))

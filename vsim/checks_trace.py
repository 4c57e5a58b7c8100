"""P23: tracing: what is written is what was called, and nothing else changes."""
import sys
from .runner import Check, Plan, status_violation
from . import heapmodel as H
from .simlog import parse, py, to_list
from .checks_cml import Bad
from .checks_io import tok
from .checks_lib import sh, Sym, read_op

sys.setrecursionlimit(20000)
LIMIT = 100000       # calls in a run


class Bang(Exception):
    pass


class TooLong(Exception):
    pass


class Model:
    """the functions of work/tr, every call of one through its name"""
    ONE = ("inc", "fib", "sum", "even", "odd", "bump", "safe", "again", "many", "lst", "mk1")

    def __init__(self):
        self.env = {n: n for n in ("inc", "fib", "sum", "even", "odd", "loop", "add3", "twice", "bump", "boom", "safe", "again", "many",
                                   "each", "mk", "over", "part", "joins", "lst", "string-append",
                                   "mkadd", "mkpair", "cadd", "cpair", "clos")}
        self.tab, self.out, self.on, self.calls = {}, None, None, 0
        self.files = {}

    def full(self, n):
        return ("cora/init#" if n == "string-append" else "work/tr#") + n

    def c(self, n, *a):
        return self.ap(self.env[n], *a)

    def ap(self, f, *a):
        self.calls += 1
        if self.calls > LIMIT:
            raise TooLong
        if isinstance(f, tuple) and f[0] == "part":
            return self.ap(f[1], *(f[2] + a))
        if callable(f):
            return f(*a)
        need = {"loop": 2, "add3": 3, "twice": 2, "over": 2, "part": 3, "joins": 2, "string-append": 2, "cpair": 2}
        n = f
        while isinstance(n, tuple):
            n = n[1]
        k = need.get(n, 1)
        if len(a) < k:
            return ("part", f, a)
        if len(a) > k:
            return self.ap(self.ap(f, *a[:k]), *a[k:])
        while isinstance(f, tuple):
            if self.on is not None:
                self.on.append(self.full(n))
            f = f[1]
        return getattr(self, "f_" + f.replace("-", "_"))(*a)

    def f_inc(self, x): return x + 1
    def f_sum(self, n): return 0 if n == 0 else n + self.c("sum", n - 1)
    def f_even(self, n): return True if n == 0 else self.c("odd", n - 1)
    def f_odd(self, n): return False if n == 0 else self.c("even", n - 1)
    def f_loop(self, n, acc): return acc if n == 0 else self.c("loop", n - 1, self.c("inc", acc))
    def f_add3(self, a, b, c): return a + b * c
    def f_twice(self, f, x): return self.ap(f, self.ap(f, x))
    def f_bump(self, n): return self.c("twice", self.env["inc"], n)
    def f_each(self, l): return tuple(self.ap(f, x) for f in [self.env["inc"]] for x in l)
    def f_mk(self, n): return lambda x: self.c("add3", n, self.c("inc", x), 2)
    def f_over(self, a, b): return self.c("mk", a, b)
    def f_joins(self, n, s): return s if n == 0 else self.c("joins", n - 1, self.c("string-append", s, b"ab"))
    def f_mkadd(self, k): return lambda x: self.c("inc", x + k)
    def f_cadd(self, x): return self.c("inc", x + 7)
    def f_clos(self, n): return self.c("cadd", self.c("cadd", n))

    def f_cpair(self, x, y):
        f = self.c("mkadd", 4)
        return (self.ap(f, x), 4, y)

    def f_string_append(self, a, b): return a + b

    def f_fib(self, n):
        return n if n < 2 else self.c("fib", n - 1) + self.c("fib", n - 2)

    def f_lst(self, n):
        if n == 0:
            return ()
        x = self.c("inc", n)
        return (x,) + self.c("lst", n - 1)

    def f_boom(self, n):
        if n == 0:
            if self.resume is None:
                raise Bang
            return self.resume()
        return 1 + self.c("boom", n - 1)

    resume = None

    def f_safe(self, n):
        old, self.resume = self.resume, None
        try:
            return self.c("boom", n)
        except Bang:
            return (Sym("bang"), n)
        finally:
            self.resume = old

    def f_again(self, n):
        # the handler runs (inc n) and goes on where the throw was
        old, self.resume = self.resume, lambda: self.c("inc", n)
        try:
            return self.c("boom", n) + self.c("inc", n)
        finally:
            self.resume = old

    def f_many(self, a):
        b = self.c("inc", a)
        c = self.c("add3", a, b, 1)
        d = self.c("inc", c)
        e = (self.c("inc", d), b)
        return (a, b, c, d, e, self.c("inc", a))

    def f_part(self, a, b, c):
        f = self.c("add3", a)
        g = self.ap(f, b)
        x = self.ap(g, c)
        return x + self.ap(g, a)

    # ---- ops

    def step(self, o):
        k = o[0]
        if k == "c":
            return self.c(self.name(o[1]), *o[2])
        if k == "t":
            n = self.name(o[1])
            self.env[n] = ("wrap", self.env[n])
            return Sym("ok")
        if k == "u":
            n = self.name(o[1])
            if isinstance(self.env[n], tuple):
                self.env[n] = self.env[n][1]
                return Sym("ok")
            return Sym("none")
        if k == "h":
            self.tab[o[2]] = self.env[self.name(o[1])]
            return Sym("ok")
        if k == "p":
            self.tab[o[2]] = self.ap(self.env[self.name(o[1])], o[3])
            return Sym("ok")
        if k == "a":
            if o[1] not in self.tab:
                raise ValueError
            return self.ap(self.tab[o[1]], *o[2])
        if k == "on":
            self.on = self.files[o[1]] = []
            return True
        if k in ("off", "z"):
            self.on = None
            return True
        return ()

    def name(self, b):
        n = b.decode().split("#")[1]
        if n not in self.env:
            raise ValueError
        return n


def digest(l):
    h = 0x811c9dc5
    for n in l:
        for c in n.encode() + b"\n":
            h = ((h ^ c) * 0x100000001b3) & 0xffffffff
    return h


class P23(Check):
    id = "P23"
    modules = ["work/tr"]
    real = ["lib/trace.c, src/trace.c, src/trace.h", "src/*.c (VM, collector)", "glibc stdio buffering"]
    stub = ["open, write, close below stdio (short writes, EIO, ENOSPC, EMFILE)", "the clock", "when a GC cycle starts and how many mark steps each allocation does"]
    technique = "deterministic simulation: seeded search over histories of calls and tracing, write faults and collection schedules, against a model that counts every call"
    quick_runs, thorough_runs = 8000, 1000000
    quick_wall, thorough_wall = 40, 780
    rule = "distinct hash of (status, event log); a run is non-trivial when a trace file with calls was read back"
    assumptions = ["function names of up to 255 bytes"]
    NAMES = ["inc", "fib", "sum", "even", "odd", "loop", "add3", "twice", "bump", "boom", "safe", "again", "many", "each", "mk", "over", "part", "joins", "lst", "string-append",
             "mkadd", "cadd", "cpair", "clos"]

    def args(self, rng, n):
        small = rng.choice([0, 1, 2, 3, 5, 8])
        if n == "fib":
            return (rng.choice([0, 1, 4, 6, 9] + ([17] if rng.random() < 0.1 else [])),)
        if n in ("sum", "even", "odd", "boom", "safe", "again", "lst"):
            return (rng.choice([small, small, 40, 300]),)
        if n == "loop":
            return (rng.choice([small, 50, 400]), rng.randint(-5, 5))
        if n in ("add3", "part"):
            return tuple(rng.randint(-9, 9) for _ in range(3))
        if n == "cpair":
            return (small, rng.randint(-9, 9))
        if n == "over":
            return (small, rng.randint(-9, 9))
        if n in ("mk", "mkadd"):
            return (small, rng.randint(0, 9))
        if n == "joins":
            return (rng.choice([0, 1, 4, 20]), rng.choice([b"", b"x"]))
        if n == "string-append":
            return (b"a", b"bc")
        if n == "each":
            return (tuple(rng.randint(-9, 9) for _ in range(rng.choice([1, 3, 9]))),)
        return (rng.randint(-9, 9),)

    def gen(self, rng, i, tier):
        cfg = {"main": "work/tr#main", "fs": 1, "stdout": 1, "cpu": 30, "tickcap": 6000000}
        if rng.random() < 0.6:
            H.gcknobs(rng, cfg)
        else:
            cfg["gcmode"], cfg["reach"] = 0, 1000
        cfg["p_short"] = rng.choice([0, 0, 300, 1000])
        if rng.random() < 0.2:
            cfg["f_write"] = rng.choice([50, 500])
            cfg["f_openw"] = rng.choice([0, 100])
            cfg["f_close"] = rng.choice([0, 100])
            cfg["maxfault"] = rng.choice([1, 2])
        m, ops = Model(), []
        names = rng.sample(self.NAMES, rng.choice([2, 4, 8, 20]))
        if "boom" in names:
            names += ["safe", "again"]
        files = [b"t%d" % k for k in range(rng.choice([1, 2, 3]))]
        big = rng.random() < 0.03 and cfg["gcmode"] == 0
        pre = []
        if big:     # more than the trace buffer holds
            pre = ["t " + tok(m.full("fib").encode()), "on " + tok(files[0]), "c %s (%d)" % (tok(m.full("fib").encode()), rng.choice([19, 20])),
                   "c %s (%d)" % (tok(m.full("fib").encode()), rng.choice([3, 17, 19]))]
        elif rng.random() < 0.7:
            pre = ["t " + tok(m.full(rng.choice(names)).encode()) for _ in range(rng.choice([1, 2, 4]))] + ["on " + tok(rng.choice(files))]
        for op in pre:
            m.step(read_op(op))
            ops.append(op)
        for _ in range(rng.choice([6, 15, 40])):
            k = rng.random()
            n = rng.choice(names)
            q = tok(m.full(n).encode())
            if k < 0.2:
                op = "t " + q
            elif k < 0.28:
                op = "u " + q
            elif k < 0.36:
                op = "on " + tok(rng.choice(files))
            elif k < 0.42:
                op = "off"
            elif k < 0.48:
                op = "f " + tok(rng.choice(files))
            elif k < 0.54:
                op = "h %s %d" % (q, rng.randrange(8))
            elif k < 0.58:
                n = rng.choice(["add3", "mk", "over", "loop", "part", "cpair"])
                op = "p %s %d %d" % (tok(m.full(n).encode()), rng.randrange(8), rng.choice([0, 1, 5]))
            elif k < 0.65:
                s = [x for x in m.tab]
                if not s:
                    continue
                s = rng.choice(s)
                f, pre = m.tab[s], 0
                if callable(f):
                    a = (rng.randint(0, 9),)
                else:
                    while isinstance(f, tuple):
                        pre += len(f[2]) if f[0] == "part" else 0
                        f = f[1]
                    if f == "boom" or f == "twice":
                        continue
                    a = self.args(rng, f)[pre:]
                op = "a %d %s" % (s, tok(a))
            elif k < 0.68:
                op = "g %d" % rng.choice([20, 300])
            elif n in ("boom", "twice"):
                continue
            else:
                a = self.args(rng, n)
                op = "c %s %s" % (q, tok(a))
            try:
                m.step(read_op(op))
            except TooLong:
                break
            ops.append(op)
        ops.append(rng.choice(["off", "z"]))     # z: the program ends
        ops += ["f " + tok(x) for x in files]
        return Plan(cfg, ops)

    def sanitize(self, plan):
        m, ops = Model(), []
        for t in plan.ops:
            try:
                m.step(read_op(t))
            except TooLong:
                break
            except (ValueError, TypeError, IndexError, Bang):
                continue
            ops.append(t)
        return plan.copy(ops=ops) if ops else None

    def judge(self, plan, res):
        v = status_violation(res)
        if v:
            return v
        try:
            self.judge1(plan, res)
        except Bad as b:
            return b.args[0]
        return None

    def judge1(self, plan, res):
        ops = [read_op(t) for t in plan.ops]
        m, cur, trace, stack, unsure, want, open_ = Model(), None, None, [], set(), None, None
        for ln in res.lines:
            w, _, rest = ln.partition(" ")
            if w == "op":
                cur = to_list(parse(rest))[0]
                was = open_
                want = m.step(ops[cur])
                if ops[cur][0] == "on":
                    unsure.discard(ops[cur][1])
                    open_ = ops[cur][1]
                elif ops[cur][0] in ("off", "z"):
                    open_ = None
            elif w == "fault":
                unsure |= {was, open_}      # the file being written or closed, and the one being opened
            elif w == "trace":
                trace = rest
            elif w == "r":
                o = ops[cur]
                what = "op %d (%s)" % (cur, plan.ops[cur][:100])
                if o[0] == "g":
                    continue
                if o[0] == "f":
                    self.file(m, o[1], trace, unsure, what, open_)
                    continue
                got = py(parse(rest)) if not (len(rest) < 30 and rest[:1] == "h" and ":" in rest) else None
                if got is not None and got != sh(want):
                    raise Bad(("value", "%s gave %s, expected %s" % (what, str(got)[:200], str(sh(want))[:200])))
            elif w == "files" and rest != "0" and not unsure:
                raise Bad(("files", "%s files are open at the end" % rest))
            elif w == "stack":
                stack.append(rest)
        if len(stack) == 2 and stack[0] != stack[1]:
            raise Bad(("stack", "the stack is %s deep before and %s after" % tuple(stack)))

    def file(self, m, name, trace, unsure, what, open_):
        if name in unsure or name == open_:
            return
        if name not in m.files:
            if trace != "none":
                raise Bad(("file", "%s: there is a file, tracing to it was never enabled" % what))
            return
        if trace == "none":
            raise Bad(("file", "%s: there is no file" % what))
        if trace.startswith("bad"):
            raise Bad(("events", "%s: %s" % (what, trace[4:])))
        l = m.files[name]
        t = trace.split(" ")
        if int(t[0]) != len(l) or int(t[1], 16) != digest(l):
            raise Bad(("calls", "%s: the file says %s calls (%s…), there were %d (%s…)" % (what, t[0], " ".join(t[2:10]), len(l), " ".join(l[:8]))))

    def nontrivial(self, plan, res):
        return any(l.startswith("trace ") and l[6:7].isdigit() and l[6:8] != "0 " for l in res.lines)

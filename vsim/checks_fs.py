"""P14..P16: packages, files, the compiler and other processes: simulated file system, crashes, judged from the recorded history."""
import re
from .runner import Check, Plan, status_violation
from . import heapmodel as H
from .simlog import parse, to_list, Sym
from .checks_cml import Bad

REAL = ["src/runtime.c import, load, load-so, the freshness test", "lib/toc.cora, init.cora: reader to C text (the real compiler)",
        "src/reader.c, lib/io.c", "gcc (its output for a C text is kept and reused between runs)", "src/*.c (VM, collector)"]
STUB = ["stdio, open, stat, rename, unlink, utimensat, mkdir, mkstemp (short reads, EIO, ENOSPC, EMFILE, failing close, torn writes)",
        "the running of gcc: its output appears in steps, and it can fail, be killed or not start", "which process runs next, process crashes, edits of source files by other programs",
        "clock and file times", "when a GC cycle starts and how many mark steps each allocation does"]

# some names are prefixes of others, of those that import them and of those they import
MODS = ["a", "b", "c", "d", "e", "ab", "cd"]
DEPS = {"ab": ["a", "a b", "d"], "a": ["b", "b c", ""], "b": ["c", "d", "c d"], "c": ["d", "", "e cd"], "cd": ["e", "", "d"], "d": ["e", "", ""], "e": ["", "", ""]}


ALL = "proc (i ab) (i a) (i b) (i c) (i cd) (i d) (i e)"


def deps_of(n, v):
    return DEPS[n][v % 3].split()


def source(n, v, how, filler, full=False):
    """The text of version v of package m/n."""
    t = ";" + "x" * filler + "\n" if filler else ""
    deps = deps_of(n, v)
    t += '(package "m/%s"\n (export %s)\n (import "work/sim")\n' % (n, "" if how == "noexp" else "ver-%s" % n)
    t += "".join(' (import "m/%s")\n' % d for d in deps)
    if how == "nodep":
        t += ' (import "m/zz")\n'
    t += " (sim-log 'body ['%s %d 0])\n" % (n, v)
    t += " (defun ver-%s () ['%s %d %s])\n" % (n, n, v, " ".join("(if (fs-bound 'm/%s#ver-%s) (%s) ())" % (d, d, ("(value 'm/%s#ver-%s)" if full else "ver-%s%.0s") % (d, d)) for d in deps))
    if how == "throw":
        t += " (throw 'boom)\n"
    t += " (sim-log 'body ['%s %d 1])" % (n, v)
    return t + ("\n" if how == "syntax" else ")\n")


def edit(n, v, how="ok", kind="atomic", filler=0, full=False):
    return "edit cp/pkg/m/%s.cora %s %d:%s %s" % (n, kind, v, how, source(n, v, how, filler, full).encode().hex())


class Src:
    """History of one source file: (line from, line to, version, how)."""

    def __init__(self):
        self.hist, self.dirty = [], []

    def current(self, a, b):
        return [h for h in self.hist if h[0] <= b and (h[1] is None or h[1] >= a)]

    def is_dirty(self, a, b):
        return any(x <= b and (y is None or y >= a) for x, y in self.dirty)

    def put(self, n, v, how):
        if self.hist:
            self.hist[-1][1] = n
        self.hist.append([n, None, v, how])


class Proc:
    def __init__(self, i, line, calm, phase):
        self.i, self.start, self.calm, self.phase = i, line, calm, phase
        self.running, self.cur, self.imported, self.loaded = [], {}, set(), set()
        self.item = None
        self.tainted, self.threwin = False, set()
        self.faults = []
        self.begin = line
        self.stack = None
        self.done, self.end, self.over = False, None, None
        self.ccs, self.mixed = 0, False
        self.crashed = False


def vlist(o):
    l = to_list(o)
    return l


def verval(o):
    """('a 1 deps...) -> nested python"""
    l = to_list(o)
    if l is None:
        return None
    return [str(x) if isinstance(x, Sym) else verval(x) if isinstance(x, list) else x for x in l]


class Judge:
    def __init__(self, plan, lines):
        self.plan, self.lines = plan, lines
        self.src = {m: Src() for m in MODS}
        self.procs = {}
        self.soft, self.spans = None, []

    def fail(self, cls, msg):
        raise Bad((cls, msg))

    def reach(self, m, a, b):
        """packages that some version current in [a, b] leads to"""
        out, todo = set(), [m]
        while todo:
            x = todo.pop()
            if x in out or x not in self.src:
                continue
            out.add(x)
            for h in self.src[x].current(a, b):
                todo += list(deps_of(x, h[2]))
        return out

    def may_fail(self, p, m, a, b):
        if p.faults and p.faults[-1][0] >= a:
            return True
        if m not in self.src:
            return True
        for x in self.reach(m, a, b):
            s = self.src[x]
            if s.is_dirty(a, b) or not s.hist or s.hist[0][0] > a:
                return True
            if any(h[3] != "ok" for h in s.current(a, b)):
                return True
        return False

    def run(self):
        calm, phase = False, 0
        crashed = exits = False
        self.files = []
        for n, ln in enumerate(self.lines):
            w = ln.split(" ")
            if w[0] == "phase":
                calm, phase = len(w) > 1, phase + 1
            elif w[0] in ("edit", "edit-begin"):
                m = w[1][len("cp/pkg/m/"):-len(".cora")]
                s = self.src[m]
                if w[0] == "edit-begin":
                    s.dirty.append([n, None])
                else:
                    v, how = w[3].split(":")
                    s.put(n, int(v), how)
                    if s.dirty and s.dirty[-1][1] is None:
                        s.dirty[-1][1] = n
            elif w[0] == "start":
                self.procs[w[1]] = Proc(w[1], n, calm, phase)
            elif w[0] == "end":
                p = self.procs[w[1]]
                p.end = n
                if p.item is not None:
                    self.spans.append((p.begin, n, p))
                if self.dirty(p, n):
                    p.mixed = True  # what it read may be parts of two versions, and do anything
                if p.mixed:
                    pass
                elif w[2] == "signal" or w[2] not in ("0", "1", "77"):
                    self.fail("died", "process %s ended with %s" % (w[1], " ".join(w[2:])))
                if w[2] == "77":
                    crashed = True
                elif w[2] == "0" and not p.done and not p.mixed:
                    self.fail("died", "process %s ended before its work was done" % w[1])
                elif w[2] == "1" and not p.mixed:
                    exits = True
                    if p.item is None or not self.may_fail(p, p.item[1], p.begin, n):
                        self.fail("exit", "process %s gave up with exit(1) although nothing it needed was wrong" % w[1])
                p.item = None
            elif w[0] == "file":
                self.files.append(w[1])
            elif w[0][0] == "p" and w[0] in self.procs:
                self.event(n, self.procs[w[0]], w[1], " ".join(w[2:]))
        if not crashed and not any(p.mixed for p in self.procs.values()):
            for f in self.files:
                if not re.match(r"cp/pkg/m/(%s)\.(cora|so)$" % "|".join(MODS), f):
                    self.fail("leftover", "%s is left behind although no process crashed" % f)
        return self

    def dirty(self, p, n):
        return p.item is not None and any(self.src[x].is_dirty(p.begin, n) for x in self.reach(p.item[1], p.begin, n))

    def event(self, n, p, t, rest):
        if t[0] == "!" and t != "!proc":
            self.fail("self-check", "process %s: %s %s" % (p.i, t, rest))
        if p.mixed:
            return
        try:
            self.event1(n, p, t, rest)
        except Bad:
            if not self.dirty(p, n):
                raise
            p.mixed = True

    def event1(self, n, p, t, rest):
        if t == "fault":
            p.faults.append((n, rest.split(" ")[0]))
        elif t == "cc":
            p.ccs += 1
        elif t == "stack":
            if p.stack is None:
                p.stack = rest
            elif p.stack != rest:
                self.fail("stack", "process %s: the stack was %s and is %s after its imports" % (p.i, p.stack, rest))
        elif t == "files":
            if rest != "0":
                self.fail("files", "process %s has %s files open after its imports" % (p.i, rest))
        elif t == "done":
            p.done = True
        elif t == "crash":
            p.crashed = True
        elif t == "item":
            l = to_list(parse(rest))
            p.item, p.begin, p.itemended = (str(l[0]), str(l[1])), n, set()
        elif t == "body":
            l = to_list(parse(rest))
            (self.body_end if l[2] else self.body_start)(n, p, str(l[0]), l[1])
        elif t == "threw":
            self.threw(n, p, rest)
        elif t == "ret":
            self.ret(n, p, to_list(parse(rest)))
        elif t == "ver":
            self.ver(n, p, to_list(parse(rest)))

    def body_start(self, n, p, m, v):
        if any(self.src[x].is_dirty(p.begin, n) for x in self.reach(m, p.begin, n)):
            p.tainted = True
        if p.item is None:
            self.fail("order", "process %s runs the body of %s after its import returned" % (p.i, m))
        if p.running:
            self.fail("order", "process %s runs the body of %s inside that of %s, which imports it first" % (p.i, m, p.running[-1]))
        s = self.src[m]
        stale_ok = any(k == "stat" and x >= p.begin for x, k in p.faults)
        # an overlapping compile by another process may put what it read in place at any time before it ends
        a = p.begin
        for b, e, q in self.spans:
            if q is not p and e > p.begin:
                a = min(a, b)
        for q in self.procs.values():
            if q is not p and q.item is not None:
                a = min(a, q.begin)
        cur = s.current(a, n)
        # after a throw a package can run a second time: the system's loader then gives the code it already has under that name
        if v not in [h[2] for h in cur] and not stale_ok and (m, v) not in p.threwin:
            self.fail("stale", "process %s runs version %d of %s; between the call and now it was %s" % (p.i, v, m, [h[2] for h in cur]))
        load = p.item[0] == "l" and p.item[1] == m and not (m in p.itemended)
        if not load:
            if m in p.imported and not p.tainted:
                self.fail("twice", "process %s runs the body of %s a second time" % (p.i, m))
        for d in deps_of(m, v):
            if d not in p.imported and not p.tainted:
                msg = "process %s runs the body of %s before that of %s, which it imports" % (p.i, m, d)
                if self.may_fail(p, d, p.begin, n):  # importing d failed, for a reason
                    self.soft = self.soft or ("dep-failed", msg + ": a compiled package goes on when an import fails")
                    p.tainted = True
                else:
                    self.fail("order", msg)
        p.running.append((m, v, load))

    def body_end(self, n, p, m, v):
        if not p.running or p.running[-1][:2] != (m, v):
            self.fail("order", "process %s ends the body of %s version %d; running: %s" % (p.i, m, v, p.running))
        _, _, load = p.running.pop()
        if not load:
            p.imported.add(m)
        p.itemended.add(m)
        p.cur[m] = v

    def threw(self, n, p, rest):
        if rest != "y:boom":
            self.fail("throw", "process %s: the handler got %s, not what the package threw" % (p.i, rest))
        if not any(h[3] == "throw" for x in self.reach(p.item[1], p.begin, n) for h in self.src[x].current(p.begin, n)):
            self.fail("throw", "process %s: %s threw although no package it needs throws" % (p.i, p.item))
        for m, v, _ in p.running:
            p.cur.pop(m, None)
        p.threwin |= {(m, v) for m, v, _ in p.running}
        p.running = []

    def ret(self, n, p, l):
        kind, m, r = str(l[0]), str(l[1]), l[2]
        if (kind, m) != p.item:
            self.fail("order", "process %s: %s returned during %s" % (p.i, (kind, m), p.item))
        failed = isinstance(r, (int, float)) and not isinstance(r, bool)
        threw = to_list(r) == [Sym("threw")] if isinstance(r, list) else False
        if any(self.src[x].is_dirty(p.begin, n) for x in self.reach(m, p.begin, n)):
            p.tainted = True  # a file that is being written may be read as an empty package
        if p.running:
            self.fail("order", "process %s: %s returned inside the body of %s" % (p.i, p.item, p.running[-1]))
        p.item = None
        self.spans.append((p.begin, n, p))
        if threw:
            return
        if failed:
            if not self.may_fail(p, m, p.begin, n):
                self.fail("failed", "process %s: %s of %s failed with %s although nothing it needs was wrong" %
                          (p.i, "import" if kind == "i" else "load", m, r))
            return
        if p.tainted:
            return
        if m not in self.src:
            self.fail("success", "process %s: loading %s, which does not exist, succeeded" % (p.i, m))
        if self.src[m].is_dirty(p.begin, n):
            return
        if kind == "i" and m not in p.imported:
            self.fail("success", "process %s: import of %s succeeded, but its body never ran" % (p.i, m))
        if kind == "l" and m not in p.itemended:
            self.fail("success", "process %s: load of %s succeeded, but its body did not run" % (p.i, m))

    def expect(self, p, m):
        v = p.cur[m]
        return [m, v] + [self.expect(p, d) for d in deps_of(m, v)]

    def ver(self, n, p, l):
        m = str(l[0])
        if p.tainted or m not in p.cur:
            return
        try:
            want = self.expect(p, m)
        except KeyError as e:
            if p.threwin:
                return  # half loaded when it threw
            self.fail("version", "process %s: %s was loaded without %s" % (p.i, m, e))
        got = verval(l[1])
        if got != want:
            self.fail("version", "process %s: %s answers %s, what was loaded is %s" % (p.i, m, got, want))


class FsCheck(Check):
    modules = ["work/fs"]
    real, stub = REAL, STUB
    technique = "deterministic simulation: seeded search over process schedules, edits, I/O faults and crash points of many importing processes, against a model of the package history"
    quick_runs, thorough_runs = 1200, 100000
    quick_wall, thorough_wall = 60, 780
    rule = "distinct hash of (status, event log); a run is non-trivial when at least one package body ran and one compile happened"
    assumptions = ["rename replaces a file at once and file times do not go back", "a crash is that of a process: what it had written to files stays",
                   "source files are edited by replacing them, or in place; packages that are read while they are written in place may fail to load at that time"]

    def knobs(self, rng):
        cfg = {"main": "work/fs#proc-main", "fs": 1, "procs": 1, "cpu": 30, "tickcap": 400000}
        if rng.random() < 0.25:
            H.gcknobs(rng, cfg)
        else:
            cfg["gcmode"] = 0
            cfg["reach"] = 1000
        # whether packages call each other by full names: those compiled against one that was just being written keep working
        self.full = False
        cfg["bufsize"] = rng.choice([16, 64, 512, 4096, 4096])
        cfg["cpform"] = rng.choice([0, 0, 0, 1, 2, 3])
        cfg["p_short"] = rng.choice([0, 0, 20, 200])
        return cfg

    def version(self, rng, vers, n, bad=0.0, kinds=("atomic",)):
        vers[n] = vers.get(n, 0) + 1
        how = "ok"
        if rng.random() < bad:
            how = rng.choice(["throw", "throw", "nodep", "syntax"])
        return edit(n, vers[n], how, rng.choice(kinds), rng.choice([0, 0, 0, 100, 1500, 6000]), self.full)

    def initial(self, rng, vers, bad=0.0):
        return [self.version(rng, vers, m, bad) for m in MODS]

    def proc(self, rng, maxitems=4, loads=0.2):
        items = []
        for _ in range(rng.randrange(1, maxitems + 1)):
            items.append("(%s %s)" % ("l" if rng.random() < loads else "i", rng.choice(["a", "a", "a", "b", "b", "c", "d", "e", "ab", "ab", "cd"])))
            if rng.random() < 0.25:
                items.append(items[-1])
        return "proc " + " ".join(items)

    def ending(self, rng, vers, bad):
        """Everything is repaired; then one process imports it all, and another finds it compiled."""
        ops = ["phase"]
        for m in MODS:
            if m in bad:
                ops.append(self.version(rng, vers, m))
        return ops + ["phase", "calm", ALL, "phase", "calm", ALL]

    def bads(self, ops):
        last = {}
        for o in ops:
            if o.startswith("edit "):
                w = o.split(" ")
                last[w[1][len("cp/pkg/m/"):-5]] = w[3].split(":")[1]
        return [m for m, h in last.items() if h != "ok"]

    def judge(self, plan, res):
        v = status_violation(res)
        if v:
            return v
        j = Judge(plan, res.lines)
        try:
            j.run()
            last = [p for p in j.procs.values() if p.calm]
            if len(last) >= 2 and plan.cfg.get("again", 1):
                a, b = last[-2], last[-1]
                if a.done and a.phase < b.phase and b.ccs and not any(x for x in self.edits_after(res.lines, a.end)):
                    raise Bad(("again", "process %s compiles a package again although nothing changed since %s imported it" % (b.i, a.i)))
        except Bad as b:
            v = b.args[0]
            if v[0] == "died" and any(o.startswith("edit ") and o.split(" ")[3].endswith(":noexp") for o in plan.ops):
                return ("stale-dependent", v[1] + ": a package is not compiled again when the exports of one it imports change")
            return v
        return j.soft

    def known_match(self, k, v, plan, res):
        return v[0] == k.get("class")

    def edits_after(self, lines, n):
        return [l for l in lines[n:] if l.startswith("edit")]

    def nontrivial(self, plan, res):
        return res.stats.get("cc", 0) > 0 and any(" body " in l for l in res.lines)

    def ops_shrink(self, best, fails, end):
        import time
        k = 0
        while k < len(best.ops):
            o = best.ops[k]
            if o.startswith("proc "):
                items = re.findall(r"\([^)]*\)", o)
                x = 0
                while x < len(items) and len(items) > 1 and time.time() < end:
                    cand = items[:x] + items[x + 1:]
                    ops = list(best.ops)
                    ops[k] = "proc " + " ".join(cand)
                    g = fails(best.copy(ops=ops))
                    if g is not None:
                        best, items = g, cand
                    else:
                        x += 1
            k += 1
        return best


class P14(FsCheck):
    """One process at a time, with an editor at work."""
    id = "P14"

    def gen(self, rng, i, tier):
        cfg = self.knobs(rng)
        cfg["p_switch"] = rng.choice([0, 20, 100, 400])
        vers = {}
        bad = rng.choice([0, 0, 0.1, 0.3])
        kinds = rng.choice([("atomic",), ("atomic",), ("atomic", "inplace")])
        self.full = "inplace" in kinds
        ops = self.initial(rng, vers, bad)
        for _ in range(rng.choice([1, 2, 4, 7])):
            ops.append("phase")
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                ops.append(self.version(rng, vers, rng.choice(MODS), bad, kinds))
            if rng.random() < 0.5:
                ops.append("phase")
            ops.append(self.proc(rng))
        return Plan(cfg, ops + self.ending(rng, vers, self.bads(ops)))


class P15(FsCheck):
    """Faults and crashes."""
    id = "P15"

    def gen(self, rng, i, tier):
        cfg = self.knobs(rng)
        cfg["p_switch"] = rng.choice([0, 50])
        for k in ("read", "write", "close", "open", "openw", "stat", "rename", "mkdir", "utime", "dlopen", "cc"):
            if rng.random() < 0.35:
                cfg["f_" + k] = rng.choice([20, 100, 400])
        cfg["maxfault"] = rng.choice([1, 1, 2, 5, 100])
        if rng.random() < 0.6:
            cfg["p_crash"] = rng.choice([3, 10, 40])
            cfg["maxcrash"] = rng.choice([1, 1, 3])
        vers = {}
        bad = rng.choice([0, 0, 0.1])
        ops = self.initial(rng, vers, bad)
        for _ in range(rng.choice([1, 2, 4])):
            ops.append("phase")
            for _ in range(rng.choice([0, 0, 1, 2])):
                ops.append(self.version(rng, vers, rng.choice(MODS), bad))
            if rng.random() < 0.5:
                ops.append("phase")
            for _ in range(rng.choice([1, 1, 1, 2])):
                ops.append(self.proc(rng))
        return Plan(cfg, ops + self.ending(rng, vers, self.bads(ops)))


class P16(FsCheck):
    """Many processes at once."""
    id = "P16"

    def gen(self, rng, i, tier):
        cfg = self.knobs(rng)
        cfg["p_switch"] = rng.choice([20, 100, 300, 600])
        if rng.random() < 0.3:
            cfg["p_crash"] = rng.choice([3, 20])
            cfg["maxcrash"] = rng.choice([1, 2])
        vers = {}
        kinds = rng.choice([("atomic",), ("atomic",), ("atomic", "inplace")])
        self.full = "inplace" in kinds
        ops = self.initial(rng, vers)
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append("phase")
            for _ in range(rng.choice([0, 0, 1, 3])):
                ops.append(self.version(rng, vers, rng.choice(MODS), 0, kinds))
            for _ in range(rng.choice([2, 2, 3, 5])):
                ops.append(self.proc(rng))
        return Plan(cfg, ops + self.ending(rng, vers, self.bads(ops)))

"""P17: files, pipes and standard output of a program; the library's answers against a model, under I/O faults."""
import re
import sys
from .runner import Check, Plan, status_violation
from . import heapmodel as H
from .simlog import parse, to_list, Sym, py
from .checks_cml import Bad

sys.setrecursionlimit(60000)
SIZE = 1 << 20
_tab = None


def table():
    global _tab
    if _tab is None:
        b, x = bytearray(SIZE), 12345
        for i in range(SIZE):
            x = (x * 1103515245 + 12345) & 0xffffffff
            b[i] = (x >> 16) & 255
        _tab = bytes(b)
    return _tab


def gen_data(n, seed):
    o = (seed * 97) & (SIZE // 2 - 1)
    return table()[o:o + n]


_cache = {}


def fnv(b):
    if len(b) < 1000:
        return fnv1(b)
    if b not in _cache:
        if len(_cache) > 200:
            _cache.clear()
        _cache[b] = fnv1(b)
    return _cache[b]


def fnv1(b):
    h, p = 0x811c9dc5, 0x100000001b3
    for c in b:
        h = ((h ^ c) * p) & 0xffffffff
    return h


def tok(o):
    """op text for a value of the model: int, bytes, str (symbol), bool, None, tuple (list)"""
    if o is None:
        return "()"
    if isinstance(o, bool):
        return "#t" if o else "#f"
    if isinstance(o, bytes):
        return '"%s"' % o.hex()
    if isinstance(o, (tuple, list)):
        return "(" + " ".join(tok(x) for x in o) + ")"
    return str(o)


def shown(o):
    """what display prints"""
    if o is None or o == ():
        return b"()"
    if isinstance(o, bool):
        return b"true" if o else b"false"
    if isinstance(o, bytes):
        return b'"' + o + b'"'
    if isinstance(o, (tuple, list)):
        return b"(" + b" ".join(shown(x) for x in o) + b")"
    return str(o).encode()


def dotted(o):
    """what display prints for the improper list of these"""
    if len(o) == 1:
        return shown(o[0])
    t = o[-1]
    if isinstance(t, (tuple, list)):
        return b"(" + b" ".join(shown(x) for x in o[:-1] + t) + b")"
    return b"(" + b" ".join(shown(x) for x in o[:-1]) + (b")" if t is None else b" . " + shown(t) + b")")


def read_toks(s):
    """the inverse of tok for one op line: list of values"""
    pos, n = 0, len(s)
    stack = [[]]
    while pos < n:
        c = s[pos]
        if c == " ":
            pos += 1
        elif c == "(":
            stack.append([])
            pos += 1
        elif c == ")":
            t = tuple(stack.pop())
            stack[-1].append(t if t else None)
            pos += 1
        elif c == '"':
            e = s.index('"', pos + 1)
            stack[-1].append(bytes.fromhex(s[pos + 1:e]))
            pos = e + 1
        else:
            e = pos
            while e < n and s[e] not in " )":
                e += 1
            w = s[pos:e]
            stack[-1].append({"#t": True, "#f": False}.get(w, int(w) if w.lstrip("-").isdigit() else w))
            pos = e
    return stack[0]


class Stream:
    def __init__(self, kind, name, since):
        self.kind, self.name, self.since = kind, name, since
        self.data, self.sure, self.bad = bytearray(), True, False


class Judge:
    def __init__(self, plan, lines):
        self.plan, self.lines = plan, lines
        self.ops = [read_toks(o) for o in plan.ops]
        self.tab = {}
        self.faults = []
        self.shown = bytearray()
        self.stdout = bytearray()
        self.cmd = None
        self.pcl = None
        self.kept = self.heap = self.most = 0
        self.grew = {}
        self.content = None
        self.files, self.dirs, self.maybe = {}, set(), set()

    def fail(self, cls, msg):
        raise Bad((cls, msg))

    def fault(self, since, *kinds):
        return any(n >= since and k in kinds for n, k in self.faults)

    def run(self):
        cur, start, files, n = None, 0, None, 0
        for n, ln in enumerate(self.lines):
            w = ln.split(" ", 1)
            rest = w[1] if len(w) > 1 else ""
            if w[0] == "fault":
                self.faults.append((n, rest.split(" ")[0]))
            elif w[0] == "op":
                cur, start = to_list(parse(rest))[0], n
                self.cmd = self.pcl = None
            elif w[0] in ("exec", "popen"):
                self.cmd = rest
            elif w[0] == "pclose":
                self.pcl = rest.split(" ")
            elif w[0] == "kept":
                self.kept = to_list(parse(rest))[0]
            elif w[0] == "ret":
                l = to_list(parse(rest))
                # with the collector off only what the calls themselves keep is in the C heap
                if self.plan.cfg.get("gcmode") == 0:
                    self.heap += self.kept
                    if self.kept > 0 and self.ops[cur][0] not in ("o", "pr", "pw"):
                        self.grown("calls of kind %s" % self.ops[cur][0], self.kept)
                self.ret(cur, self.ops[cur], l[1], start)
                if self.heap > self.most and not any(self.tab.values()):
                    # everything is closed
                    self.grown("files and pipes, all closed,", self.heap - self.most)
                    self.most = self.heap
            elif w[0] == "content":
                self.check_content(rest.split(" "))
            elif w[0] == "stdout":
                self.stdout += bytes.fromhex(rest)
            elif w[0] == "files":
                files = int(rest)
        if self.stdout != self.shown:
            k = next((i for i, (a, b) in enumerate(zip(self.stdout, self.shown)) if a != b), min(len(self.stdout), len(self.shown)))
            self.fail("stdout", "standard output differs from what was displayed at byte %d: %r, expected %r" %
                      (k, bytes(self.stdout[k:k + 60]), bytes(self.shown[k:k + 60])))
        left = sum(1 for s in self.tab.values() if s and s.kind == "o")
        if files != left:
            self.fail("files", "%s files are open at the end, %d were not closed" % (files, left))

    def grown(self, who, n):
        """something may be kept for later calls, but not again and again"""
        self.grew[who] = self.grew.get(who, 0) + 1
        if self.grew[who] == 3:
            self.fail("leak", "%s keep memory of the C heap, the last %d bytes" % (who, n))

    def ret(self, i, o, r, at):
        k, s = o[0], o[1]
        st = self.tab.get(s)
        num = r if isinstance(r, int) and not isinstance(r, bool) else None
        what = "op %d (%s)" % (i, " ".join(tok(x)[:40] for x in o))
        if k in ("o", "pr", "pw"):
            if k == "o":
                name = o[2].decode()
                parts = name.lstrip("./").split("/")
                parent_file = any("/".join(parts[:x]) in self.files for x in range(1, len(parts)))
                ok = not parent_file and "/".join(parts) not in self.dirs
                kinds = ("openw", "mkdir")
            else:
                name, ok, kinds = None, True, ("popen",)
                want = "%d %s" % (k == "pw", " ".join(x.decode() for x in o[2]))
                if r == "opened" and (self.cmd is None or self.cmd.split() != want.split()):
                    self.fail("command", "%s ran %r, not %r" % (what, self.cmd, want))
            if r == "none":
                self.tab[s] = None
                if ok and not self.fault(at, *kinds) and not (k == "o" and "/".join(parts) in self.maybe):
                    self.fail("open", "%s failed although nothing was wrong" % what)
            elif r == "opened":
                if not ok:
                    self.fail("open", "%s succeeded although its folder is a file" % what)
                st = self.tab[s] = Stream(k, name, at)
                if k == "pr":
                    w = o[2]
                    st.data = gen_data(int(w[1]), int(w[2])) if w[0] == b"gen" else None
                    st.pos = 0
                    if st.data is None:
                        st.data = self.cmd.split(" ", 1)[1].encode()
            else:
                self.fail("open", "%s returned %r" % (what, r))
            if k == "o" and ok:
                for x in range(1, len(parts)):
                    (self.dirs if r == "opened" else self.maybe).add("/".join(parts[:x]))
                if r == "opened":
                    self.files["/".join(parts)] = True
        elif k in ("w", "ws"):
            data = gen_data(o[2], o[3]) if k == "w" else o[2]
            st.data += data
            if num == len(data):
                pass
            elif num == -1:
                st.bad = True
                if not self.fault(st.since, "write"):
                    self.fail("write", "%s failed although nothing was wrong" % what)
            else:
                self.fail("write", "%s returned %r for %d bytes" % (what, r, len(data)))
        elif k == "ra":
            rest = bytes(st.data[st.pos:]) if st.sure else None
            if r is None:
                if not self.fault(st.since, "read"):
                    self.fail("read", "%s failed although nothing was wrong" % what)
                st.sure = False
            elif st.sure or not st.bad:
                l = to_list(r)
                if not isinstance(r, list) or l is None or len(l) != 2:
                    self.fail("read", "%s returned %r" % (what, py(r)))
                if rest is not None and (l[0] != len(rest) or l[1] != fnv(rest)):
                    self.fail("read", "%s returned %d bytes (hash %08x) of %d (hash %08x)" % (what, l[0], l[1], len(rest), fnv(rest)))
                st.pos = len(st.data)
        elif k == "cp":
            to = self.tab.get(o[2])
            if r is True:
                if st.sure:
                    to.data += st.data[st.pos:]
                    st.pos = len(st.data)
                else:
                    to.bad = True
            elif r is False:
                if not (self.fault(st.since, "read") or self.fault(to.since, "write")):
                    self.fail("copy", "%s failed although nothing was wrong" % what)
                st.sure, to.bad = False, True
            else:
                self.fail("copy", "%s returned %r" % (what, py(r)))
        elif k == "c":
            if num is None:
                self.fail("close", "%s returned %r" % (what, r))
            if num != 0:
                if not self.fault(st.since, "write", "close"):
                    self.fail("close", "%s failed although nothing was wrong" % what)
                st.bad = True
            self.content = st
            self.tab[s] = None
        elif k == "pc":
            if self.pcl is None:
                self.fail("close", "%s did not close the pipe" % what)
            if st.kind == "pw":
                bad = st.bad or num != 0
                if num != int(self.pcl[1]) and not self.fault(st.since, "write", "close"):
                    self.fail("close", "%s returned %r; the program ended with %s" % (what, r, self.pcl[1]))
                if not bad:
                    h, n = self.pcl[2].split(":")
                    if int(n) != len(st.data) or int(h, 16) != fnv(bytes(st.data)):
                        self.fail("lost", "%s: the program got %s bytes (hash %s) of %d written, and no call reported a failure" % (what, n, h, len(st.data)))
            elif num != int(self.pcl[1]):
                self.fail("close", "%s returned %r; the program ended with %s" % (what, r, self.pcl[1]))
            self.tab[s] = None
        elif k == "x":
            if self.cmd is None:
                self.fail("command", "%s ran nothing" % what)
            cmd, res = self.cmd.rsplit(" -> ", 1)
            if cmd.split() != [x.decode() for x in o[2]]:
                self.fail("command", "%s ran %r" % (what, cmd))
            if num != int(res):
                self.fail("command", "%s returned %r; the system said %s" % (what, r, res))
        elif k == "d":
            self.shown += shown(o[2])
        elif k == "di":
            self.shown += b"(" + dotted(o[2]) + b" " + dotted(o[2]) + b")"

    def check_content(self, w):
        st, self.content = self.content, None
        if st is None or st.bad:
            return
        if w[1] == "none":
            self.fail("lost", "file %s is not there after it was written and closed" % st.name)
        if int(w[1]) != len(st.data) or int(w[2], 16) != fnv(bytes(st.data)):
            self.fail("lost", "file %s has %s bytes (hash %s), written were %d (hash %08x), and no call reported a failure" %
                      (st.name, w[1], w[2], len(st.data), fnv(bytes(st.data))))


WORDS = [b"ls", b"-l", b"x.c.d", b"alpha", b"2>&1", b"", b"sort", b"a=b"]


class P17(Check):
    id = "P17"
    modules = ["work/fsio"]
    real = ["lib/io.c", "lib/os.c", "src/str.c", "src/reader.c printObj", "src/*.c (VM, collector)", "glibc stdio buffering"]
    stub = ["open, read, write, close, mkdir below stdio (short reads, EIO, ENOSPC, EMFILE, failing close)",
            "popen, pclose, system: no program is run; a reader gets given bytes, what is written to one is kept", "standard output is kept for comparison",
            "when a GC cycle starts and how many mark steps each allocation does"]
    technique = "deterministic simulation: seeded search over histories of file and pipe operations, buffer sizes, short transfers and I/O faults, against a model of every file and pipe"
    quick_runs, thorough_runs = 12000, 1000000
    quick_wall, thorough_wall = 60, 780
    rule = "distinct hash of (status, event log); a run is non-trivial when it closed a stream that had got data"
    assumptions = ["a stream that failed once may go on as stdio does; only unreported losses count", "paths are below 1000 bytes; commands hold no quotes"]

    def size(self, rng, bs):
        r = rng.random()
        if r < 0.5:
            return rng.choice([0, 1, 2, 62, 63, 64, 65, 127, 128, 129, 130, 191, 192, 193, 256])
        if r < 0.8:
            return max(0, bs * rng.randrange(0, 4) + rng.choice([-1, 0, 1, 63, 64, 65]))
        if r < 0.97:
            return rng.randrange(0, 3000)
        return rng.choice([20000, 65536, 100000])

    def value(self, rng, d=0):
        r = rng.random()
        if r < 0.3 and d < 4:
            return tuple(self.value(rng, d + 1) for _ in range(rng.choice([0, 1, 2, 3, 8 if d else 60]))) or None
        if r < 0.5:
            return rng.choice([0, 1, -1, 42, -7, 2**31, -2**31 - 1, 2**53, -2**53, rng.randrange(-10**6, 10**6)])
        if r < 0.7:
            return rng.choice(["a", "foo", "+", "x/y#z", "list", "-", "set!", "a-long-symbol-" + "s" * rng.choice([1, 50, 100, 230])])
        if r < 0.8:
            return rng.choice([True, False])
        return bytes(rng.choice(b"abc XYZ\n\t%s%d\\(") for _ in range(rng.choice([0, 1, 5, 40, 300, 2000])))

    def gen(self, rng, i, tier):
        cfg = {"main": "work/fsio#main", "fs": 1, "stdout": 1, "cpu": 30, "tickcap": 2000000}
        if rng.random() < 0.3:
            H.gcknobs(rng, cfg)
        else:
            cfg["gcmode"] = 0
            cfg["reach"] = 1000
        bs = cfg["bufsize"] = rng.choice([16, 64, 100, 128, 512, 4096, 4096])
        cfg["p_short"] = rng.choice([0, 0, 20, 200, 900])
        if rng.random() < 0.6:
            for k in ("read", "write", "close", "openw", "mkdir", "popen", "exec"):
                if rng.random() < 0.4:
                    cfg["f_" + k] = rng.choice([20, 100, 400])
            cfg["maxfault"] = rng.choice([1, 1, 2, 5, 100])
        ops, tab, used = [], {}, []
        for _ in range(rng.choice([5, 10, 25, 60])):
            free = [s for s in range(10) if s not in tab]
            pr = [s for s in tab if tab[s][0] == "pr"]
            wr = [s for s in tab if tab[s][0] != "pr"]
            k = rng.choice(["o", "o", "pr", "pw", "w", "w", "w", "ws", "ra", "ra", "cp", "cp", "cp", "c", "c", "pc", "x", "d", "d", "g"])
            if k in ("o", "pr", "pw") and free:
                s = rng.choice(free)
                if k == "o":
                    if used and rng.random() < 0.4:
                        name = rng.choice(used)
                    else:
                        dirs = [rng.choice(["d1", "d2", "d", "e", "long-" + "n" * 40]) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6]))]
                        name = rng.choice(["", "", "", "./"]) + "/".join(dirs + ["f%d" % rng.randrange(6)])
                        if used and rng.random() < 0.1:
                            name = rng.choice(used) + "/f9"
                    key = name.lstrip("./")
                    if any(v[0] == "o" and v[1].lstrip("./") == key for v in tab.values()) or len(name) > 400:
                        continue
                    if name not in used:
                        used.append(name)
                    tab[s] = ("o", name)
                    ops.append("o %d %s" % (s, tok(name.encode())))
                else:
                    tab[s] = (k, None)
                    w = [rng.choice(WORDS) for _ in range(rng.randrange(1, 5))]
                    if k == "pr" and rng.random() < 0.85:
                        w = [b"gen", b"%d" % self.size(rng, bs), b"%d" % rng.randrange(5000)]
                    ops.append("%s %d %s" % (k, s, tok(tuple(w))))
            elif k == "w" and wr:
                ops.append("w %d %d %d" % (rng.choice(wr), self.size(rng, bs), rng.randrange(5000)))
            elif k == "ws" and wr:
                ops.append("ws %d %s" % (rng.choice(wr), tok(bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 20]))))))
            elif k == "ra" and pr:
                ops.append("ra %d" % rng.choice(pr))
            elif k == "cp" and pr and wr:
                ops.append("cp %d %d" % (rng.choice(pr), rng.choice(wr)))
            elif k == "c" and any(v[0] == "o" for v in tab.values()):
                s = rng.choice([s for s in tab if tab[s][0] == "o"])
                ops.append("c %d %s" % (s, tok(tab.pop(s)[1].encode())))
            elif k == "pc" and any(v[0] != "o" for v in tab.values()):
                s = rng.choice([s for s in tab if tab[s][0] != "o"])
                tab.pop(s)
                ops.append("pc %d" % s)
            elif k == "x":
                ops.append("x 0 %s" % tok(tuple(w for w in [rng.choice(WORDS) for _ in range(rng.randrange(1, 5))] if w)or (b"true",)))
            elif k == "d":
                v = self.value(rng)
                if rng.random() < 0.3:
                    v = tuple(self.value(rng, 2) for _ in range(rng.choice([1, 2, 2, 3, 6])))
                    ops.append("di 0 %s" % tok(v))
                else:
                    ops.append("d 0 %s" % tok(v))
            elif k == "g":
                ops.append("g 0 %d" % rng.choice([10, 200]))
        for s in sorted(tab):
            if rng.random() < 0.9:
                ops.append("c %d %s" % (s, tok(tab[s][1].encode())) if tab[s][0] == "o" else "pc %d" % s)
        return Plan(cfg, ops)

    def sanitize(self, plan):
        tab, ops = {}, []
        for t in plan.ops:
            o = read_toks(t)
            k, s = o[0], o[1]
            if k in ("o", "pr", "pw"):
                if s in tab:
                    continue
                tab[s] = k
            elif k in ("w", "ws") and tab.get(s) not in ("o", "pw"):
                continue
            elif k == "ra" and tab.get(s) != "pr":
                continue
            elif k == "cp" and (tab.get(s) != "pr" or tab.get(o[2]) not in ("o", "pw")):
                continue
            elif k == "c" and tab.get(s) != "o" or k == "pc" and tab.get(s) not in ("pr", "pw"):
                continue
            if k in ("c", "pc"):
                del tab[s]
            ops.append(t)
        return plan.copy(ops=ops) if ops else None

    def judge(self, plan, res):
        v = status_violation(res)
        if v:
            return v
        try:
            Judge(plan, res.lines).run()
        except Bad as b:
            return b.args[0]
        return None

    def nontrivial(self, plan, res):
        return any(l.startswith("content ") and not l.endswith(" none") for l in res.lines) or any(l.startswith("pclose ") for l in res.lines)



# ------------------------------------------------------------------ reader
class Refused(Exception):
    pass


class Unclear(Exception):
    pass


SPACE = b" \t\n\v\f\r"
DELIM = b"()\"'`,;[]" + SPACE
MAXN = 2 ** 53


class Reader:
    """The forms of a text, in the shape of simlog.py()."""

    def __init__(self, text):
        self.t, self.p = text, 0

    def ws(self):
        t, n = self.t, len(self.t)
        while self.p < n:
            c = t[self.p]
            if c in SPACE:
                self.p += 1
            elif c == 59:
                while self.p < n and t[self.p] != 10:
                    self.p += 1
                self.p += 1
            else:
                return
        self.p = n

    def peek(self):
        return self.t[self.p] if self.p < len(self.t) else None

    def num(self, digits):
        v = int(digits)
        if v > MAXN:
            raise Refused("number")
        return v

    def part(self):
        self.ws()
        if self.peek() is None:
            raise Refused("end")
        return self.form()

    def form(self):
        t, n = self.t, len(self.t)
        c = t[self.p]
        if 48 <= c <= 57:
            e = self.p
            while e < n and 48 <= t[e] <= 57:
                e += 1
            v = self.num(t[self.p:e])
            self.p = e
            return v
        if c in b"'`,":
            self.p += 1
            return ("l", (("y", {39: "quote", 96: "backquote", 44: "unquote"}[c]), self.part()), None)
        if c == 40:
            self.p += 1
            items = []
            while True:
                self.ws()
                if self.peek() == 41:
                    self.p += 1
                    return ("l", tuple(items), None) if items else None
                items.append(self.part())
        if c == 91:
            self.p += 1
            items, hd = [], "list"
            while True:
                self.ws()
                d = self.peek()
                if d == 93:
                    self.p += 1
                    return ("l", tuple([("y", hd)] + items), None)
                if d == 46:
                    self.p += 1
                    if self.peek() is not None and self.peek() not in DELIM:
                        raise Unclear("dot")
                    hd = "list-rest"
                    continue
                items.append(self.part())
        if c == 34:
            out, self.p = bytearray(), self.p + 1
            while True:
                if self.p >= n:
                    raise Refused("string")
                d = t[self.p]
                self.p += 1
                if d == 34:
                    return bytes(out)
                if d == 92:
                    if self.p >= n:
                        raise Refused("string")
                    d = t[self.p]
                    self.p += 1
                    if d == 110:
                        d = 10
                out.append(d)
                if len(out) > 999:
                    raise Refused("long string")
        if c in DELIM:
            raise Refused("unexpected")
        e = self.p
        while e < n and t[e] not in DELIM:
            e += 1
        w = t[self.p:e]
        self.p = e
        if len(w) > 254:
            raise Refused("long symbol")
        if 0 in w:
            raise Unclear("nul")
        if w in (b"true", b"false"):
            return ("b", w == b"true")
        if len(w) > 1 and w[0] == 45 and all(48 <= x <= 57 for x in w[1:]):
            return -self.num(w[1:])
        try:
            return ("y", w.decode())
        except UnicodeDecodeError:
            raise Unclear("symbol")

    def all(self):
        out = []
        while True:
            self.ws()
            if self.peek() is None:
                break
            out.append(self.form())
        beg = ("y", "begin")
        if not out:
            return ("l", (beg, None), None)
        if len(out) == 1 and isinstance(out[0], tuple) and out[0][0] == "l":
            return out[0]
        return ("l", tuple([beg] + out), None)


def shown_py(o):
    """what display prints for a value in the shape of py()"""
    out, todo = [], [o]
    while todo:
        x = todo.pop()
        if isinstance(x, bytearray):
            out.append(bytes(x))
        elif x is None:
            out.append(b"()")
        elif isinstance(x, bytes):
            out.append(b'"' + x.split(b"\0")[0] + b'"')
        elif isinstance(x, int):
            out.append(str(x).encode())
        elif x[0] == "b":
            out.append(b"true" if x[1] else b"false")
        elif x[0] == "y":
            out.append(x[1].encode())
        else:
            out.append(b"(")
            todo.append(bytearray(b")"))
            for k, y in enumerate(reversed(x[1])):
                todo.append(y)
                if k < len(x[1]) - 1:
                    todo.append(bytearray(b" "))
    return b"".join(out)


class TextGen:
    def __init__(self, rng):
        self.r = rng

    def sp(self):
        r = self.r
        return b"".join(r.choice([b" ", b" ", b"\n", b"\t", b"\r\n", b"\f", b"\v", b" ;c (\"x\n", b";\n", b"; " + b"y" * r.choice([3, 70, 500]) + b"\n", b";" + bytes(r.choice(b";()[]\"'` \t\r\r\f\\a1\0\xff") for _ in range(r.choice([1, 2, 8]))) + b"\n"])
                        for _ in range(r.choice([1, 1, 1, 2, 3])))

    def osp(self):
        return self.sp() if self.r.random() < 0.3 else b""

    def atom(self):
        r = self.r
        k = r.random()
        if k < 0.25:
            return b"%d" % r.choice([0, 7, 42, -1, -42, 10**9, 2**31 - 1, 2**31, -2**31, 2**53, -2**53, 2**53 - 1, r.randrange(-10**15, 10**15)])
        if k < 0.3:
            return r.choice([b"007", b"-0", b"-00012", b"0"])
        if k < 0.6:
            if r.random() < 0.3:
                w = bytes(r.choice(b"-0123456789.+*/<>=!?:abTRUEtruefals_&%$@^~{}|\\#") for _ in range(r.choice([1, 2, 3, 4, 6])))
                if not 48 <= w[0] <= 57:
                    return w
            return r.choice([b"a", b"foo", b"x1", b"-", b"+", b"-a", b"--1", b"-1a", b"a.b", b".", b"...", b"a#b", b"m/x#y", b"|", b"\\", b"true1", b"tru",
                             b"truefalse", "\u00e9\u03bb".encode(), b"-1-", b"s" * r.choice([30, 200, 253, 254])])
        if k < 0.7:
            return r.choice([b"true", b"false"])
        n = r.choice([0, 0, 1, 2, 10, 60, 400, 997, 998, 999])
        s = b"".join(r.choice([b"a", b"b", b" ", b"(", b")", b";", b"[", b"'", b"\\n", b"\\\\", b"\\\"", b"\\a", b"\n", b"\t", b"\0", "\u03bb".encode()]) if n < 500 else b"x"
                     for _ in range(n))
        return b'"' + s + b'"'

    def form(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.35:
            return self.atom()
        if k < 0.5:
            return r.choice([b"'", b"'", b"`", b","]) + self.osp() + self.form(d - 1)
        n = r.choice([0, 1, 2, 3, 3, 5, 12])
        if k < 0.55 and d > 3:
            n = r.choice([100, 1000])
            return b"(" + b" ".join(self.atom() for _ in range(n // 10)) + b")"
        body = self.osp()
        for i in range(n):
            body += self.form(d - 1) + (self.sp() if i + 1 < n or r.random() < 0.2 else b"")
        if k < 0.85:
            return b"(" + body + self.osp() + b")"
        if n and r.random() < 0.4:
            body += self.sp() + b"." + self.sp() + self.form(d - 1)
        return b"[" + body + self.osp() + b"]"

    def text(self):
        r = self.r
        t = self.osp()
        for _ in range(r.choice([0, 1, 1, 1, 2, 3, 8])):
            t += self.form(r.choice([0, 1, 2, 4, 6])) + (self.sp() if r.random() < 0.9 else b"")
        k = r.random()
        if k < 0.06:
            n = r.choice([50, 300])
            o = r.choice([b"(", b"[", b"'", b"(a ", b"`("])
            t = o * n + b"x" + {b"(": b")", b"[": b"]", b"'": b"", b"(a ": b")", b"`(": b")"}[o] * n
        elif k < 0.1:
            t = b"(" + b" ".join(b"%d" % x for x in range(r.choice([500, 5000]))) + b")"
        if r.random() < 0.1:
            t += b";" + b"end" * r.choice([0, 1, 50])
        return t

    def large(self):
        """longer, or deeper, than a C stack of 8 MB allows a recursion over it to be"""
        r = self.r
        if r.random() < 0.6:
            n = r.choice([60000, 150000, 300000])
            o, c = r.choice([(b"(", b")"), (b"[", b"]"), (b"(a (", b") b)")])
            return o + b" ".join([b"%d" % r.randrange(1000), b"x", b"()", b"true"][r.randrange(4)] for _ in range(n)) + c
        n = r.choice([1500, 3000, 3400, 6000, 30000, 200000])
        o = r.choice([b"(", b"[", b"'", b"(a ", b"`("])
        c = {b"(": b")", b"[": b"]", b"'": b"", b"(a ": b")", b"`(": b")"}[o]
        n = n // 2 if o == b"`(" else n
        return o * n + b"x" + (c * n if r.random() < 0.8 else b"")

    def spoil(self, t):
        r = self.r
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            p = r.randrange(len(t) + 1)
            if k < 0.45:
                t = t[:p]
            elif k < 0.7:
                t = t[:p] + r.choice([b"(", b")", b"[", b"]", b'"', b"'", b"`", b",", b";", b"\\", b"\n", b" ", b".", b"-", b"1", b"a"]) + t[p:]
            elif k < 0.9:
                t = t[:p] + t[p + 1:]
            else:
                t = t[:p] + r.choice([b"9" * 17, b"9007199254740993", b"-9007199254740993", b"z" * 255, b"z" * 300, b'"' + b"q" * 1000 + b'"']) + t[p:]
        return t


class P18(Check):
    id = "P18"
    modules = ["work/fsrd"]
    real = ["src/reader.c", "src/runtime.c read-file-as-sexp", "lib/io.c display", "src/*.c (VM, collector)", "glibc stdio buffering"]
    stub = ["open, read, close below stdio (any chunk size, EIO at any point, EMFILE)", "exit, standard output", "when a GC cycle starts and how many mark steps each allocation does"]
    technique = "deterministic simulation: seeded search over texts, chunkings, cut-offs and read faults, against a reference reader"
    quick_runs, thorough_runs = 8000, 2000000
    quick_wall, thorough_wall = 60, 780
    rule = "distinct hash of (status, event log); a run is non-trivial when a file was read or refused"
    DEEP = 3500
    assumptions = ["lists of up to 300000 elements; nesting of up to 3500 levels is read, deeper text may be refused (exit 1) instead", "no NUL byte inside a symbol"]

    def gen(self, rng, i, tier):
        cfg = {"main": "work/fsrd#main", "fs": 1, "stdout": 1, "cpu": 30, "tickcap": 2000000}
        if rng.random() < 0.3:
            H.gcknobs(rng, cfg)
        else:
            cfg["gcmode"] = 0
            cfg["reach"] = 1000
        cfg["bufsize"] = rng.choice([1, 2, 7, 16, 64, 512, 4096])
        cfg["p_short"] = rng.choice([0, 100, 500, 1000])
        if rng.random() < 0.3:
            cfg["f_read"] = rng.choice([5, 50, 300])
            cfg["f_open"] = rng.choice([0, 20])
            cfg["maxfault"] = rng.choice([1, 1, 3])
        g = TextGen(rng)
        ops = []
        n = rng.choice([1, 2, 4, 8])
        for k in range(n):
            t = g.text()
            if rng.random() < (0.6 if k == n - 1 else 0.02):
                t = g.spoil(t)
            if i % 160 == 7 and k == 0:
                t = g.large()
                cfg["bufsize"], cfg["p_short"] = rng.choice([4096, 65536]), rng.choice([0, 100])
                n = min(n, 2)
            elif k >= n:
                break
            name = tok(b"r%d" % k)
            ops.append("f %s %s" % (name, tok(t)))
            ops.append("%s %s" % (rng.choice("rd"), name))
            if rng.random() < 0.2:
                ops.append("l " + name)
            if rng.random() < 0.1:
                ops.append(rng.choice("rrl") + " " + tok(b"none"))
        return Plan(cfg, ops)

    def judge(self, plan, res):
        if res.status != "exit":
            v = status_violation(res)
            if v:
                return v
        try:
            self.judge1(plan, res)
        except Bad as b:
            return b.args[0]
        except Unclear:
            pass
        return None

    def judge1(self, plan, res):
        files, ops, deep = {}, [], False
        for o in plan.ops:
            o = read_toks(o)
            if o[0] == "f":
                files[o[1]] = o[2]
                ops.append(None)
            else:
                ops.append((o[0], o[1], files.get(o[1])))
        disp, failed, out, cur, faulty, want, parts = bytearray(), False, bytearray(), None, False, None, []
        for ln in res.lines:
            w = ln.split(" ", 1)
            if w[0] == "op":
                cur = ops[to_list(parse(w[1]))[0]]
                faulty = False
                deep = cur[2] is not None and bool(re.search(rb"(?:(?:\(a |[(\['`])){%d}" % self.DEEP, cur[2]))
                if deep:
                    want = ("exit", "nesting")
                    continue
                try:
                    want = ("value", Reader(cur[2]).all()) if cur[2] is not None else ("value", ("b", False))
                except Refused as e:
                    want = ("exit", str(e))
            elif w[0] == "fault":
                faulty = True
            elif w[0] == "exit":
                if w[1] != "1":
                    raise Bad(("exit", "exit with %s" % w[1]))
                if want[0] != "exit" and not faulty:
                    raise Bad(("refused", "the text of %s was refused; it reads as %s" % (cur[1].decode(), str(want[1])[:300])))
                return
            elif w[0] == "kept":
                failed = failed or faulty or cur[2] is None
                n = to_list(parse(w[1]))[0]
                if n > 0 and not faulty and plan.cfg.get("gcmode") == 0:
                    raise Bad(("leak", "reading %s once more keeps %d bytes of the C heap" % (cur[1].decode(), n)))
            elif w[0] == "part":
                parts.append(ln[5:])
            elif w[0] == "read":
                if deep and ln != "read F":
                    # no limit is fine, too
                    parts, failed = [], True
                    continue
                got = py(parse("".join(parts) + ln[5:]))
                parts = []
                if got == ("b", False) and (faulty or cur[2] is None):
                    failed = True
                    continue
                if want[0] == "exit":
                    raise Bad(("accepted", "the text of %s (%s) was read as %s" % (cur[1].decode(), want[1], str(got)[:300])))
                if got != want[1]:
                    raise Bad(("value", "the text of %s was read as %s, expected %s" % (cur[1].decode(), str(got)[:300], str(want[1])[:300])))
                if cur[0] == "d":
                    disp += shown_py(got)
            elif w[0] == "stdout":
                out += bytes.fromhex(w[1])
            elif w[0] == "files" and w[1] != "0":
                raise Bad(("files", "%s files are open at the end" % w[1]))
        if res.status == "exit":
            raise Bad(("exit", "exit without a reason"))
        if not failed and disp != out:
            raise Bad(("display", "standard output is %r, expected %r" % (bytes(out)[:300], bytes(disp)[:300])))

    def nontrivial(self, plan, res):
        return any(l.startswith("read ") or l.startswith("exit ") for l in res.lines)

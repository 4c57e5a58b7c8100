"""P11..P13: the event loop (cora/lib/async, cora/lib/net) over a simulated network, judged from the recorded history."""
import re
from .runner import Check, Plan, status_violation
from . import heapmodel as H
from .simlog import parse, py, to_list
from .checks_cml import sx, unsx, Bad

REAL = ["lib/async.cora, lib/cml.cora, lib/queue.cora, lib/let-loop.cora, lib/define-record.cora (compiled by lib/toc.cora and gcc)",
        "lib/net.c, lib/epoll.c", "src/*.c (VM, collector)"]
STUB = ["the kernel's TCP and epoll (simulated: delivery delays, windows, short reads and writes, EAGAIN, EINTR, resets, half-closed and closed peers, missed and reordered events)",
        "name resolution, connect, bind and accept outcomes", "remote peers (scripted endpoints inside the simulator)", "clock",
        "when a GC cycle starts and how many mark steps each allocation does"]


class Conn:
    def __init__(self, o):
        x = sx("(" + o + ")")[0]
        self.id, self.ka, self.kb, self.start = x[1], x[2], x[3], x[4]
        self.sides = [x[5], x[6]]
        self.kinds = [self.ka, self.kb]


def conns(plan):
    return [Conn(o) for o in plan.ops if o.startswith("conn ")]


def opdir(op):
    return "send" if op == "s" else "recv"


class Judge:
    def __init__(self, plan, lines):
        self.plan, self.lines = plan, lines
        self.conns = {c.id: c for c in conns(plan)}

    def fail(self, cls, msg):
        raise Bad((cls, msg))

    def run(self):
        hard = {}     # (conn, side, dir) -> [(line, what)]
        inside = {}   # (conn, side, strand) -> (pc, line)
        pos = {}      # (conn, side, strand) -> next index into the script
        dead = {}     # strand ended by an error
        closed, kclosed, accepted, dialed, gave = {}, {}, {}, {}, set()
        kdial, kdialerr, peers, rst, touched = {}, {}, {}, set(), set()
        got = {}      # bytes the program was given (conn, side)
        eofs = {}
        self.stk = []
        leaks, ret = [], None
        self.done_ops = 0
        for n, ln in enumerate(self.lines):
            w = ln.split(" ")
            t = w[0]
            if t == "k":
                k = w[1]
                if k in ("err", "eof"):
                    c, s = int(w[2]), int(w[3])
                    hard.setdefault((c, s, w[4] if k == "err" else "recv"), []).append((n, ("err", int(w[5])) if k == "err" else ("eof",)))
                    if k == "err":
                        touched.add(c)
                elif k == "rst":
                    rst.add(int(w[2]))
                elif k == "close":
                    kclosed[(int(w[2]), int(w[3]))] = (n, int(w[4]), int(w[5]))
                elif k == "dial":
                    kdial[int(w[2])] = n
                elif k == "dialerr":
                    kdialerr.setdefault(int(w[2]), []).append(n)
                elif k == "open":
                    leaks.append(ln)
                elif k == "addrinfo":
                    leaks.append(ln)
                elif k == "peer":
                    peers[(int(w[2]), int(w[3]))] = (int(w[5]), int(w[7]), w[8])
                continue
            if t == "p":
                if w[1] == "dial":
                    kdial[int(w[2])] = n
                if w[1] == "err":
                    touched.add(int(w[2]))
                continue
            if ret is not None and t != "result":
                self.fail("late", "event %d (%s) after the scheduler had returned" % (n, ln[:80]))
            if t == "ret":
                ret = n
            elif t == "b":
                c, s, k, pc = to_list(parse(ln[2:]))
                key = (c, s, k)
                if key in inside or key in dead or (c, s) in closed:
                    self.fail("order", "event %d: strand %s begins step %d while %s" % (n, key, pc, "inside another" if key in inside else "over"))
                st = self.script(c, s, k)
                p = pos.get(key, 0)
                while p < len(st) and st[p][0] not in ("s", "r", "e"):
                    p += 1
                if p != pc:
                    self.fail("order", "event %d: strand %s begins step %d, next is %d" % (n, key, pc, p))
                inside[key] = (pc, n)
            elif t == "e":
                c, s, k, pc, res, m = to_list(parse(ln[2:]))
                key = (c, s, k)
                if key not in inside or inside[key][0] != pc:
                    self.fail("twice", "event %d: step %d of strand %s completes, but it is not in progress" % (n, pc, key))
                b = inside.pop(key)[1]
                i = self.script(c, s, k)[pc]
                d = opdir(i[0])
                h = [x for x in hard.get((c, s, d), []) if x[0] > b]
                r = py(res)
                self.done_ops += 1
                want = 1 if i[0] == "e" else i[1]
                if not h:
                    if r != ("l", (("y", "ok"),), None):
                        self.fail("result", "connection %d side %d step %d (%s): result %r although nothing failed" % (c, s, pc, unsx(i), r))
                    if d == "recv":
                        if m != want:
                            self.fail("bytes", "connection %d side %d step %d (%s): byte %d of the buffer is not the one that was sent" % (c, s, pc, unsx(i), m))
                        got[(c, s)] = got.get((c, s), 0) + want
                    pos[key] = pc + 1
                else:
                    w0 = h[0][1]
                    if w0[0] == "err":
                        if r != ("l", (("y", "err"), w0[1]), None):
                            self.fail("result", "connection %d side %d step %d (%s): the system reported error %d, the result is %r" % (c, s, pc, unsx(i), w0[1], r))
                    else:
                        if not (isinstance(r, tuple) and r[0] == "l" and len(r[1]) == 2 and r[1][0] == ("y", "eof") and isinstance(r[1][1], int)):
                            self.fail("result", "connection %d side %d step %d (%s): end of stream gave %r" % (c, s, pc, unsx(i), r))
                        q = r[1][1]
                        if q < 0 or q >= want or m < q:
                            self.fail("bytes", "connection %d side %d step %d (%s): %r, but only %d bytes of the buffer are right" % (c, s, pc, unsx(i), r, m))
                        got[(c, s)] = got.get((c, s), 0) + q
                        eofs[(c, s)] = n
                    dead[key] = n
            elif t == "close":
                c, s = to_list(parse(ln[6:]))
                if (c, s) in closed:
                    self.fail("twice", "connection %d side %d closed twice by the program" % (c, s))
                closed[(c, s)] = n
            elif t == "acc":
                c = int(w[1])
                if c in accepted:
                    self.fail("twice", "connection %d accepted twice" % c)
                accepted[c] = n
            elif t == "dial":
                c, ok = to_list(parse(ln[5:]))
                if ok and c not in kdial:
                    self.fail("result", "dial of connection %d gave a connection, but connecting had failed" % c)
                if not ok and c in kdial:
                    self.fail("result", "dial of connection %d failed although it was connected" % c)
                if ok:
                    dialed[c] = n
            elif t == "gaveup":
                gave.add(int(w[1]))
            elif t == "stk":
                self.stk.append((n, to_list(parse(ln[4:]))))
        if ret is None:
            self.fail("stuck", "the scheduler did not return")
        for key, (pc, n) in inside.items():
            self.fail("lost", "connection %d side %d strand %d: step %d never completed" % (key[0], key[1], key[2], pc))
        for i, c in self.conns.items():
            if i in gave:
                continue
            if c.ka == "c" and i not in dialed:
                self.fail("lost", "connection %d was never dialled" % i)
            if c.kb == "c" and i in kdial and i not in accepted:
                self.fail("lost", "connection %d was never accepted" % i)
            if c.ka == "p" and i not in kdial:
                self.fail("lost", "connection %d: the peer never found its listener" % i)
            for s in (0, 1):
                if c.kinds[s] != "c":
                    p = peers.get((i, s))
                    if p and p[2] != "closed":
                        self.fail("stuck", "connection %d: the peer on side %d is still waiting when the program ends" % (i, s))
                    continue
                if (i, s) not in closed:
                    self.fail("lost", "connection %d side %d: the fiber never came to its end" % (i, s))
                if (i, s) not in kclosed:
                    self.fail("leak", "connection %d side %d: conn-close did not close the descriptor" % (i, s))
                for k in range(len(c.sides[s])):
                    if (i, s, k) in dead:
                        continue
                    st = c.sides[s][k]
                    p = pos.get((i, s, k), 0)
                    while p < len(st) and st[p][0] not in ("s", "r", "e"):
                        p += 1
                    if p < len(st):
                        self.fail("lost", "connection %d side %d strand %d stopped at step %d" % (i, s, k, p))
                if (i, s) in eofs and i not in touched and i not in rst:
                    tx = kclosed[(i, 1 - s)][1] if c.kinds[1 - s] == "c" else peers[(i, 1 - s)][0]
                    if got.get((i, s), 0) != tx:
                        self.fail("bytes", "connection %d side %d: end of stream after %d of %d bytes" % (i, s, got.get((i, s), 0), tx))
        if leaks:
            self.fail("leak", "left open at the end: %s" % "; ".join(leaks[:4]))
        spins = sum(1 for o in self.plan.ops if o.startswith("spin"))
        if sum(1 for l in self.lines if l.startswith("spun ")) != spins:
            self.fail("lost", "a yielding fiber did not come to its end")

    def script(self, c, s, k):
        return self.conns[c].sides[s][k]


class NetCheck(Check):
    modules = ["work/net"]
    real, stub = REAL, STUB
    technique = "deterministic simulation: the real event loop over a simulated kernel network with seeded delays, short transfers, errors, resets and GC schedules; history checked against stream semantics"
    rule = "distinct hash of (status, event log); a run is non-trivial when at least one send or receive completed"
    assumptions = ["x86-64, gcc -O1, one VM per process", "at most one fiber sends and one receives on a connection at a time, and only the last of them closes it",
                   "the simulated kernel follows Linux TCP and level-triggered epoll", "IPv4 stream sockets only"]
    quick_runs, thorough_runs = 3000, 200000
    quick_wall, thorough_wall = 45, 780

    def knobs(self, rng):
        cfg = {"main": "work/net#main", "cpu": 30, "nl": rng.choice([1, 1, 2])}
        H.gcknobs(rng, cfg)
        cfg["dmax"] = rng.choice([0, 20, 300, 3000])
        cfg["winmax"] = rng.choice([1, 8, 60, 500, 5000, 65536])
        cfg["p_skip"] = rng.choice([0, 0, 200])
        cfg["p_wintr"] = rng.choice([0, 0, 100])
        return cfg

    def transfers(self, rng, cfg):
        cfg["p_short"] = rng.choice([0, 50, 400, 900])
        cfg["p_eagain"] = rng.choice([0, 0, 20, 200])
        cfg["p_eintr"] = rng.choice([0, 0, 20, 200])

    def size(self, rng, cfg):
        m = min(30000, 40 * cfg["winmax"])
        return min(m, rng.choice([1, 2, 7, 30, 100, 500, 3000, 20000]) + rng.randrange(5)) or 1

    def split(self, rng, op, n):
        if n < 2 or rng.random() < 0.6:
            return [[op, n]]
        k = rng.randrange(1, n)
        return [[op, k], [op, n - k]]

    def noise(self, rng, l, kind):
        out = []
        for i in l:
            x = rng.random()
            if kind == "c":
                if x < 0.06:
                    out.append(["y"])
                elif x < 0.1:
                    out.append(["g", rng.choice([3, 30])])
            elif x < 0.1:
                out.append(["w", rng.choice([10, 500, 5000])])
            out.append(i)
        return out

    def conn(self, rng, cfg, i, maxmsg, cut=0.0, kinds=None):
        ka, kb = kinds or rng.choice(["cc", "cp", "pc", "cp", "pc"])
        duplex = rng.random() < 0.3
        a, b = [[]], [[]]
        msgs = [(rng.randrange(2), self.size(rng, cfg)) for _ in range(rng.randrange(1, maxmsg + 1))]
        if duplex:
            a, b = [[], []], [[], []]
            for d, n in msgs:
                (a if d == 0 else b)[0] += self.split(rng, "s", n)
                (b if d == 0 else a)[1] += self.split(rng, "r", n)
        else:
            for d, n in msgs:
                (a if d == 0 else b)[0] += self.split(rng, "s", n)
                (b if d == 0 else a)[0] += self.split(rng, "r", n)
            if rng.random() < 0.4:
                x = rng.choice([a, b])
                x[0].append(["e"])
        if rng.random() < cut:
            k = rng.randrange(2)
            side = (a, b)[k]
            for st in side:
                del st[rng.randrange(len(st) + 1):]
            if (ka, kb)[k] == "p" and rng.random() < 0.5:
                side[0].append(["x"])
            elif (ka, kb)[k] == "p" and rng.random() < 0.3:
                side[0] += [["h"], ["w", 3000]]
        a = [self.noise(rng, st, ka) for st in a]
        b = [self.noise(rng, st, kb) for st in b]
        return "conn %d %s %s %d %s %s" % (i, ka, kb, rng.choice([0, 0, 100, 5000]), unsx(a), unsx(b))

    def sanitize(self, p):
        # a duplex side must keep both strands; connection ids stay unique
        return p

    def ops_shrink(self, best, fails, end):
        import time
        k = 0
        while k < len(best.ops):
            o = best.ops[k]
            if not o.startswith("conn "):
                k += 1
                continue
            c = Conn(o)
            for s in (0, 1):
                for j in range(len(c.sides[s])):
                    x = 0
                    while x < len(c.sides[s][j]) and time.time() < end:
                        if c.sides[s][j][x][0] in ("y", "g", "w", "st"):
                            keep = c.sides[s][j][x]
                            del c.sides[s][j][x]
                            ops = list(best.ops)
                            ops[k] = "conn %d %s %s %d %s %s" % (c.id, c.ka, c.kb, c.start, unsx(c.sides[0]), unsx(c.sides[1]))
                            g = fails(best.copy(ops=ops))
                            if g is not None:
                                best = g
                                continue
                            c.sides[s][j].insert(x, keep)
                        x += 1
            k += 1
        return best

    def judge(self, plan, res):
        v = status_violation(res)
        if v:
            return v
        j = Judge(plan, res.lines)
        try:
            j.run()
            self.extra(j, plan)
        except Bad as b:
            return b.args[0]
        return None

    def extra(self, j, plan):
        pass

    def nontrivial(self, plan, res):
        return any(l.startswith("e ") for l in res.lines)


class P11(NetCheck):
    """Byte streams."""
    id = "P11"

    def gen(self, rng, i, tier):
        cfg = self.knobs(rng)
        self.transfers(rng, cfg)
        n = rng.choice([1, 1, 2, 3, 6])
        ops = [self.conn(rng, cfg, k, rng.choice([1, 4, 8])) for k in range(n)]
        return Plan(cfg, ops)


class P12(NetCheck):
    """Progress."""
    id = "P12"

    def gen(self, rng, i, tier):
        cfg = self.knobs(rng)
        cfg["p_spin"] = 3 # sleeps in a row cut short by what nothing is done about
        if rng.random() < 0.5:
            self.transfers(rng, cfg)
        if i % 4 == 0:
            cfg["winmax"] = rng.choice([500, 65536])
            cfg["marathon"] = 1
            n = rng.choice([40, 100])
            k = rng.choice([1, 2, 3])
            ops = []
            for c in range(k):
                kinds = rng.choice(["cc", "cp", "pc"])
                a = [x for j in range(n) for x in [["s", 3], ["r", 2]] + ([["st"]] if j % 10 == 5 and kinds[0] == "c" else [])]
                b = [x for j in range(n) for x in [["r", 3], ["s", 2]] + ([["st"]] if j % 10 == 5 and kinds[1] == "c" else [])]
                ops.append("conn %d %s %s 0 %s %s" % (c, kinds[0], kinds[1], unsx([a]), unsx([b])))
            if rng.random() < 0.5:
                ops.append("spin %d" % rng.choice([50, 400]))
            return Plan(cfg, ops)
        if i % 40 == 1: # more ready descriptors than one poll reports
            cfg["winmax"] = 500
            cfg["dmax"] = rng.choice([0, 300])
            ops = ["conn %d %s %d (((s 3) (r 2) (s 5)) ) (((r 3) (s 2) (r 5)))" % (k, rng.choice(["p c", "c p"]), rng.choice([0, 100])) for k in range(90)]
            return Plan(cfg, [o.replace(") )", "))") for o in ops])
        n = rng.choice([1, 2, 4, 8, 14])
        if i % 8 == 2: # a peer that sends ahead of what is read, and is slow to read itself
            cfg["winmax"] = rng.choice([60, 500])
            n = rng.choice([0, 0, 2])
        ops = [self.conn(rng, cfg, k, rng.choice([1, 4])) for k in range(n)]
        if i % 8 == 2:
            for k in range(n, n + rng.choice([1, 2, 4])):
                first, ahead, big = rng.choice([1, 3, 10]), rng.choice([1, 20]), rng.choice([1000, 3000])
                mine = [["r", first], ["s", big], ["r", ahead]]
                peer = [[["s", first + ahead]], [["w", rng.choice([2000, 20000])], ["r", big]]]
                kinds, sides = rng.choice([("c p", ([mine], peer)), ("p c", (peer, [mine]))])
                ops.append("conn %d %s 0 %s %s" % (k, kinds, unsx(sides[0]), unsx(sides[1])))
            return Plan(cfg, ops)
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append("spin %d" % rng.choice([3, 40, 200]))
        return Plan(cfg, ops)

    def extra(self, j, plan):
        if plan.cfg.get("marathon") and j.stk:
            lo = [min(s[1][k] for s in j.stk) for k in range(3)]
            for n, s in j.stk:
                if s[0] > lo[0] + 12 or s[1] > lo[1] + 60 or s[2] > lo[2] + 10:
                    raise Bad(("stack", "stack use grew from %s to %s while fibers waited for the network" % (lo, s)))


class P13(NetCheck):
    """Failures stay where they happen."""
    id = "P13"

    def gen(self, rng, i, tier):
        cfg = self.knobs(rng)
        if rng.random() < 0.5:
            self.transfers(rng, cfg)
        cfg["p_rst"] = rng.choice([0, 0, 30, 200])
        cfg["rstleft"] = rng.choice([1, 2, 5])
        for k in ("p_acc", "p_dial", "p_sock", "p_gai", "p_bind"):
            cfg[k] = rng.choice([0, 0, 100, 300])
        n = rng.choice([1, 2, 3, 6, 10])
        ops = [self.conn(rng, cfg, k, rng.choice([1, 4, 8]), cut=0.5) for k in range(n)]
        if rng.random() < 0.3:
            ops.append("spin %d" % rng.choice([3, 40]))
        return Plan(cfg, ops)

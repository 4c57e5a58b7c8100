"""P21: the REPL and scripts: what they print, run and return, against the reference evaluator."""
import sys
from .runner import Check, Plan, status_violation
from . import heapmodel as H
from .simlog import parse, Sym, py
from .checks_cml import Bad
from .checks_io import Reader, Refused, Unclear as RUnclear, read_toks, tok
from .checks_lang import Ev, Gen, Unclear, Throw, Pair, Fn, source, text, weight, dump, KEYWORDS, S, plist


def show(o):
    """how a value is printed"""
    if isinstance(o, bool):
        return b"true" if o else b"false"
    if isinstance(o, int):
        return b"%d" % o
    if isinstance(o, bytes):
        if b"\0" in o:
            raise Unclear("NUL")
        return b'"' + o + b'"'
    if o is None:
        return b"()"
    if isinstance(o, Sym):
        if len(o.encode()) > 250:
            raise Unclear("long symbol")
        return o.encode()
    if isinstance(o, Fn):
        return b"native"
    if isinstance(o, Pair):
        out = []
        while isinstance(o, Pair):
            out.append(show(o.a))
            o = o.d
        return b"(" + b" ".join(out) + (b" . " + show(o) if o is not None else b"") + b")"
    raise Unclear("printing")


TR = b"(defun tr (k x) (begin (work/sim#sim-log 'e (list k x)) x))\n(def sim-log work/sim#sim-log)\n"
JUNK = [b")", b"(car '(1 2)", b'"abc', b"(", b"'", b'(sim-log \'v "x', b"] 5", b"(1 . 2", b")))", b"(list 1 2))\n(sim-log 'v 5)"]


class P21(Check):
    id = "P21"
    modules = ["@bare"]
    real = ["main.c", "src/*.c (VM, reader, printer, collector)", "init.cora, lib/toc.cora, lib/eval.cora"]
    stub = ["standard input, standard output, the script's file (seeded splits)", "when a GC cycle starts and how many mark steps each allocation does"]
    technique = "deterministic simulation: seeded search over sessions and scripts, splits of the input and collection schedules, against a reference evaluator and printer"
    quick_runs, thorough_runs = 3000, 300000
    quick_wall, thorough_wall = 60, 780
    rule = "distinct hash of (status, event log); a run is non-trivial when at least three forms ran"
    assumptions = ["numbers stay within 2^53", "arguments are evaluated from left to right", "no throw leaves a form of the toplevel"]

    def gen(self, rng, i, tier):
        script = rng.random() < 0.45
        cfg = {"main": "-", "fs": 1, "stdout": 1, "cpu": 60, "tickcap": 100000000}
        if rng.random() < 0.5:
            H.gcknobs(rng, cfg)
        else:
            cfg["gcmode"], cfg["reach"] = 0, 1000
        cfg["p_split"] = rng.choice([0, 100, 1000])
        cfg["p_short"] = rng.choice([0, 0, 300])
        cfg["bufsize"] = rng.choice([0, 1, 2, 7, 64, 512, 4096])
        g, e = Gen(rng, "eval"), session()
        its, limit = [], 20000
        for _ in range(rng.choice([0, 1, 3, 6, 12, 40])):
            for _ in range(6):
                f, note = self.item(rng, g)
                old, n = dict(e.globals), len(e.out)
                e.limit = 4000
                w = weight(f)
                ok = w < limit
                try:
                    if ok:
                        show(e.top(f)) if not isinstance(f, Sym) else None
                        b = text(f)
                        b = self.layout(rng, b)
                        if source(Reader(b).all()) != (f if isinstance(f, list) else ["begin", f]):
                            ok = False
                except (Unclear, Throw, RecursionError, Refused, RUnclear):
                    ok = False
                if ok:
                    its.append(b)
                    limit -= w // 2
                    if note:
                        note[0][note[1]] = note[2]
                    break
                e.globals = old
                del e.out[n:]
        ops = []
        if script:
            args = [b"s.cora"] + [rng.choice([b"", b"a", b"-x", b"--help", b"a b", b"\xc3\xa9", b"(car", b"%d", b"x" * 300, b'"q"']) for _ in range(rng.choice([0, 0, 1, 2, 5, 20]))]
            if rng.random() < 0.04:
                args[0] = rng.choice([b"nofile.cora", b"", b"."])
            ops += ["a " + tok(a) for a in args]
            if rng.random() < 0.85:
                line = b"#!/usr/bin/env cora" if rng.random() < 0.5 else b"#!" + rng.choice([b"/bin/x ", b"(sim-log 'v 9)", b"/a\xff", b" "]) * rng.choice([0, 1, 2, 10, 20, 30, 60, 500])
                if rng.random() < 0.6:
                    w = rng.choice([250, 251, 252, 253, 254, 255, 256, 257, 258, 509, 510, 511, 512, 513, 600, 5000])
                    line = (line + b"(car 5) " * (w // 8 + 1))[:w]
                ops.append("h " + tok(line + b"\n"))
        if its or rng.random() < 0.5:
            ops.append("p " + tok(TR))
        for b in its:
            ops.append("i " + tok(b))
        if script and its and rng.random() < 0.5:
            ops.append("i " + tok(b"(tr 'args *command-line-args*)\n"))
        if rng.random() < 0.2:
            ops.append("j " + tok(rng.choice(JUNK)))
            if rng.random() < 0.5:
                ops.append("k " + tok(b"\n(work/sim#sim-log 'v 77)\n"))
        return Plan(cfg, ops)

    def item(self, rng, g):
        k = rng.random()
        if k < 0.12:
            return rng.choice([1, -5, 0, 2 ** 40, True, False, None, None, [S("list")], [S("quote"), S("nil")], b"str\\ing", b"", b"two\nlines", b"%s%d", [S("quote"), S("sym")]]), None
        if k < 0.5:
            return g.expr(rng.choice("IIIBSLLAAAAY"), [], rng.choice([1, 2, 3, 4])), None
        return g.item()

    def layout(self, rng, b):
        """what stands after a form"""
        return b + rng.choice([b"\n", b"\n", b"\n", b" ", b"\n\n\n", b"\t", b" ; note (\n", b"\n;; )\n"])

    def parts(self, plan):
        args, head, body, its = [], None, [], None
        n = 0
        for o in plan.ops:
            t = read_toks(o)
            k = t[0]
            if k == "a":
                if n > 0:
                    return None
                args.append(t[1])
                continue
            r = "hpijk".find(k)
            if r < 0 or r < n and not (k == "i" and n == 2):
                return None
            n = r
            if k == "h":
                if head is not None or not args:
                    return None
                head = t[1]
            else:
                body.append((k, t[1]))
        return args, head, body

    def expected(self, plan):
        p = self.parts(plan)
        if p is None:
            raise Unclear("parts")
        args, head, body = p
        e, values = session(), []
        script = bool(args)
        if script:
            if args[0] != b"s.cora":
                return script, None, [], None
            e.globals[S("*command-line-args*")] = plist(args)
            if head is None and (not body or body[0][1][:2] == b"#!"):
                raise Unclear("empty file")
        bad = False
        if body and body[0][0] == "i":
            raise Unclear("no preamble")
        for k, b in body:
            if k == "k":
                continue
            if k == "j":
                bad = True
                if b.startswith(b"(list"):
                    values.append(b"(1 2)")
                break
            if k == "p":
                if b != TR:
                    raise Unclear("preamble")
                values += [b"native", b"native"]
                continue
            try:
                f = Reader(b).all()
            except (Refused, RUnclear):
                raise Unclear("text")
            e.limit = 4000
            try:
                x = source(f)
                v = e.top(x)
                if isinstance(x, list) and x and x[0] in ("def", "defun", "func"):
                    v = e.globals[x[1]]
                values.append(show(v))
            except Throw:
                raise Unclear("throw")
            except RecursionError:
                raise Unclear("depth")
        return script, values, e.out, bad

    def sanitize(self, plan):
        try:
            self.expected(plan)
        except Unclear:
            return None
        return plan

    def judge(self, plan, res):
        try:
            want = self.expected(plan)
        except Unclear:
            return None
        v = status_violation(res)
        if v:
            return v
        try:
            self.compare(plan, want, res)
        except Bad as b:
            return b.args[0]
        return None

    def compare(self, plan, want, res):
        script, values, log, bad = want
        out, k, depth, rc, gone = b"", 0, set(), None, False
        for ln in res.lines:
            w = ln.split(" ", 1)
            if w[0] in ("e", "v"):
                try:
                    got = (w[0], py(parse(w[1])))
                except (IndexError, ValueError):
                    got = (w[0], w[1])
                if k >= len(log):
                    raise Bad(("value", "after the program: %r" % (got,)))
                if got != log[k]:
                    raise Bad(("value", "effect %d is %r, expected %r" % (k, got, log[k])))
                k += 1
            elif w[0] == "stdout":
                out += bytes.fromhex(w[1])
            elif w[0] == "depth":
                depth.add(w[1])
            elif w[0] == "exit":
                rc = int(w[1])
        if k < len(log):
            raise Bad(("value", "%d effects of %d" % (k, len(log))))
        if len(depth) > 1:
            raise Bad(("stack", "the stack changes between forms: %s" % sorted(depth)))
        if script:
            if out:
                raise Bad(("output", "a script that prints nothing printed %r" % out[:200]))
            if values is None:
                if rc == 0:
                    raise Bad(("status", "a script that cannot be read: exit status 0"))
            elif rc != 0 and not bad:
                raise Bad(("status", "exit status %d" % rc))
            return
        exp = b"".join(b"%d #> " % i + v + b"\n" for i, v in enumerate(values)) + b"%d #> " % len(values)
        if out[:len(exp)] != exp:
            n = next(i for i in range(len(exp) + 1) if out[:i] != exp[:i])
            raise Bad(("output", "printed %r where %r is expected" % (out[max(0, n - 40):n + 60], exp[max(0, n - 40):n + 60])))
        if len(out) > len(exp) and not bad:
            raise Bad(("output", "printed %r after the last prompt" % out[len(exp):len(exp) + 100]))
        if rc != 0 and not bad:
            raise Bad(("status", "exit status %d at the end of the input" % rc))

    def nontrivial(self, plan, res):
        return sum(1 for l in res.lines if l[:6] == "depth ") >= 4


def session():
    e = Ev()
    return e

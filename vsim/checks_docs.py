"""P22: markdown, JSON and XML documents: what a program gets is what the file says."""
import json
from .runner import Check, Plan, status_violation
from . import heapmodel as H
from .simlog import parse, Sym, py, to_list
from .checks_cml import Bad
from .checks_io import tok
from .checks_lib import sh, xml, Invalid, read_op

LETTERS = "abcdefghijklmnopqrstuvwxyz"
WIDE = ["é", "ß", "中", "文", "Ω", "𝄞"]


# ------------------------------------------------------------------ markdown

def merge(l):
    out = []
    for x in l:
        if isinstance(x, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += x
        else:
            out.append(x)
    return [x for x in out if x != b""]


def el(tag, *kids, at=None):
    return (Sym(tag),) + (((Sym("@"),) + tuple(at),) if at else ()) + tuple(merge(kids))


class Md:
    """A document as text together with the tree it stands for."""

    def __init__(self, rng):
        self.r = rng
        self.refs = []

    def word(self):
        r = self.r
        w = "".join(r.choice(LETTERS) for _ in range(r.choice([1, 2, 3, 5, 9])))
        if r.random() < 0.08:
            w += r.choice(WIDE)
        if r.random() < 0.05:
            w += "_" + r.choice(LETTERS)
        return w

    def url(self):
        r = self.r
        if r.random() < 0.08:
            return ""
        u = r.choice(["http://", "/", "x.", "mailto:"]) + self.word().split("_")[0]
        if r.random() < 0.1:
            u += r.choice(["?x=1&amp;y=2", "&copy;", "&#35;a"])     # entities stay as they are written
        if r.random() < 0.4:
            u += r.choice(["?a=1&b=2", "#top", "/b.html", "?q=" + r.choice(LETTERS), "/%20x"])
        return u

    def words(self, n):
        return " ".join(self.word() for _ in range(n))

    def codetext(self):
        r = self.r
        return " ".join("".join(r.choice("abc*_<>&\"'[]()!#\\=+-~") for _ in range(r.choice([1, 2, 4]))) for _ in range(r.choice([1, 1, 2, 3]))).strip()

    def inline(self, d, no=(), breaks=True, pre="", n=None):
        """-> (text, nodes); starts with a letter and ends with a letter or a digit or a closing mark"""
        r = self.r
        text, nodes = "", []
        n = n or r.choice([1, 2, 3, 3, 5, 8])
        for i in range(n):
            k = r.random() if 0 < i < n - 1 or (i and d == 0 and not no) else 0
            if i:
                sep = " "
                if breaks is not None and "br" not in no and breaks and r.random() < 0.08:
                    kind = r.choice(["soft", "soft", "hard", "back"])
                    sep = {"soft": "\n", "hard": "  \n", "back": "\\\n"}[kind] + pre
                    nodes.append(b"\n" if kind == "soft" else (Sym("br"),))
                    k = 0
                else:
                    nodes.append(b" ")
                text += sep
            t, m = self.item(k, d, no)
            text += t
            nodes += m
        return text, merge(nodes)

    def item(self, k, d, no):
        r = self.r
        if k < 0.6 or d > 3:
            w = self.word()
            if r.random() < 0.1:
                w += r.choice([",", ";", "1", "22", "'s", '"'])
            return w, [w.encode()]
        inner = lambda *x: self.inline(d + 1, no=tuple(no) + x, breaks=False, n=r.choice([1, 1, 3, 4]))
        c = r.choice(["esc", "amp", "lt", "em", "strong", "del", "code", "code", "link", "link", "img", "auto", "html", "ref", "code2"])
        if c in no or (c in ("ref", "auto") and "link" in no) or (c == "img" and "img" in no):
            c = "esc"
        if c == "esc":
            s = r.choice("*_`[]()#+-.!\\<>&~|{}\"'$%^=:;,@/?")
            return "\\" + s, [s.encode()]
        if c == "amp":
            return "&", [b"&"]
        if c == "lt":
            s = r.choice(["<", ">", "=", "5", "'", '"', "(x)", "a*b"[:1]])
            return s, [s.encode()]
        if c in ("em", "strong", "del"):
            t, m = inner(c)
            mark = {"em": "*", "strong": "**", "del": "~~"}[c]
            if c == "del" and r.random() < 0.3:
                mark = "~"
            return mark + t + mark, [el(c, *m)]
        if c == "code":
            s = self.codetext()
            return "`" + s + "`", [el("code", s.encode())]
        if c == "code2":
            s = self.word() + "`" + self.word()
            return "``" + s + "``", [el("code", s.encode())]
        if c == "link":
            t, m = inner("link", "img" if r.random() < 0.5 else "link")
            u = self.url()
            at = [(Sym("href"), u.encode())]
            s = "[" + t + "](" + u
            if r.random() < 0.3:
                ti = self.words(r.choice([1, 2])) + r.choice(["", " & <x>", " it's"])
                s += ("" if u else "<>") + ' "' + ti + '"'
                at.append((Sym("title"), ti.encode()))
            return s + ")", [el("a", *m, at=at)]
        if c == "ref":
            t = self.words(1)
            u = self.url() or "/"
            lab = "ref%d" % len(self.refs)
            self.refs.append("[%s]: %s" % (lab, u))
            return "[%s][%s]" % (t, lab), [el("a", t.encode(), at=[(Sym("href"), u.encode())])]
        if c == "img":
            t = self.words(r.choice([1, 2]))
            u = self.url()
            return "![%s](%s)" % (t, u), [el("img", t.encode(), at=[(Sym("src"), u.encode())])]
        if c == "auto":
            u = "http://" + self.word().split("_")[0].encode("ascii", "ignore").decode() + ".org/x"
            return "<" + u + ">", [el("a", u.encode(), at=[(Sym("href"), u.encode())])]
        return r.choice(["<b>", "</i>", "<!-- c -->", '<x y="z">']), []

    def para(self):
        t, m = self.inline(0)
        return t.split("\n"), m

    def blocks(self, d, n, ctx):
        """-> (lines, nodes): n blocks with blank lines between; ctx: doc, quote, item"""
        r = self.r
        lines, nodes, last = [], [], None
        for i in range(n):
            first = i == 0
            kinds = ["p", "p", "p", "h", "fence"]
            if d < self.depth:
                kinds += ["quote", "ul", "ol", "ul"]
            if ctx != "item":
                kinds += ["hr", "setext", "indent"]
            k = r.choice(kinds)
            if ctx == "item" and first:
                k = r.choice(["p", "p", "p", "h", "fence", "quote" if d < self.depth else "p"])
            if k == "indent" and (last is None or last[0] in ("list", "indent")):
                k = "p"
            if k == "quote" and last == ("quote",):
                pass
            now = (k,)
            if k == "p":
                l, m = self.para()
                m = [el("p", *m)]
            elif k == "h":
                t, m = self.inline(0, breaks=False)
                lv = r.randint(1, 6)
                l, m = ["#" * lv + " " + t + (" " + "#" * lv if r.random() < 0.2 else "")], [el("h%d" % lv, *m)]
            elif k == "setext":
                t, m = self.inline(0, breaks=False)
                lv = r.choice([1, 2])
                l, m = [t, ("=" if lv == 1 else "-") * r.choice([3, 5])], [el("h%d" % lv, *m)]
            elif k == "hr":
                l, m = [r.choice(["***", "---", "___", "* * *"])], [el("hr")]
            elif k == "fence":
                l, m = self.fence(ctx)
            elif k == "indent":
                l = ["    " + self.codeline() for _ in range(r.choice([1, 2, 4]))]
                m = [el("pre", el("code", *[x[4:].encode() + b"\n" for x in l]))]
            elif k == "quote":
                sub, m = self.blocks(d + 1, r.choice([1, 1, 2, 3]), "quote")
                l, m = [("> " + x) if x else ">" for x in sub], [el("blockquote", *m)]
            else:
                l, m, mark = self.list(k, d, last[1] if last and last[0] == "list" else None)
                now = ("list", mark)
            if lines:
                lines.append("")
            lines += l
            nodes += m
            last = now
        return lines, nodes

    def codeline(self):
        r = self.r
        c = self.codetext() or "x"
        return ("a" if c[0] in "`~" else "") + " " * r.choice([0, 0, 0, 2, 5]) + r.choice([c, c, self.word(), "<p>&amp;</p>", "# no heading", "- no list", "> no quote"])

    def fence(self, ctx):
        r = self.r
        ls = []
        for _ in range(r.choice([0, 1, 2, 3, 8])):
            ls.append("" if r.random() < 0.15 and ctx != "item" else self.codeline())
        mark = r.choice(["```", "~~~~", "````"])
        lang = r.choice(["", "", "c", "scheme", "c++"])
        at = [(Sym("class"), b"language-" + lang.encode())] if lang else None
        ls = [x if not x.lstrip().startswith(("```", "~~~")) else "x" for x in ls]
        return [mark + lang + (" more words" if lang and r.random() < 0.2 else "")] + ls + [mark], \
            [el("pre", el("code", *[x.encode() + b"\n" for x in ls], at=at))]

    def list(self, k, d, avoid, tight=None):
        r = self.r
        n = r.choice([1, 2, 3, 5])
        only1 = tight is not None       # inside a tight item: may have to interrupt a paragraph
        tight = tight if tight is not None else r.random() < 0.6
        if k == "ul":
            mark = r.choice([c for c in "-*+" if c != avoid])
            start = None
        else:
            mark = r.choice([c for c in ".)" if c != avoid])
            start = 1 if only1 else r.choice([1, 1, 1, 0, 2, 7, 10, 99, 1000000, 123456789])
        lines, items, loose = [], [], False
        for i in range(n):
            head = (mark if start is None else "%d%s" % (min(start + i, 999999999), mark)) + " "
            w = " " * len(head)
            task = None
            if tight:
                t, m = self.inline(0, pre="")
                l = t.split("\n")
                if d < self.depth and r.random() < 0.25:
                    l2, m2, _ = self.list(r.choice(["ul", "ol"]), d + 1, None, tight=True)
                    l, m = l + l2, m + m2
            else:
                l, m = self.blocks(d + 1, r.choice([1, 1, 2, 3]), "item")
                if len(m) > 1 or n > 1:
                    loose = True
            if r.random() < 0.15 and l[0][:1].isalpha():
                task = r.choice("x X")
                l = ["[%s] " % task + l[0]] + l[1:]
            if i and not tight:
                lines.append("")
            lines += [head + l[0]] + [(w + x) if x else "" for x in l[1:]]
            items.append((m, task))
        kids = []
        for m, task in items:
            if not tight and not loose:     # a lone item with a single block
                m = [y for x in m for y in (x[1:] if x[0] == "p" else [x])]
            at = None
            if task:
                box = el("input", at=[(Sym("type"), b"checkbox"), (Sym("class"), b"task-list-item-checkbox"), Sym("disabled")] +
                         ([Sym("checked")] if task in "xX" else []))
                m, at = [box] + list(m), [(Sym("class"), b"task-list-item")]
            kids.append(el("li", *m, at=at))
        at = [(Sym("start"), start)] if start not in (None, 1) else None
        return lines, [el(k, *kids, at=at)], mark

    def doc(self):
        r = self.r
        self.depth = r.choice([0, 1, 2, 2, 3, 8])
        n = r.choice([0, 1, 1, 2, 4, 10])
        if r.random() < 0.05:
            return self.deep()
        lines, nodes = self.blocks(0, n, "doc")
        if self.refs:
            lines += [""] + self.refs
        t = "\n".join(lines) + (r.choice(["\n", "\n", "", "\n\n\n"]))
        if r.random() < 0.1 and "\\\n" not in t:
            t = t.replace("\n", "\r\n")
        return t.encode(), nodes

    def deep(self):
        """many levels of one thing"""
        r = self.r
        n = r.choice([14, 15, 16, 17, 31, 33, 40])
        t, m = self.word(), None
        m = el("p", t.encode())
        for _ in range(n):
            m = el("blockquote", m)
        tail, after = self.blocks(0, 2, "doc")
        return (("> " * n + t + "\n\n") + "\n".join(tail + ([""] + self.refs if self.refs else [])) + "\n").encode(), [m] + after


# ------------------------------------------------------------------ JSON

class Js:
    def __init__(self, rng):
        self.r = rng

    def ws(self):
        return self.r.choice(["", "", "", "", " ", "\n", "\t", "  ", "\r\n"])

    def str(self):
        r = self.r
        out, n = "", r.choice([0, 1, 2, 5, 12])
        for _ in range(n):
            k = r.random()
            if k < 0.7:
                out += r.choice(LETTERS + "AZ019 _-./:{}[],'")
            elif k < 0.85:
                out += r.choice(['\\"', "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u4e2d", "\\ud834\\udd1e", "\\u001f"])
            else:
                out += r.choice(WIDE)
        return '"' + out + '"'

    def num(self):
        r = self.r
        if r.random() < 0.7:
            return str(r.choice([0, 1, -1, 7, 10, -100, 65535, 2**31 - 1, -2**31, 2**31, 2**32, 2**32 + 5, -2**40, 2**53, 10**15, r.randint(-10**9, 10**9)]))
        return r.choice(["0.5", "-1.25", "1e3", "2E-2", "-0.0", "10.0", "1e+2", "0e0"])

    def value(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.45:
            return r.choice([self.num, self.num, self.str, self.str, lambda: "true", lambda: "false", lambda: "null"])()
        return self.box(d)

    def box(self, d):
        r = self.r
        n = r.choice([0, 1, 2, 3, 3, 6, 20])
        if r.random() < 0.5:
            b = ("," + self.ws()).join(self.ws() + self.value(d - 1) + self.ws() for _ in range(n))
            return "[" + b + (self.ws() if not n else "") + "]"
        b = ",".join(self.ws() + self.str() + self.ws() + ":" + self.ws() + self.value(d - 1) + self.ws() for _ in range(n))
        return "{" + b + "}"

    def doc(self):
        r = self.r
        t = self.ws() + self.box(r.choice([1, 2, 3, 5])) + self.ws()
        if r.random() < 0.03:
            n = r.choice([50, 300])
            t = "[" * n + t + "]" * n
        t = t.encode()
        k = r.random()
        if k < 0.1:
            t = t[:r.randrange(len(t))]
        elif k < 0.15:
            p = r.randrange(len(t))
            t = t[:p] + t[p + 1:]
        elif k < 0.2:
            p = r.randrange(len(t) + 1)
            t = t[:p] + bytes([r.choice(b',:"]}[{x0-. \x01\xff\\')]) + t[p:]
        return t


def load_json(t):
    """-> [tree] or None; raises Invalid where the two dialects differ"""
    try:
        s = t.decode("utf-8")
    except UnicodeDecodeError:
        return None

    def const(c):
        raise ValueError(c)

    def big(s):
        v = int(s)
        if not -2**53 <= v <= 2**53:
            raise Invalid
        return v

    def real(s):
        v = float(s)
        if v in (float("inf"), float("-inf")):
            raise Invalid
        return Real(v)

    def pairs(l):
        if any(odd(x) for kv in l for x in kv):
            raise Invalid       # also where a later pair replaces this one
        return dict(l)

    try:
        v = json.loads(s, object_pairs_hook=pairs, parse_constant=const, parse_int=big, parse_float=real)
    except RecursionError:
        raise Invalid
    except ValueError:
        return None
    if odd(v):
        raise Invalid
    return [v] if isinstance(v, (list, dict)) else None


def odd(v):
    if isinstance(v, str):
        return any(c == "\0" or 0xd800 <= ord(c) < 0xe000 for c in v)
    if isinstance(v, list):
        return any(odd(x) for x in v)
    if isinstance(v, dict):
        return any(odd(k) or odd(x) for k, x in v.items())
    return False


class Real(float):
    pass


def facts(v):
    ty = "array" if isinstance(v, list) else "object" if isinstance(v, dict) else "string" if isinstance(v, str) else \
        "null" if v is None else "true" if v is True else "false" if v is False else "real" if isinstance(v, Real) else "integer"
    is_ = [ty == x for x in ("array", "object", "integer", "real", "string", "null", "true", "false")]
    return (Sym(ty), tuple(is_), v if ty == "integer" else 0, v.encode() if ty == "string" else b"",
            len(v) if ty == "array" else 0, len(v) if ty == "object" else 0)


def walk(v, path):
    for p in path:
        if isinstance(p, bytes):
            k = p.decode("utf-8", "replace")
            if not isinstance(v, dict) or k not in v:
                return Sym("none")
            v = v[k]
        else:
            if not isinstance(v, list) or not 0 <= p < len(v):
                return Sym("none")
            v = v[p]
    return facts(v)


# ------------------------------------------------------------------ the check

def norm(v):
    """adjacent texts are one text"""
    if isinstance(v, tuple) and v and v[0] == "l":
        out = []
        for x in v[1]:
            x = norm(x)
            if isinstance(x, bytes) and out and isinstance(out[-1], bytes):
                out[-1] += x
            elif x != b"":
                out.append(x)
        return ("l", tuple(out), v[2])
    return v


KEEP_MAX = 2048


class P22(Check):
    id = "P22"
    modules = ["work/docs"]
    real = ["lib/md4c/wrap.c, md4c.c", "lib/json.c, jansson", "lib/sxml.cora", "src/export.c", "src/*.c (VM, collector)", "glibc stdio buffering"]
    stub = ["open, read, close below stdio (any chunk size, EIO at any point, EMFILE)", "when a GC cycle starts and how many mark steps each allocation does"]
    technique = "deterministic simulation: seeded search over documents, chunkings, read faults and collection schedules, against the tree each document was made from"
    quick_runs, thorough_runs = 8000, 1000000
    quick_wall, thorough_wall = 50, 780
    rule = "distinct hash of (status, event log); a run is non-trivial when a document was read"
    assumptions = ["markdown made of the constructs the generator knows, without character entities", "JSON integers within 2^53"]

    def gen(self, rng, i, tier):
        cfg = {"main": "work/docs#main", "fs": 1, "stdout": 1, "cpu": 30, "tickcap": 3000000}
        if rng.random() < 0.7:
            H.gcknobs(rng, cfg)
        else:
            cfg["gcmode"], cfg["reach"] = 0, 1000
        cfg["bufsize"] = rng.choice([1, 2, 7, 16, 64, 512, 4096])
        cfg["p_short"] = rng.choice([0, 100, 500, 1000])
        if rng.random() < 0.3:
            cfg["f_read"] = rng.choice([5, 50, 300])
            cfg["f_open"] = rng.choice([0, 50])
            cfg["maxfault"] = rng.choice([1, 1, 3])
        ops, files, tab = [], [], {}
        for k in range(rng.choice([1, 2, 4])):
            name = b"d%d" % k
            if rng.random() < 0.55:
                t, m = Md(rng).doc()
                if rng.random() < 0.02:
                    n = rng.choice([33000, 70000]) // max(1, len(t)) + 1
                    if n < 900 and t.endswith(b"\n\n") and m and m[-1][0] in ("p", "h1"):
                        t, m = t * n, m * n
                ops.append("f %s %s %s" % (tok(name), tok(t), tok(tuple(m)) if m else "()"))
                files.append((name, "m", m))
            else:
                t = Js(rng).doc()
                ops.append("f %s %s" % (tok(name), tok(t)))
                try:
                    files.append((name, "j", load_json(t)))
                except Invalid:
                    files.append((name, "j", None))
        for _ in range(rng.choice([3, 8, 20])):
            k = rng.random()
            full = [x for x in tab if tab[x] is not None]
            if k < 0.45 or not full:
                name, kind, d = rng.choice(files)
                s = rng.randrange(8)
                if rng.random() < 0.03:
                    name, d = b"gone", None
                ops.append("%s %d %s" % (kind, s, tok(name)))
                tab[s] = (kind, d)
            elif k < 0.5:
                md = [f for f in files if f[1] == "m"]
                if rng.random() < 0.3:
                    ops.append("n " + tok(rng.choice([None, 7, b"", b"x", Sym("a"), (1, 2), True])))
                elif md and rng.random() < 0.4:
                    ops.append("l 0 " + tok(rng.choice(md)[0]))
                else:
                    ops.append("g %d" % rng.choice([50, 300]))
            elif k < 0.53:
                s = rng.choice(full)
                ops.append("c %d" % s)
                tab[s] = None
            else:
                s = rng.choice(full)
                kind, d = tab[s]
                if kind == "m":
                    ops.append("%s %d" % (rng.choice("vx"), s))
                else:
                    for _ in range(4):
                        ops.append("q %d %s" % (s, tok(self.path(rng, d[0] if d else None)) or "()"))
        return Plan(cfg, ops)

    def path(self, rng, v):
        p = []
        while True:
            if rng.random() < 0.08:
                p.append(rng.choice([0, 1, -1, 50, 2**32, 2**31, 2**32 + 1, b"", b"a", b"zz"]))
                break
            if isinstance(v, list) and v and rng.random() < 0.85:
                k = rng.randrange(len(v))
                p.append(k)
                v = v[k]
            elif isinstance(v, dict) and v and rng.random() < 0.85:
                k = rng.choice(sorted(v))
                p.append(k.encode())
                v = v[k]
            else:
                break
        return tuple(p) if p else None

    def sanitize(self, plan):
        tab, ops = {}, []
        for t in plan.ops:
            o = read_toks_(t)
            if o[0] in ("q", "v", "x") and tab.get(o[1]) != ("j" if o[0] == "q" else "m"):
                continue
            if o[0] in ("j", "m"):
                tab[o[1]] = o[0]
            elif o[0] == "c":
                tab.pop(o[1], None)
            ops.append(t)
        return plan.copy(ops=ops) if ops else None

    def judge(self, plan, res):
        v = status_violation(res)
        if v:
            return v
        try:
            self.judge1(plan, res)
        except Bad as b:
            return b.args[0]
        return None

    def judge1(self, plan, res):
        ops = [read_toks_(t) for t in plan.ops]
        files, tab, cur, faulty, parts, stack = {}, {}, None, False, [], []
        pos = 0
        for ln in res.lines:
            w, _, rest = ln.partition(" ")
            if w == "op":
                cur = to_list(parse(rest))[0]
                for o in ops[pos:cur]:
                    if o[0] == "f":
                        files[o[1]] = o[2:]
                pos = cur
                faulty = False
            elif w == "fault":
                faulty = True
            elif w == "part":
                parts.append(rest)
            elif w == "read":
                got = py(parse("".join(parts) + rest))
                parts = []
                self.result(ops[cur], got, files, tab, faulty, cur)
            elif w == "stack":
                stack.append(rest)
            elif w == "files" and rest != "0":
                raise Bad(("files", "%s files are open at the end" % rest))
        if len(stack) == 2 and stack[0] != stack[1]:
            raise Bad(("stack", "the stack is %s deep before and %s after" % tuple(stack)))

    def result(self, o, got, files, tab, faulty, i):
        k, s = o[0], o[1]
        what = "op %d (%s)" % (i, " ".join(tok(x)[:40] for x in o))

        def need(want, cls):
            if norm(got) != norm(want):
                a, b = show(got, want)
                raise Bad((cls, "%s gave %s, expected %s" % (what, a, b)))

        if k == "j":
            f = files.get(o[2])
            tab[s] = None
            try:
                d = load_json(f[0]) if f else None
            except Invalid:
                tab[s] = "unclear"
                return
            if got == ("y", "none") and faulty:
                return
            need(("y", "json" if d else "none"), "json")
            tab[s] = d
        elif k == "q":
            d = tab.get(s)
            if d == "unclear":
                return
            need(sh(walk(d[0], o[2] or ()) if d else Sym("none")), "json")
        elif k == "m":
            f = files.get(o[2])
            want = model(f[1]) if f else None
            if got is None and faulty:
                want = None
            else:
                need(sh(want), "markdown")
            tab[s] = want
        elif k == "n":
            need(sh((None, (False,) * 8, 0, b"")), "json")
        elif k == "l":
            if not faulty and got > KEEP_MAX:
                raise Bad(("leak", "%s: reading it once more keeps %d bytes of the C heap" % (what, got)))
        elif k == "v":
            need(sh(tab.get(s)), "markdown")
        elif k == "x":
            need(xml(tab.get(s)), "xml")

    def nontrivial(self, plan, res):
        return any(l.startswith("read ") for l in res.lines)


def show(a, b):
    a, b = str(a), str(b)
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    k = max(0, k - 60)
    return ("…" if k else "") + a[k:k + 200], ("…" if k else "") + b[k:k + 200]


def model(v):
    return v if v is None or isinstance(v, bytes) else tuple(v)


def read_toks_(t):
    return list(read_op(t))

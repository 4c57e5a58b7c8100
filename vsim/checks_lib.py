"""P20: tables, queues, byte strings, records, thread locals, parsers and XML of the library against a model."""
from .runner import Check, Plan, status_violation
from . import heapmodel as H
from .simlog import parse, Sym, py, to_list
from .checks_cml import Bad
from .checks_io import tok, fnv


class Invalid(Exception):
    pass


def same(a, b):
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def norm(v):
    return None if v == () else tuple(norm(x) for x in v) if isinstance(v, tuple) else v


def sh(v):
    """model value -> the shape of simlog.py()"""
    if isinstance(v, Str):
        return bytes(v.b)
    if isinstance(v, (list, tuple)):
        return ("l", tuple(sh(x) for x in v), None) if v else None
    if isinstance(v, Dot):
        return dot(sh(v.a), sh(v.d))
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, Sym):
        return ("y", str(v))
    return v


def dot(a, d):
    if isinstance(d, tuple) and d and d[0] == "l":
        return ("l", (a,) + d[1], d[2])
    return ("l", (a,), d)


class Dot:
    def __init__(self, a, d):
        self.a, self.d = a, d


class Str:
    """a byte string: contents may be changed through any reference"""
    def __init__(self, b, raw=False):
        self.b, self.raw = bytearray(b), raw    # raw: nothing else can refer to it but slots


class Hash:
    def __init__(self):
        self.l = []


class Unnamed:
    """a symbol made by gensym"""
    def __init__(self):
        self.v = ()


class Rec:
    def __init__(self, k, f):
        self.k, self.f = k, f


TEXT = {ord("<"): b"&lt;", ord(">"): b"&gt;", ord("&"): b"&amp;", ord('"'): b"&quot;", ord("'"): b"&apos;"}


def esc(b):
    return b"".join(TEXT.get(c, bytes([c])) for c in b)


def xml(x):
    if isinstance(x, bytes):
        return esc(x)
    if x is None or x == ():
        return b""
    if not isinstance(x, tuple):
        raise Invalid
    if isinstance(x[0], Sym):
        tag, body, at = x[0].encode(), x[1:], b""
        if body and isinstance(body[0], tuple) and body[0] and body[0][0] == Sym("@") and isinstance(body[0][0], Sym):
            for a in body[0][1:]:
                if isinstance(a, Sym):
                    at += b" " + a.encode()
                elif isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], Sym):
                    if isinstance(a[1], bytes):
                        v = esc(a[1])
                    elif isinstance(a[1], int) and not isinstance(a[1], bool):
                        v = b"%d" % a[1]
                    else:
                        raise Invalid
                    at += b" " + a[0].encode() + b'="' + v + b'"'
                else:
                    raise Invalid
            body = body[1:]
        if any(isinstance(y, Sym) for y in body):
            raise Invalid
        if not body:
            return b"<" + tag + at + b" />"
        return b"<" + tag + at + b">" + b"".join(xml(y) for y in body) + b"</" + tag + b">"
    if any(isinstance(y, Sym) for y in x):
        raise Invalid
    return b"".join(xml(y) for y in x)


FAIL = object()


def peg(p, t, fuel):
    """-> FAIL or (value, rest)"""
    fuel[0] -= 1
    if fuel[0] < 0 or not isinstance(p, tuple) or not p:
        raise Invalid
    k = str(p[0])
    if k == "c":
        return (t[0], t[1:]) if t and t[0] == p[1] else FAIL
    if k == "s":
        n = len(p[1])
        return (p[1], t[n:]) if tuple(p[1]) == t[:n] else FAIL
    if k == "r":
        return (t[0], t[1:]) if t and p[1] <= t[0] <= p[2] else FAIL
    if k == "sat":
        return (t[0], t[1:]) if t and t[0] > p[1] else FAIL
    if k == "eof":
        return ((), ()) if not t else FAIL
    if k in ("seq", "bind"):
        a = peg(p[1], t, fuel)
        if a is FAIL:
            return FAIL
        b = peg(p[2], a[1], fuel)
        if b is FAIL:
            return FAIL
        return (Dot(a[0], b[0]) if k == "seq" else (a[0], b[0])), b[1]
    if k == "or":
        a = peg(p[1], t, fuel)
        return a if a is not FAIL else peg(p[2], t, fuel)
    if k == "not":
        a = peg(p[1], t, fuel)
        return ((), t) if a is FAIL else FAIL
    if k == "opt":
        a = peg(p[1], t, fuel)
        return ((), t) if a is FAIL else a
    if k in ("plus", "star"):
        out = []
        while True:
            a = peg(p[1], t, fuel)
            if a is FAIL:
                break
            if a[1] == t:
                raise Invalid    # would go on for ever
            out.append(a[0])
            t = a[1]
        return FAIL if k == "plus" and not out else (tuple(out), t)
    if k == "map":
        a = peg(p[2], t, fuel)
        return FAIL if a is FAIL else ((p[1], a[0]), a[1])
    raise Invalid


def index(s, i):
    return i + len(s) if i < 0 else i


class Any:
    """one of several results"""
    def __init__(self, *l):
        self.l = l


NSLOT = 16


class Model:
    def __init__(self):
        self.t = [None] * NSLOT
        self.tls = []
        self.vars = {}
        self.log = []

    def at(self, s, c):
        if not isinstance(s, int) or not 0 <= s < NSLOT or not isinstance(self.t[s], c):
            raise Invalid
        return self.t[s]

    def step(self, o):
        """-> expected result of the op (log lines before it in self.log)"""
        k, a = str(o[0]), o[1:]
        f = getattr(self, "x_" + k, None)
        if f is None:
            raise Invalid
        try:
            return f(*a)
        except (TypeError, IndexError):
            raise Invalid

    def free(self, s):
        if not isinstance(s, int) or not 0 <= s < NSLOT:
            raise Invalid

    def x_g(self, n):
        return FAIL

    # tables
    def x_hm(self, s, cap):
        self.free(s)
        if cap < 1:
            raise Invalid
        self.t[s] = Hash()
        return ()

    def x_hs(self, s, k, v):
        h, k = self.at(s, Hash), norm(k)
        for e in h.l:
            if same(e[0], k):
                e[0], e[1] = k, v
                return ()
        h.l.append([k, v])
        return ()

    def x_hx(self, s, k, s2):
        return self.x_hs(s, k, self.at(s2, Str))

    def x_hg(self, s, k):
        for e in self.at(s, Hash).l:
            if same(e[0], norm(k)):
                return Dot(e[0], e[1])
        return ()

    def x_hd(self, s, k):
        h = self.at(s, Hash)
        h.l = [e for e in h.l if not same(e[0], norm(k))]
        return ()

    def x_hc(self, s):
        return len(self.at(s, Hash).l)

    # queues
    def x_qm(self, s):
        self.free(s)
        self.t[s] = []
        return ()

    def x_qe(self, s, v):
        self.at(s, list).append(v)
        return ()

    def x_qx(self, s, s2):
        return self.x_qe(s, self.at(s2, Str))

    def x_qd(self, s):
        q = self.at(s, list)
        if not q:
            raise Invalid
        return q.pop(0)

    def x_qn(self, s):
        q = self.at(s, list)
        return (len(q), not q)

    # byte strings
    def put(self, s, b, raw=True):
        self.free(s)
        if len(b) > 200000:
            raise Invalid
        self.t[s] = Str(b, raw)
        return ()

    def x_sm(self, s, b):
        self.put(s, b)
        return ()

    def x_ss(self, s, a, b, e):
        x = self.at(a, Str).b
        i, j = index(x, b), index(x, e)
        r = b"" if i < 0 or j > len(x) or j < i else bytes(x[i:j])
        return self.put(s, r)

    def x_sa(self, s, a, b):
        return self.put(s, bytes(self.at(a, Str).b) + bytes(self.at(b, Str).b), raw=False)

    def x_sr(self, s, a, x, y):
        o = self.at(a, Str)
        o.raw = False       # the result may be the same object
        return self.put(s, bytes(o.b).replace(x, y, 1) if x else y + bytes(o.b), raw=False)

    def x_sv(self, s):
        b = bytes(self.at(s, Str).b)
        return (len(b), fnv(b))

    def x_sp(self, s, p):
        return bytes(self.at(s, Str).b).startswith(p)

    def x_si(self, s, i):
        b = self.at(s, Str).b
        if not 0 <= i < len(b):
            raise Invalid
        return bytes(b[i:i + 1])

    def x_sy(self, s, i):
        b = self.at(s, Str).b
        if not 0 <= i < len(b):
            raise Invalid
        return Any(b[i], b[i] - 256 if b[i] > 127 else b[i])

    def x_sc(self, s, s2):
        a, b = bytes(self.at(s, Str).b), bytes(self.at(s2, Str).b)
        u = (a > b) - (a < b)
        sg = lambda z: [c - 256 if c > 127 else c for c in z]
        v = (sg(a) > sg(b)) - (sg(a) < sg(b))
        return Any((u, a == b), (v, a == b))

    def x_sk(self, s, x):
        return x in bytes(self.at(s, Str).b)

    def x_st(self, s, x):
        b = bytes(self.at(s, Str).b)
        r = tuple(b.split(x)) if x else (b,)
        if sum(len(y) * 2 + 8 for y in r) > 500:
            raise Invalid
        return r

    def x_sl(self, s):
        b = self.at(s, Str).b
        if len(b) > 80:
            raise Invalid
        return Any(tuple(b), tuple(c - 256 if c > 127 else c for c in b))

    def x_sn(self, _, n):
        return b"%d" % n

    def x_mc(self, s, i, s2, j, n):
        d, x = self.at(s, Str), self.at(s2, Str)
        if not d.raw or d is x or min(i, j, n) < 0 or i + n > len(d.b) or j + n > len(x.b):
            raise Invalid
        d.b[i:i + n] = x.b[j:j + n]
        return ()

    # records
    def x_rp(self, s, a, b):
        self.free(s)
        self.t[s] = Rec("person", [a, b])
        return ()

    def x_rn(self, s, a):
        self.free(s)
        self.t[s] = Rec("node", [FAIL, a])
        return ()

    def rec(self, s, k):
        r = self.at(s, Rec)
        if r.k != k:
            raise Invalid
        return r

    def x_rx(self, s, s2):
        self.rec(s, "node").f[1] = self.at(s2, Rec)
        return ()

    def x_rwn(self, s, v):
        self.rec(s, "person").f[0] = v
        return ()

    def x_rwa(self, s, v):
        self.rec(s, "person").f[1] = v
        return ()

    def x_rwv(self, s, v):
        self.rec(s, "node").f[0] = v
        return ()

    def x_rk(self, s):
        r = self.t[s] if 0 <= s < NSLOT else None
        if r is None:
            raise Invalid
        return Sym(r.k if isinstance(r, Rec) else "other")

    def x_rg(self, s):
        return tuple(self.rec(s, "person").f)

    def x_rv(self, s):
        v = self.rec(s, "node").f[0]
        if v is FAIL:
            raise Invalid
        return v

    def x_rt(self, s):
        v = self.rec(s, "node").f[1]
        return Sym(v.k) if isinstance(v, Rec) else v

    # variables by their names, and nameless ones
    def x_vw(self, n, v):
        if not isinstance(n, bytes) or not n:
            raise Invalid
        self.vars[n] = v
        return v

    def x_vx(self, n, s):
        self.x_vw(n, self.at(s, Str))
        return ()

    def x_vr(self, n, d):
        if not isinstance(n, bytes) or not n:
            raise Invalid
        return self.vars.get(n, d)

    def x_vv(self, n):
        if n not in self.vars:
            raise Invalid
        return self.vars[n]

    def x_um(self, s):
        self.free(s)
        self.t[s] = Unnamed()
        return ()

    def x_uw(self, s, v):
        self.at(s, Unnamed).v = v
        return v

    def x_ux(self, s, s2):
        self.at(s, Unnamed).v = self.at(s2, Str)
        return ()

    def x_ur(self, s, d):
        v = self.at(s, Unnamed).v
        return (v, v, True)

    def x_ue(self, s, s2):
        e = self.at(s, Unnamed) is self.at(s2, Unnamed)
        return (e, e)

    def x_vl(self, n, m):
        if not 0 <= n <= 3000 or not 0 <= m <= 200000:
            raise Invalid
        return (n, m, False)

    # the rest
    def x_ts(self, k, v):
        self.tls = [e for e in self.tls if not same(e[0], k)] + [(k, v)]
        return ()

    def x_tg(self, k, d):
        for e in self.tls:
            if same(e[0], k):
                return e[1]
        return d

    def x_ll(self, n):
        if not 0 <= n <= 3000:
            raise Invalid
        return n * (n - 1) // 2

    def x_ln(self, n, m):
        if n < 0 or m < 0 or n * m > 60:
            raise Invalid
        return tuple(reversed([i * 10 + j for i in range(n) for j in range(m)]))

    def x_fl(self, a, l):
        r = a
        for x in l or ():
            r = Dot(x, r)
        return r

    def x_fe(self, l):
        self.log += [("e", sh(x)) for x in l or ()]
        return ()

    def x_mb(self, x, l):
        return any(same(norm(x), norm(y)) for y in l or ())

    def x_aq(self, x, l):
        for y in l or ():
            if not isinstance(y, tuple) or not y:
                raise Invalid
            if same(norm(x), norm(y[0])):
                return y
        return ()

    def x_ml(self, n, k):
        if not 0 < n <= 300000:
            raise Invalid
        return (False, not 0 <= k < n, n * (n - 1) // 2)

    def x_vs(self, a, b):
        return (b, a)

    def x_pg(self, p, t):
        r = peg(p, t, [300])
        return Sym("fail") if r is FAIL else (Sym("ok"), r[0], r[1])

    def x_xm(self, x):
        if not isinstance(x, tuple):
            raise Invalid
        return xml(x)


THEMES = {"hash": ["hm", "hs", "hs", "hs", "hg", "hg", "hd", "hd", "hc", "hx", "hs", "hs"], "queue": ["qm", "qe", "qe", "qe", "qd", "qd", "qn", "qx"],
          "str": ["sm", "ss", "sa", "sr", "sv", "sp", "si", "sy", "sc", "sk", "st", "sl", "sn", "mc", "sm", "ss", "st"],
          "rec": ["rp", "rn", "rx", "rwn", "rwa", "rwv", "rk", "rg", "rv", "rt"], "sys": ["ts", "tg", "ll", "ln", "fl", "fe", "mb", "aq", "vs", "ml"],
          "var": ["vw", "vw", "vr", "vr", "vv", "vx", "um", "um", "uw", "uw", "ux", "ur", "ur", "ue", "vl", "sm", "mc"],
          "peg": ["pg"], "xml": ["xm"]}
SYM = ["a", "b", "foo", "person", "hash", "x1"]
FRAG = [b"", b"a", b"b", b"ab", b",", b"ba", b"aa", b"\n", b"<&>\"'", b"\\", b"\xc3\xa9", b"\x7f\x80\xff", b"aab", b",,"]


class Gen:
    def __init__(self, rng):
        self.r, self.m = rng, Model()
        self.keys = [self.value(2) for _ in range(rng.choice([2, 6, 20, 60]))]
        self.small = rng.random() < 0.7

    def text(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 2, 3, 5, 8])
            if not self.small and r.random() < 0.2:
                return b"".join(r.choice(FRAG) for _ in range(5)) * r.choice([10, 100, 1000, 5000])
        return b"".join(r.choice(FRAG) for _ in range(n))

    def num(self):
        r = self.r
        return r.choice([0, 1, -1, 2, 3, 7, -5, 10, 16, 17, -17, 41, 42, 7671, 100, 2**31 - 1, 2**31, -2**31, 2**32 + 1, 2**53, -2**53 + 1, r.randrange(-50, 50), r.randrange(-10**6, 10**6)])

    def value(self, d=2):
        r = self.r
        k = r.random()
        if k < 0.35 or d == 0:
            return self.num()
        if k < 0.55:
            return b"".join(r.choice(FRAG) for _ in range(r.choice([0, 1, 2, 3, 3, 9])))
        if k < 0.7:
            return Sym(r.choice(SYM))
        if k < 0.8:
            return r.choice([True, False, ()])
        return tuple(self.value(d - 1) for _ in range(r.choice([0, 1, 2, 3])))

    def key(self):
        return self.r.choice(self.keys) if self.r.random() < 0.97 else self.value()

    def slot(self, c=None):
        if c is not None:
            l = [i for i in range(NSLOT) if isinstance(self.m.t[i], c)]
            if l:
                return self.r.choice(l)
        return self.r.randrange(NSLOT)

    def peg(self, d):
        r = self.r
        k = r.random()
        if d == 0 or k < 0.3:
            q = r.random()
            if q < 0.4:
                return (Sym("c"), r.choice([97, 98, 99]))
            if q < 0.6:
                return (Sym("s"), r.choice([b"ab", b"a", b"abc", b"", b"bb"]))
            if q < 0.8:
                return (Sym("r"), 97, r.choice([97, 98, 99]))
            if q < 0.9:
                return (Sym("sat"), r.choice([96, 97, 98]))
            return (Sym("eof"),)
        if k < 0.55:
            return (Sym("seq"), self.peg(d - 1), self.peg(d - 1))
        if k < 0.7:
            return (Sym("or"), self.peg(d - 1), self.peg(d - 1))
        if k < 0.76:
            return (Sym("bind"), self.peg(d - 1), self.peg(d - 1))
        if k < 0.81:
            return (Sym("map"), r.randrange(9), self.peg(d - 1))
        return (Sym(r.choice(["not", "plus", "star", "opt"])), self.peg(d - 1))

    def xml(self, d):
        r = self.r
        if d == 0 or r.random() < 0.3:
            return self.text(r.choice([0, 1, 3, 8, 30]))
        if r.random() < 0.15:
            return tuple(self.xml(d - 1) for _ in range(r.choice([0, 1, 2])))
        out = [Sym(r.choice(["p", "div", "br", "h1"]))]
        if r.random() < 0.5:
            at = [Sym("@")]
            for _ in range(r.choice([0, 1, 2])):
                at.append(Sym("checked") if r.random() < 0.2 else (Sym(r.choice(["id", "href"])), self.text(2) if r.random() < 0.7 else self.num()))
            out.append(tuple(at))
        return tuple(out + [self.xml(d - 1) for _ in range(r.choice([0, 1, 2, 3]))])

    def op(self, k):
        r, v = self.r, self.value
        sl = self.slot
        H_, Q, S_, R = Hash, list, Str, Rec
        if k == "hm":
            return (sl(), r.choice([1, 2, 3, 7, 16, 64]))
        if k == "hs":
            return (sl(H_), self.key(), v())
        if k == "hx":
            return (sl(H_), self.key(), sl(S_))
        if k in ("hg", "hd"):
            return (sl(H_), self.key())
        if k == "hc":
            return (sl(H_),)
        if k == "qm":
            return (sl(),)
        if k == "qe":
            return (sl(Q), v())
        if k == "qx":
            return (sl(Q), sl(S_))
        if k in ("qd", "qn"):
            return (sl(Q),)
        if k == "sm":
            return (sl(), self.text())
        n = 0
        s = sl(S_)
        if isinstance(self.m.t[s], Str):
            n = len(self.m.t[s].b)
        pos = lambda: r.choice([0, 1, 2, n, n - 1, n + 1, -1, -n, -n - 1, n // 2, r.randrange(-n - 1, n + 2)])
        if k == "ss":
            return (sl(), s, pos(), pos())
        if k == "sa":
            return (sl(), s, sl(S_))
        if k == "sr":
            return (sl(), s, self.text(r.choice([1, 1, 2])), self.text(r.choice([0, 1, 3])))
        if k in ("sv", "sl"):
            return (s,)
        if k in ("sp", "sk", "st"):
            if n and r.random() < 0.4:
                i = r.randrange(n)
                return (s, bytes(self.m.t[s].b[i if k != "sp" else 0:i + r.choice([1, 2, 3])]))
            return (s, self.text(r.choice([0, 1, 1, 2])))
        if k in ("si", "sy"):
            return (s, r.choice([0, n - 1, r.randrange(n + 1)]))
        if k == "sc":
            return (s, sl(S_))
        if k == "sn":
            return (0, self.num())
        if k == "mc":
            s2 = sl(S_)
            n2 = len(self.m.t[s2].b) if isinstance(self.m.t[s2], Str) else 0
            c = r.choice([0, 1, min(n, n2), r.randrange(min(n, n2) + 1)])
            return (s, r.randrange(n - c + 1) if n >= c else 0, s2, r.randrange(n2 - c + 1) if n2 >= c else 0, c)
        if k == "rp":
            return (sl(), v(), v())
        if k == "rn":
            return (sl(), v())
        if k == "rx":
            return (sl(R), sl(R))
        if k in ("rwn", "rwa", "rwv"):
            return (sl(R), v())
        if k == "rk":
            return (sl(),)
        if k in ("rg", "rv", "rt"):
            return (sl(R),)
        if k in ("vw", "vr", "vx", "vv"):
            n = r.choice([b"dyn1", b"dyn2", b"dyn22", b"work/dyn#a", b"work/dyn#ab", b"dyn3%d" % r.randrange(10 ** r.choice([1, 2, 4]))])
            return (n,) + {"vw": (v(),), "vr": (v(),), "vx": (sl(S_),), "vv": ()}[k]
        if k == "um":
            return (sl(),)
        if k in ("uw", "ur"):
            return (sl(Unnamed), v())
        if k == "ux":
            return (sl(Unnamed), sl(S_))
        if k == "ue":
            return (sl(Unnamed), sl(Unnamed))
        if k == "vl":
            return (r.choice([0, 1, 2, 3, 4, 7, 60, 300, 3000, r.randrange(600)]), r.choice([0, 1, 7, 8, 15, 16, 17, 4000, 4096, 8192, 65536, r.randrange(5000)]))
        if k == "ts":
            return (Sym(r.choice(SYM)), v())
        if k == "tg":
            return (Sym(r.choice(SYM)), v())
        if k == "ll":
            return (r.choice([0, 1, 5, 100, 1000]),)
        if k == "ln":
            return (r.choice([0, 1, 3]), r.choice([0, 1, 4]))
        if k == "fl":
            return (v(1), tuple(v(1) for _ in range(r.choice([0, 1, 5]))))
        if k == "fe":
            return (tuple(v(1) for _ in range(r.choice([0, 1, 5]))),)
        if k == "mb":
            return (self.key(), tuple(self.key() for _ in range(r.choice([0, 1, 5]))))
        if k == "ml":
            n = r.choice([1, 2, 10, 100, 1000]) if r.random() < 0.9 else r.choice([100000, 200000])
            return (n, r.choice([-5, 0, n - 1, n, r.randrange(n)]))
        if k == "aq":
            return (self.key(), tuple((self.key(), v(1)) for _ in range(r.choice([0, 1, 5]))))
        if k == "vs":
            return (v(), v())
        if k == "pg":
            return (self.peg(r.choice([1, 2, 3, 4])), tuple(r.choice([97, 97, 98, 99]) for _ in range(r.choice([0, 1, 2, 3, 6, 12]))))
        if k == "xm":
            return (self.xml(r.choice([1, 2, 3])),)
        return (r.choice([10, 100, 1000]),)


def size(v):
    v = v.l[0] if isinstance(v, Any) else v
    if isinstance(v, (Str, bytes)):
        return 2 * len(v.b if isinstance(v, Str) else v) + 4
    if isinstance(v, (tuple, list)):
        return sum(size(x) + 3 for x in v) + 2
    if isinstance(v, Dot):
        return size(v.a) + size(v.d) + 3
    return len(str(v)) + 4


def parse_op(ln):
    from .checks_io import read_toks
    return read_toks(ln)


KEPT = 3  # something may be kept for later calls
KEEPS = ("vw", "vx", "vr", "vv", "um")  # they make a symbol


class P20(Check):
    id = "P20"
    modules = ["work/lib"]
    real = ["lib/hash.cora, lib/hash-h.c", "lib/queue.cora", "lib/string.c, src/str.c", "lib/define-record.cora, lib/let-loop.cora", "lib/sys.cora", "lib/peg.cora", "lib/sxml.cora", "src/*.c (VM, collector)"]
    stub = ["when a GC cycle starts and how many mark steps each allocation does (seeded)"]
    technique = "deterministic simulation: seeded search over histories of library operations and collection schedules, against a model of every object"
    quick_runs, thorough_runs = 8000, 1000000
    quick_wall, thorough_wall = 50, 780
    rule = "distinct hash of (status, event log); a run is non-trivial when it logged at least ten results"
    assumptions = ["indexes given to string-index, byte-ref and memcpy lie within the strings", "a table has at least one bucket", "keys are not changed while they are in a table"]

    def gen(self, rng, i, tier):
        cfg = {"main": "work/lib#main", "fs": 1, "cpu": 30, "tickcap": 3000000}
        if rng.random() < 0.8:
            H.gcknobs(rng, cfg)
        else:
            cfg["gcmode"], cfg["reach"] = 0, 1000
        g = Gen(rng)
        th = rng.sample(sorted(THEMES), rng.choice([1, 1, 2, 3]))
        ops = []
        for _ in range(rng.choice([20, 60, 150])):
            for _ in range(8):
                k = rng.choice(THEMES[rng.choice(th)]) if rng.random() < 0.93 else "g"
                o = (Sym(k),) + g.op(k)
                try:
                    before = len(g.m.log)
                    e = g.m.step(o)
                    if size(e) > 500 or any(size(x[1]) > 500 for x in g.m.log[before:]):
                        if k[0] != "s" or k in ("st", "sl", "sy", "sc"):
                            raise Invalid
                    ops.append(" ".join(tok(x) for x in o))
                    break
                except Invalid:
                    continue
        if any(o.startswith("ml ") and int(o.split()[1]) > 1000 for o in ops):
            # too large for the reachability check at every step
            cfg["gcmode"], cfg["reach"] = 0, 1000
        return Plan(cfg, ops)

    def model(self, ops, drop=False):
        m, out, keep = Model(), [], []
        for ln in ops:
            try:
                o = read_op(ln)
                n = len(m.log)
                e = m.step(o)
            except (Invalid, ValueError, IndexError):
                if drop:
                    continue
                return None
            keep.append(ln)
            out += m.log[n:]
            if e is not FAIL:
                if isinstance(e, Any):
                    out.append(("r",) + tuple(sh(x) for x in e.l))
                else:
                    out.append(("r", sh(e)))
        return keep if drop else out

    def sanitize(self, p):
        k = self.model(p.ops, drop=True)
        return p.copy(ops=k) if k else None

    def nontrivial(self, plan, res):
        return len(res.lines) > 10

    def judge(self, plan, res):
        want = self.model(plan.ops)
        if want is None:
            return None
        v = status_violation(res)
        if v:
            return v
        k, stack, kept = 0, [], {}
        for ln in res.lines:
            t, _, r = ln.partition(" ")
            if t == "stack":
                stack.append(r)
            if t == "kept" and plan.cfg.get("gcmode") == 0:
                # with the collector off only what the calls themselves keep is in the C heap
                l = to_list(parse(r))
                kind = py(l[0])[1]
                kept[kind] = kept.get(kind, 0) + 1
                if kind not in KEEPS and kept[kind] == KEPT:
                    return ("leak", "calls of kind %s keep memory of the C heap, the last one %d bytes" % (kind, l[1]))
            if t not in ("e", "r"):
                continue
            if k >= len(want):
                return ("value", "a result more than expected: %s" % ln[:200])
            w = want[k]
            k += 1
            if len(r) < 30 and r[:1] == "h" and ":" in r:
                continue        # too long to be logged
            try:
                got = py(parse(r))
            except (IndexError, ValueError):
                got = r
            if t != w[0] or got not in w[1:]:
                return ("value", "result %d is %s %r, expected %r" % (k, t, got, w))
        if k < len(want):
            return ("value", "%d results of %d" % (k, len(want)))
        if len(stack) == 2 and stack[0] != stack[1]:
            return ("stack", "the stack is %s deep before and %s after" % tuple(stack))
        return None


def read_op(ln):
    """the op as model values"""
    v, _ = vals(ln, 0)
    return v


def vals(s, p, close=""):
    out = []
    while True:
        while p < len(s) and s[p] == " ":
            p += 1
        if p >= len(s):
            return tuple(out), p
        c = s[p]
        if c == ")":
            return tuple(out), p + 1
        if c == "(":
            v, p = vals(s, p + 1)
            out.append(v)
        elif c == '"':
            q = s.index('"', p + 1)
            out.append(bytes.fromhex(s[p + 1:q]))
            p = q + 1
        else:
            q = p
            while q < len(s) and s[q] not in " )":
                q += 1
            w = s[p:q]
            p = q
            if w == "#t":
                out.append(True)
            elif w == "#f":
                out.append(False)
            elif w.lstrip("-").isdigit():
                out.append(int(w))
            else:
                out.append(Sym(w))

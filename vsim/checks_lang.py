"""P19: programs mean what their text says; compiled and evaluated programs against a reference evaluator."""
import sys
from .runner import Check, Plan, status_violation
from . import heapmodel as H
from .simlog import parse, to_list, Sym, py
from .checks_cml import Bad
from .checks_io import Reader, Refused, Unclear as RUnclear, read_toks

sys.setrecursionlimit(20000)
MAXN = 2 ** 53


class Unclear(Exception):
    pass


class Throw(Exception):
    pass


class Pair:
    __slots__ = ("a", "d")

    def __init__(self, a, d):
        self.a, self.d = a, d


class Fn:
    __slots__ = ("n", "f", "got")

    def __init__(self, n, f, got=()):
        self.n, self.f, self.got = n, f, got


def plist(items, tail=None):
    for x in reversed(items):
        tail = Pair(x, tail)
    return tail


def items(o):
    out = []
    while isinstance(o, Pair):
        out.append(o.a)
        o = o.d
    if o is not None:
        raise Unclear("improper list")
    return out


def same(a, b):
    while True:
        if isinstance(a, Pair) and isinstance(b, Pair):
            if not same(a.a, b.a):
                return False
            a, b = a.d, b.d
            continue
        if isinstance(a, Fn) or isinstance(b, Fn):
            raise Unclear("functions compared")
        return type(a) is type(b) and a == b


def data(x):
    """source form -> value"""
    if isinstance(x, list):
        return plist([data(y) for y in x])
    return x


def shape(o):
    """value -> the shape of simlog.py()"""
    if isinstance(o, Pair):
        l = []
        while isinstance(o, Pair):
            l.append(shape(o.a))
            o = o.d
        return ("l", tuple(l), shape(o))
    if isinstance(o, bool):
        return ("b", o)
    if isinstance(o, Sym):
        return ("y", str(o))
    if isinstance(o, Fn):
        raise Unclear("function shown")
    return o


def dump(o):
    if isinstance(o, Pair):
        out = []
        while isinstance(o, Pair):
            out += ["c", dump(o.a)]
            o = o.d
        return " ".join(out + [dump(o)])
    if isinstance(o, bytes):
        return '"%s"' % o.hex()
    if isinstance(o, Sym):
        return "y:" + "".join(c if ord(c) > 32 and c not in "%\x7f" else "%00" for c in o) + "." * (len(o.encode()) - len(o))
    return str(o)


def text(x):
    """source form -> program text"""
    if isinstance(x, bool):
        return b"true" if x else b"false"
    if x is None or x == []:
        return b"()"
    if isinstance(x, Sym):
        return x.encode()
    if isinstance(x, int):
        return b"%d" % x
    if isinstance(x, bytes):
        return b'"' + x.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"'
    return b"(" + b" ".join(text(y) for y in x) + b")"


def source(f):
    """forms of the reference reader -> source forms"""
    if isinstance(f, tuple):
        if f[0] == "l":
            return [source(x) for x in f[1]]
        if f[0] == "b":
            return f[1]
        return Sym(f[1])
    return f


def S(s):
    return Sym(s)


def num(*xs):
    for x in xs:
        if isinstance(x, bool) or not isinstance(x, int):
            raise Unclear("not a number")


def fit(v):
    if abs(v) > MAXN:
        raise Unclear("overflow")
    return v


def div(a, b):
    if b == 0:
        raise Unclear("division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def need(t, *xs):
    for x in xs:
        if not isinstance(x, t):
            raise Unclear("wrong type")


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def arith(f):
    def g(e, a, b):
        num(a, b)
        return f(a, b)
    return g


def path(p):
    def g(e, x):
        for c in reversed(p):
            need(Pair, x)
            x = x.a if c == "a" else x.d
        return x
    return g


def pnot(e, x):
    need(bool, x)
    return not x


def lmap(e, f, l):
    return plist([e.apply(f, [x]) for x in items(l)])


def lfilter(e, f, l):
    out = []
    for x in items(l):
        if e.apply(f, [x]) is True:
            out.append(x)
    return plist(out)


def sappend(e, a, b):
    need(bytes, a, b)
    if len(a) + len(b) > 300:
        raise Unclear("long string")
    return a + b


def intern(e, s):
    need(bytes, s)
    if not s or len(s) > 100 or b"\0" in s:
        raise Unclear("symbol")
    try:
        return Sym(s.decode())
    except UnicodeDecodeError:
        raise Unclear("symbol")


def tostr(e, y):
    need(Sym, y)
    return y.encode()


def assq(e, k, l):
    for p in items(l):
        need(Pair, p)
        if same(p.a, k):
            return p
    return None


def tr(e, k, x):
    n = len(dump(x))
    if n > 500:
        raise Unclear("big")
    e.out.append(("e", shape(plist([k, x]))))
    e.cost(n)
    return x


def show(e, tag, x):
    if tag != "v":
        raise Unclear("log")
    if len(dump(x)) > 500:
        raise Unclear("big")
    e.out.append(("v", shape(x)))
    return x


PRIMS = {"+": (2, arith(lambda a, b: fit(a + b))), "-": (2, arith(lambda a, b: fit(a - b))), "*": (2, arith(lambda a, b: fit(a * b))),
         "/": (2, arith(div)), "<": (2, arith(lambda a, b: a < b)), ">": (2, arith(lambda a, b: a > b)), "=": (2, lambda e, a, b: same(a, b)),
         "cons": (2, lambda e, a, b: Pair(a, b)), "car": (1, path("a")), "cdr": (1, path("d")), "cons?": (1, lambda e, x: isinstance(x, Pair)),
         "not": (1, pnot), "symbol?": (1, lambda e, x: isinstance(x, Sym)), "integer?": (1, lambda e, x: isint(x)),
         "string?": (1, lambda e, x: isinstance(x, bytes))}
LIB = {"null?": (1, lambda e, x: x is None), "pair?": (1, lambda e, x: isinstance(x, Pair)), "atom?": (1, lambda e, x: not isinstance(x, Pair)),
       "boolean?": (1, lambda e, x: isinstance(x, bool)), "number?": (1, lambda e, x: isint(x)),
       "cadr": (1, path("ad")), "cddr": (1, path("dd")), "caar": (1, path("aa")), "cdar": (1, path("da")), "caddr": (1, path("add")),
       "cdddr": (1, path("ddd")), "cadddr": (1, path("addd")),
       "map": (2, lmap), "filter": (2, lfilter), "reverse": (1, lambda e, l: plist(items(l)[::-1])), "length": (1, lambda e, l: len(items(l))),
       "append": (2, lambda e, a, b: plist(items(a), b)), "elem?": (2, lambda e, x, l: any(same(x, y) for y in items(l))),
       "apply": (2, lambda e, f, l: e.apply(f, items(l))), "string-append": (2, sappend), "intern": (1, intern), "symbol->string": (1, tostr),
       "throw": (1, lambda e, v: (_ for _ in ()).throw(Throw(v))), "tr": (2, tr), "sim-log": (2, show)}


def lib_try(e, f, h):
    depth = e.depth
    try:
        return e.apply(f, [])
    except Throw as t:
        v = t.args[0]
    return e.apply(h, [v, Fn(1, None)])


LIB["try"] = (2, lib_try)
BUILTIN = set(PRIMS)
KEYWORDS = {"quote", "backquote", "unquote", "if", "cond", "and", "or", "let", "begin", "do", "lambda", "match", "list", "list-rest", "def", "defun", "func",
            "set", "where", "=>", "defmacro", "package", "import", "export", "value", "fold-apply", "ns", "gensym"} | set(PRIMS) | set(LIB)


class Ev:
    """Reference evaluator of the source language, macros included."""

    def __init__(self, limit=4000):
        self.globals, self.out, self.limit, self.depth = {}, [], limit, 0
        for t in (PRIMS, LIB):
            for k, (n, f) in t.items():
                self.globals[k] = Fn(n, self.native(f))

    def native(self, f):
        return lambda args: f(self, *args)

    def cost(self, n):
        self.limit -= n
        if self.limit < 0:
            raise Unclear("too long")

    def apply(self, fn, args):
        args = list(args)
        while True:
            self.cost(1)
            if not isinstance(fn, Fn) or fn.f is None:
                raise Unclear("not a function")
            n = fn.n - len(fn.got)
            if n == 0:
                if args:
                    raise Unclear("arguments for a function of none")
                return fn.f(fn.got)
            if not args:
                raise Unclear("call without arguments")
            if len(args) < n:
                return Fn(fn.n, fn.f, fn.got + tuple(args))
            r = fn.f(fn.got + tuple(args[:n]))
            args = args[n:]
            if not args:
                return r
            fn = r

    def ev(self, x, env):
        self.cost(1)
        if isinstance(x, Sym):
            while env is not None:
                if env[0] == x:
                    return env[1]
                env = env[2]
            v = self.globals.get(x, self)
            if v is self:
                raise Unclear("unbound " + x)
            return v
        if not isinstance(x, list):
            return x
        h = x[0]
        if isinstance(h, Sym):
            f = FORMS.get(h)
            if f:
                return f(self, x, env)
            if h in BUILTIN and len(x) - 1 > PRIMS[h][0]:
                raise Unclear("too many arguments")
        if len(x) > 20:
            raise Unclear("too many arguments")
        fn = self.ev(h, env)
        return self.apply(fn, [self.ev(a, env) for a in x[1:]])

    def truth(self, x, env):
        v = self.ev(x, env)
        if not isinstance(v, bool):
            raise Unclear("condition")
        return v

    def fn(self, params, body, env):
        if len(set(params)) != len(params) or len(params) > 18:
            raise Unclear("parameters")

        def call(args):
            e = env
            for p, a in zip(params, args):
                e = (p, a, e)
            return self.ev(body, e)
        return Fn(len(params), call)

    def match1(self, p, v, env):
        """the extended environment, or False"""
        if isinstance(p, Sym):
            return (p, v, env)
        if isinstance(p, list):
            h = p[0] if p else None
            if h == "quote":
                if len(p) != 2 or not isinstance(p[1], Sym):
                    raise Unclear("pattern")
                return env if same(data(p[1]), v) else False
            if h == "cons":
                if not isinstance(v, Pair):
                    return False
                env = self.match1(p[1], v.a, env)
                return env if env is False else self.match1(p[2], v.d, env)
            if h in ("list", "list-rest"):
                n = len(p) - (h == "list-rest")
                for q in p[1:n]:
                    if not isinstance(v, Pair):
                        return False
                    env = self.match1(q, v.a, env)
                    if env is False:
                        return False
                    v = v.d
                if h == "list-rest":
                    if n < 1:
                        raise Unclear("pattern")
                    return self.match1(p[-1], v, env)
                return env if v is None else False
            raise Unclear("pattern")
        return env if same(p, v) else False

    def rules(self, v, rules, env):
        if len(rules) % 2:
            raise Unclear("rules")
        for p, act in zip(rules[::2], rules[1::2]):
            e = self.match1(p, v, env)
            if e is False:
                continue
            if isinstance(act, list) and act and act[0] == "where":
                if len(act) != 3:
                    raise Unclear("where")
                if not self.truth(act[1], e):
                    continue
                act = act[2]
            return self.ev(act, e)
        raise Unclear("no match")

    def func(self, parts, env):
        rules, cur, i = [], [], 0
        while i < len(parts):
            if parts[i] == "=>":
                if i + 1 >= len(parts):
                    raise Unclear("func")
                act = parts[i + 1]
                i += 2
                if i < len(parts) and parts[i] == "where" and isinstance(parts[i], Sym):
                    act = [S("where"), parts[i + 1], act]
                    i += 2
                rules += [[S("list")] + cur, act]
                cur = []
            else:
                cur.append(parts[i])
                i += 1
        if cur or not rules or len({len(p) for p in rules[::2]}) != 1:
            raise Unclear("func")
        n = len(rules[0]) - 1
        return Fn(n, lambda args: self.rules(plist(list(args)), rules, env))

    def top(self, x):
        return self.ev(x, None)


def f_quote(e, x, env):
    if len(x) != 2 or not isinstance(x[1], Sym):
        raise Unclear("quote")
    return x[1]


def f_backquote(e, x, env):
    def bq(f):
        if isinstance(f, list):
            if len(f) == 2 and f[0] == "unquote":
                return e.ev(f[1], env)
            if any(y == "unquote" or y == "backquote" or y == "quote" for y in f if isinstance(y, Sym)):
                raise Unclear("nested quoting")
            return plist([bq(y) for y in f])
        return f
    return bq(x[1])


def f_if(e, x, env):
    if len(x) != 4:
        raise Unclear("if")
    return e.ev(x[2] if e.truth(x[1], env) else x[3], env)


def f_cond(e, x, env):
    for c in x[1:]:
        if not isinstance(c, list) or len(c) != 2:
            raise Unclear("cond")
        if e.truth(c[0], env):
            return e.ev(c[1], env)
    raise Unclear("no clause")


def f_and(e, x, env):
    return all(e.truth(y, env) for y in x[1:])


def f_or(e, x, env):
    return any(e.truth(y, env) for y in x[1:])


def f_let(e, x, env):
    if len(x) < 4 or len(x) % 2:
        raise Unclear("let")
    for i in range(1, len(x) - 1, 2):
        if not isinstance(x[i], Sym) or x[i] in KEYWORDS:
            raise Unclear("let")
        env = (x[i], e.ev(x[i + 1], env), env)
    return e.ev(x[-1], env)


def f_begin(e, x, env):
    if len(x) < 2:
        raise Unclear("begin")
    for y in x[1:-1]:
        e.ev(y, env)
    return e.ev(x[-1], env)


def f_lambda(e, x, env):
    if len(x) != 3:
        raise Unclear("lambda")
    ps = x[1] if isinstance(x[1], list) else []
    if x[1] is not None and not isinstance(x[1], list) or any(not isinstance(p, Sym) or p in KEYWORDS for p in ps):
        raise Unclear("lambda")
    return e.fn(ps, x[2], env)


def f_match(e, x, env):
    v = e.ev(x[1], env)
    return e.rules(v, x[2:], env)


def f_list(e, x, env):
    return plist([e.ev(y, env) for y in x[1:]])


def f_listrest(e, x, env):
    if len(x) < 3:
        raise Unclear("list-rest")
    v = [e.ev(y, env) for y in x[1:]]
    return plist(v[:-1], v[-1])


def f_def(e, x, env):
    if len(x) != 3 or env is not None or x[1] in KEYWORDS:
        raise Unclear("def")
    e.globals[x[1]] = e.ev(x[2], env)


def f_defun(e, x, env):
    if len(x) != 4:
        raise Unclear("defun")
    return f_def(e, [x[0], x[1], [S("lambda"), x[2], x[3]]], env)


def f_func(e, x, env):
    if env is not None or x[1] in KEYWORDS:
        raise Unclear("func")
    e.globals[x[1]] = e.func(x[2:], env)


def f_set(e, x, env):
    if len(x) != 3 or not isinstance(x[1], list) or x[1][0] != "quote":
        raise Unclear("set")
    name = Sym(x[1][1].split("#")[-1])
    if name not in e.globals or name in KEYWORDS:
        raise Unclear("set")
    v = e.globals[name] = e.ev(x[2], env)
    return v


FORMS = {"quote": f_quote, "backquote": f_backquote, "if": f_if, "cond": f_cond, "and": f_and, "or": f_or, "let": f_let, "begin": f_begin, "do": f_begin,
         "lambda": f_lambda, "match": f_match, "list": f_list, "list-rest": f_listrest, "def": f_def, "defun": f_defun, "func": f_func, "set": f_set}

def weight(x, k=1):
    """about the size of the code made for x, when the code after it has size k (what follows an if is there twice)"""
    if not isinstance(x, list) or not x:
        return k
    if k > 100000:
        return k
    h = x[0] if isinstance(x[0], Sym) else None
    if len(x) < 2 or h in ("quote", "backquote") and not isinstance(x[1], list):
        return k
    if h == "if" and len(x) == 4:
        return weight(x[1], 1 + weight(x[2], k) + weight(x[3], k))
    if h == "cond":
        n = k
        for c in reversed(x[1:]):
            n = weight(c[0], 1 + weight(c[1], k) + n)
        return n
    if h in ("and", "or"):
        n = k
        for c in reversed(x[1:]):
            n = weight(c, 1 + k + n)
        return n
    if h == "lambda":
        return k + 3 + weight(x[2])
    if h == "match":
        n = k
        for p, a in zip(x[2:-1:2], x[3::2]):
            m = len(text(p)) // 2 + 1
            n = n + weight(a, k) + m * (k + 2)
        return weight(x[1], n)
    if h in ("func",):
        return k + sum(len(text(y)) for y in x[2:]) + sum(weight(y) for y in x[2:])
    if h == "defun":
        return k + 3 + weight(x[3])
    for y in reversed(x[1:] if h else x):
        k = weight(y, k)
    return k + len(x)


LOCALS = ["x", "y", "z", "a", "b", "n", "x", "y", "acc", "l", "co", "R", "label", "int", "for", "a-b", "a_b", "x1", "\u00e9", "True", "entry", "v1", "self", "double",
          "p*", "q?", "a->b", "_a"]
# names that a careless spelling in C would take for one another
TWINS = [["a-", "a_45", "a_45_", "a__45"], ["a_b", "a__b", "a_-b", "a-_b"], ["x", "v_x", "v_v_x", "V_x"], ["n1", "n01", "n_1", "n-1"], ["a?", "a_63", "a_6", "a_3"],
         ["k", "K", "k_", "_k"], ["\u00e9", "_195_169", "\u00e8", "e"], ["-a", "_45a", "_a", "__a"], ["z" * 60, "z" * 59, "z" * 59 + "y", "z" * 61], ["co", "co_", "v_co", "_co"]]
SYMS = ["a", "foo", "x", "y", "+", "a-b", "=>x", "set!", "\\", "a\\n", "m/p#q", "\u03bb", "int", "!@$%^&*", "%s", "%d", "if", "quote", "cons", "s" * 60]
STRS = [b"", b"a", b"abc", b"\\", b'"', b"\\n", b"\n", b"%s%d", b"a\tb\r", b"??/", b"\xc3\xa9", b"\x01\x7f", b"\\x41", b"/*", b"//", b"'", b"\\\\\"", b"\\0", b"0\\", b"x" * 200]
INTS = [0, 0, 1, 1, 2, 3, -1, -2, 5, 7, 10, 42, -100, 2**31 - 1, 2**31, -2**31 - 1, 2**32, 2**53 - 1, 2**53, -2**53, 123456789012]


class Gen:
    def __init__(self, rng, mode):
        self.r, self.mode = rng, mode
        self.fns = {}       # name -> (arg types, result type)
        self.vars = {}      # global variable -> type
        self.muts = {}      # global variables that are set, read only by let
        self.names = 0
        self.trs = 0
        self.plain = rng.random() < 0.3
        self.locals = rng.sample(LOCALS, rng.choice([2, 4, 8])) if rng.random() < 0.7 else ["x"]
        if rng.random() < 0.3:
            self.locals = rng.choice(TWINS) + (self.locals if rng.random() < 0.3 else [])

    # ---- names
    def local(self):
        return S(self.r.choice(self.locals))

    def visible(self, env, t):
        seen, out = set(), []
        for n, ty in reversed(env):
            if n not in seen:
                seen.add(n)
                if ty == t:
                    out.append(n)
        for n, ty in self.vars.items():
            if n not in seen and ty == t:
                out.append(n)
        return out

    def hidden(self, env, n):
        return any(m == n for m, _ in env)

    # ---- leaves
    def const(self, t):
        r = self.r
        if t == "I":
            return r.choice(INTS) if r.random() < 0.3 else r.randrange(-5, 12)
        if t == "B":
            return r.random() < 0.5
        if t == "S":
            return r.choice(STRS)
        if t == "Y":
            return [S("quote"), S(r.choice(SYMS))]
        if t == "L":
            k = r.randrange(4)
            l = [r.randrange(-3, 9) for _ in range(k)]
            if not l:
                return None
            return [S("backquote"), l] if r.random() < 0.5 else [S("list")] + l
        if t == "A":
            if r.random() < 0.3:
                return [S("backquote"), self.datum(3)]
            return self.const(r.choice("IBSYL"))
        return self.lam(t, [], 0)

    def datum(self, d):
        r = self.r
        k = r.random()
        if d > 0 and k < 0.4:
            return [self.datum(d - 1) for _ in range(r.randrange(4))] or None
        c = self.const(r.choice("IBSY"))
        return c[1] if isinstance(c, list) else c

    def leaf(self, t, env):
        v = self.visible(env, t)
        if v and self.r.random() < 0.75:
            return S(self.r.choice(v))
        if isinstance(t, tuple):
            return self.fnval(t, env, 0)
        return self.const(t)

    # ---- functions
    def lam(self, t, env, d):
        _, args, res = t
        ps, i = [], 0
        for a in args:
            p = self.local()
            while p in ps:
                i += 1
                p = S("%s%d" % (p, i))
            ps.append(p)
        return [S("lambda"), ps or None, self.expr(res, env + list(zip(ps, args)), d - 1)]

    def fnval(self, t, env, d):
        """a value of function type"""
        r = self.r
        _, args, res = t
        k = r.random()
        if k < 0.25 and args == ("I",) and res == "I":
            return [S(r.choice("+-*")), self.expr("I", env, d - 1)]
        if k < 0.4 and args == ("I",) and res == "I":
            f = [n for n, (a, b) in self.fns.items() if a == ("I", "I") and b == "I" and not self.hidden(env, n)]
            if f:
                return [S(r.choice(f)), self.expr("I", env, d - 1)]
        if k < 0.4 and args == ("I", "I") and res == "I":
            return S(r.choice("+-*"))
        if k < 0.4 and args == ("I",) and res == "B":
            return [S(r.choice("<>=")), self.expr("I", env, d - 1)]
        if k < 0.55:
            f = [n for n, s in self.fns.items() if s == (args, res) and not self.hidden(env, n)]
            if f:
                return S(r.choice(f))
        return self.lam(t, env, d)

    def bind(self, env, d):
        t = self.r.choice(["I", "I", "I", "B", "S", "L", "L", "A", "Y", ("F", ("I",), "I"), ("F", ("I", "I"), "I"), ("F", (), "I"), ("F", ("L",), "L")])
        return t

    # ---- expressions
    def expr(self, t, env, d):
        r = self.r
        if isinstance(t, tuple):
            if d > 0 and r.random() < 0.15:
                return self.generic(t, env, d)
            v = self.visible(env, t)
            if v and r.random() < 0.6:
                return S(r.choice(v))
            return self.fnval(t, env, d)
        if d <= 0 or r.random() < 0.12:
            return self.leaf(t, env)
        if r.random() < 0.55:
            return self.generic(t, env, d)
        return getattr(self, "e" + t)(env, d - 1)

    def generic(self, t, env, d):
        r = self.r
        k = r.randrange(100)
        d -= 1
        if k < 12:
            return [S("if"), self.expr("B", env, d), self.expr(t, env, d), self.expr(t, env, d)]
        if k < 36:
            out, e = [S("let")], list(env)
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                ty = self.bind(e, d)
                n = self.local()
                if self.muts and r.random() < 0.25:
                    g = r.choice(sorted(self.muts))
                    out += [n, S(g)]
                    ty = "I"
                else:
                    if r.random() < 0.4 and self.visible(e, ty):
                        out += [n, S(r.choice(self.visible(e, ty)))]
                    else:
                        out += [n, self.expr(ty, e, d)]
                e.append((n, ty))
            return out + [self.expr(t, e, d)]
        if k < 43:
            return [S("cond")] + [[self.expr("B", env, d), self.expr(t, env, d)] for _ in range(r.choice([0, 1, 2, 3]))] + [[True, self.expr(t, env, d)]]
        if k < 52:
            out = [S("begin")]
            for _ in range(r.choice([0, 1, 1, 2])):
                if self.muts and r.random() < 0.6:
                    g = r.choice(sorted(self.muts))
                    out.append([S("set"), [S("quote"), S(("m/p#" if self.mode == "file" else "") + g)], self.expr("I", env, d)])
                else:
                    out.append(self.expr(self.bind(env, d), env, d - 1))
            return out + [self.expr(t, env, d)]
        if k < 64:
            return self.match(t, env, d)
        if k < 70:
            n = r.choice([1, 1, 2, 3, 5])
            ts = tuple(self.bind(env, d) for _ in range(n))
            return [self.lam(("F", ts, t), env, d)] + [self.expr(x, env, d) for x in ts]
        if k < 84:
            f = [(n, s) for n, s in self.fns.items() if s[1] == t and not self.hidden(env, n)]
            if f:
                n, (args, _) = r.choice(f)
                return self.call(n, args, env, d)
            return self.expr(t, env, d)
        if k < 90:
            self.trs += 1
            if isinstance(t, tuple):
                return self.expr(t, env, d)
            return [S("tr"), self.trs, self.expr(t, env, d)]
        if k < 94:
            return self.tryx(t, env, d)
        if k < 96 and not isinstance(t, tuple):
            return [S("throw"), self.expr("A", env, d)] if r.random() < 0.5 and self.intry else self.tryx(t, env, d)
        v = [n for n, ty in env if isinstance(ty, tuple) and ty[2] == t and not any(m == n and ty2 != ty for m, ty2 in env)]
        if v:
            n = r.choice(v)
            ty = next(ty for m, ty in reversed(env) if m == n)
            return self.call(n, ty[1], env, d)
        return self.expr(t, env, d)

    def call(self, n, args, env, d):
        r = self.r
        xs = [self.arg(n, i, x, env, d) for i, x in enumerate(args)]
        if len(xs) > 1 and r.random() < 0.15:
            k = r.randrange(1, len(xs))
            return [[S(n)] + xs[:k]] + xs[k:]
        if xs and r.random() < 0.1:
            return [S("apply"), S(n), [S("list")] + xs]
        return [S(n)] + xs

    def arg(self, n, i, t, env, d):
        if i == 0 and n.startswith("loop"):
            return self.r.randrange(0, 9)
        return self.expr(t, env, d)

    intry = 0

    def tryx(self, t, env, d):
        self.intry += 1
        a = self.expr(t, env, d)
        self.intry -= 1
        v, k = self.local(), S("k")
        return [S("try"), [S("lambda"), None, a], [S("lambda"), [v, k], self.expr(t, env + [(v, "A")], d)]]

    # ---- patterns
    def pat(self, t, d, binds):
        r = self.r
        k = r.random()
        if k < 0.35 or isinstance(t, tuple):
            n = S("_") if r.random() < 0.25 else self.local()
            if n != "_":
                binds.append((n, t))
            return n
        if t == "A":
            t = r.choice("IBSYLA")
            if t == "A":
                return self.pat(t, d, binds) if d > 0 else None
            return self.pat(t, d, []) if t != "L" else self.plist("A", d, binds)
        if t == "I":
            return r.randrange(-2, 6)
        if t == "B":
            return r.random() < 0.5
        if t == "S":
            return r.choice(STRS)
        if t == "Y":
            return [S("quote"), S(r.choice(SYMS))]
        return self.plist("I", d, binds)

    def plist(self, t, d, binds):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.2:
            return None
        if k < 0.4:
            return [S("cons"), self.pat(t, d - 1, binds), self.pat("L" if t == "I" else "A", d - 1, binds)]
        n = r.randrange(1, 4)
        ps = [self.pat(t, d - 1, binds) for _ in range(n)]
        if k < 0.6:
            return [S("list-rest")] + ps + [self.pat("L" if t == "I" else "A", d - 1, binds)]
        return [S("list")] + ps

    def rule(self, pats, t, env, d):
        """pats: types -> (patterns, action)"""
        b = []
        ps = [self.pat(x, 3, b) for x in pats]
        e = env + b
        # a variable repeated in a pattern has its last binding
        act = self.expr(t, e, d)
        return ps, act, (self.expr("B", e, d - 1) if self.r.random() < 0.25 else None)

    def match(self, t, env, d):
        r = self.r
        k = r.random()
        if k < 0.35:
            ty = r.choice("IBSYLLLAA")
            out = [S("match"), self.expr(ty, env, d)]
            for _ in range(r.choice([1, 2, 3])):
                ps, act, w = self.rule([ty], t, env, d)
                out += [ps[0], [S("where"), w, act] if w is not None else act]
        else:
            ts = [r.choice("IIBSYLLA") for _ in range(r.choice([1, 2, 2, 3]))]
            out = [S("match"), [S("list")] + [self.expr(x, env, d) for x in ts]]
            for _ in range(r.choice([1, 2, 3])):
                ps, act, w = self.rule(ts, t, env, d)
                out += [[S("list")] + ps, [S("where"), w, act] if w is not None else act]
        return out + [S("_"), self.expr(t, env, d)]

    # ---- typed
    def eI(self, env, d):
        r = self.r
        k = r.randrange(100)
        if k < 60:
            op = r.choice(["+", "+", "-", "-", "*", "/"])
            a, b = self.expr("I", env, d), self.expr("I", env, d)
            return [S(op), a, b] if r.random() < 0.9 else [[S(op), a], b]
        if k < 70:
            return [S("length"), self.expr(r.choice("LL"), env, d)]
        if k < 80:
            return [S("car"), [S("cons"), self.expr("I", env, d), self.expr("A", env, d)]]
        if k < 88:
            return [S("cadr"), [S("list"), self.expr("A", env, d), self.expr("I", env, d)]]
        if k < 94:
            return [[S("lambda"), [S("x"), S("y")], [S(r.choice("+-")), S("x"), S("y")]], self.expr("I", env, d), self.expr("I", env, d)]
        return [self.expr(("F", ("I",), "I"), env, d), self.expr("I", env, d)]

    def eB(self, env, d):
        r = self.r
        k = r.randrange(100)
        if k < 25:
            return [S(r.choice("<>=")), self.expr("I", env, d), self.expr("I", env, d)]
        if k < 40:
            return [S("=")] + [self.expr("A", env, d) for _ in "ab"]
        if k < 60:
            return [S(r.choice(["and", "or"]))] + [self.expr("B", env, d) for _ in range(r.choice([0, 1, 2, 2, 3]))]
        if k < 70:
            return [S("not"), self.expr("B", env, d)]
        if k < 90:
            return [S(r.choice(["cons?", "null?", "symbol?", "integer?", "string?", "pair?", "atom?", "boolean?", "number?"])), self.expr(r.choice("AAILSY"), env, d)]
        return [S("elem?"), self.expr("I", env, d), self.expr("L", env, d)]

    def eS(self, env, d):
        r = self.r
        if r.random() < 0.6:
            return [S("string-append"), self.expr("S", env, d), self.expr("S", env, d)]
        if r.random() < 0.6:
            return [S("symbol->string"), self.expr("Y", env, d)]
        return self.leaf("S", env)

    def eY(self, env, d):
        if self.r.random() < 0.3:
            return [S("intern"), [S("string-append"), b"i", self.expr("S", env, d)]]
        return self.leaf("Y", env)

    def eL(self, env, d):
        r = self.r
        k = r.randrange(100)
        if k < 25:
            return [S("list")] + [self.expr("I", env, d) for _ in range(r.randrange(5))]
        if k < 40:
            return [S("cons"), self.expr("I", env, d), self.expr("L", env, d)]
        if k < 55:
            return [S("map"), self.expr(("F", ("I",), "I"), env, d), self.expr("L", env, d)]
        if k < 65:
            return [S("filter"), self.expr(("F", ("I",), "B"), env, d), self.expr("L", env, d)]
        if k < 75:
            return [S("append"), self.expr("L", env, d), self.expr("L", env, d)]
        if k < 82:
            return [S("reverse"), self.expr("L", env, d)]
        if k < 90:
            return [S("cdr"), [S("cons"), self.expr("A", env, d), self.expr("L", env, d)]]
        return [S("list-rest"), self.expr("I", env, d), self.expr("I", env, d), self.expr("L", env, d)]

    def bq(self, env, d, n):
        r = self.r
        k = r.random()
        if k < 0.4 or n <= 0:
            return [S("unquote"), self.expr("A", env, d)]
        if k < 0.7:
            return [self.bq(env, d, n - 1) for _ in range(r.randrange(1, 4))]
        return self.datum(0)

    def eA(self, env, d):
        r = self.r
        k = r.randrange(100)
        if k < 25:
            return self.expr(r.choice("IBSYL"), env, d)
        if k < 50:
            return [S("list")] + [self.expr("A", env, d) for _ in range(r.randrange(4))]
        if k < 60:
            return [S("cons"), self.expr("A", env, d), self.expr("A", env, d)]
        if k < 80:
            return [S("backquote"), self.bq(env, d, 3)]
        if k < 90:
            return [S("map"), self.lam(("F", ("I",), "A"), env, d), self.expr("L", env, d)]
        return [S("assq"), self.expr("Y", env, d), [S("list")] + [[S("cons"), self.expr("Y", env, d), self.expr("A", env, d)] for _ in range(r.randrange(3))]]

    # ---- items
    def name(self, p):
        self.names += 1
        return S("%s%d" % (p, self.names))

    def ty(self):
        return self.r.choice(["I", "I", "L", "A", "B", "S", "Y", ("F", ("I",), "I"), ("F", ("I", "I"), "I")])

    def item(self):
        """(form, what to note when it is kept)"""
        r = self.r
        k = r.random()
        d = r.choice([1, 2, 3, 3, 4, 5])
        if k < 0.12:
            n = self.name("fn")
            args = tuple(self.ty() for _ in range(r.choice([1, 1, 2, 2, 3, 5, 8])))
            res = r.choice("IILABS")
            l = self.lam(("F", args, res), [], d)
            return [S("defun"), n, l[1], l[2]], (self.fns, n, (args, res))
        if k < 0.22:
            n = self.name("fn")
            args = tuple(self.ty() for _ in range(r.choice([1, 1, 2, 3, 5])))
            res = r.choice("IILABS")
            out = [S("func"), n]
            for _ in range(r.choice([1, 2, 3])):
                ps, act, w = self.rule(args, res, [], d - 1)
                out += ps + [S("=>"), act] + ([S("where"), w] if w is not None else [])
            ps = [S("_") for _ in args]
            return out + ps + [S("=>"), self.expr(res, [], 1)], (self.fns, n, (args, res))
        if k < 0.32:
            return self.loop(d)
        if k < 0.38:
            n = S(r.choice(LOCALS)) if r.random() < 0.4 else self.name("gl")
            t = self.ty()
            return [S("def"), n, self.expr(t, [], d)], (self.vars, n, t)
        if k < 0.43:
            n = self.name("mut")
            return [S("def"), n, self.expr("I", [], 1)], (self.muts, n, "I")
        return [S("sim-log"), [S("quote"), S("v")], self.expr(r.choice("IIIBSLLAAAA"), [], d + 1)], None

    def loop(self, d):
        """recursion that counts its first argument down"""
        r = self.r
        n = self.name("loop")
        args = ("I",) + tuple(r.choice("IILA") for _ in range(r.choice([0, 1, 2, 4])))
        res = r.choice("IIL") if len(args) == 1 else r.choice(["I", "L"])
        ps = [S("n")] + [S(x) for x in "bcde"[:len(args) - 1]]
        env = list(zip(ps, args))
        again = [n, [S("-"), S("n"), 1]] + [self.expr(t, env, d - 2) for t in args[1:]]
        kind = r.random()
        if kind < 0.4:
            step = again
        elif res == "I":
            step = [S(r.choice("+-")), self.expr("I", env, d - 2), again]
        else:
            step = [S("cons"), self.expr("I", env, d - 2), again]
        if kind > 0.8:
            step = [S("let"), S("t"), again, step[:-1] + [S("t")]] if isinstance(step, list) and step[0] in ("+", "-", "cons") else step
        base = self.expr(res, env, d - 2)
        if r.random() < 0.3:
            f = [S("func"), n, 0] + ps[1:] + [S("=>"), base] + ps + [S("=>"), step, S("where"), [S(">"), S("n"), 0]] + [S("_")] * len(ps) + [S("=>"), self.const(res)]
            return f, (self.fns, n, (args, res))
        return [S("defun"), n, ps, [S("if"), [S("<"), S("n"), 1], base, step]], (self.fns, n, (args, res))


def ops_of(plan):
    out = []
    for o in plan.ops:
        t = read_toks(o)
        out.append((t[0], t[1]))
    return out


def expected(mode, its):
    """the log lines of the program, item by item"""
    e, out = Ev(), []
    for b in its:
        try:
            f = Reader(b).all()
        except (Refused, RUnclear):
            raise Unclear("text")
        e.limit, n = 4000, len(e.out)
        try:
            e.top(source(f))
        except Throw:
            raise Unclear("throw")
        except RecursionError:
            raise Unclear("depth")
        out.append(e.out[n:])
    return out


class P19(Check):
    id = "P19"
    modules = ["work/lang"]
    real = ["lib/toc.cora, init.cora, lib/peval.cora (the compiler)", "lib/toc/internal.c", "lib/eval.cora", "src/*.c (VM, reader, collector)", "gcc"]
    stub = ["the file system's system calls (short transfers) and the shell that starts gcc", "when a GC cycle starts and how many mark steps each allocation does"]
    technique = "deterministic simulation: seeded search over programs, collection schedules and short transfers through the whole path from text to machine code, against a reference evaluator"
    quick_runs, thorough_runs = 900, 200000
    quick_wall, thorough_wall = 100, 780
    rule = "distinct hash of (status, event log); a run is non-trivial when it logged at least three values"
    assumptions = ["numbers stay within 2^53", "macro and primitive names are not used as variables", "arguments are evaluated from left to right"]

    def gen(self, rng, i, tier):
        mode = "eval" if rng.random() < 0.5 else "file"
        cfg = {"main": "work/lang#main", "fs": 1, "cpu": 60, "tickcap": 100000000, "nocache": 1}
        limit = 3000 if mode == "file" else 20000
        if rng.random() < 0.35:
            H.gcknobs(rng, cfg)
            if mode == "file":
                cfg["reach"] = 1000
                limit = 300
                if cfg["gcmode"] and cfg["gcp"] > 10:
                    cfg["gcp"] = 10
        else:
            cfg["gcmode"] = 0
            cfg["reach"] = 1000
        cfg["p_short"] = rng.choice([0, 0, 300])
        cfg["bufsize"] = rng.choice([64, 512, 4096])
        g, e, its = Gen(rng, mode), Ev(), []
        for _ in range(rng.choice([4, 8, 14])):
            for _ in range(6):
                f, note = g.item()
                old, n = dict(e.globals), len(e.out)
                e.limit = 4000
                w = weight(f) if mode == "eval" else weight([S("begin")] + its + [f])     # the forms of a file are one function
                ok = w < limit
                try:
                    if ok:
                        e.top(f)
                except (Unclear, Throw, RecursionError):
                    ok = False
                if ok:
                    its.append(f)
                    limit -= w // 2 if mode == "eval" else 0
                    if note:
                        note[0][note[1]] = note[2]
                    break
                e.globals = old
                del e.out[n:]
        from .checks_io import tok
        ops = ["m " + tok(mode.encode() if mode == "eval" else b"p.cora")]
        if mode == "file":
            ops.append("p " + tok(b'(package "m/p" (import "work/sim") (import "work/lang")\n'))
        for f in its:
            ops.append("i " + tok(text(f) + b"\n"))
        if mode == "file":
            ops.append("q " + tok(b")\n"))
        return Plan(cfg, ops)

    def parts(self, plan):
        o = ops_of(plan)
        if not o or o[0][0] != "m":
            return None
        its = [t for k, t in o if k == "i"]
        mode = "eval" if o[0][1] == b"eval" else "file"
        want = ["m"] + (["p"] if mode == "file" else []) + ["i"] * len(its) + (["q"] if mode == "file" else [])
        if [k for k, _ in o] != want:
            return None
        return mode, its

    def sanitize(self, plan):
        p = self.parts(plan)
        if not p or not p[1]:
            return None
        try:
            expected(*p)
        except Unclear:
            return None
        return plan

    def judge(self, plan, res):
        p = self.parts(plan)
        if p is None:
            return None
        try:
            want = expected(*p)
        except Unclear:
            return None
        v = status_violation(res)
        if v:
            return v
        try:
            self.compare(p[0], p[1], want, res)
        except Bad as b:
            return b.args[0]
        return None

    def compare(self, mode, its, want, res):
        flat = [(i, w) for i, ws in enumerate(want) for w in ws]
        k, ret, stack = 0, None, []
        for ln in res.lines:
            w = ln.split(" ", 1)
            if w[0] in ("e", "v"):
                try:
                    got = (w[0], py(parse(w[1])))
                except (IndexError, ValueError):
                    got = (w[0], w[1])
                if k >= len(flat):
                    raise Bad(("value", "after the program: %r" % (got,)))
                if got != flat[k][1]:
                    raise Bad(("value", "item %d (%s) gave %r, expected %r" % (flat[k][0], its[flat[k][0]].decode()[:300].strip(), got, flat[k][1])))
                k += 1
            elif w[0] == "cc-error":
                raise Bad(("refused", "the C compiler refused the code made for the program"))
            elif w[0] == "threw":
                raise Bad(("threw", "an item ended with a throw: %s" % w[1]))
            elif w[0] == "ret":
                ret = w[1]
            elif w[0] == "stack":
                stack.append(w[1])
            elif w[0] == "files" and w[1] != "0":
                raise Bad(("files", "%s files are open at the end" % w[1]))
        if k < len(flat):
            raise Bad(("value", "item %d (%s) did not give %r (load returned %s)" % (flat[k][0], its[flat[k][0]].decode()[:300].strip(), flat[k][1], ret)))
        if len(stack) == 2 and stack[0] != stack[1]:
            raise Bad(("stack", "the stack is %s deep before and %s after" % tuple(stack)))

    def nontrivial(self, plan, res):
        return sum(1 for l in res.lines if l[:2] in ("v ", "e ")) >= 3

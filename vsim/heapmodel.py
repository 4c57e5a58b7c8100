"""Executable reference model of the work/heap interpreter, and plan generator.

Values: int, NIL/TRUE/FALSE/UNDEF, Sym, bytes, Cons, Vec, GS (gensym), Fn, K."""
import zlib


class _C:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


NIL, TRUE, FALSE, UNDEF = _C("N"), _C("T"), _C("F"), _C("U")


class Sym:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class Cons:
    __slots__ = ("a", "d")

    def __init__(self, a, d):
        self.a, self.d = a, d


class Vec:
    __slots__ = ("v", "cap")

    def __init__(self, v, cap=None):
        self.v = v
        self.cap = cap if cap is not None else len(v)


class GS:
    __slots__ = ("v",)

    def __init__(self, v=NIL):
        self.v = v


class Fn:
    __slots__ = ("req", "f", "args")

    def __init__(self, req, f, args=()):
        self.req, self.f, self.args = req, f, args


class K:
    __slots__ = ("frames", "used")

    def __init__(self, frames):
        self.frames, self.used = frames, False


class Invalid(Exception):
    pass


def lst(items, tail=NIL):
    r = tail
    for x in reversed(items):
        r = Cons(x, r)
    return r


def unlist(l):
    out = []
    while isinstance(l, Cons):
        out.append(l.a)
        l = l.d
        if len(out) > 100000:
            raise Invalid
    if l is not NIL:
        raise Invalid
    return out


def logline(tag, o):
    s = dump(o)
    if len(s) <= 600:
        return tag + " " + s
    return "%s h%08x:%d" % (tag, zlib.crc32(s.encode()), len(s))


M64 = (1 << 64) - 1


def mix(x):
    x &= M64
    x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64
    return x ^ (x >> 31)


ENTER_N = [0, 6, 30, 90, 180, 250, 600]


def apply(f, args):
    while True:
        if not isinstance(f, Fn):
            raise Invalid
        if len(args) == 0:
            raise Invalid
        if len(args) < f.req:
            return Fn(f.req - len(args), f.f, f.args + tuple(args))
        r = f.f(*(f.args + tuple(args[:f.req])))
        args = args[f.req:]
        if not args:
            return r
        f = r


class Machine:
    NREG = 16

    def __init__(self):
        self.regs = Vec([NIL] * self.NREG)
        self.g = [NIL] * 4
        self.frames = []
        self.log = []
        self.fills = {}      # id(bytes) -> (seed, len); kept alive via keep
        self.keep = []
        self.ended = False

    # -------------------------------------------------------- helpers
    def r(self, i):
        if not 0 <= i < self.NREG:
            raise Invalid
        return self.regs.v[i]

    def mkclo(self, k, a, b):
        m = self
        if k == 0:
            return Fn(1, lambda x: lst([x, a, b]))
        if k == 1:
            return Fn(3, lambda x, y, z: lst([x, y, z, a, b]))
        if k == 2:
            return Fn(2, lambda x, y: Fn(2, lambda z, w: lst([x, y, z, w, a])))
        if k == 3:
            return Fn(1, lambda x: Fn(1, lambda y: Fn(1, lambda z: lst([x, y, z, b]))))
        if k == 4:
            return Fn(5, lambda x, y, z, w, v: lst([v, w, z, y, x, a, b]))

        def f5(x):
            m.g[0] = x
            return Fn(2, lambda y, z: lst([m.g[0], x, y, z, a, b]))
        return Fn(1, f5)

    def ret_into(self, val):
        """val is returned to the frame below a try or a handler."""
        if not self.frames:
            raise Invalid
        f = self.frames.pop()
        if f[0] == "tryret":
            self.log.append(logline("tryret", val))
        elif f[0] == "res":
            self.log.append(logline("res", val))
        elif f[0] == "holdret":
            self.frames.append(("hold", val))
        else:
            raise Exception(f)

    def thr(self, v):
        self.log.append(logline("thr", v))
        if self.frames and self.frames[-1][0] == "tk":
            self.log.append(logline("thk", lst(list(self.frames.pop()[1]))))

    def pop(self, sym):
        f = self.frames.pop()
        if f[0] == "enter":
            self.log.append(logline("unw", lst(list(f[2])) if f[1] else f[2][0]))
        elif f[0] == "enterk":
            self.regs.v[f[1]] = f[2]
        elif f[0] == "deep":
            self.log.append("deep %d" % f[1])
        elif f[0] == "try":
            self.ret_into(Sym(sym))
        elif f[0] == "hand":
            self.ret_into(f[1])
        elif f[0] == "hold":
            self.log.append(logline("held", f[1]))
        elif f[0] == "tb":
            t = self.frames.pop()
            if t[0] != "try":
                raise Exception(t)
            self.ret_into(f[1])
        else:
            raise Exception(f)

    def depth_obj(self, o, limit):
        n, st, seen = 0, [o], set()
        while st:
            x = st.pop()
            if isinstance(x, (Cons, Vec, GS)):
                if id(x) in seen:
                    continue
                seen.add(id(x))
                n += 1
                if n > limit:
                    return n
                if isinstance(x, Cons):
                    st += [x.a, x.d]
                elif isinstance(x, Vec):
                    n += len(x.v)
                    st += [y for y in x.v if isinstance(y, (Cons, Vec, GS))]
                else:
                    st.append(x.v)
        return n

    # -------------------------------------------------------- ops
    def step(self, op):
        w = op.split()
        o, a = w[0], w[1:]
        R = self.regs.v
        if o == "exit":
            if not self.frames:
                raise Invalid
            self.pop("exit")
            return
        if o == "cons":
            d, x, y = map(int, a)
            self.r(d)
            R[d] = Cons(self.r(x), self.r(y))
        elif o == "num":
            R[int(a[0])] = int(a[1])
        elif o == "lst":
            d, n, b = map(int, a)
            R[d] = lst([b + i for i in range(n, 0, -1)])
        elif o == "upd":
            d, s, i, x = map(int, a)
            l = self.r(s)
            pre = []
            for _ in range(i):
                if not isinstance(l, Cons):
                    raise Invalid
                pre.append(l.a)
                l = l.d
            if not isinstance(l, Cons):
                raise Invalid
            R[d] = lst(pre, Cons(self.r(x), l.d))
        elif o == "rev":
            R[int(a[0])] = lst(list(reversed(unlist(self.r(int(a[1]))))))
        elif o == "apnd":
            R[int(a[0])] = lst(unlist(self.r(int(a[1]))), self.r(int(a[2])))
        elif o in ("car", "cdr"):
            x = self.r(int(a[1]))
            if not isinstance(x, Cons):
                raise Invalid
            R[int(a[0])] = x.a if o == "car" else x.d
        elif o == "vec":
            R[int(a[0])] = Vec([UNDEF] * int(a[1]))
        elif o == "vfill":
            x = self.r(int(a[2]))
            R[int(a[0])] = Vec([Cons(i, x) for i in range(int(a[1]))])
        elif o in ("vset", "vnew"):
            v, i = self.r(int(a[0])), int(a[1])
            if not isinstance(v, Vec) or not 0 <= i < len(v.v):
                raise Invalid
            if o == "vset":
                v.v[i] = self.r(int(a[2]))
            else:
                v.v[i] = Cons(int(a[2]), Cons(self.r(int(a[3])), NIL))
        elif o == "vget":
            v, i = self.r(int(a[1])), int(a[2])
            if not isinstance(v, Vec) or not 0 <= i < len(v.v):
                raise Invalid
            R[int(a[0])] = v.v[i]
        elif o == "vcap":
            R[int(a[0])] = Vec([], int(a[1]))
        elif o == "vapp":
            d, s, x = map(int, a)
            v = self.r(s)
            if not isinstance(v, Vec) or v.cap == 0 or v.cap > 4000:
                raise Invalid
            if len(v.v) == v.cap:
                # grows into a fresh vector, the old one is left as it was
                v = Vec(list(v.v), v.cap * 2 if v.cap < 1024 else v.cap + v.cap // 4)
            v.v.append(self.r(x))
            R[d] = v
        elif o == "gs":
            R[int(a[0])] = GS(self.r(int(a[1])))
        elif o in ("gset", "gnew"):
            g = self.r(int(a[0]))
            if not isinstance(g, GS):
                raise Invalid
            g.v = self.r(int(a[1])) if o == "gset" else Cons(int(a[1]), self.r(int(a[2])))
        elif o == "gget":
            g = self.r(int(a[1]))
            if not isinstance(g, GS) or g.v is UNDEF:
                raise Invalid
            R[int(a[0])] = g.v
        elif o == "glob":
            self.g[int(a[0])] = self.r(int(a[1]))
        elif o == "gldyn":
            v = self.r(int(a[1]))
            if a[0].startswith("work/heap#g") and a[0][-1] in "0123":
                self.g[int(a[0][-1])] = v
        elif o == "gref":
            R[int(a[0])] = self.g[int(a[1])]
        elif o == "clo":
            R[int(a[0])] = self.mkclo(int(a[1]), self.r(int(a[2])), self.r(int(a[3])))
        elif o in ("call", "tcall", "fcall", "apl"):
            f = self.r(int(a[1]))
            args = [self.r(int(x)) for x in a[2:]]
            if not 1 <= len(args) <= 5 or not isinstance(f, Fn):
                raise Invalid
            if o == "fcall":
                args = [Cons(i + 1, x) for i, x in enumerate(args)]
            if o == "apl" and f.req != len(args):
                raise Invalid
            g0 = list(self.g)
            try:
                R[int(a[0])] = apply(f, args)
            except Invalid:
                self.g[:] = g0
                raise
        elif o == "str":
            n, seed = int(a[1]), int(a[2])
            R[int(a[0])] = Fill(seed, n)
        elif o == "chk":
            f = self.r(int(a[0]))
            if not isinstance(f, Fill) or f.seed != int(a[1]) or f.n != int(a[2]):
                raise Invalid
        elif o == "lit":
            R[int(a[0])] = lit(" ".join(a[1:]))
        elif o == "sapp":
            x, y = self.r(int(a[1])), self.r(int(a[2]))
            if not isinstance(x, bytes) or not isinstance(y, bytes) or len(x) + len(y) > 20000:
                raise Invalid
            R[int(a[0])] = x + y
        elif o == "clr":
            R[int(a[0])] = NIL
        elif o == "mov":
            R[int(a[0])] = self.r(int(a[1]))
        elif o in ("garb", "garbv", "settle"):
            pass
        elif o == "log":
            self.log.append(logline("log", self.r(int(a[0]))))
        elif o == "all":
            self.log.append(logline("all", lst([self.regs] + list(self.g))))
        elif o == "enter":
            k, x = int(a[0]), self.r(int(a[1]))
            self.frames.append(("enter", k, [Cons(x, i + 1) for i in range(ENTER_N[k])] if k else [x]))
        elif o == "enterk":
            k, x, d = int(a[0]), self.r(int(a[1])), int(a[2])
            self.r(d)
            self.frames.append(("enterk", d, Cons(x, (8, 100)[k] - 2)))
        elif o == "deep":
            self.frames.append(("deep", int(a[0])))
            if not isinstance(self.r(int(a[1])), object):
                raise Invalid
        elif o == "try":
            self.frames.append(("tryret",))
            self.frames.append(("try",))
        elif o == "tryh":
            self.frames += [("holdret",), ("try",), ("tb", Cons(self.r(int(a[0])), 5))]
        elif o in ("throw", "throwk"):
            tk = None
            if o == "throwk":
                kk, x = int(a[0]), self.r(int(a[4]))
                a = a[1:]
                tk = ("tk", [Cons(x, i + 1) for i in range((2, 12, 120, 3)[kk])])
            mode, rr, val = int(a[0]), int(a[1]), self.r(int(a[2]))
            self.r(rr)
            t = len(self.frames) - 1
            while t >= 0 and self.frames[t][0] != "try":
                t -= 1
            if t < 0:
                raise Invalid
            if tk:
                self.frames.append(tk)
            cap = self.frames[t:]
            del self.frames[t:]
            if mode == 0:
                self.ret_into(val)
            elif mode == 1:
                self.frames += cap
                self.thr(val)
            elif mode == 2:
                R[rr] = K(cap)
                self.ret_into(val)
            else:
                self.frames.append(("hand", val))
        elif o in ("resume", "resumeh"):
            k = self.r(int(a[0]))
            if not isinstance(k, K) or k.used:
                raise Invalid
            R[int(a[0])] = NIL
            k.used = True
            v = self.r(int(a[1]))
            self.frames.append(("res",) if o == "resume" else ("holdret",))
            self.frames += k.frames
            self.thr(v)
        elif o == "tail":
            self.log.append(logline("tail", lst([int(a[1]), self.r(int(a[2])), TRUE])))
        elif o in ("mark", "churn", "churnk"):
            pass
        elif o in ("live", "arenas"):
            self.log.append(o)
        elif o == "stirv":
            v = self.r(int(a[0]))
            if not isinstance(v, Vec) or len(v.v) < 16:
                raise Invalid
            tot = int(a[1])
            for k in range(max(0, tot - 16), tot):
                v.v[k % 16] = Cons(tot - k, Fill0(int(a[2])))
        elif o == "mix":
            v = self.r(int(a[0]))
            n = int(a[1])
            if not isinstance(v, Vec) or len(v.v) < 16 or n < 4:
                raise Invalid
            for k in range(n - 4, n):
                v.v[k % 4] = Cons(n - k, Fill0(int(a[2])))
            self.log.append(logline("mix", lst([v.v[k].a for k in range(4)])))
        elif o == "stk":
            self.log.append("stk")
        else:
            raise Invalid

    def finish(self):
        while self.frames:
            self.pop("end")
        self.log.append(logline("final", lst([self.regs] + list(self.g))))
        self.log.append("result y:end")
        return self.log


class Fill0:
    """(bytes n), contents not specified."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class Fill:
    """A buffer filled by sim-fill; identity is never compared, contents dumped."""
    __slots__ = ("seed", "n", "_b")

    def __init__(self, seed, n):
        self.seed, self.n, self._b = seed, n, None

    def data(self):
        if self._b is None:
            d = bytearray(self.n)
            x = mix(self.seed + 77)
            for i in range(self.n):
                if (i & 4095) == 0:
                    x = mix(x + i + 1)
                d[i] = ((x >> ((i & 7) * 8)) & 255) ^ ((i >> 3) & 255)
            self._b = bytes(d)
        return self._b


def dump(root):
    out, ids, st = [], {}, [root]
    while st:
        o = st.pop()
        t = type(o)
        if t is int:
            out.append(str(o))
        elif t is Cons or t is Vec or t is GS or t is Fn or t is K:
            k = id(o)
            n = ids.get(k)
            if n is not None:
                out.append("#%d" % n)
                continue
            ids[k] = len(ids)
            if t is Cons:
                out.append("c")
                st.append(o.d)
                st.append(o.a)
            elif t is Vec:
                out.append("v%d" % len(o.v))
                st.extend(reversed(o.v))
            elif t is GS:
                out.append("g")
                st.append(o.v)
            elif t is Fn:
                out.append("f%d" % o.req)
            else:
                out.append("f1")
        elif t is _C:
            out.append(o.t)
        elif t is Sym:
            out.append("y:" + o.n)
        elif t is bytes:
            out.append('"' + o.hex() + '"')
        elif t is Fill:
            out.append('"' + o.data().hex() + '"')
        else:
            raise Exception(t)
    return " ".join(out)


def lit(s):
    """Parses the literal syntax of plan ops."""
    toks = s.replace("(", " ( ").replace(")", " ) ").split()
    pos = 0

    def parse():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == "(":
            items = []
            while toks[pos] != ")":
                items.append(parse())
            pos += 1
            return lst(items)
        if t[0] == '"':
            return bytes.fromhex(t[1:-1])
        if t == "#t":
            return TRUE
        if t == "#f":
            return FALSE
        try:
            return int(t)
        except ValueError:
            return Sym(t)
    return parse()


def run_model(ops):
    m = Machine()
    for o in ops:
        m.step(o)
    return m.finish()


def sanitize(ops):
    """Drops the ops that are not valid where they stand."""
    m = Machine()
    out = []
    for o in ops:
        try:
            m.step(o)
        except (Invalid, ValueError, IndexError):
            continue
        out.append(o)
    return out


# ------------------------------------------------------------------ generator
def gcknobs(rng, cfg):
    m = rng.random()
    if m < 0.08:
        cfg["gcmode"] = 0
    elif m < 0.75:
        cfg["gcmode"] = 1
        cfg["gcp"] = rng.choice([1, 3, 10, 30, 100, 300, 1000])
    else:
        cfg["gcmode"] = 2
        cfg["gcp"] = rng.choice([1, 3, 10, 30])
        cfg["gcburst"] = rng.choice([2, 8, 40, 100])
    cfg["gcsteps"] = rng.choice([0, 1, 2, 5, 20, 200, 2000])
    cfg["poison"] = 1 if rng.random() < 0.85 else 0
    cfg["reach"] = rng.choice([0, 0, 1, 3])


BASE = {"cons": 10, "num": 3, "lst": 5, "upd": 2, "rev": 3, "apnd": 2, "car": 3, "cdr": 3, "vec": 2, "vfill": 2, "vset": 5,
        "vnew": 5, "vget": 4, "gs": 2, "gset": 3, "gnew": 3, "gget": 3, "glob": 2, "gldyn": 1, "gref": 2, "clo": 4,
        "call": 4, "tcall": 3, "fcall": 3, "apl": 2, "str": 2, "lit": 2, "sapp": 1, "clr": 3, "mov": 2, "garb": 10,
        "garbv": 1, "log": 3, "enter": 3, "enterk": 3, "deep": 1, "try": 3, "throw": 4, "resume": 4, "exit": 6, "chk": 2}


class Gen:
    def __init__(self, rng, weights, maxframes=60, maxdeep=400, bytesizes=None):
        self.rng, self.m = rng, Machine()
        # swarm: each run drops some of the op kinds
        self.w = {k: v for k, v in weights.items() if v and (rng.random() < 0.85 or k in ("garb", "exit"))}
        self.names, self.ws = list(self.w), list(self.w.values())
        self.ops = []
        self.maxframes, self.maxdeep = maxframes, maxdeep
        self.hot = rng.randrange(3, 16)
        self.sizes = bytesizes
        self.alldeep = 0

    def emit(self, op):
        try:
            self.m.step(op)
        except Invalid:
            return False
        self.ops.append(op)
        return True

    def reg(self, pred=None):
        rng = self.rng
        if pred is None:
            return rng.randrange(self.hot)
        c = [i for i in range(16) if pred(self.m.regs.v[i])]
        if not c:
            return None
        return rng.choice(c)

    def one(self):
        rng, m = self.rng, self.m
        o = rng.choices(self.names, self.ws)[0]
        R = self.reg
        d = R()
        isv = lambda x: isinstance(x, Vec) and len(x.v) > 0
        isf = lambda x: isinstance(x, Fn)
        if o == "cons":
            return self.emit("cons %d %d %d" % (d, R(), R()))
        if o == "num":
            return self.emit("num %d %d" % (d, rng.choice([0, 1, -1, 7, 100000, rng.randrange(-10**6, 10**6)])))
        if o == "lst":
            return self.emit("lst %d %d %d" % (d, rng.choice([1, 3, 10, 60, 200]), rng.randrange(1000)))
        if o in ("upd", "rev", "apnd", "car", "cdr"):
            s = R(lambda x: isinstance(x, Cons))
            if s is None:
                return False
            if o == "upd":
                return self.emit("upd %d %d %d %d" % (d, s, rng.randrange(12), R()))
            if o == "rev":
                return self.emit("rev %d %d" % (d, s))
            if o == "apnd":
                if self.m.depth_obj(m.regs.v[s], 1500) > 1400:
                    return self.emit("clr %d" % s)
                return self.emit("apnd %d %d %d" % (d, s, R()))
            return self.emit("%s %d %d" % (o, d, s))
        if o == "vec":
            return self.emit("vec %d %d" % (d, rng.choice([1, 2, 5, 20, 60, 300])))
        if o == "vcap":
            return self.emit("vcap %d %d" % (d, rng.choice([1, 2, 8, 40])))
        if o == "vapp":
            s = R(lambda x: isinstance(x, Vec) and 0 < x.cap < 3000)
            return s is not None and self.emit("vapp %d %d %d" % (rng.choice([s, s, d]), s, R()))
        if o == "vfill":
            return self.emit("vfill %d %d %d" % (d, rng.choice([2, 5, 20, 60, 300, 520]), R()))
        if o in ("vset", "vnew", "vget"):
            s = R(isv)
            if s is None:
                return False
            n = len(m.regs.v[s].v)
            i = rng.randrange(n)
            if o == "vset":
                return self.emit("vset %d %d %d" % (s, i, R()))
            if o == "vnew":
                return self.emit("vnew %d %d %d %d" % (s, i, rng.randrange(1000), R()))
            return self.emit("vget %d %d %d" % (d, s, i))
        if o == "gs":
            return self.emit("gs %d %d" % (d, R()))
        if o in ("gset", "gnew", "gget"):
            s = R(lambda x: isinstance(x, GS))
            if s is None:
                return False
            if o == "gset":
                return self.emit("gset %d %d" % (s, R()))
            if o == "gnew":
                return self.emit("gnew %d %d %d" % (s, rng.randrange(1000), R()))
            return self.emit("gget %d %d" % (d, s))
        if o == "glob":
            return self.emit("glob %d %d" % (rng.randrange(4), R()))
        if o == "gldyn":
            return self.emit("gldyn %s %d" % (rng.choice(["work/heap#g%d" % rng.randrange(4), "zz%d" % rng.randrange(300)]), R()))
        if o == "gref":
            return self.emit("gref %d %d" % (d, rng.randrange(4)))
        if o == "clo":
            return self.emit("clo %d %d %d %d" % (d, rng.randrange(6), R(), R()))
        if o in ("call", "tcall", "fcall", "apl"):
            s = R(isf)
            if s is None:
                return self.emit("clo %d %d %d %d" % (d, rng.randrange(6), R(), R()))
            n = m.regs.v[s].req if o == "apl" else rng.randrange(1, 6)
            return self.emit("%s %d %d %s" % (o, d, s, " ".join(str(R()) for _ in range(n))))
        if o == "str":
            n = self.size()
            return self.emit("str %d %d %d" % (d, n, rng.randrange(10**6)))
        if o == "chk":
            s = R(lambda x: isinstance(x, Fill))
            if s is None:
                return False
            f = m.regs.v[s]
            return self.emit("chk %d %d %d" % (s, f.seed, f.n))
        if o == "lit":
            return self.emit("lit %d %s" % (d, rng.choice(['"%s"' % bytes(rng.randrange(256) for _ in range(rng.randrange(20))).hex(),
                                                            "(1 (2 foo) #t #f \"6162\")", "foo", "#t", "()",
                                                            '"%s"' % (b"z" * rng.choice([30, 100, 200])).hex()])))
        if o == "sapp":
            s, t = R(lambda x: isinstance(x, bytes)), R(lambda x: isinstance(x, bytes))
            return s is not None and self.emit("sapp %d %d %d" % (d, s, t))
        if o == "clr":
            return self.emit("clr %d" % d)
        if o == "mov":
            return self.emit("mov %d %d" % (d, R()))
        if o == "garb":
            return self.emit("garb %d" % rng.choice([1, 5, 20, 100, 400]))
        if o == "garbv":
            return self.emit("garbv %d %d" % (rng.choice([1, 3, 10]), rng.choice([5, 50, 480, 600])))
        if o == "log":
            return self.emit("log %d" % d)
        if o == "enter":
            if len(m.frames) >= self.maxframes:
                return False
            return self.emit("enter %d %d" % (rng.randrange(5) if rng.random() < 0.93 else rng.choice([5, 6]), d))
        if o == "enterk":
            if len(m.frames) >= self.maxframes:
                return False
            return self.emit("enterk %d %d %d" % (rng.randrange(2), d, R()))
        if o == "deep":
            if len(m.frames) >= self.maxframes or sum(f[1] for f in m.frames if f[0] == "deep") > self.maxdeep * 3:
                return False
            return self.emit("deep %d %d" % (rng.choice([1, 5, 30, 100, self.maxdeep]), d))
        if o == "try":
            if len(m.frames) >= self.maxframes:
                return False
            return self.emit(rng.choice(["try", "tryh %d" % R()]))
        if o == "throw":
            mode = rng.choice([0, 0, 1, 2, 2, 2, 3])
            if rng.random() < 0.5:
                return self.emit("throw %d %d %d" % (mode, R(), R()))
            return self.emit("throwk %d %d %d %d %d" % (rng.randrange(4), mode, R(), R(), d))
        if o == "resume":
            s = R(lambda x: isinstance(x, K) and not x.used)
            if s is None or len(m.frames) + len(m.regs.v[s].frames) > self.maxframes * 2:
                return False
            return self.emit("%s %d %d" % (rng.choice(["resume", "resumeh"]), s, R()))
        if o == "exit":
            return self.emit("exit")
        if o == "tail":
            k = rng.randrange(9)
            return self.emit("tail %d %d %d" % (k, rng.choice([1, 2, 10, 100, 1000, 5000] if k < 7 else [1, 2, 3, 10, 40]), d))
        if o == "stk":
            return self.emit("stk")
        if o == "settle":
            return self.emit("settle %d" % rng.choice([1, 3]))
        raise Exception(o)

    def size(self):
        rng = self.rng
        b = rng.choice([8, 16, 24, 32, 40, 48, 56, 64, 96, 128, 192, 256, 384, 512, 768, 1024, 1536, 2048, 4096, 8192])
        r = rng.random()
        if r < 0.7:
            return max(0, b - 16 + rng.randrange(-9, 10))
        if r < 0.95:
            return rng.randrange(0, 3000)
        return rng.choice([5000, 9000, 20000, 70000])

    def run(self, n):
        tries = 0
        while len(self.ops) < n and tries < n * 6:
            tries += 1
            self.one()
            if tries % 7 == 0:
                # keep graphs printable
                i = self.rng.randrange(16)
                if self.m.depth_obj(self.m.regs.v[i], 3000) > 2500:
                    self.emit("clr %d" % i)
                for k in range(4):
                    if self.m.depth_obj(self.m.g[k], 3000) > 2500:
                        self.emit("clr 15")
                        self.emit("glob %d 15" % k)
        return self.ops

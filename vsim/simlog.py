"""Parser of the canonical object dumps in event logs."""
import re


class Sym(str):
    pass


class Fn:
    def __init__(self, n):
        self.n = n


UNDEF = "undef"


def parse(text):
    """c car cdr | vN x.. | numbers | T F N U | y:sym | "hex" | g value | fN | #id -> python: tuple ('c', a, d), None for (), bool, int, Sym, bytes."""
    toks = text.split(" ")
    pos, objs = [0], {}
    nid = [0]

    def one():
        # iterative for long lists
        t = toks[pos[0]]
        pos[0] += 1
        if t == "c":
            items = []
            while True:
                me = nid[0]
                nid[0] += 1
                cell = ["c", None, None]
                objs[me] = cell
                items.append(cell)
                cell[1] = one()
                if toks[pos[0]] == "c":
                    pos[0] += 1
                    continue
                cell[2] = one()
                break
            for k in range(len(items) - 1):
                items[k][2] = items[k + 1]
            return items[0]
        if t[0] == "v" and t[1:].isdigit():
            me = nid[0]
            nid[0] += 1
            v = ["v"]
            objs[me] = v
            for _ in range(int(t[1:])):
                v.append(one())
            return v
        if t == "N":
            return None
        if t == "T":
            return True
        if t == "F":
            return False
        if t == "U":
            return UNDEF
        if t.startswith("y:"):
            return Sym(t[2:] if "%" not in t else re.sub("%(..)", lambda m: chr(int(m.group(1), 16)), t[2:]))
        if t[0] == '"':
            return bytes.fromhex(t[1:-1])
        if t == "g":
            me = nid[0]
            nid[0] += 1
            g = ["g", None]
            objs[me] = g
            g[1] = one()
            return g
        if t == "k" or (t[0] == "f" and t[1:].isdigit()):
            nid[0] += 1
            return Fn(t)
        if t[0] == "#":
            return objs.get(int(t[1:]), t)
        try:
            return int(t)
        except ValueError:
            return float(t) if t[:1].isdigit() or t[:1] == "-" else t

    return one()


def to_list(o):
    """proper list -> python list, or None"""
    out = []
    while isinstance(o, list) and o[0] == "c":
        out.append(o[1])
        o = o[2]
    return out if o is None else None


def py(o):
    """hashable structural form"""
    if isinstance(o, list):
        if o[0] == "c":
            l = []
            while isinstance(o, list) and o[0] == "c":
                l.append(py(o[1]))
                o = o[2]
            return ("l", tuple(l), py(o))
        return (o[0],) + tuple(py(x) for x in o[1:])
    if isinstance(o, bool):
        return ("b", o)
    if isinstance(o, Sym):
        return ("y", str(o))
    return o


def plist(*items, tail=None):
    return ("l", tuple(items), tail)

"""Integer abstract values: linear forms over atoms, exact tables for byte-sized atoms.

Lin  = (const, ((atom, coeff), ...))  sorted by atom key
atom = ("s", name, ty)         an integer / bool / C-like enum symbol
       ("B", src, Lin)         byte of an input source at a position
       ("f8", atom, tab)       tabulated function of a small-domain atom
       ("div", Lin, n) ("rem", Lin, n)   quotient / remainder by a constant
       ("opr", lo, hi, tag, ...)         any other term, with its range
"""
import math

TABS, TABIX = [], {}
DOMS = {}          # C-like enum type -> (size, mask of valid discriminants)
LEN_MAX = 1 << 48


class Lin(tuple):
    __slots__ = ()

    def __repr__(self):
        return "<%s>" % show(self)


def tab_id(t):
    i = TABIX.get(t)
    if i is None:
        i = TABIX[t] = len(TABS)
        TABS.append(t)
    return i


def K(n):
    return Lin((n, ()))


ZERO, ONE = K(0), K(1)


def A(atom, c=1):
    return Lin((0, ((atom, c),)))


_ak = {}


def akey(a):
    k = _ak.get(a)
    if k is None:
        if len(_ak) > 200000:
            _ak.clear()
        k = _ak[a] = repr(a)
    return k


def mk(c, d):
    items = [(a, k) for a, k in d.items() if k]
    if len(items) > 1:
        items.sort(key=lambda x: akey(x[0]))
    return Lin((c, tuple(items)))


def add(a, b, s=1):
    if not b[1]:
        return Lin((a[0] + s * b[0], a[1])) if b[0] else a
    if not a[1] and s == 1:
        return Lin((a[0] + b[0], b[1]))
    d = dict(a[1])
    for x, k in b[1]:
        d[x] = d.get(x, 0) + s * k
    return mk(a[0] + s * b[0], d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    if n == 0:
        return ZERO
    if n == 1:
        return a
    return Lin((a[0] * n, tuple((x, k * n) for x, k in a[1])))


def neg(a):
    return scale(a, -1)


def addc(a, c):
    return Lin((a[0] + c, a[1])) if c else a


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "char": 32, "bool": 1}


def ty_range(ty):
    if ty == "nat":
        return (0, 1 << 62)
    if ty == "len":
        return (0, LEN_MAX)
    if ty == "bool":
        return (0, 1)
    if ty == "char":
        return (0, 0x10FFFF)
    if isinstance(ty, tuple):
        return (0, DOMS[ty[1]][0] - 1)
    b = BITS.get(ty)
    if b is None:
        return (-(1 << 127), 1 << 128)
    if ty[0] == "i":
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    return (0, (1 << b) - 1)


def dom_size(atom):
    t = atom[0]
    if t == "B":
        return 256
    if t == "s":
        ty = atom[2]
        if ty == "u8":
            return 256
        if ty == "bool":
            return 2
        if isinstance(ty, tuple):
            return DOMS[ty[1]][0]
    return None


def dom_mask(atom):
    if atom[0] == "s" and isinstance(atom[2], tuple):
        return DOMS[atom[2][1]][1]
    return (1 << dom_size(atom)) - 1


def base_small(atom):
    if atom[0] == "f8":
        return atom[1]
    return atom if dom_size(atom) else None


def single_base(l):
    """the only small base of l, or None"""
    b = None
    for a, _ in l[1]:
        x = base_small(a)
        if x is None or (b is not None and x != b):
            return None
        b = x
    return b


def table_of(l, base):
    n = dom_size(base)
    out = [l[0]] * n
    for a, k in l[1]:
        if a[0] == "f8":
            t = TABS[a[2]]
            for x in range(n):
                out[x] += k * t[x]
        else:
            for x in range(n):
                out[x] += k * x
    return out


def from_table(base, vals):
    n = len(vals)
    v0 = vals[0]
    if all(v == v0 for v in vals):
        return K(v0)
    s = vals[1] - v0
    if all(vals[i] == v0 + s * i for i in range(n)):
        return Lin((v0, ((base, s),)))
    g = 0
    for v in vals:
        g = math.gcd(g, v - v0)
    return Lin((v0, ((("f8", base, tab_id(tuple((v - v0) // g for v in vals))), g),)))


def show_atom(a):
    t = a[0]
    if t == "s":
        return show_name(a[1])
    if t == "B":
        return "%s[%s]" % (show_name(a[1]), show(a[2]))
    if t == "f8":
        return "f%d(%s)" % (a[2], show_atom(a[1]))
    if t in ("div", "rem"):
        return "(%s %s %d)" % (show(a[1]), "/" if t == "div" else "%", a[2])
    return "<" + " ".join(show_name(x) for x in a[3:]) + ">"


def show_name(n):
    if isinstance(n, Lin):
        return show(n)
    if isinstance(n, tuple):
        if n and n[0] == "#":
            return "%s%s" % (show_name(n[1][-1] if isinstance(n[1], tuple) and n[1] else n[1]), n[2] or "")
        return ".".join(show_name(x) for x in n if x != "c")
    return str(n)


def show(l):
    s = []
    for a, k in l[1]:
        t = show_atom(a)
        s.append(t if k == 1 else "%d*%s" % (k, t))
    if l[0] or not s:
        s.append(str(l[0]))
    return "+".join(s).replace("+-", "-")

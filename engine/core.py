"""Path-sensitive abstract interpretation of the broker's MIR.

States are explored from a root function; loops are closed by widening at MIR back-edge targets
(delta classes, facts kept only if inductive), equal states at join blocks are merged by subsumption.
No program code is executed and no solver is called: conditions are decided by intervals, byte tables
and a bounded search over the linear facts on the path.
"""
import itertools
import sys

from num import *
from num import Lin

sys.setrecursionlimit(100000)

U = ("U",)
UNIT = ("tup", ())
TRUE, FALSE = ("b", ("T",)), ("b", ("F",))


class Fork(Exception):
    def __init__(self, opts):
        self.opts = opts


class Infeasible(Exception):
    pass


class Stop(Exception):
    """the path ends here (panic, divergence)"""


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def I(l):
    return ("i", l if isinstance(l, Lin) else K(l))


def tok(base, k=0):
    return ("#", base, k)


# ------------------------------------------------------------------ program facts
class Prog:
    def __init__(self, facts):
        self.f = facts
        self.inst = facts["instances"]
        self.types = facts["types"]
        self.types.update(EXTRA_TYPES)
        self.by_def = {}
        for iid, i in self.inst.items():
            self.by_def.setdefault(i["def"], []).append(iid)
        self._heads, self._joins, self._bodies, self._live = {}, {}, {}, {}
        for ty, t in self.types.items():
            if t.get("k") == "adt" and t.get("enum") and t["variants"] and all(not v["f"] for v in t["variants"]):
                ds = [v["d"] for v in t["variants"]]
                if all(0 <= d < 256 for d in ds):
                    DOMS[ty] = (max(ds) + 1, sum(1 << d for d in ds))
            elif t.get("k") == "adt" and t.get("enum") and t["variants"]:
                ds = [v["d"] for v in t["variants"]]
                if all(0 <= d < 256 for d in ds):
                    DOMS[ty] = (max(ds) + 1, sum(1 << d for d in ds))

    def ty(self, t):
        return self.types.get(t) or {"k": "other"}

    def fieldless(self, t):
        x = self.types.get(t)
        return bool(x and x.get("k") == "adt" and x.get("enum") and x["variants"]
                    and all(not v["f"] for v in x["variants"]))

    def find(self, pred):
        return [i for i, x in self.inst.items() if pred(x)]

    def fn(self, path):
        """instances of the function with this path (generic ones may have several)"""
        return [i for i, x in self.inst.items() if x["path"] == path or x["def"] == path]

    def succ(self, b):
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        if k == "yield":
            return [t[2]]
        return []

    def heads(self, iid):
        h = self._heads.get(iid)
        if h is None:
            bl = self.inst[iid]["blocks"]
            h, color, back = set(), {}, []
            stack = [(0, iter(self.succ(bl[0])))]
            color[0] = 1
            preds = {0: 1}
            while stack:
                n, it = stack[-1]
                for s in it:
                    preds[s] = preds.get(s, 0) + 1
                    c = color.get(s)
                    if c == 1:
                        h.add(s)
                        back.append((n, s))
                    elif c is None:
                        color[s] = 1
                        stack.append((s, iter(self.succ(bl[s]))))
                        break
                else:
                    color[n] = 2
                    stack.pop()
            self._heads[iid] = h
            pr = {}
            for n in color:
                for x in self.succ(bl[n]):
                    pr.setdefault(x, []).append(n)
            body = self._bodies[iid] = {}
            for u, x in back:
                bd = body.setdefault(x, {x})
                todo = [u]
                while todo:
                    n = todo.pop()
                    if n not in bd:
                        bd.add(n)
                        todo.extend(pr.get(n, ()))
            self._joins[iid] = {b for b, n in preds.items() if n > 1} - h
        return h

    def joins(self, iid):
        self.heads(iid)
        return self._joins[iid]

    def live(self, iid):
        """per block: the locals whose value can still be read from its start on; None stands for a local
        that is pointed to (it stays)"""
        r = self._live.get(iid)
        if r is not None:
            return r
        inst = self.inst[iid]
        bl = inst["blocks"]
        locs = inst["locals"]
        pointed = set(range(inst["argc"] + 1))

        def places(x, out):
            if isinstance(x, dict):
                if "l" in x and "p" in x:
                    out.append(x)
                    return
                for y in x.values():
                    places(y, out)
            elif isinstance(x, list):
                for y in x:
                    places(y, out)

        def used(x, out):
            ps = []
            places(x, ps)
            for q in ps:
                out.add(q["l"])
                for e in q["p"]:
                    if e[0] == "index":
                        out.add(e[1])

        def owned(l):
            return (self.types.get(locs[l]) or {}).get("k") not in ("int", "bool", "char", "ref", "ptr", "uint", "float")
        steps = []
        for b in bl:
            acts = []
            for s in b["s"]:
                if s[0] == "a":
                    g = set()
                    rv = s[2]
                    used(rv, g)
                    if rv[0] in ("ref", "addr", "rawptr", "ptr"):
                        ps = []
                        places(rv, ps)
                        for q in ps:
                            if not any(e[0] == "deref" for e in q["p"]):
                                pointed.add(q["l"])
                    kill = None
                    if s[1]["p"]:
                        used(s[1], g)
                    else:
                        kill = s[1]["l"]
                    acts.append((kill, g))
                elif s[0] in ("dead", "live"):
                    acts.append((s[1], set()))
                else:
                    g = set()
                    used(s, g)
                    acts.append((None, g))
            t = b["t"]
            g, kill = set(), None
            if t[0] == "call":
                used(t[1], g)
                used(t[2], g)
                if t[3]["p"]:
                    used(t[3], g)
                else:
                    kill = t[3]["l"]
            elif t[0] == "yield":
                g = {l for l in range(len(locs)) if owned(l)}
            elif t[0] == "return":
                g = {0}
            else:
                used(t[1:], g)
            acts.append((kill, g))
            steps.append(acts)
        ins = [set() for _ in bl]
        pred = {}
        for n, b in enumerate(bl):
            for x in self.succ(b):
                pred.setdefault(x, []).append(n)
        outs = [set() for _ in bl]
        todo = list(range(len(bl)))
        while todo:
            n = todo.pop()
            cur = set()
            for x in self.succ(bl[n]):
                cur |= ins[x]
            outs[n] = set(cur)
            for kill, g in reversed(steps[n]):
                if kill is not None:
                    cur.discard(kill)
                cur |= g
            if cur != ins[n]:
                ins[n] = cur
                todo.extend(pred.get(n, ()))
        r = self._live[iid] = ([x | pointed for x in ins], [x | pointed for x in outs])
        return r


def split_args(s):
    """generic arguments of a type string"""
    i = s.find("<")
    if i < 0 or not s.endswith(">"):
        return []
    out, d, cur = [], 0, ""
    for ch in s[i + 1:-1]:
        if ch in "<([":
            d += 1
        elif ch in ">)]" and not cur.endswith("-"):
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def ty_head(s):
    i = s.find("<")
    return (s if i < 0 else s[:i]).strip()


BYTES_TY = {"std::string::String", "bytes::Bytes", "bytes::BytesMut", "str", "[u8]", "std::vec::Vec<u8>"}
EXTRA_TYPES = {}


# ------------------------------------------------------------------ byte sequences and vectors
def seg_len(s):
    k = s[0]
    if k == "l":
        return K(len(s[1]))
    if k == "u":
        return ONE
    if k == "be":
        return K(s[1])
    return s[3] if k in ("s", "rep") else s[2]


def by_len(v):
    r = ZERO
    for s in v[1]:
        r = add(r, seg_len(s))
    return r


def norm_segs(segs):
    out = []
    for s in segs:
        k = s[0]
        if k == "u":
            l = s[1]
            if not l[1]:
                s = ("l", bytes([l[0] & 255]))
            elif l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1 and l[1][0][0][0] == "B":
                a = l[1][0][0]
                s = ("s", a[1], a[2], ONE)
        elif k == "be" and not s[2][1]:
            s = ("l", (s[2][0] & ((1 << 8 * s[1]) - 1)).to_bytes(s[1], "big"))
        if s[0] == "l":
            if not s[1]:
                continue
            if out and out[-1][0] == "l":
                out[-1] = ("l", out[-1][1] + s[1])
                continue
        elif s[0] == "s":
            if s[3] == ZERO:
                continue
            if out and out[-1][0] == "s" and out[-1][1] == s[1] and add(out[-1][2], out[-1][3]) == s[2]:
                out[-1] = ("s", s[1], out[-1][2], add(out[-1][3], s[3]))
                continue
        elif s[0] in ("o",) and s[2] == ZERO:
            continue
        out.append(s)
    return tuple(out)


def BY(*segs):
    return ("by", norm_segs(segs))


def lit(b):
    return BY(("l", b))


def concat(a, b):
    return ("by", norm_segs(a[1] + b[1]))


# ------------------------------------------------------------------ state
class St:
    __slots__ = ("frames", "cells", "ge", "mask", "rng", "preds", "oracle", "opos", "ret", "trace",
                 "ghost", "ctr", "heads", "depth", "tags")

    def __init__(self):
        self.frames, self.cells, self.ge = [], {}, frozenset()
        self.mask, self.rng, self.preds = {}, {}, {}
        self.oracle, self.opos, self.ret = [], 0, None
        self.trace, self.ghost, self.ctr = None, {}, {}
        self.heads = 0
        self.depth = 0
        self.tags = {}

    def copy(self):
        s = St.__new__(St)
        s.frames, s.cells, s.ge = list(self.frames), dict(self.cells), self.ge
        s.mask, s.rng, s.preds = dict(self.mask), dict(self.rng), dict(self.preds)
        s.oracle, s.opos, s.ret = list(self.oracle), 0, self.ret
        s.trace, s.ghost, s.ctr = self.trace, dict(self.ghost), dict(self.ctr)
        s.heads, s.depth, s.tags = self.heads, self.depth, dict(self.tags)
        return s

    def fresh(self, base):
        k = self.ctr.get(base, 0)
        self.ctr[base] = k + 1
        return ("#", base, k)

    # -------------------------------------------------------------- bounds
    def m(self, base):
        x = self.mask.get(base)
        return dom_mask(base) if x is None else x

    def arange(self, a):
        k = a[0]
        if k == "s":
            r = ty_range(a[2])
        elif k == "div":
            lo, hi = self.bounds(a[1])
            r = (lo // a[2], hi // a[2])
        elif k == "rem":
            r = (0, a[2] - 1)
            lo, hi = self.bounds(a[1])
            if 0 <= lo and hi < a[2]:
                r = (lo, hi)
        elif k == "opr":
            r = (a[1], a[2])
        else:
            r = (0, 255)
        x = self.rng.get(a)
        if x:
            return (max(r[0], x[0]), min(r[1], x[1]))
        return r

    def bounds(self, l):
        lo = hi = l[0]
        its = l[1]
        if not its:
            return lo, hi
        groups = None
        for a, k in its:
            b = base_small(a)
            if b is not None:
                if groups is None:
                    groups = {}
                groups.setdefault(b, []).append((a, k))
            else:
                x, y = self.arange(a)
                if k > 0:
                    lo += k * x
                    hi += k * y
                else:
                    lo += k * y
                    hi += k * x
        if groups:
            for b, g in groups.items():
                x, y = small_bounds(b, tuple(g), self.m(b))
                if x is None:
                    raise Infeasible()
                lo += x
                hi += y
        return lo, hi

    def nonneg(self, l, depth=3):
        """is l >= 0 on this path: the bounds of l, or of l minus a few facts"""
        if self.bounds(l)[0] >= 0:
            return True
        if not l[1] or not self.ge:
            return False
        ix = fact_index(self.ge)
        seen, fuel = {l}, 60
        level = [l]
        for d in range(depth):
            nxt = []
            for l in level:
                for a, k in l[1]:
                    for f, kf in ix.get((a, k > 0), ()):
                        if k % kf:
                            continue
                        r = sub(l, scale(f, k // kf))
                        if r in seen:
                            continue
                        seen.add(r)
                        if self.bounds(r)[0] >= 0:
                            return True
                        fuel -= 1
                        if fuel < 0:
                            return False
                        if r[1]:
                            nxt.append(r)
            level = nxt
        return False

    def is_zero(self, l):
        if l == ZERO:
            return True
        lo, hi = self.bounds(l)
        if lo == hi == 0:
            return True
        return self.nonneg(l) and self.nonneg(neg(l))

    # -------------------------------------------------------------- conditions
    def truth(self, c):
        k = c[0]
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "p" or k == "np":
            v = self.preds.get(c[1])
            if v is None:
                return None
            return v if k == "p" else not v
        if k == "m":
            m = self.m(c[1])
            if m & c[2] == 0:
                return False
            if m & ~c[2] == 0:
                return True
            return None
        l = c[1]
        if k == "ge":
            if self.nonneg(l):
                return True
            if self.nonneg(addc(neg(l), -1)):
                return False
            return None
        lo, hi = self.bounds(l)
        if lo > 0 or hi < 0:
            return k == "ne"
        if lo == hi == 0:
            return k == "eq"
        if self.nonneg(addc(l, -1)) or self.nonneg(addc(neg(l), -1)):
            return k == "ne"
        if self.nonneg(l) and self.nonneg(neg(l)):
            return k == "eq"
        v = self.preds.get(("eq", l))
        if v is None:
            v = self.preds.get(("eq", neg(l)))
        if v is None:
            return None
        return v if k == "eq" else not v

    def assume(self, c, val=True):
        """add c (or its negation) to the path; False if that contradicts it"""
        k = c[0]
        if k in "TF" and len(c) == 1:
            return (k == "T") == val
        if k in ("p", "np"):
            v = val if k == "p" else not val
            o = self.preds.get(c[1])
            if o is not None:
                return o == v
            self.preds[c[1]] = v
            return True
        if k == "m":
            m = self.m(c[1]) & (c[2] if val else ~c[2])
            if not m:
                return False
            self.mask[c[1]] = m
            return self.recheck(c[1])
        l = c[1]
        if k == "ge":
            return self.add_ge(l if val else addc(neg(l), -1))
        if (k == "eq") == val:
            t = self.truth(("eq", l))
            if t is False:
                return False
            return self.add_ge(l) and self.add_ge(neg(l))
        b = single_base(l)
        if b is not None:
            t = table_of(l, b)
            m = sum(1 << i for i, x in enumerate(t) if x != 0) & self.m(b)
            if not m:
                return False
            self.mask[b] = m
            return True
        if self.nonneg(l):
            return self.add_ge(addc(l, -1))
        if self.nonneg(neg(l)):
            return self.add_ge(addc(neg(l), -1))
        self.preds[("eq", l)] = False
        return True

    def recheck(self, b):
        return True

    def narrow(self, l, hi):
        """what l >= 0 says about each byte in it alone"""
        done = None
        for b in {base_small(a) for a, _ in l[1]} - {None}:
            part = Lin((0, tuple((a, k) for a, k in l[1] if base_small(a) == b)))
            rest = hi - self.bounds(part)[1]
            t, m = table_of(part, b), self.m(b)
            m2 = sum(1 << i for i, x in enumerate(t) if x + rest >= 0) & m
            if not m2:
                return False
            if m2 != m:
                self.mask[b] = m2
                done = True
        return done

    def add_ge(self, l):
        if not l[1]:
            return l[0] >= 0
        lo, hi = self.bounds(l)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        b = single_base(l)
        if b is not None:
            t = table_of(l, b)
            m = sum(1 << i for i, x in enumerate(t) if x >= 0) & self.m(b)
            if not m:
                return False
            self.mask[b] = m
            return True
        if hi < 70000 and len(l[1]) > 1:
            if self.nonneg(addc(neg(l), -1)):
                return False
            n = self.narrow(l, hi)
            if n is False:
                return False
            if n and self.bounds(l)[0] >= 0:
                return True
        g = 0
        for _, k in l[1]:
            g = math.gcd(g, k)
        if g > 1:
            l = Lin((l[0] // g, tuple((a, k // g) for a, k in l[1])))
        if len(l[1]) == 1:
            (a, k), = l[1]
            lo, hi = self.arange(a)
            if k == 1:
                lo = max(lo, -l[0])
            else:
                hi = min(hi, l[0])
            if lo > hi:
                return False
            self.rng[a] = (lo, hi)
            return True
        if l in self.ge:
            return True
        if self.nonneg(addc(neg(l), -1)):
            return False
        self.ge = frozenset(f for f in self.ge if f[1] != l[1] or f[0] < l[0]) | {l}
        return True


import math
_fi = {}


def fact_index(ge):
    ix = _fi.get(ge)
    if ix is None:
        if len(_fi) > 20000:
            _fi.clear()
        ix = _fi[ge] = {}
        for f in sorted(ge, key=lambda f: len(f[1])):
            for a, k in f[1]:
                ix.setdefault((a, k > 0), []).append((f, k))
    return ix
_sb = {}


def small_bounds(b, g, m):
    key = (b, g, m)
    r = _sb.get(key)
    if r is None:
        t = table_of(Lin((0, g)), b)
        vs = [x for i, x in enumerate(t) if m >> i & 1]
        r = (min(vs), max(vs)) if vs else (None, None)
        if len(_sb) > 300000:
            _sb.clear()
        _sb[key] = r
    return r


# ------------------------------------------------------------------ generic traversal
def walk(v, f):
    """call f on every token and every atom inside v"""
    stack = [v]
    while stack:
        x = stack.pop()
        if x.__class__ is Lin:
            for a, _ in x[1]:
                stack.append(a)
        elif isinstance(x, tuple):
            if x and x[0].__class__ is str:
                f(x)
            for y in x:
                if isinstance(y, (tuple, frozenset)):
                    stack.append(y)
        elif isinstance(x, frozenset):
            stack.extend(x)


def walk_ordered(v, f):
    """like walk, in a reproducible order"""
    if v.__class__ is Lin:
        for a, _ in v[1]:
            walk_ordered(a, f)
    elif isinstance(v, tuple):
        if v and v[0].__class__ is str:
            f(v)
        for y in v:
            if isinstance(y, (tuple, frozenset)):
                walk_ordered(y, f)
    elif isinstance(v, frozenset):
        for y in sorted(v, key=repr):
            walk_ordered(y, f)


def subst(v, fn, memo):
    """replace sub-terms: fn(x) gives a replacement or None"""
    if v.__class__ is Lin:
        k = ("L", v)
        r = memo.get(k)
        if r is None:
            if not v[1]:
                r = v
            else:
                r = K(v[0])
                for a, c in v[1]:
                    x = fn(a)
                    if x is None:
                        x = subst(a, fn, memo)
                    r = add(r, scale(x, c) if x.__class__ is Lin else A(x, c))
            memo[k] = r
        return r
    if isinstance(v, tuple):
        if not v:
            return v
        k = v
        r = memo.get(k)
        if r is None:
            r = fn(v)
            if r is None:
                r = tuple(subst(y, fn, memo) if isinstance(y, (tuple, frozenset)) else y for y in v)
                if r == v:
                    r = v
            memo[k] = r
        return r
    if isinstance(v, frozenset):
        return frozenset(subst(y, fn, memo) for y in v)
    return v


def atoms_of(l, out):
    for a, _ in l[1]:
        out.add(a)
        b = base_small(a)
        if b is not None:
            out.add(b)


# ------------------------------------------------------------------ engine
class Engine:
    def __init__(self, prog, monitors=(), budget=400000):
        self.p = prog
        self.monitors = list(monitors)
        self.summaries = {}       # def path -> fn(eng, st, args, call) -> value | raises
        self.models = None
        self.steps, self.budget = 0, budget
        self.states = 0
        self.table = {}           # program point -> entries
        self.viol = {}
        self.unknown = {}
        self.seen_insts, self.seen_blocks = set(), set()
        self.events = {}
        self.char_sets = {}
        self.k_const = None       # state -> how many constant variants of a loop head are kept apart
        self.notes = {}
        self.K_exact, self.K_const, self.G_max = 1, 5, 24
        self.use_live = False     # forget locals that are not read again, at loop heads
        self.pinned = set()
        self.pin = None           # byte tables kept although nothing refers to them
        self.task_depth = 1
        self.rec_hook = None
        self.map_limit = None     # known entries of a map kept at loop heads
        self.dead_entries = 0

    # ---------------------------------------------------------- reporting
    def emit(self, st, ev):
        self.events[ev[0]] = self.events.get(ev[0], 0) + 1
        for m in self.monitors:
            m.on(self, st, ev)

    def violation(self, st, key, msg):
        if key not in self.viol:
            self.viol[key] = {"key": key, "msg": msg, "where": self.where(st), "path": self.path(st)}

    def where(self, st):
        """innermost frame inside the broker's own source"""
        for fr in reversed(st.frames):
            if fr[0] == "nat":
                continue
            i = self.p.inst[fr[0]]
            if i["local"]:
                b = i["blocks"][fr[1]]
                return "%s (%s)" % (i["path"], b["sp"])
        return "?"

    def path(self, st, n=40):
        out, t = [], st.trace
        while t and len(out) < n:
            out.append(t[1])
            t = t[0]
        return list(reversed(out))

    def note(self, st, msg):
        st.trace = (st.trace, msg)

    # ---------------------------------------------------------- decisions
    def pick(self, st, opts):
        """one of the options, all of them explored"""
        if st.opos < len(st.oracle):
            o = st.oracle[st.opos]
            st.opos += 1
            return o
        if len(opts) == 1:
            return opts[0]
        raise Fork(opts)

    unroll = None       # loops that are bounded and not to be widened
    answer_hook = None  # the value a oneshot channel delivers
    keep_keys = None    # fn(map type): the keys followed one by one in a map
    iter_hook = None    # the elements of a map that is iterated
    keep_items = ()     # values that are followed one by one in a vector
    watch = None        # called before a state may be joined with others

    def decide(self, st, c):
        t = st.truth(c)
        if t is not None:
            return t
        v = self.pick(st, [True, False])
        if not st.assume(c, v):
            raise Infeasible()
        return v

    def choose(self, st, n, what=None):
        o = self.pick(st, list(range(n)))
        return o

    def require(self, st, c, val=True):
        if not st.assume(c, val):
            raise Infeasible()

    def panic(self, st, what):
        self.emit(st, ("panic", what))
        raise Stop()

    # ---------------------------------------------------------- symbolic values
    def sym(self, name, ty):
        """the value of an unknown of type ty"""
        if isinstance(ty, tuple):
            return self.models.from_like(self, name, ty)
        t = self.p.types.get(ty)
        k = t["k"] if t else None
        if k == "bool" or ty == "bool":
            return ("b", ("p", ("s", name)))
        if k == "int" or ty in BITS:
            return ("i", A(("s", name, ty)))
        if k == "char":
            return ("i", A(("s", name, "char")))
        if ty in BYTES_TY:
            return BY(("o", name, A(("s", ("len", name), "len"))))
        if ty == "()":
            return UNIT
        if k == "tuple":
            return ("tup", tuple(self.sym(("c", name, i), e) for i, e in enumerate(t["elems"])))
        if k == "adt":
            h = ty_head(ty)
            if h == "std::vec::Vec":
                return ("vec", (("any", name, split_args(ty)[0], A(("s", ("len", name), "len"))),))
            if h in MAPS:
                return ("map", ty, name, True, ())
            if self.p.fieldless(ty):
                return ("e", ty, A(("s", name, ("en", ty))))
            if not t.get("enum") and t.get("variants") and t.get("local"):
                return ("adt", ty, 0, tuple(self.sym(("c", name, 0, i), f["t"])
                                            for i, f in enumerate(t["variants"][0]["f"])))
        if k == "array":
            if t["n"] <= 16:
                return ("arr", tuple(self.sym(("c", name, i), t["of"]) for i in range(t["n"])))
        if k == "ref":
            to = t["to"]
            if to in BYTES_TY and not t.get("mut"):
                return ("vref", self.sym(name, to))
            tt = self.p.types.get(to)
            if tt and tt["k"] == "slice":
                return ("vref", ("vec", (("any", name, tt["of"], A(("s", ("len", name), "len"))),)))
        if k == "slice":
            return ("vec", (("any", name, t["of"], A(("s", ("len", name), "len"))),))
        return ("sym", name, ty)

    def expand(self, st, v, variant):
        """a sym of an enum known to be this variant, with fields"""
        _, name, ty = v
        t = self.p.types.get(ty)
        if t and t["k"] == "adt" and t.get("variants"):
            fs = t["variants"][variant]["f"]
            return ("adt", ty, variant, tuple(self.sym(("c", name, variant, i), f["t"]) for i, f in enumerate(fs)))
        if t and t["k"] == "tuple":
            return ("tup", tuple(self.sym(("c", name, i), e) for i, e in enumerate(t["elems"])))
        raise Unsupported("expand %s" % ty)

    def discr_of(self, st, v):
        k = v[0]
        if k == "e":
            return v[2]
        if k == "adt":
            t = self.p.types.get(v[1])
            if not t:
                raise Unsupported("discr of %s" % (v[1],))
            return K(t["variants"][v[2]]["d"])
        if k == "sym":
            ty = v[2]
            t = self.p.types.get(ty)
            if ty not in DOMS:
                raise Unsupported("discr of %s" % ty)
            return A(("s", ("d", v[1]), ("en", ty)))
        raise Unsupported("discr of %s" % (v[:2],))

    def variant_of(self, st, v):
        """variant index of an enum value, forking over the possible ones"""
        if v[0] == "adt":
            return v[2]
        ty = v[2] if v[0] == "sym" else v[1]
        l = self.discr_of(st, v)
        vs = self.p.types[ty]["variants"]
        opts = [i for i, x in enumerate(vs) if st.truth(("eq", addc(l, -x["d"]))) is not False]
        if not opts:
            raise Infeasible()
        i = self.pick(st, opts)
        self.require(st, ("eq", addc(l, -vs[i]["d"])))
        return i

    def open(self, st, v):
        """(variant, fields) of an enum value, forking if unknown"""
        i = self.variant_of(st, v)
        if v[0] == "adt":
            return i, v[3]
        if v[0] == "e":
            return i, ()
        return i, self.expand(st, v, i)[3]

    # ---------------------------------------------------------- memory
    def proj_get(self, st, v, steps):
        n = 0
        while n < len(steps):
            s = steps[n]
            k = s[0]
            t = v[0]
            if k == "d":
                var = s[1]
                if t == "sym":
                    if n + 1 < len(steps) and steps[n + 1][0] == "f":
                        f = steps[n + 1]
                        v = self.sym(("c", v[1], var, f[1]), f[2])
                        n += 2
                        continue
                    v = self.expand(st, v, var)
                n += 1
                continue
            if k == "f":
                i = s[1]
                if t in ("adt", "clo"):
                    v = v[3][i] if t == "adt" else v[2][i]
                elif t in ("tup", "arr"):
                    v = v[1][i]
                elif t == "sym":
                    tt = self.p.types.get(v[2])
                    if tt and tt["k"] == "adt" and tt.get("local") and not tt.get("enum"):
                        v = self.sym(("c", v[1], 0, i), s[2])
                    else:
                        v = self.sym(("c", v[1], i), s[2])
                elif t in ("ref", "vref"):
                    pass            # Pin / Box / NonNull wrappers are transparent
                elif t == "e":
                    raise Unsupported("field of enum")
                else:
                    raise Unsupported("field %s of %s" % (i, t))
                n += 1
                continue
            if k == "x":
                v = self.index(st, v, s[1])
                n += 1
                continue
            raise Unsupported("projection %s" % (s,))
        return v

    def proj_set(self, st, v, steps, x):
        if not steps:
            return x
        s = steps[0]
        k, t = s[0], v[0]
        if k == "d":
            if t == "sym":
                v = self.expand(st, v, s[1])
            return self.proj_set(st, v, steps[1:], x)
        if k == "f":
            i = s[1]
            if t == "sym":
                v = self.expand(st, v, 0)
                t = v[0]
            if t == "adt":
                c = v[3]
                return ("adt", v[1], v[2], c[:i] + (self.proj_set(st, c[i], steps[1:], x),) + c[i + 1:])
            if t == "clo":
                c = v[2]
                return ("clo", v[1], c[:i] + (self.proj_set(st, c[i], steps[1:], x),) + c[i + 1:])
            if t in ("tup", "arr"):
                c = v[1]
                return (t, c[:i] + (self.proj_set(st, c[i], steps[1:], x),) + c[i + 1:])
        if k == "x" and t == "arr" and not s[1][1]:
            i, c = s[1][0], v[1]
            return (t, c[:i] + (self.proj_set(st, c[i], steps[1:], x),) + c[i + 1:])
        if k == "x" and t == "vec":
            return self.vec_set(st, v, s[1], lambda o: self.proj_set(st, o, steps[1:], x))
        if k == "x" and t == "by":
            return self.by_set(st, v, s[1], x)
        raise Unsupported("store %s into %s" % (k, t))

    def by_set(self, st, v, i, x):
        a = self.by_slice(st, v, ZERO, i)
        b = self.by_slice(st, v, addc(i, 1), by_len(v))
        return BY(*(a[1] + (("u", x[1]),) + b[1]))

    def vec_set(self, st, v, i, f):
        pos, out, done = ZERO, [], False
        unknown = False
        for s in v[1]:
            n = vseg_len(s)
            if not done and not unknown and self.decide(st, ("ge", addc(sub(add(pos, n), i), -1))):
                if s[0] == "one":
                    x = f(s[1])
                    self.emit(st, ("vecset", v, i, s[1], x))
                    out.append(("one", x))
                    done = True
                else:
                    old = self.vec_get(st, v, i)
                    x = f(old)
                    self.emit(st, ("vecset", v, i, old, x))
                    if s[0] != "any":
                        self._bad("vector store")
                    if x in self.keep_items:
                        # a named element: it stays visible in the list
                        d = sub(i, pos)
                        out += [("any", s[1], s[2], d), ("one", x), ("any", st.fresh("wr"), s[2], addc(sub(n, d), -1))]
                        done = True
                    else:
                        unknown = True
                        out.append(("any", st.fresh("wr"), s[2], s[3]))
            else:
                out.append(s)
            pos = add(pos, n)
        return ("vec", tuple(out))

    def p_zero(self, st, l):
        t = st.truth(("eq", l))
        return t is True

    def _bad(self, m):
        raise Unsupported(m)

    def vec_get(self, st, v, i):
        """element i of a vector, its index known to be in range"""
        pos = ZERO
        for s in v[1]:
            n = vseg_len(s)
            d = sub(i, pos)
            if self.decide(st, ("ge", addc(sub(n, d), -1))):
                if s[0] == "one":
                    return s[1]
                if s[0] == "any":
                    return self.sym(("el", s[1], d), s[2])
                opts = sorted(s[2], key=repr)
                x = self.pick(st, opts)
                t = st.fresh("el")
                return subst(x, lambda y: ("el", y[1], t) if y[0] == "el" and len(y) == 3 and y[2] == "*" else None, {})
            pos = add(pos, n)
        raise Infeasible()

    def by_at(self, st, v, i):
        """byte i of a sequence as a Lin, its index known to be in range"""
        pos = ZERO
        for s in v[1]:
            n = seg_len(s)
            d = sub(i, pos)
            if self.decide(st, ("ge", addc(sub(n, d), -1))):
                k = s[0]
                if k == "s":
                    return A(("B", s[1], add(s[2], d)))
                if k == "l" and not d[1]:
                    return K(s[1][d[0]])
                if k == "u":
                    return s[1]
                if k == "be" and not d[1] and d[0] == s[1] - 1 and st.bounds(s[2])[1] < 256:
                    return s[2]
                return A(("s", ("byte", s, d), "u8"))
            pos = add(pos, n)
        raise Infeasible()

    def by_slice(self, st, v, a, b):
        """v[a..b], known to be in range"""
        out, pos = [], ZERO
        if len(v[1]) == 1 and v[1][0][0] in ("s", "o"):
            s, n = v[1][0], sub(b, a)
            if a == ZERO and b == seg_len(s):
                return v
            if s[0] == "s":
                return BY(("s", s[1], add(s[2], a), n))
            return BY(("o", ("sl", s, a), n))
        for s in v[1]:
            n = seg_len(s)
            end = add(pos, n)
            # s covers [pos, end)
            if self.decide(st, ("ge", sub(a, end))):
                if not self.p_zero(st, sub(a, end)) or True:
                    pos = end
                    continue
            if self.decide(st, ("ge", sub(pos, b))):
                break
            f = ZERO if self.decide(st, ("ge", sub(pos, a))) else sub(a, pos)
            t = n if self.decide(st, ("ge", sub(b, end))) else sub(b, pos)
            if f == ZERO and t == n:
                out.append(s)
            elif s[0] == "s":
                out.append(("s", s[1], add(s[2], f), sub(t, f)))
            elif s[0] == "l" and not f[1] and not t[1]:
                out.append(("l", s[1][f[0]:t[0]]))
            else:
                out.append(("o", ("sl", s, f), sub(t, f)))
            pos = end
        return BY(*out)

    def index(self, st, v, i):
        if v[0] == "arr":
            if not i[1]:
                return v[1][i[0]]
            opts = [j for j in range(len(v[1])) if st.truth(("eq", addc(i, -j))) is not False]
            j = self.pick(st, opts)
            self.require(st, ("eq", addc(i, -j)))
            return v[1][j]
        if v[0] == "vec":
            return self.vec_get(st, v, i)
        if v[0] == "by":
            return ("i", self.by_at(st, v, i))
        raise Unsupported("index of %s" % v[0])

    def cell(self, st, key):
        v = st.cells.get(key)
        if v is None:
            if key[0] == "sc":
                v = self.sym(key[1], key[2])
            elif key[0] == "mc":
                v = self.map_init(st, key)
            else:
                raise Unsupported("uninitialised %s" % (key,))
            st.cells[key] = v
        return v

    def map_init(self, st, key):
        return self.sym(("mv", key[1], key[2]), key[3])

    def forget_maps(self, st, limit):
        """maps that grew past limit become unknown ones (done at loop heads)"""
        gone = set()

        def fn(x):
            if x[0] == "map" and len(x) == 5 and isinstance(x[1], str) and len(x[4]) > (limit(x[2]) if callable(limit) else limit):
                ov = ()
                if self.keep_keys:
                    for key in self.keep_keys(x[1]):
                        known = [p for k, p in x[4] if k == key]
                        if known or not x[3]:
                            ov += ((key, known[0] if known else False),)
                    if x[3] and set(ov) == set(x[4]):
                        return None
                gone.add((x[2], frozenset(k for k, _ in ov)))
                return ("map", x[1], x[2], True, ov)
            return None
        memo = {}
        for k in list(st.cells):
            v = st.cells[k]
            if isinstance(v, tuple):
                st.cells[k] = subst(v, fn, memo)
        if gone:
            keep = dict(gone)
            st.preds = {k: v for k, v in st.preds.items() if not (k[0] == "in" and k[1] in keep and k[2] not in keep[k[1]])}

    def load(self, st, ref):
        """value behind a reference"""
        if ref[0] == "vref":
            return ref[1]
        if ref[0] == "ref":
            v = self.cell(st, ref[1])
            return self.proj_get(st, v, ref[2]) if ref[2] else v
        if ref[0] == "sym":
            t = self.p.types.get(ref[2])
            if t and t["k"] in ("ref", "ptr"):
                return self.cell(st, ("sc", ("c", ref[1], "*"), t["to"]))
        if ref[0] == "op" and ref[1] == "box":
            return self.cell(st, ref[2])
        raise Unsupported("deref of %s" % (ref[:2],))

    def store(self, st, ref, x):
        if ref[0] == "ref":
            if ref[2]:
                st.cells[ref[1]] = self.proj_set(st, self.cell(st, ref[1]), ref[2], x)
            else:
                st.cells[ref[1]] = x
            return
        if ref[0] == "sym":
            t = self.p.types.get(ref[2])
            if t and t["k"] in ("ref", "ptr"):
                st.cells[("sc", ("c", ref[1], "*"), t["to"])] = x
                return
        if ref[0] == "vref":
            return          # a temporary that nothing else sees
        raise Unsupported("store through %s" % (ref[:2],))

    def fkey(self, fr):
        return fr[3]

    def place(self, st, fr, pl):
        """resolve a MIR place to a reference value"""
        key, proj = (fr[3], pl["l"]), ()
        val = None
        wrapped = False
        for e in pl["p"]:
            k = e[0]
            if k == "deref":
                v = val if val is not None else self.load(st, ("ref", key, proj, True))
                val = None
                if v[0] == "ref":
                    key, proj = v[1], v[2]
                elif v[0] == "vref":
                    val = v[1]
                elif v[0] == "sym" and (self.p.types.get(v[2]) or {}).get("k") in ("ref", "ptr"):
                    key, proj = ("sc", ("c", v[1], "*"), self.p.types[v[2]]["to"]), ()
                elif v[0] == "op" and v[1] == "box":
                    key, proj = v[2], ()
                elif v[0] in ("by", "vec", "adt", "tup"):
                    val = v          # Box<T> of an owned value
                elif v == ("op", "ctx"):
                    val = v
                else:
                    raise Unsupported("deref of %s" % (v[:3],))
                continue
            if k == "field" and e[2].startswith("std::mem::ManuallyDrop<"):
                wrapped = True     # the storage of a MaybeUninit: the value itself
                continue
            if k == "field" and wrapped:
                wrapped = False
                continue
            if k == "field":
                s = ("f", e[1], e[2])
                if val is None:
                    # transparent wrappers around pointers: keep the place on the pointer itself
                    cur = None
                    if proj or key in st.cells:
                        try:
                            cur = self.load(st, ("ref", key, proj, True))
                        except Unsupported:
                            cur = None
                    if cur is not None and cur[0] in ("ref", "vref"):
                        continue
                else:
                    val = self.proj_get(st, val, (s,))
                    continue
            elif k == "down":
                s = ("d", e[1])
            elif k == "index":
                s = ("x", st.cells[(fr[3], e[1])][1])
            elif k == "cidx":
                if e[3]:
                    b = val if val is not None else self.load(st, ("ref", key, proj, True))
                    n = self.length(st, b)
                    s = ("x", addc(n, -e[1]))
                else:
                    s = ("x", K(e[1]))
            else:
                raise Unsupported("projection %s" % k)
            if val is not None:
                if s[0] == "d":
                    if val[0] == "sym":
                        val = self.expand(st, val, s[1])
                    continue
                val = self.proj_get(st, val, (s,))
            else:
                proj = proj + (s,)
        if val is not None:
            return ("vref", val)
        return ("ref", key, proj, True)

    def length(self, st, v):
        if v[0] == "by":
            return by_len(v)
        if v[0] == "arr":
            return K(len(v[1]))
        if v[0] == "vec":
            n = ZERO
            for s in v[1]:
                n = add(n, vseg_len(s))
            return n
        raise Unsupported("length of %s" % v[0])

    # ---------------------------------------------------------- operands and rvalues
    def operand(self, st, fr, o):
        if "k" in o:
            return self.const(st, o["k"])
        if "m" in o:
            pl = o["m"]
            if not pl["p"]:
                key = (fr[3], pl["l"])
                v = st.cells.get(key)
                if v is None:
                    if self.use_live and self.p.inst[fr[0]]["locals"][pl["l"]] == "()":
                        return UNIT
                    raise Unsupported("uninitialised local _%d" % pl["l"])
                st.cells[key] = U
                return v
            r = self.place(st, fr, pl)
            v = self.load(st, r)
            if r[0] == "ref" and v[0] not in ("i", "b", "e"):
                self.store(st, r, U)
            return v
        pl = o["c"]
        if not pl["p"]:
            v = st.cells.get((fr[3], pl["l"]))
            if v is None:
                if self.use_live and self.p.inst[fr[0]]["locals"][pl["l"]] == "()":
                    return UNIT
                raise Unsupported("uninitialised local _%d" % pl["l"])
            return v
        return self.load(st, self.place(st, fr, pl))

    def const(self, st, k):
        t, v = k["t"], k["v"]
        ty = self.p.types.get(t) or {"k": "other"}
        kk = ty["k"]
        if v is None:
            if kk == "fndef":
                return ("fn", t)
            if kk == "ref":
                return ("ref", ("static", k["def"] or t), (), False)
            if kk == "ptr":
                return ("ref", ("static", k["def"] or t), (), False)
            return self.sym(("const", k["def"] or t), t)
        if "zst" in v:
            if kk == "fndef":
                return ("fn", t)
            if kk == "tuple" or t == "()":
                return UNIT
            if kk == "closure":
                return ("clo", t, ())
            if kk == "adt" and ty.get("variants"):
                return ("adt", t, 0, ())
            return ("op", "zst", t)
        if "int" in v:
            n = int(v["int"])
            if t in ("f32", "f64"):
                import struct
                from fractions import Fraction
                x = struct.unpack("<f", n.to_bytes(4, "little")) if t == "f32" else struct.unpack("<d", n.to_bytes(8, "little"))
                if x[0] != x[0] or x[0] in (float("inf"), float("-inf")):
                    raise Unsupported("float constant")
                q = Fraction(x[0])
                return ("op", "float", K(q.numerator), q.denominator)
            if kk == "bool":
                return TRUE if n else FALSE
            if kk == "int" and ty.get("signed") and n >= 1 << (ty["bits"] - 1):
                n -= 1 << ty["bits"]
            return ("i", K(n))
        if "str" in v:
            return ("vref", lit(v["str"].encode()))
        if "bytes" in v:
            return ("vref", lit(bytes(v["bytes"])))
        if "rawadt" in v:
            if self.p.fieldless(t):
                return ("e", t, K(int(v["rawadt"])))
            if kk == "adt" and ty.get("enum") and ty.get("variants"):
                for i, x in enumerate(ty["variants"]):
                    if x["d"] == int(v["rawadt"]) and not x["f"]:
                        return ("adt", t, i, ())
            return ("op", "raw", t, v["rawadt"])
        if "raw" in v:
            x = self.raw_const(t, bytes(v["raw"]))
            if x is not None:
                return x
        raise Unsupported("constant %s" % (k,))

    def raw_const(self, t, b):
        """a constant from its bytes: integers, field-less enums and arrays of them"""
        ty = self.p.types.get(t) or {"k": "other"}
        if ty["k"] == "array" and ty["n"] and len(b) % ty["n"] == 0:
            n = len(b) // ty["n"]
            if ty["of"] == "u8":
                return lit(b)
            xs = tuple(self.raw_const(ty["of"], b[i * n:i * n + n]) for i in range(ty["n"]))
            return None if None in xs else ("arr", xs)
        n = int.from_bytes(b, "little")
        if ty["k"] == "bool":
            return TRUE if n else FALSE
        if ty["k"] == "int":
            if ty.get("signed") and n >= 1 << (ty["bits"] - 1):
                n -= 1 << ty["bits"]
            return ("i", K(n))
        if self.p.fieldless(t):
            return ("e", t, K(n))
        return None

    def rvalue(self, st, fr, rv, dest_ty=None):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            pl = rv[1]
            r = self.place(st, fr, pl)
            if r[0] == "ref" and not rv[2]:
                return ("ref", r[1], r[2], False)
            return r
        if k == "agg":
            ag = rv[1]
            vals = tuple(self.operand(st, fr, o) for o in rv[2])
            kind = ag[0]
            if kind == "tuple":
                return ("tup", vals)
            if kind == "array":
                if vals and all(v[0] == "i" for v in vals) and self.arr_u8(st, fr, dest_ty):
                    return BY(*(("u", v[1]) for v in vals))
                return ("arr", vals)
            if kind == "adt":
                ty, var = ag[1], int(ag[2])
                if self.p.fieldless(ty):
                    return ("e", ty, K(self.p.types[ty]["variants"][var]["d"]))
                return ("adt", ty, var, vals)
            if kind == "closure":
                return ("clo", ag[1], vals)
            if kind == "coroutine":
                inst = self.p.types[ag[1]]["inst"]
                oid = st.fresh(inst)
                ck = ("co", oid)
                st.cells[(ck, 1)] = ("tup", vals)
                st.cells[(ck, "pc")] = ("pc", 0)
                return ("coro", ag[1], oid)
            raise Unsupported("aggregate %s" % kind)
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]),
                              self.op_ty(fr, rv[2]))
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if v[0] == "b":
                    return ("b", neg_b(v[1]))
                ty = self.op_ty(fr, rv[2])
                lo, hi = ty_range(ty)
                if lo == 0:
                    return ("i", sub(K(hi), v[1]))
                return ("i", addc(neg(v[1]), -1))
            if rv[1] == "Neg":
                return ("i", neg(v[1]))
            if rv[1] == "PtrMetadata":
                return ("i", self.length(st, self.load(st, v)))
            raise Unsupported("unary %s" % rv[1])
        if k == "discr":
            v = self.load(st, self.place(st, fr, rv[1]))
            d = self.discr_of(st, v)
            n = BITS.get(dest_ty or "")
            if n and dest_ty[0] == "i" and not d[1] and d[0] >= 1 << (n - 1):
                return ("i", K(d[0] - (1 << n)))
            if dest_ty and dest_ty[0] == "i" and dest_ty not in ("isize",) and d[1] and st.bounds(d)[1] >= 1 << (n - 1):
                raise Unsupported("signed discriminant")
            return ("i", d)
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), self.op_ty(fr, rv[2]), rv[3])
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, int) and n <= 64:
                if v[0] == "i" and self.arr_u8(st, fr, dest_ty):
                    return BY(*(("u", v[1]) for _ in range(n)))
                return ("arr", (v,) * n)
            return ("op", "raw", "repeat", n)
        raise Unsupported("rvalue %s" % (rv[:2],))

    def arr_u8(self, st, fr, ty):
        t = self.p.types.get(ty or "")
        return bool(t and t["k"] == "array" and t["of"] == "u8")

    def op_ty(self, fr, o):
        if "k" in o:
            return o["k"]["t"]
        pl = o.get("c") or o.get("m")
        ty = self.p.inst[fr[0]]["locals"][pl["l"]]
        for e in pl["p"]:
            if e[0] == "field":
                ty = e[2]
            elif e[0] == "deref":
                t = self.p.types.get(ty) or {}
                ty = t.get("to", "?")
                if ty == "?" and "args" in t and t["args"]:
                    ty = t["args"][0]
            elif e[0] in ("index", "cidx"):
                t = self.p.types.get(ty) or {}
                ty = t.get("of", "?")
        return ty

    def cast(self, st, kind, v, fty, ty):
        if kind.startswith("IntToInt") or (kind == "Misc" and v[0] in ("i", "b", "e")):
            if v[0] == "b":
                return ("i", self.b_to_lin(st, v[1]))
            l = v[2] if v[0] == "e" else v[1]
            lo, hi = ty_range(ty)
            a, b = st.bounds(l)
            if lo <= a and b <= hi:
                return ("i", l)
            if st.nonneg(addc(l, -lo)) and st.nonneg(sub(K(hi), l)):
                return ("i", l)
            base = single_base(l)
            if base is not None:
                n = hi - lo + 1
                return ("i", from_table(base, [(x - lo) % n + lo for x in table_of(l, base)]))
            if lo == 0:
                return ("i", self.rem(st, l, hi + 1))
            return ("i", A(("opr", lo, hi, "trunc", l)))
        if kind.startswith("Transmute"):
            if self.p.fieldless(ty) and v[0] == "i":
                self.emit(st, ("transmute", ty, v[1]))
                return ("e", ty, v[1])
            self.emit(st, ("transmute", ty, None))
            return v
        if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or kind.startswith("Subtype"):
            return v
        if kind.startswith("IntToFloat") and v[0] == "i":
            return self.to_float(st, v[1], ty)
        raise Unsupported("cast %s" % kind)

    def to_float(self, st, l, ty):
        """an integer as a floating point number, if every value of it has one"""
        lo, hi = st.bounds(l)
        n = 1 << (24 if ty == "f32" else 53)
        if lo < -n or hi > n:
            raise Unsupported("rounding of an integer to %s" % ty)
        return ("op", "float", l, 1)

    def float_op(self, st, op, a, b, ty):
        """sum, product or quotient of two floating point numbers, if it is exact: the denominator stays a
        power of two and the numerator fits in the mantissa"""
        (x, p), (y, q) = a[2:4], b[2:4]
        if op in ("Add", "Sub"):
            r, d = add(scale(x, q), scale(y, p), 1 if op == "Add" else -1), p * q
        elif op == "Mul" and not y[1]:
            r, d = scale(x, y[0]), p * q
        elif op == "Mul" and not x[1]:
            r, d = scale(y, x[0]), p * q
        elif op == "Div" and not y[1] and y[0]:
            r, d = scale(x, q if y[0] > 0 else -q), p * abs(y[0])
        else:
            raise Unsupported("float %s" % op)
        lo, hi = st.bounds(r)
        n = 1 << (24 if ty == "f32" else 53)
        if d & (d - 1) or lo < -n or hi > n:
            raise Unsupported("rounding in a float %s" % op)
        return ("op", "float", r, d)

    def b_to_lin(self, st, c):
        if c[0] == "m":
            n = dom_size(c[1])
            return from_table(c[1], [c[2] >> i & 1 for i in range(n)])
        if c[0] == "p" and c[1][0] == "s":
            t = st.preds.get(c[1])
            if t is None:
                return A(("s", c[1][1], "bool"))
            return K(int(t))
        return K(1 if self.decide(st, c) else 0)

    def lin(self, v):
        if v[0] == "i":
            return v[1]
        if v[0] == "e":
            return v[2]
        raise Unsupported("integer expected, got %s" % v[0])

    def cmp(self, st, op, a, b):
        d = sub(a, b)
        base = single_base(d)
        if base is not None and d[1]:
            f = {"Eq": lambda x: x == 0, "Ne": lambda x: x != 0, "Lt": lambda x: x < 0, "Le": lambda x: x <= 0,
                 "Gt": lambda x: x > 0, "Ge": lambda x: x >= 0}[op]
            m = sum(1 << i for i, x in enumerate(table_of(d, base)) if f(x))
            full = dom_mask(base)
            if m & full == full:
                return ("T",)
            if m & full == 0:
                return ("F",)
            return ("m", base, m)
        if not d[1]:
            r = {"Eq": d[0] == 0, "Ne": d[0] != 0, "Lt": d[0] < 0, "Le": d[0] <= 0, "Gt": d[0] > 0, "Ge": d[0] >= 0}[op]
            return ("T",) if r else ("F",)
        if op == "Eq":
            return ("eq", d)
        if op == "Ne":
            return ("ne", d)
        if op == "Ge":
            return ("ge", d)
        if op == "Gt":
            return ("ge", addc(d, -1))
        if op == "Le":
            return ("ge", neg(d))
        return ("ge", addc(neg(d), -1))

    def binop(self, st, op, a, b, ty):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a[0] == "b" or b[0] == "b":
                if op in ("Eq", "Ne"):
                    for x, y in ((a, b), (b, a)):
                        if y[1] in (("T",), ("F",)):
                            same = (y[1] == ("T",)) == (op == "Eq")
                            return ("b", x[1] if same else neg_b(x[1]))
                x, y = self.decide(st, a[1]), self.decide(st, b[1])
                r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
                return TRUE if r else FALSE
            if a[0] in ("i", "e") and b[0] in ("i", "e"):
                return ("b", self.cmp(st, op, self.lin(a), self.lin(b)))
            if op in ("Eq", "Ne"):
                return ("b", ("p" if op == "Eq" else "np", ("eqv",) + tuple(sorted((a, b), key=repr))))
            raise Unsupported("compare %s" % a[0])
        if op == "Cmp":
            x, y = self.lin(a), self.lin(b)
            if self.decide(st, self.cmp(st, "Lt", x, y)):
                n = -1
            elif self.decide(st, self.cmp(st, "Eq", x, y)):
                n = 0
            else:
                n = 1
            return self.ordering(n)
        if a[0] == "b":
            if op in ("BitAnd", "BitOr", "BitXor"):
                x = self.decide(st, a[1])
                if op == "BitAnd":
                    return b if x else FALSE
                if op == "BitOr":
                    return TRUE if x else b
                return ("b", neg_b(b[1])) if x else b
            raise Unsupported("bool %s" % op)
        if a[0] == "op" and a[1] == "float" and b[0] == "op" and b[1] == "float":
            return self.float_op(st, op, a, b, ty)
        x, y = self.lin(a), self.lin(b)
        over = op.endswith("WithOverflow")
        if over:
            op = op[:-len("WithOverflow")]
        if op.endswith("Unchecked"):
            op = op[:-len("Unchecked")]
        if op in ("Add", "Sub", "Mul"):
            if op == "Mul":
                if not y[1]:
                    r = scale(x, y[0])
                elif not x[1]:
                    r = scale(y, x[0])
                else:
                    p, q = st.bounds(x), st.bounds(y)
                    c = [i * j for i in p for j in q]
                    r = A(("opr", min(c), max(c), "mul", x, y))
            else:
                r = add(x, y, 1 if op == "Add" else -1)
            lo, hi = ty_range(ty)
            if over:
                under = ("ge", addc(neg(r), lo - 1))      # r < lo
                above = ("ge", addc(r, -hi - 1))          # r > hi
                c = ("F",)
                if not (op in ("Add", "Mul") and lo == 0):
                    if st.truth(under) is not False:
                        c = under
                if not (op == "Sub" and lo == 0):
                    if st.truth(above) is not False:
                        if c != ("F",):
                            c = under if self.decide(st, under) else above
                        else:
                            c = above
                return ("tup", (("i", r), ("b", c)))
            a_, b_ = st.bounds(r)
            if lo <= a_ and b_ <= hi:
                return ("i", r)
            if st.nonneg(addc(r, -lo)) and st.nonneg(sub(K(hi), r)):
                return ("i", r)
            return ("i", self.wrap(st, r, lo, hi))
        if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
            r = self.bits(st, op, x, y, ty)
            return ("tup", (("i", r), FALSE)) if over else ("i", r)
        if op in ("Div", "Rem"):
            if y[1]:
                p, q = st.bounds(x), st.bounds(y)
                return ("i", A(("opr", 0, max(p[1], 0), op, x, y)))
            n = y[0]
            if n == 0:
                raise Infeasible()
            return ("i", self.div(st, x, n) if op == "Div" else self.rem(st, x, n))
        raise Unsupported("binary %s" % op)

    def ordering(self, n):
        return ("e", "std::cmp::Ordering", K(n % 256))

    def wrap(self, st, r, lo, hi):
        base = single_base(r)
        if base is not None:
            n = hi - lo + 1
            return from_table(base, [(x - lo) % n + lo for x in table_of(r, base)])
        n = hi - lo + 1
        p, q = st.bounds(r)
        if (q <= hi or st.nonneg(addc(neg(r), hi))) and (p >= lo - n or st.nonneg(addc(r, n - lo))):
            return r if self.decide(st, ("ge", addc(r, -lo))) else addc(r, n)
        if (p >= lo or st.nonneg(addc(r, -lo))) and (q < hi + n or st.nonneg(addc(neg(r), hi + n))):
            return addc(r, -n) if self.decide(st, ("ge", addc(r, -hi - 1))) else r
        if lo == 0:
            return self.rem(st, r, hi + 1)
        return A(("opr", lo, hi, "wrap", r))

    def div(self, st, x, n):
        if n == 1:
            return x
        lo, hi = st.bounds(x)
        if lo >= 0 and hi < n:
            return ZERO
        if not x[1]:
            return K(int(x[0] / n) if x[0] < 0 else x[0] // n)
        base = single_base(x)
        if base is not None:
            return from_table(base, [v // n for v in table_of(x, base)])
        # pull out multiples of n
        q = {a: k // n for a, k in x[1] if k % n == 0}
        if q and all(k % n == 0 for _, k in x[1]):
            c, r = divmod(x[0], n)
            return mk(c, q)
        if x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1 and x[1][0][0][0] == "div":
            a = x[1][0][0]
            x, n = a[1], a[2] * n
        if lo >= 0 and st.nonneg(sub(K(n - 1), x)):
            return ZERO
        a = ("div", x, n)
        r = A(a)
        st.ge = st.ge | {sub(x, scale(r, n)), addc(sub(scale(r, n), x), n - 1)}
        return r

    def rem(self, st, x, n):
        lo, hi = st.bounds(x)
        if lo >= 0 and hi < n:
            return x
        if not x[1]:
            return K(x[0] % n)
        base = single_base(x)
        if base is not None:
            return from_table(base, [v % n for v in table_of(x, base)])
        if (lo >= 0 or st.nonneg(x)) and (hi < 2 * n or st.nonneg(addc(neg(x), 2 * n - 1))):
            return addc(x, -n) if self.decide(st, ("ge", addc(x, -n))) else x
        x = mk(x[0] % n, {a: k % n for a, k in x[1]})
        lo, hi = st.bounds(x)
        if lo >= 0 and hi < n:
            return x
        return A(("rem", x, n))

    def parts(self, st, l):
        """l as a sum of terms with disjoint bits: [(bits, Lin)], or None"""
        groups, out = {}, []
        if l[0] < 0:
            return None
        for a, k in l[1]:
            b = base_small(a)
            if k < 0 and b is None:
                return None
            groups.setdefault(b if b is not None else a, []).append((a, k))
        if l[0]:
            out.append((l[0], K(l[0])))
        for b, g in groups.items():
            t = Lin((0, tuple(g)))
            if base_small(g[0][0]) is not None:
                m = st.m(b)
                bits = 0
                for i, x in enumerate(table_of(t, b)):
                    if m >> i & 1:
                        if x < 0:
                            return None
                        bits |= x
            else:
                (a, k), = g
                hi = st.arange(a)[1]
                if st.arange(a)[0] < 0 or k & (k - 1):
                    return None
                bits = ((1 << hi.bit_length()) - 1) * k
            out.append((bits, t))
        seen = 0
        for bits, _ in out:
            if seen & bits:
                return None
            seen |= bits
        return out

    def bits(self, st, op, x, y, ty):
        lo, hi = ty_range(ty)
        if op == "Shl":
            if y[1]:
                return A(("opr", lo, hi, "Shl", x, y))
            r = scale(x, 1 << y[0])
            if st.bounds(r)[1] <= hi:
                return r
            return self.wrap(st, r, lo, hi)
        if not x[1] and not y[1]:
            return K({"BitAnd": x[0] & y[0], "BitOr": x[0] | y[0], "BitXor": x[0] ^ y[0], "Shr": x[0] >> y[0] if y[0] >= 0 else 0}[op])
        if op == "Shr":
            if y[1]:
                return A(("opr", 0, hi, "Shr", x, y))
            n = 1 << y[0]
            ps = self.parts(st, x)
            if ps and all(b % n == 0 or b < n for b, _ in ps):
                r = ZERO
                for b, t in ps:
                    if b >= n:
                        r = add(r, self.div(st, t, n))
                return r
            return self.div(st, x, n)
        d = add(x, ZERO)
        base = single_base(add(x, scale(y, 3)))     # same single base in both, whatever the coefficients
        bx, byy = single_base(x), single_base(y)
        cand = bx if bx is not None else byy
        if cand is not None and (not x[1] or bx == cand) and (not y[1] or byy == cand):
            tx = table_of(x, cand)
            tb = table_of(y, cand)
            f = {"BitAnd": lambda p, q: p & q, "BitOr": lambda p, q: p | q, "BitXor": lambda p, q: p ^ q}[op]
            return from_table(cand, [f(p, q) for p, q in zip(tx, tb)])
        px, py = self.parts(st, x), self.parts(st, y)
        if op == "BitAnd" and (not y[1] or not x[1]):
            c, ps = (y[0], px) if not y[1] else (x[0], py)
            z = x if not y[1] else y
            if c == 0:
                return ZERO
            if (c & (c + 1)) == 0:
                return self.rem(st, z, c + 1)
            if ps:
                r = ZERO
                for b, t in ps:
                    if b & c == 0:
                        continue
                    if b & ~c == 0:
                        r = add(r, t)
                        continue
                    bb = single_base(t)
                    if bb is None:
                        return A(("opr", 0, min(c, hi), "BitAnd", x, y))
                    r = add(r, from_table(bb, [v & c for v in table_of(t, bb)]))
                return r
            return A(("opr", 0, min(c, hi), "BitAnd", x, y))
        if px is not None and py is not None:
            ax = 0
            for b, _ in px:
                ax |= b
            ay = 0
            for b, _ in py:
                ay |= b
            if ax & ay == 0:
                return ZERO if op == "BitAnd" else add(x, y)
        a, b = sorted((x, y), key=repr)
        return A(("opr", 0, hi, op, a, b))

    # ---------------------------------------------------------- running
    def frame_push(self, st, iid, args):
        st.depth += 1
        fid = len(st.frames)
        while any(f[0] != "nat" and f[3] == fid for f in st.frames):
            fid += 1
        inst = self.p.inst[iid]
        self.seen_insts.add(iid)
        for i, a in enumerate(args):
            st.cells[(fid, i + 1)] = a
        st.frames.append((iid, 0, None, fid))

    def frame_pop(self, st):
        fr = st.frames.pop()
        if isinstance(fr[3], int):
            c = st.cells
            fid = fr[3]
            for l in range(len(self.p.inst[fr[0]]["locals"])):
                c.pop((fid, l), None)
        return fr

    def goto(self, st, bb):
        fr = st.frames[-1]
        st.frames[-1] = (fr[0], bb, fr[2], fr[3])
        self.arrive(st, fr[1])

    def arrive(self, st, prev=None):
        fr = st.frames[-1]
        iid, bb = fr[0], fr[1]
        if bb in self.p.heads(iid):
            st.heads = 2 if prev is not None and prev in self.p._bodies[iid][bb] else 3
        elif bb in self.p.joins(iid):
            st.heads = max(st.heads, 1)

    def explore(self, st):
        work = [st]
        self.work = work
        while work:
            s = work.pop()
            self.run(s, work)

    def run(self, st, work):
        """advance one state until it forks or ends"""
        self.states += 1
        while True:
            if st.heads:
                mode, st.heads = st.heads, 0
                if self.watch:
                    self.watch(self, st)
                st = self.at_point(st, mode)
                if st is None:
                    return
            self.steps += 1
            if self.steps > self.budget:
                raise Budget("step budget exhausted")
            snap = st.copy()
            try:
                self.txn(st)
                if st.oracle:
                    st.oracle = []
                if not st.frames:
                    self.emit(st, ("end", st.ret))
                    return
            except Fork as f:
                for o in reversed(f.opts):
                    s = snap.copy()
                    s.oracle = st.oracle + [o]
                    work.append(s)
                return
            except Infeasible:
                return
            except Stop:
                return
            except Unsupported as e:
                self.emit(snap, ("unsupported", str(e)))
                return

    def txn(self, st):
        if st.ret is not None:
            v, st.ret = st.ret, None
            self.deliver(st, v)
            return
        fr = st.frames[-1]
        if fr[0] == "nat":
            self.models.nat(self, st, fr, None)
            return
        self.block(st, fr)

    def deliver(self, st, v):
        fr = st.frames[-1]
        if fr[0] == "nat":
            self.models.nat(self, st, fr, v)
            return
        t = self.p.inst[fr[0]]["blocks"][fr[1]]["t"]
        if t[0] == "call":
            if t[4] is None:
                raise Stop()
            self.assign(st, fr, t[3], v)
            self.goto(st, t[4])
        elif t[0] == "drop":
            self.goto(st, t[2])
        else:
            raise Unsupported("return into %s" % t[0])

    def assign(self, st, fr, pl, v):
        if not pl["p"]:
            st.cells[(fr[3], pl["l"])] = v
        else:
            self.store(st, self.place(st, fr, pl), v)

    def block(self, st, fr):
        inst = self.p.inst[fr[0]]
        b = inst["blocks"][fr[1]]
        self.seen_blocks.add((fr[0], fr[1]))
        locs = inst["locals"]
        for s in b["s"]:
            k = s[0]
            if k == "a":
                pl = s[1]
                v = self.rvalue(st, fr, s[2], locs[pl["l"]] if not pl["p"] else None)
                if not pl["p"]:
                    st.cells[(fr[3], pl["l"])] = v
                else:
                    self.store(st, self.place(st, fr, pl), v)
            elif k == "dead":
                st.cells.pop((fr[3], s[1]), None)
            elif k == "sd":
                pass
        t = b["t"]
        k = t[0]
        if k == "goto":
            self.goto(st, t[1])
        elif k == "switch":
            self.switch(st, fr, t)
        elif k == "call":
            self.call(st, fr, t, b)
        elif k == "return":
            v = st.cells.get((fr[3], 0))
            if v is None:
                v = UNIT
            if inst["kind"] == "coroutine":
                self.co_return(st, fr, v)
            else:
                self.frame_pop(st)
                st.ret = v
        elif k == "drop":
            self.drop(st, fr, t)
        elif k == "assert":
            v = self.operand(st, fr, t[1])
            if self.decide(st, v[1]) == bool(t[2]):
                self.goto(st, t[4])
            else:
                self.panic(st, ("assert", str(t[3]).split("(")[0].split(" ")[0], b["sp"]))
        elif k == "yield":
            ck = fr[3]
            st.cells[(ck, "pc")] = ("pc", t[2])
            st.cells[(ck, "rs")] = ("pl", t[3]["l"])
            st.frames.pop()
            st.ret = self.poll_pending(st)
        elif k == "unreachable":
            raise Infeasible()
        else:
            raise Unsupported("terminator %s" % k)

    def poll_pending(self, st):
        return ("adt", "std::task::Poll<?>", 1, ())

    def co_return(self, st, fr, v):
        ck = fr[3]
        st.frames.pop()
        # the finished coroutine's locals are gone
        for key in [x for x in st.cells if x[0] == ck]:
            del st.cells[key]
        st.cells[(ck, "pc")] = ("pc", "done")
        st.ret = ("adt", "std::task::Poll<?>", 0, (v,))

    def resume(self, st, co):
        """poll a coroutine: push its frame at the saved position"""
        ck = ("co", co[2])
        pc = st.cells.get((ck, "pc"))
        if pc is None or pc[1] == "done":
            self.panic(st, ("poll", "coroutine resumed after completion", ""))
        inst = self.p.types[co[1]]["inst"]
        self.seen_insts.add(inst)
        if any(f[0] != "nat" and f[3] == ck for f in st.frames):
            raise Unsupported("coroutine polled while running")
        rs = st.cells.get((ck, "rs"))
        if self.use_live:
            # both are written again before they are read
            st.cells.pop((ck, "pc"), None)
            st.cells.pop((ck, "rs"), None)
        st.cells[(ck, rs[1] if rs else 2)] = ("op", "ctx")
        st.cells.setdefault((ck, 2), ("op", "ctx"))
        st.frames.append((inst, pc[1], None, ck))
        self.arrive(st)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        if v[0] == "b":
            x = 1 if self.decide(st, v[1]) else 0
            for n, bb in t[2]:
                if int(n) == x:
                    return self.goto(st, bb)
            return self.goto(st, t[3])
        l = self.lin(v)
        if not l[1]:
            ty = self.op_ty(fr, t[1])
            for n, bb in t[2]:
                n = int(n)
                if n == l[0] or (l[0] < 0 and n == l[0] % (1 << BITS.get(ty, 128))):
                    return self.goto(st, bb)
            return self.goto(st, t[3])
        opts = []
        bl = self.p.inst[fr[0]]["blocks"]
        base = single_base(l)
        if base is not None:
            tab = table_of(l, base)
            m = st.m(base)
            rest = m
            for n, bb in t[2]:
                n = int(n)
                mm = sum(1 << i for i, x in enumerate(tab) if x == n or x < 0 and n >= 1 << 7 and any(x == n - (1 << w) for w in (8, 16, 32, 64, 128))) & m
                if mm:
                    opts.append((("m", base, mm), bb))
                    rest &= ~mm
            if rest and bl[t[3]]["t"][0] != "unreachable":
                opts.append((("m", base, rest), t[3]))
        else:
            other = []
            for n, bb in t[2]:
                c = ("eq", addc(l, -int(n)))
                r = st.truth(c)
                if r is True:
                    return self.goto(st, bb)
                if r is None:
                    opts.append((c, bb))
                    other.append(c)
            if bl[t[3]]["t"][0] != "unreachable":
                opts.append((("and", tuple(other)), t[3]))
        # options leading to the same block are one option
        merged = {}
        for c, bb in opts:
            if c[0] == "m" and bb in merged and merged[bb][0] == "m":
                merged[bb] = ("m", base, merged[bb][2] | c[2])
            elif bb in merged:
                merged[(bb, len(merged))] = c
            else:
                merged[bb] = c
        opts = [(c, bb if not isinstance(bb, tuple) else bb[0]) for bb, c in merged.items()]
        if not opts:
            raise Infeasible()
        i = self.pick(st, list(range(len(opts))))
        c, bb = opts[i]
        if c[0] == "and":
            for x in c[1]:
                self.require(st, x, False)
        else:
            self.require(st, c)
        self.goto(st, bb)

    # ---------------------------------------------------------- calls
    def call(self, st, fr, t, b):
        args = [self.operand(st, fr, o) for o in t[2]]
        c = t[1]
        if "dyn" in c:
            f = self.operand(st, fr, c["dyn"])
            return self.call_value(st, f, args)
        self.dispatch(st, c, args, self.p.inst[fr[0]]["locals"][t[3]["l"]] if not t[3]["p"] else None)

    def dispatch(self, st, c, args, rty=None):
        if rty is None:
            rty = c.get("ret")
        s = self.summaries.get(c.get("path")) or self.summaries.get(c.get("rpath"))
        if s:
            r = s(self, st, args, c)
            if r is not None:
                st.ret = r
            return
        iid = c.get("inst")
        if c.get("path") == "std::future::Future::poll":
            r = self.models.poll(self, st, args, c, rty)
            if r is not None and r is not DONE:
                st.ret = r
            return
        inst = self.p.inst.get(iid) if iid else None
        if inst is None or not inst["local"]:
            r = self.models.call(self, st, c, args, rty)
            if r is not None:
                if r is not DONE:
                    st.ret = r
                return
        if inst is not None:
            if any(f[0] == iid for f in st.frames) and self.rec_hook:
                r = self.rec_hook(self, st, c, args, iid)
                if r is not None:
                    st.ret = r
                return
            if inst["kind"] == "closure":
                return self.enter_closure(st, iid, args)
            if st.depth > 0 and sum(1 for f in st.frames if f[0] == iid) > 3:
                self.emit(st, ("recursion", inst["path"]))
                raise Stop()
            if inst["local"]:
                self.note(st, "%s called from %s" % (inst["path"], self.where(st)))
            self.frame_push(st, iid, args)
            return
        if c.get("ctor"):
            ct = c["ctor"]
            ty = ct["adt"]
            if self.p.fieldless(ty):
                st.ret = ("e", ty, K(self.p.types[ty]["variants"][ct["v"]]["d"]))
            else:
                st.ret = ("adt", ty, ct["v"], tuple(args))
            return
        st.ret = self.models.unknown(self, st, c, args, rty)

    def enter_closure(self, st, iid, args):
        # FnOnce/FnMut/Fn::call*(closure, (args,))
        f, tup = args[0], args[1]
        self.call_value(st, f, list(tup[1]))

    def call_value(self, st, f, args):
        """call a function value with untupled arguments"""
        v = f
        while v[0] in ("ref", "vref"):
            x = self.load(st, v)
            if x[0] in ("clo", "fn", "ref", "vref"):
                if x[0] == "clo":
                    break
                v = x
            else:
                break
        if v[0] in ("ref", "vref"):
            x = self.load(st, v)
            if x[0] == "clo":
                t = self.p.types[x[1]]
                self.frame_push(st, t["inst"], [v if t["kind"] != "FnOnce" else x] + args)
                return
            v = x
        if v[0] == "clo":
            t = self.p.types[v[1]]
            if t["kind"] == "FnOnce":
                self.frame_push(st, t["inst"], [v] + args)
            else:
                key = ("hp", st.fresh("clo"))
                st.cells[key] = v
                self.frame_push(st, t["inst"], [("ref", key, (), True)] + args)
            return
        if v[0] == "fn":
            t = self.p.types[v[1]]
            return self.dispatch(st, t["callee"], args)
        if v[0] == "sym" or v[0] == "op":
            st.ret = self.models.unknown(self, st, {"path": "dyn call"}, [f] + args, None)
            return
        raise Unsupported("call of %s" % v[0])

    def drop(self, st, fr, t):
        r = self.place(st, fr, t[1])
        try:
            v = self.load(st, r)
        except Unsupported:
            v = U
        if r[0] == "ref" and v[0] not in ("i", "b", "e"):
            if v == U:
                return self.goto(st, t[2])
            if not any(x[0] == "x" for x in r[2]):
                # the drop of `v[i] = new`: the assignment that follows replaces it
                self.store(st, r, U)
        work = []
        self.drop_parts(st, v, work)
        if work:
            st.frames.append(("nat", "drop", tuple(work), None))
            return
        self.goto(st, t[2])

    def drop_parts(self, st, v, work):
        """things inside v whose drop has an effect, in order"""
        k = v[0]
        if k == "adt":
            t = self.p.types.get(v[1])
            if t and t.get("drop"):
                work.append(("user", t["drop"], v))
            for x in v[3]:
                self.drop_parts(st, x, work)
        elif k in ("tup", "arr"):
            for x in v[1]:
                self.drop_parts(st, x, work)
        elif k == "clo":
            for x in v[2]:
                self.drop_parts(st, x, work)
        elif k == "op":
            work.append(("op", v))
        elif k == "coro":
            work.append(("coro", v))
        elif k == "sym":
            work.append(("op", v))
        elif k == "vec":
            for s in v[1]:
                if s[0] == "one":
                    self.drop_parts(st, s[1], work)
        elif k == "it":
            work.append(("op", v))

    # ---------------------------------------------------------- loop heads and joins
    def roots(self, st):
        """values from which everything alive is reachable, in a fixed order"""
        out = []
        for fr in st.frames:
            if fr[0] == "nat":
                out.append(fr[2])
        for g in sorted(st.ghost, key=repr):
            out.append(st.ghost[g])
        return out

    def normalise(self, st):
        """drop what is unreachable, rename tokens canonically"""
        cells = st.cells
        fids = {f[3] for f in st.frames if f[0] != "nat"}
        byfid = {}
        for key in cells:
            byfid.setdefault(key[0] if not (isinstance(key[0], str)) else key, []).append(key)
        order, seen, live = [], set(), []
        todo = []

        def reach(key):
            if key not in seen:
                seen.add(key)
                order.append(key)

        frame_keys = []
        for fr in st.frames:
            if fr[0] == "nat":
                continue
            ks = byfid.get(fr[3], [])
            for key in sorted(ks, key=lambda x: (isinstance(x[1], str), x[1])):
                frame_keys.append(key)
        toks, names = {}, []
        atoms = set()
        els = set()          # list elements that something alive points to

        def visit(x):
            h = x[0]
            if h == "#":
                if x not in toks:
                    toks[x] = None
                    names.append(x)
            elif h == "ref":
                if x[1] in cells:
                    reach(x[1])
                    if x[2]:
                        self.elements(cells[x[1]], x[2], els)
            elif h in ("hp", "mc", "sc"):
                if x in cells:
                    reach(x)
            elif h == "coro":
                for key in sorted(byfid.get(("co", x[2]), []), key=lambda y: (isinstance(y[1], str), y[1])):
                    reach(key)
            elif h == "map" and len(x) == 5 and isinstance(x[1], str):
                V = map_val_ty(x[1])
                for k, pres in x[4]:
                    if pres and V != "()" and ("mc", x[2], k, V) in cells:
                        reach(("mc", x[2], k, V))
            if h in ("s", "B", "f8", "div", "rem", "opr"):
                atoms.add(x)

        for v in self.roots(st):
            walk_ordered(v, visit)
        for key in frame_keys:
            reach(key)
        n = 0
        while True:
            while n < len(order):
                key = order[n]
                n += 1
                walk_ordered(key, visit)
                walk_ordered(cells[key], visit)
            more = False
            for key in sorted((k for k in cells if k not in seen and k[0] in ("sc", "static")), key=repr):
                dead = []
                walk(key, lambda x: dead.append(x) if x[0] == "#" and x not in toks else None)
                if not dead:
                    reach(key)
                    more = True
            if not more:
                break
        # canonical numbers per base
        cnt, ren = {}, {}
        ident = True
        for t in names:
            if t[1] == "W":
                continue
            k = cnt.get(t[1], 0)
            cnt[t[1]] = k + 1
            ren[t] = ("#", t[1], k)
            if k != t[2]:
                ident = False
        newcells = {k: cells[k] for k in order}
        # facts over live atoms
        live_at = set(atoms) | self.pinned
        if els:
            def pointed(a):
                w = []
                walk(a, lambda x: w.append(1) if x[0] == "el" and x in els else None)
                return w
            live_at.update(b for b in st.mask if pointed(b))
            live_at.update(a for a in st.rng if pointed(a))
            for f in st.ge:
                live_at.update(a for a, _ in f[1] if pointed(a))
        if self.pin:
            live_at.update(b for b in st.mask if self.pin(st, b))
            live_at.update(a for a in st.rng if self.pin(st, a))
            for f in st.ge:
                live_at.update(a for a, _ in f[1] if self.pin(st, base_small(a) or a))

        def alive_lin(l):
            for a, _ in l[1]:
                if a not in live_at and not (a[0] in ("div", "rem") and alive_lin(a[1])):
                    return False
            return True

        ge = self.prune(st, self.project(st, st.ge, alive_lin))
        mask = {b: m for b, m in st.mask.items() if b in live_at and m != dom_mask(b)}
        rng = {a: r for a, r in st.rng.items() if a in live_at}
        alltoks = set(names)

        def key_alive(key):
            ok = [True]

            def chk(x):
                if x[0] == "#" and x not in alltoks:
                    ok[0] = False
            walk(key, chk)
            if ok[0] and key[0] == "eq":
                return alive_lin(key[1])
            return ok[0]
        preds = {k: v for k, v in st.preds.items() if key_alive(k)}
        if not ident:
            memo = {}

            def fn(x):
                if x[0] == "#":
                    return ren.get(x)
                return None

            def S(x):
                return subst(x, fn, memo)
            newcells = {S(k): S(v) for k, v in newcells.items()}
            st.frames = [("nat", f[1], S(f[2]), f[3]) if f[0] == "nat" else (f[0], f[1], f[2], S(f[3]) if isinstance(f[3], tuple) else f[3])
                         for f in st.frames]
            st.ghost = {k: S(v) if isinstance(v, (tuple, frozenset)) else v for k, v in st.ghost.items()}
            ge = frozenset(S(x) for x in ge)
            mask = {S(k): v for k, v in mask.items()}
            rng = {S(k): v for k, v in rng.items()}
            preds = {S(k): v for k, v in preds.items()}
        st.cells, st.ge, st.mask, st.rng, st.preds = newcells, frozenset(ge), mask, rng, preds
        st.ctr = dict(cnt)
        return st

    def elements(self, v, proj, out):
        """the list element a reference points to (or into)"""
        for s in proj:
            if s[0] == "f" and v[0] in ("adt", "tup"):
                fs = v[3] if v[0] == "adt" else v[1]
                if not isinstance(s[1], int) or s[1] >= len(fs):
                    return
                v = fs[s[1]]
            elif s[0] == "x" and v[0] == "vec":
                pos = ZERO
                for g in v[1]:
                    if g[0] == "any":
                        out.add(("el", g[1], sub(s[1], pos)))
                    pos = add(pos, vseg_len(g))
                return
            elif s[0] != "d":
                return

    def project(self, st, ge, alive):
        """facts over live atoms, eliminating dead ones where two facts meet"""
        good = {f for f in ge if alive(f)}
        bad = [f for f in ge if f not in good]
        if bad and len(bad) <= 60:
            dead = {}
            for f in bad:
                for a, k in f[1]:
                    if not alive(Lin((0, ((a, 1),)))):
                        dead.setdefault(a, []).append(f)
            cur = list(bad)
            for a in list(dead)[:12]:
                pos = [f for f in cur if dict(f[1]).get(a) == 1]
                ngs = [f for f in cur if dict(f[1]).get(a) == -1]
                if len(pos) * len(ngs) > 40:
                    continue
                new = []
                for p in pos:
                    for q in ngs:
                        r = add(p, q)
                        if r[1] and st.bounds(r)[0] < 0 and len(r[1]) <= 6:
                            new.append(r)
                cur = [f for f in cur if not dict(f[1]).get(a)] + new
                # bounds of a dead atom
                lo, hi = (None, None)
                if base_small(a) is None:
                    lo, hi = st.arange(a)
                for p in pos:
                    if hi is not None and hi < 1 << 62:
                        r = addc(add(p, A(a), -1), hi)
                        if r[1]:
                            cur.append(r)
                for q in ngs:
                    if lo is not None:
                        r = addc(add(q, A(a)), -lo)
                        if r[1]:
                            cur.append(r)
                if len(cur) > 120:
                    break
            good |= {f for f in cur if f[1] and alive(f) and st.bounds(f)[0] < 0}
        return good

    def prune(self, st, ge):
        """the facts without those that another one and the bounds imply"""
        best = {}
        for f in ge:
            o = best.get(f[1])
            if o is None or f[0] < o[0]:
                best[f[1]] = f
        ge = frozenset(best.values())
        if len(ge) < 4:
            return ge
        old = st.ge
        for f in sorted(ge, key=lambda f: (-len(f[1]), repr(f))):
            st.ge = rest = ge - {f}
            if st.nonneg(f, 1):
                ge = rest
        st.ge = old
        return ge

    def shape(self, st):
        """(shape, holes): everything but the integers, and the integers"""
        holes = []

        def sh(v):
            if v.__class__ is Lin:
                holes.append(v)
                return ("h", v[0]) if not v[1] else "h"
            if isinstance(v, tuple):
                if v and v[0] == "rep":
                    return ("rep", sh(v[1]), sh(v[3]))
                return tuple(sh(x) if isinstance(x, (tuple, frozenset)) else x for x in v)
            if isinstance(v, frozenset):
                return v
            return v
        parts = []
        for f in st.frames:
            parts.append((f[0], f[1], sh(f[2]) if f[0] == "nat" else None, f[3]))
        for k in sorted(st.cells, key=repr):
            parts.append((sh(k), sh(st.cells[k])))
        for k in sorted(st.ghost, key=repr):
            v = st.ghost[k]
            parts.append((k, sh(v) if isinstance(v, (tuple, frozenset)) else v))
        return tuple(parts), holes

    def coarse(self, shape):
        def c(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == "h":
                    return "h"
                return tuple(c(x) if isinstance(x, tuple) else x for x in v)
            return v
        return c(shape)

    def reps(self, st):
        out = []

        def go(v):
            if v.__class__ is Lin:
                return
            if isinstance(v, tuple):
                if v and v[0] == "rep":
                    out.append(v)
                    return
                for x in v:
                    if isinstance(x, tuple):
                        go(x)
        for f in st.frames:
            if f[0] == "nat":
                go(f[2])
        for k in sorted(st.cells, key=repr):
            go(k)
            go(st.cells[k])
        for k in sorted(st.ghost, key=repr):
            if isinstance(st.ghost[k], tuple):
                go(st.ghost[k])
        return out

    def rebuild(self, st, holes, reps=None):
        """st with its integers replaced, in shape order"""
        it = iter(holes)
        ri = iter(reps) if reps is not None else None

        def rb(v):
            if v.__class__ is Lin:
                return next(it)
            if isinstance(v, tuple):
                if v and v[0] == "rep":
                    a = rb(v[1]) if isinstance(v[1], tuple) else v[1]
                    l = rb(v[3])
                    return ("rep", a, next(ri) if ri is not None else v[2], l)
                return tuple(rb(x) if isinstance(x, tuple) else x for x in v)
            return v
        s = st.copy()
        s.frames = [("nat", f[1], rb(f[2]), f[3]) if f[0] == "nat" else f for f in st.frames]
        cells = {}
        for k in sorted(st.cells, key=repr):
            nk = rb(k)
            cells[nk] = rb(st.cells[k])
        s.cells = cells
        gh = {}
        for k in sorted(st.ghost, key=repr):
            v = st.ghost[k]
            gh[k] = rb(v) if isinstance(v, tuple) else v
        s.ghost = gh
        return s

    def forget_dead(self, st):
        """drop the locals that are not read again"""
        for i, fr in enumerate(st.frames):
            if fr[0] == "nat":
                continue
            ins, outs = self.p.live(fr[0])
            keep = ins[fr[1]] if i == len(st.frames) - 1 else outs[fr[1]]
            for l, ty in enumerate(self.p.inst[fr[0]]["locals"]):
                if l not in keep or ty == "()":
                    st.cells.pop((fr[3], l), None)

    def at_point(self, st, mode):
        """a loop head or a join: None if the state is covered, else the state to go on with"""
        if mode == 2 and self.unroll and self.unroll(st):
            mode = 1
        try:
            for m in self.monitors:
                h = getattr(m, "at_head", None)
                if h and mode >= 2:
                    h(self, st)
            if mode >= 2:
                fr = [f for f in st.frames if f[0] != "nat"]
                if self.use_live:
                    self.forget_dead(st)
                self.forget_maps(st, self.map_limit if self.map_limit is not None else 0 if len(fr) <= self.task_depth else 1)
            st = self.normalise(st)
        except Infeasible:
            return None
        sig = tuple((f[0], f[1], f[3]) for f in st.frames)
        for t in list(st.tags):
            n = len(t)
            if n > len(sig) or t[:-1] != sig[:n - 1] or t[-1][0] != sig[n - 1][0] or t[-1][2] != sig[n - 1][2]:
                del st.tags[t]
        tab = self.table.setdefault(sig, {"n": 0, "shapes": {}, "coarse": {}, "groups": {}})
        sh, holes = self.shape(st)
        if mode == 1:
            lst = tab["shapes"].setdefault(sh, [])
            for e in lst:
                if e["holes"] == holes and self.facts_imply(st, e["st"]) and self.reps_in(st, e["st"]):
                    return None
            if len(lst) < 60:
                lst.append({"holes": holes, "st": st.copy()})
            return st
        co = self.coarse(sh)
        groups = tab["groups"].setdefault(co, [])
        gid = st.tags.get(sig) if mode == 2 else None
        if gid is None or gid >= len(groups):
            for g in groups:
                if self.covered(st, sh, holes, g):
                    return None
            if len(groups) < self.G_max:
                groups.append({"consts": set(), "wide": False, "shapes": {}})
            gid = len(groups) - 1
        grp = groups[gid]
        st.tags[sig] = gid
        if not grp["wide"]:
            grp["consts"].add(sh)
            if len(grp["consts"]) > (self.k_const(st) if self.k_const else self.K_const):
                grp["wide"] = True
        key = ("C", co) if grp["wide"] else sh
        g = grp["shapes"].setdefault(key, {"exact": [], "wide": None})
        if self.covered(st, sh, holes, grp):
            return None
        if len(g["exact"]) < self.K_exact and g["wide"] is None:
            g["exact"].append({"holes": holes, "st": st.copy(), "W": []})
            return st
        w = g["wide"] or g["exact"][-1]
        new = self.widen(w, st, holes)
        g["wide"] = new
        g["nw"] = g.get("nw", 0) + 1
        if g["nw"] > 40:
            raise Budget("widening does not settle at %s" % self.where(st))
        s = new["st"].copy()
        s.trace = st.trace
        s.tags = dict(st.tags)
        return s

    def covered(self, st, sh, holes, grp):
        for key in (sh, ("C", self.coarse(sh))):
            g = grp["shapes"].get(key)
            if g is None:
                continue
            for e in g["exact"]:
                if self.subsumed(st, holes, e):
                    return True
            if g["wide"] is not None and self.subsumed(st, holes, g["wide"]):
                return True
        return False

    def reps_in(self, st, e):
        a, b = self.reps(st), self.reps(e)
        return all(x[2] <= y[2] for x, y in zip(a, b))

    def facts_imply(self, st, e, env=None, wmap=()):
        """do the facts of st imply those of e (under a renaming of e's atoms)"""
        def L(l):
            return env(l) if env else l
        for a, r in e.rng.items():
            l = L(A(a))
            if not (st.nonneg(addc(l, -r[0])) and st.nonneg(addc(neg(l), r[1]))):
                return False
        for b, m in e.mask.items():
            if b not in wmap and st.m(b) & ~m:
                return False
        for f in e.ge:
            if not st.nonneg(L(f)):
                return False
        for k, v in e.preds.items():
            if st.preds.get(k) is not v:
                return False
        return True

    def match(self, st, holes, e):
        """W substitution mapping e's holes onto these, or None"""
        env = {}
        for w in e["W"]:
            val = None
            for h, x in zip(holes, e["holes"]):
                k = dict(x[1]).get(w)
                if not k or any(v != w and v not in env for v, _ in x[1] if v in e["Wset"]):
                    continue
                rest = add(x, A(w), -k)
                rest = subst(rest, lambda a: env.get(a), {})
                d = sub(h, rest)
                if d[0] % k or any(c % k for _, c in d[1]):
                    continue
                val = Lin((d[0] // k, tuple((a, c // k) for a, c in d[1])))
                break
            if val is None:
                return None
            env[w] = val
        memo = {}
        for h, x in zip(holes, e["holes"]):
            y = subst(x, lambda a: env.get(a), memo) if env else x
            if y != h and not st.is_zero(sub(y, h)):
                return None
        return env

    def subsumed(self, st, holes, e):
        env = self.match(st, holes, e)
        if env is None:
            return False
        for w, v in env.items():
            if w[2] == "nat":
                if not st.nonneg(v):
                    return False
            elif isinstance(w[2], tuple):
                lo, hi = ty_range(w[2])
                a, b = st.bounds(v)
                if a < lo or b > hi:
                    return False
                if w in e["st"].mask:
                    m = self.value_mask(st, v, hi + 1)
                    if m & ~e["st"].mask[w]:
                        return False
        memo = {}
        L = (lambda l: subst(l, lambda a: env.get(a), memo)) if env else None
        return self.facts_imply(st, e["st"], L, env) and self.reps_in(st, e["st"])

    def value_mask(self, st, l, n):
        """set of values of a small integer"""
        b = single_base(l)
        if b is not None or not l[1]:
            if not l[1]:
                return 1 << l[0]
            m = st.m(b)
            r = 0
            for i, x in enumerate(table_of(l, b)):
                if m >> i & 1:
                    r |= 1 << x
            return r
        return (1 << n) - 1

    def hole_types(self, st):
        """C-like enum type of each hole, in shape order"""
        out = []

        def go(v):
            if v.__class__ is Lin:
                out.append(None)
            elif isinstance(v, tuple):
                if v and v[0] == "rep":
                    go(v[1])
                    go(v[3])
                    return
                if len(v) == 3 and v[0] == "e" and v[2].__class__ is Lin:
                    out.append(v[1] if v[1] in DOMS else None)
                    return
                for x in v:
                    if isinstance(x, tuple):
                        go(x)
        for f in st.frames:
            if f[0] == "nat":
                go(f[2])
        for k in sorted(st.cells, key=repr):
            go(k)
            go(st.cells[k])
        for k in sorted(st.ghost, key=repr):
            if isinstance(st.ghost[k], tuple):
                go(st.ghost[k])
        return out

    def small_ints(self, st):
        """(value, greatest of its type) of each u8 or u16 in a place of known type, in a fixed order"""
        out = []
        types = self.p.types

        def go(v, ty):
            if v[0] == "i":
                if ty in ("u8", "u16") and v[1].__class__ is Lin:
                    out.append((v[1], 255 if ty == "u8" else 65535))
            elif v[0] == "adt":
                t = types.get(ty) or types.get(v[1]) or {}
                if t.get("k") == "adt" and v[2] < len(t["variants"]):
                    for f, x in zip(t["variants"][v[2]]["f"], v[3]):
                        go(x, f["t"])
        owner = {f[3]: self.p.inst[f[0]]["locals"] for f in st.frames if f[0] != "nat"}
        for k in sorted(st.cells, key=repr):
            v = st.cells[k]
            locs = owner.get(k[0]) if not isinstance(k[0], str) else None
            if locs is not None and isinstance(k[1], int) and k[1] < len(locs):
                go(v, locs[k[1]])
            elif v and v[0] == "adt":
                go(v, v[1])
        return out

    def iters(self, st):
        """how much is left in each iterator over a list, in a fixed order"""
        out = []

        def see(x):
            if x[0] == "it" and x[1] == "vals" and len(x) == 5:
                c = x[2]
                n = ZERO if c[0] == "vec" else None
                if n is None or x[3].__class__ is not Lin:
                    return
                for sg in c[1] if c[0] == "vec" else ():
                    n = add(n, vseg_len(sg))
                out.append(sub(n, x[3]))
        for f in st.frames:
            if f[0] == "nat":
                walk_ordered(f[2], see)
        idx, vecs = [], []
        for k in sorted(st.cells, key=repr):
            v = st.cells[k]
            if isinstance(v, tuple):
                walk_ordered(v, see)
                if v and v[0] == "i" and v[1].__class__ is Lin:
                    idx.append((k[0], v[1]))
                elif v and v[0] == "vec":
                    vecs.append((k[0], v))
        # an index has not passed the end of a list of the same function
        for fr, x in idx if len(idx) <= 12 else ():
            for fv, v in vecs:
                if fr == fv:
                    n = ZERO
                    for sg in v[1]:
                        n = add(n, vseg_len(sg))
                    out.append(sub(n, x))
        return out

    def widen(self, e, st, holes):
        """the least state above e and st that this domain has: unequal integers become
        base + r*W with one W per group of integers that moved together"""
        old, es = e["holes"], e["st"]
        if len(old) != len(holes):
            raise Budget("widening changed the shape of the state at %s" % self.where(st))
        reps = [a[2] | b[2] for a, b in zip(self.reps(es), self.reps(st))]
        env = self.match(st, holes, e)
        if env is not None and all(w[2] != "nat" or st.nonneg(v) for w, v in env.items()):
            # same integers up to W: keep only the facts that both have
            s = self.rebuild(es, old, reps)
            self.keep_facts(s, es, st, env)
            return {"holes": old, "st": s, "W": e["W"], "Wset": set(e["W"])}
        Wold = e["Wset"] if e["W"] else set()
        hty = self.hole_types(es)
        used = set()
        for x in list(holes) + list(old):
            for a, _ in x[1]:
                walk(a, lambda y: used.add(y[2]) if y[0] == "#" and y[1] == "W" else None)
        nxt = [max([k for k in used if isinstance(k, int)] + [-1]) + 1]

        def fresh(ty):
            nxt[0] += 1
            return ("s", ("#", "W", nxt[0] - 1), ty)
        classes, new, masks = [], [], {}
        ecls = {}
        for i, (o, h) in enumerate(zip(old, holes)):
            w = Lin((0, tuple(x for x in o[1] if x[0] in Wold)))
            d = sub(h, o)
            if not w[1] and (d == ZERO or st.is_zero(d)):
                new.append(o)
                continue
            ty = hty[i] if i < len(hty) else None
            if ty is not None:
                c = ecls.get((o, h))
                if c is None:
                    c = ecls[(o, h)] = fresh(("en", ty))
                    n = DOMS[ty][0]
                    masks[c] = self.value_mask(es, o, n) | self.value_mask(st, h, n)
                new.append(A(c))
                continue
            hit = None
            for c in classes:
                r = ratio2(w, d, c[0], c[1])
                if r is not None:
                    hit = (c, r)
                    break
            if hit is None:
                pw, pd = w, d
                pos = es.nonneg(w) and st.nonneg(add(w, d) if False else sub(h, sub(o, w)))
                ng = not pos and es.nonneg(neg(w)) and st.nonneg(neg(sub(h, sub(o, w))))
                if not w[1] and not d[1] and d[0]:
                    pd = ONE
                elif ng:
                    pw, pd = neg(w), neg(d)
                c = (pw, pd, fresh("nat" if pos or ng else "i64"))
                classes.append(c)
                hit = (c, ratio2(w, d, pw, pd))
            c, r = hit
            new.append(add(sub(o, w), scale(A(c[2]), r)))
        s = self.rebuild(st, new, reps)
        s.ge, s.mask, s.rng, s.preds = frozenset(), {}, {}, {}
        for b, m in es.mask.items():
            if b in Wold:
                continue
            mm = m | st.m(b)
            if mm != dom_mask(b):
                s.mask[b] = mm
        s.mask.update(masks)
        for a, r in es.rng.items():
            if a in Wold:
                continue
            x = st.arange(a)
            s.rng[a] = (min(r[0], x[0]), max(r[1], x[1]))

        def cand(f):
            if f[1] and s.bounds(f)[0] < 0:
                if len(f[1]) == 1:
                    s.add_ge(f)
                else:
                    s.ge = s.ge | {f}
        for f in es.ge:
            if not any(a in Wold for a, _ in f[1]) and st.nonneg(f):
                cand(f)
        for f in st.ge:
            if es.nonneg(f):
                cand(f)
        for k, v in es.preds.items():
            if st.preds.get(k) is v:
                s.preds[k] = v
        ch = [(o, h, x) for o, h, x in zip(old, holes, new) if x != o and x[1]]
        seen = set()
        for o, h, x in ch:
            if (o, h) in seen:
                continue
            seen.add((o, h))
            lo = min(es.bounds(o)[0], st.bounds(h)[0])
            if 0 <= lo < 1 << 40:
                cand(addc(x, -1 if lo else 0))
            elif es.nonneg(addc(o, -1)) and st.nonneg(addc(h, -1)):
                cand(addc(x, -1))
            elif es.nonneg(o) and st.nonneg(h):
                cand(x)
            elif es.nonneg(neg(o)) and st.nonneg(neg(h)):
                cand(neg(x))
        # small integers stay within their type
        for (a, _), (b, _), (x, hi) in zip(self.small_ints(es), self.small_ints(st), self.small_ints(s)):
            if x[1] and s.bounds(x)[1] > hi and es.nonneg(addc(neg(a), hi)) and st.nonneg(addc(neg(b), hi)):
                cand(addc(neg(x), hi))
            if x[1] and s.bounds(x)[0] < 0 and es.nonneg(a) and st.nonneg(b):
                cand(x)
        # an iterator has not passed the end of what it goes over
        for a, b, x in zip(self.iters(es), self.iters(st), self.iters(s)):
            if x[1] and es.nonneg(a) and st.nonneg(b):
                cand(x)
        ch = list(dict.fromkeys(ch))
        same = [(o, h, x) for o, h, x in dict.fromkeys(zip(old, holes, new)) if x == o and o[1]]
        for (o1, h1, x1) in ch[:12]:
            for (o2, h2, x2) in (ch + same)[:24]:
                d, od, hd = sub(x2, x1), sub(o2, o1), sub(h2, h1)
                for k in (0, 1, 2) if d[1] and s.bounds(d)[0] < 0 else ():
                    if es.nonneg(addc(od, k)) and st.nonneg(addc(hd, k)):
                        cand(addc(d, k))
                        break
                d, od, hd = neg(d), neg(od), neg(hd)
                if (o2, h2, x2) in same and d[1] and s.bounds(d)[0] < 1:
                    for k in (-1, 0):
                        if es.nonneg(addc(od, k)) and st.nonneg(addc(hd, k)):
                            cand(addc(d, k))
                            break
        # smallest free names for the new W
        names = [c[2] for c in classes] + list(ecls.values())
        mine = set(names)
        live = set()

        def seeW(y):
            if y[0] == "#" and y[1] == "W":
                live.add(y)
        for v in list(s.cells) + list(s.cells.values()) + [f[2] for f in s.frames if f[0] == "nat"] \
                + [g for g in s.ghost.values() if isinstance(g, tuple)] + list(s.ge) + list(s.rng) + list(s.preds):
            if isinstance(v, (tuple, frozenset)):
                walk(v, seeW)
        live -= {w[1] for w in names}
        taken = {t[2] for t in live}
        ren, k = {}, 0
        for w in names:
            while k in taken:
                k += 1
            ren[w[1]] = ("#", "W", k)
            k += 1
        memo = {}
        S = lambda x: subst(x, lambda y: ren.get(y) if y[0] == "#" else None, memo)
        s.cells = {S(a): S(v) for a, v in s.cells.items()}
        s.frames = [("nat", f[1], S(f[2]), f[3]) if f[0] == "nat" else f for f in s.frames]
        s.ghost = {a: S(v) if isinstance(v, (tuple, frozenset)) else v for a, v in s.ghost.items()}
        s.ge = frozenset(S(x) for x in s.ge)
        s.mask = {S(a): v for a, v in s.mask.items()}
        s.rng = {S(a): v for a, v in s.rng.items()}
        s.preds = {S(a): v for a, v in s.preds.items()}
        s = self.normalise(s)
        sh, hl = self.shape(s)
        wn = {S(w) for w in names}
        Wl = []
        for h in hl:
            for a, _ in h[1]:
                if a in wn and a not in Wl:
                    Wl.append(a)
        return {"holes": hl, "st": s, "W": Wl, "Wset": set(Wl)}

    def keep_facts(self, s, es, st, env):
        memo = {}

        def L(l):
            return subst(l, lambda a: env.get(a), memo) if env else l
        s.ge = frozenset(f for f in es.ge if st.nonneg(L(f)))
        s.rng = {}
        for a, r in es.rng.items():
            x = st.bounds(L(A(a)))
            lo, hi = min(r[0], x[0]), max(r[1], x[1])
            t = ty_range(a[2]) if a[0] == "s" else (lo, hi)
            # widen a moving bound at once
            if x[0] < r[0]:
                lo = t[0]
            if x[1] > r[1]:
                hi = t[1]
            s.rng[a] = (lo, hi)
        s.mask = {}
        for b, m in es.mask.items():
            if env and b in env:
                mm = m | self.value_mask(st, env[b], dom_size(b))
            else:
                mm = m | st.m(b)
            if mm != dom_mask(b):
                s.mask[b] = mm
        s.preds = {k: v for k, v in es.preds.items() if st.preds.get(k) is v}
        for a, b, x in zip(self.iters(es), self.iters(st), self.iters(s)):
            if x[1] and es.nonneg(a) and st.nonneg(b) and s.bounds(x)[0] < 0:
                s.ge = s.ge | {x}
        for (a, _), (b, _), (x, hi) in zip(self.small_ints(es), self.small_ints(st), self.small_ints(s)):
            if x[1] and s.bounds(x)[1] > hi and es.nonneg(addc(neg(a), hi)) and st.nonneg(addc(neg(b), hi)):
                s.add_ge(addc(neg(x), hi))
            if x[1] and s.bounds(x)[0] < 0 and es.nonneg(a) and st.nonneg(b):
                s.add_ge(x)


def map_val_ty(ty):
    a = split_args(ty)
    h = ty_head(ty)
    return "()" if h.endswith("Set") else (a[1] if len(a) > 1 else "?")


DONE = ("DONE",)
MAPS = {"std::collections::HashMap", "std::collections::HashSet", "dashmap::DashMap", "std::collections::BTreeMap",
        "std::collections::BTreeSet"}


def vseg_len(s):
    if s[0] == "one":
        return ONE
    return s[3]


def neg_b(c):
    k = c[0]
    if k == "T":
        return ("F",)
    if k == "F":
        return ("T",)
    if k == "p":
        return ("np", c[1])
    if k == "np":
        return ("p", c[1])
    if k == "m":
        return ("m", c[1], dom_mask(c[1]) & ~c[2])
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    return ("ge", addc(neg(c[1]), -1))


def ratio(d, b):
    """integer r with d == r*b, or None"""
    if not b[1]:
        if d[1] or b[0] == 0 or d[0] % b[0]:
            return None
        return d[0] // b[0]
    if not d[1]:
        return None
    kb = b[1][0][1]
    kd = dict(d[1]).get(b[1][0][0])
    if not kd or kd % kb:
        return None
    r = kd // kb
    return r if scale(b, r) == d else None


def ratio2(w, d, cw, cd):
    """integer r with w == r*cw and d == r*cd, or None"""
    if bool(w[1]) != bool(cw[1]):
        return None
    r = ratio(w, cw) if w[1] else ratio(d, cd)
    if r is None or scale(cw, r) != w or scale(cd, r) != d:
        return None
    return r

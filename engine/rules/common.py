"""What the rules share: looking values up by field name, deciding byte segments, collecting results."""
from core import *
import models

NEEDED = {}


class Base:
    """a monitor: engine failures on a path become violations of every property the job decides"""
    props = ()

    def __init__(self):
        self.ob = {}          # property -> obligations discharged
        self.samples = []
        self.ends = 0

    def ok(self, prop, n=1):
        self.ob[prop] = self.ob.get(prop, 0) + n

    def bad(self, eng, st, prop, key, msg):
        eng.violation(st, (prop, key), msg)

    def on(self, eng, st, ev):
        k = ev[0]
        if k in ("unsupported", "recursion_unbounded"):
            for p in self.props:
                self.bad(eng, st, p, "undecided:" + fname(eng, st), "cannot be decided: %s" % (short(ev[1]),))
            return
        h = getattr(self, "ev_" + k.replace("+", "_on").replace("-", "_off"), None)
        if h:
            h(eng, st, ev)


def short(x, n=200):
    s = str(x)
    return s if len(s) <= n else s[:n] + "..."


def fname(eng, st):
    for fr in reversed(st.frames):
        if fr[0] != "nat" and eng.p.inst[fr[0]]["local"]:
            return eng.p.inst[fr[0]]["path"]
    return "?"


def variant_name(eng, v):
    t = eng.p.types.get(v[1])
    return t["variants"][v[2]]["n"] if t else None


def fields(eng, v):
    """{field name: value} of a struct or enum value"""
    t = eng.p.types[v[1]]
    return {f["n"]: x for f, x in zip(t["variants"][v[2]]["f"], v[3])}


def B(i, src="IN"):
    return A(("B", src, i if isinstance(i, Lin) else K(i)))


def bit(st, base, i):
    """bit i of a byte atom: True, False or None if the path leaves it open"""
    m = st.m(base)
    one = sum(1 << x for x in range(256) if x >> i & 1)
    if m & one == 0:
        return False
    if m & ~one & ((1 << 256) - 1) == 0:
        return True
    return None


def bits_of(st, base, f):
    """the set of values f takes over the byte values the path allows"""
    m = st.m(base)
    return {f(x) for x in range(256) if m >> x & 1}


def bmask(f):
    return sum(1 << x for x in range(256) if f(x))


def same_bytes(st, v, pos, n, src="IN"):
    """is the byte string v exactly src[pos .. pos+n]"""
    if v[0] == "vref":
        v = v[1]
    if v[0] != "by":
        return False
    if not st.is_zero(sub(by_len(v), n)):
        return False
    cur = pos
    for s in v[1]:
        if st.is_zero(seg_len(s)):
            continue
        if s[0] == "s" and s[1] == src:
            if not st.is_zero(sub(s[2], cur)):
                return False
            cur = add(cur, s[3])
        elif s[0] == "u" and s[1] is not None:
            if not st.is_zero(sub(s[1], A(("B", src, cur)))):
                return False
            cur = addc(cur, 1)
        else:
            return False
    return True


def canon(st, *vals):
    """a copy of the state (and of values) with every byte the path fixes replaced by its value"""
    s = st.copy()
    for _ in range(8):
        one = {a: m.bit_length() - 1 for a, m in s.mask.items() if a[0] == "B" and m and m & (m - 1) == 0}
        memo = {}

        def fn(x):
            if x[0] == "f8" and x[1] in one:
                return K(TABS[x[2]][one[x[1]]])
            if x[0] == "B" and x in one:
                return K(one[x])
            return None

        def S(x):
            return subst(x, fn, memo)

        def at(a):
            return ("B", a[1], S(a[2])) if a[0] == "B" else a
        mask = {}
        for a, m in s.mask.items():
            b2 = at(a)
            mask[b2] = mask.get(b2, m) & m
        same = mask.keys() == s.mask.keys()
        s.mask = mask
        old, s.ge = s.ge, frozenset()
        for f in sorted(old, key=lambda f: len(f[1])):
            if not s.add_ge(S(f)):
                return (None,) + vals
        s.preds = {S(k): v for k, v in s.preds.items()}
        s.ghost = {k: S(v) if isinstance(v, tuple) else v for k, v in s.ghost.items()}
        vals = tuple(S(v) for v in vals)
        if same:
            break
    return (s,) + vals


def run_job(eng, st, mon):
    """explore; a budget overrun is a violation of what the job decides"""
    try:
        eng.explore(st)
    except Budget as e:
        for p in mon.props:
            mon.bad(eng, st, p, "undecided:budget", "cannot be decided: %s" % e)
    return finish(eng, mon)


def finish(eng, mon):
    return {"viol": [dict(v, key=list(k)) for k, v in eng.viol.items()],
            "ob": mon.ob, "steps": eng.steps, "states": eng.states,
            "fns": sorted({eng.p.inst[i]["path"] for i in eng.seen_insts if eng.p.inst[i]["local"]}),
            "unknown": dict(eng.unknown), "events": dict(eng.events),
            "samples": mon.samples[:3]}


def new_engine(p, mon, budget=400000):
    eng = Engine(p, [mon], budget)
    eng.models = models
    return eng


def only(p, path):
    l = p.fn(path)
    if len(l) != 1:
        raise KeyError(path)
    return l[0]


def missing(props, what):
    return {"viol": [{"key": [p, "missing:" + what], "msg": "the construct the rule is anchored in is gone: %s" % what,
                      "where": what, "path": []} for p in props],
            "ob": {}, "steps": 0, "states": 0, "fns": [], "unknown": {}, "events": {}, "samples": []}

"""Abstract semantics of the external functions the broker calls (std, bytes, dashmap, tokio).

Every model returns a value, DONE (frames were pushed or a result is pending) or None (not modelled).
"""
from core import *
import core

OPT, RES, POLL = "std::option::Option<?>", "std::result::Result<?>", "std::task::Poll<?>"
core.EXTRA_TYPES.update({
    OPT: {"k": "adt", "path": "std::option::Option", "enum": True, "local": False, "drop": None,
          "variants": [{"n": "None", "d": 0, "f": []}, {"n": "Some", "d": 1, "f": [{"n": "0", "t": "?"}]}]},
    RES: {"k": "adt", "path": "std::result::Result", "enum": True, "local": False, "drop": None,
          "variants": [{"n": "Ok", "d": 0, "f": [{"n": "0", "t": "?"}]}, {"n": "Err", "d": 1, "f": [{"n": "0", "t": "?"}]}]},
    POLL: {"k": "adt", "path": "std::task::Poll", "enum": True, "local": False, "drop": None,
           "variants": [{"n": "Ready", "d": 0, "f": [{"n": "0", "t": "?"}]}, {"n": "Pending", "d": 1, "f": []}]},
})
NONE = ("adt", OPT, 0, ())


def some(v):
    return ("adt", OPT, 1, (v,))


def ok(v=UNIT):
    return ("adt", RES, 0, (v,))


def err(v):
    return ("adt", RES, 1, (v,))


PENDING = ("adt", POLL, 1, ())


def ready(v):
    return ("adt", POLL, 0, (v,))


def boolv(c):
    return ("b", c)


def is_ref(v):
    return v[0] in ("ref", "vref")


def deref(eng, st, v):
    """the value itself, through any number of references"""
    n = 0
    while n < 10:
        if v[0] in ("ref", "vref"):
            v = eng.load(st, v)
        elif v[0] == "sym" and (eng.p.types.get(v[2]) or {}).get("k") in ("ref", "ptr"):
            v = eng.load(st, v)
        else:
            return v
        n += 1
    return v


def final_ref(eng, st, v):
    """the last reference of a chain of references"""
    while True:
        x = eng.load(st, v)
        if x[0] in ("ref", "vref") or (x[0] == "sym" and (eng.p.types.get(x[2]) or {}).get("k") == "ref"):
            v = x
        else:
            return v, x


def as_by(eng, st, v):
    v = deref(eng, st, v)
    if v[0] == "by":
        return v
    if v[0] == "arr" and all(x[0] == "i" for x in v[1]):
        return BY(*(("u", x[1]) for x in v[1]))
    return None


# ------------------------------------------------------------------ equality
def by_equal(eng, st, a, b):
    """decide whether two byte sequences are equal"""
    if a == b:
        return True
    # strip equal ends
    sa, sb = list(a[1]), list(b[1])
    while sa and sb and sa[0] == sb[0]:
        sa.pop(0)
        sb.pop(0)
    while sa and sb and sa[-1] == sb[-1]:
        sa.pop()
        sb.pop()
    a, b = ("by", norm_segs(sa)), ("by", norm_segs(sb))
    if not a[1] and not b[1]:
        return True
    d = sub(by_len(a), by_len(b))
    if st.truth(("eq", d)) is False:
        return False
    if all(s[0] == "l" for s in a[1]) and all(s[0] == "l" for s in b[1]):
        return b"".join(s[1] for s in a[1]) == b"".join(s[1] for s in b[1])
    if repr(a) > repr(b):
        a, b = b, a
    key = ("streq", a, b)
    c = ("p", key)
    if not eng.decide(st, c):
        return False
    eng.require(st, ("eq", d))
    for x, y in ((a, b), (b, a)):
        # a source against a literal fixes its bytes
        if len(x[1]) == 1 and x[1][0][0] == "s" and all(s[0] == "l" for s in y[1]):
            t = b"".join(s[1] for s in y[1])
            for i, ch in enumerate(t):
                eng.require(st, ("m", ("B", x[1][0][1], addc(x[1][0][2], i)), 1 << ch))
    return True


def val_equal(eng, st, a, b):
    a, b = deref(eng, st, a), deref(eng, st, b)
    if a == b:
        return True
    if a[0] in ("i", "e") and b[0] in ("i", "e"):
        return eng.decide(st, eng.cmp(st, "Eq", eng.lin(a), eng.lin(b)))
    ab, bb = as_by(eng, st, a), as_by(eng, st, b)
    if ab is not None and bb is not None:
        return by_equal(eng, st, ab, bb)
    if a[0] == "b" and b[0] == "b":
        return eng.decide(st, a[1]) == eng.decide(st, b[1])
    if a[0] == "tup" and b[0] == "tup":
        return all(val_equal(eng, st, x, y) for x, y in zip(a[1], b[1]))
    if a[0] in ("adt", "sym") and b[0] in ("adt", "sym"):
        ty = a[1] if a[0] == "adt" else a[2]
        t = eng.p.types.get(ty)
        if t and t.get("variants"):
            if eng.variant_of(st, a) != eng.variant_of(st, b):
                return False
            _, fa = eng.open(st, a)
            _, fb = eng.open(st, b)
            return all(val_equal(eng, st, x, y) for x, y in zip(fa, fb))
    x, y = sorted((a, b), key=repr)
    return eng.decide(st, ("p", ("eqv", x, y)))


# ------------------------------------------------------------------ containers
def vlen(eng, st, v):
    return eng.length(st, v)


def vslice(eng, st, v, a, b):
    if v[0] == "by":
        return eng.by_slice(st, v, a, b)
    if v[0] == "arr":
        v = ("vec", tuple(("one", x) for x in v[1]))
    out, pos = [], ZERO
    for s in v[1]:
        n = vseg_len(s)
        end = add(pos, n)
        if eng.decide(st, ("ge", sub(a, end))):
            pos = end
            continue
        if eng.decide(st, ("ge", sub(pos, b))):
            break
        f = ZERO if eng.decide(st, ("ge", sub(pos, a))) else sub(a, pos)
        t = n if eng.decide(st, ("ge", sub(b, end))) else sub(b, pos)
        if f == ZERO and t == n:
            out.append(s)
        elif s[0] == "any":
            out.append(("any", ("sl", s[1], f) if f != ZERO else s[1], s[2], sub(t, f)))
        elif s[0] == "rep":
            out.append(("rep", s[1], s[2], sub(t, f)))
        pos = end
    return ("vec", tuple(out))


def vec_push(v, x):
    if v[0] == "by":
        return concat(v, BY(("u", x[1])))
    segs = v[1]
    if len(segs) and segs[-1][0] == "rep" or len(segs) >= 2:
        # keep it bounded: everything but the last few elements is a repetition
        pass
    return ("vec", segs + (("one", x),))


def star(v):
    """v with the position of the element it came from forgotten"""
    return subst(v, lambda x: ("el", x[1], "*") if x[0] == "el" and len(x) == 3 and x[2] != "*" else None, {})


def moving(v):
    """does v still depend on where in a loop it was made"""
    f = []
    walk(v, lambda x: f.append(1) if (x[0] == "#" and x[1] == "W") or x[0] == "B" or (x[0] == "s" and len(x) == 4)
         else None)
    return bool(f)


def like(st, a, b=None):
    """a template for values such as a (and b)"""
    if b is not None and a[0] != b[0] and "like" not in (a[0], b[0]):
        return ("like", "op", None)
    if a[0] == "like" and a[1] in ("i",):
        return a if b is None else ("like", "i", min(a[2][0], like(st, b)[2][0]), )
    k = a[0]
    if k == "i":
        lo, hi = st.bounds(a[1])
        return ("like", "i", lo, hi)
    if k in ("tup", "arr"):
        return ("like", k, tuple(like(st, x) for x in a[1]))
    if k == "adt":
        return ("like", "adt", a[1], a[2], tuple(like(st, x) for x in a[3]))
    if k == "e":
        return ("like", "e", a[1])
    if k == "by":
        return ("like", "by")
    if k == "b":
        return ("like", "b")
    if k == "sym":
        return ("like", "sym", a[2])
    return ("like", "op", None)


def like_join(a, b):
    if a == b:
        return a
    if a[1] != b[1]:
        return ("like", "op", None)
    if a[1] == "i":
        return ("like", "i", min(a[2], b[2]), max(a[3], b[3]))
    if a[1] in ("tup", "arr") and len(a[2]) == len(b[2]):
        return ("like", a[1], tuple(like_join(x, y) for x, y in zip(a[2], b[2])))
    if a[1] == "adt" and a[2] == b[2]:
        if a[3] == b[3]:
            return ("like", "adt", a[2], a[3], tuple(like_join(x, y) for x, y in zip(a[4], b[4])))
        return ("like", "sym", a[2])
    return ("like", "op", None)


def from_like(eng, name, t):
    k = t[1]
    if k == "i":
        ty = next((w for w in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64") if
                   ty_range(w)[0] <= t[2] and t[3] <= ty_range(w)[1]), "i128")
        return ("i", A(("s", name, ty)))
    if k in ("tup", "arr"):
        return (k, tuple(from_like(eng, ("c", name, i), x) for i, x in enumerate(t[2])))
    if k == "adt":
        return ("adt", t[2], t[3], tuple(from_like(eng, ("c", name, t[3], i), x) for i, x in enumerate(t[4])))
    if k in ("e", "sym"):
        return eng.sym(name, t[2])
    if k == "by":
        return BY(("o", name, A(("s", ("len", name), "len"))))
    if k == "b":
        return ("b", ("p", ("s", name)))
    return ("op", "thing", name)


def has_witness(eng_w, v):
    f = []
    walk(v, lambda x: f.append(1) if x in eng_w else None)
    return bool(f)


WITNESS = set()         # names of elements that are never folded into others


def vec_norm_loop(st, v, keep=1):
    """fold the leading elements of a growing vector into a repetition"""
    segs = v[1]
    if WITNESS:
        out, cur = [], []
        for s in segs:
            if s[0] == "one" and has_witness(WITNESS, s[1]):
                out += list(vec_fold(st, tuple(cur), keep)) + [s]
                cur = []
            else:
                cur.append(s)
        return ("vec", tuple(out) + vec_fold(st, tuple(cur), keep))
    return ("vec", vec_fold(st, segs, keep))


def vec_fold(st, segs, keep):
    if len(segs) <= keep or len(segs) == 1 and segs[0][0] != "one":
        return segs
    pats, n, tpl, base, tys = frozenset(), ZERO, None, None, None
    for s in segs:
        n = add(n, vseg_len(s))
        if s[0] == "one":
            pats |= {star(s[1])}
        elif s[0] == "rep":
            pats |= s[2]
        elif s[0] == "any" and isinstance(s[2], tuple):
            tpl = s[2] if tpl is None else like_join(tpl, s[2])
        elif s[0] == "any":
            tys = s[2]
        else:
            return segs
    if tys is not None:
        # the declared type covers whatever was added
        return (("any", st.fresh("acc"), tys, n),)
    if tpl is None and not any(moving(p) for p in pats) and len(pats) <= 24:
        return (("rep", "r", pats, n),)
    for p in pats:
        t = like(st, p)
        tpl = t if tpl is None else like_join(tpl, t)
    return (("any", st.fresh("acc"), tpl, n),)


# ------------------------------------------------------------------ iterators
# ("it", "vals", container, idx, mode)   mode: val | vref
# ("it", "mut", ref, idx)
# ("it", "range", lo, hi, ty)
# ("it", "split", by, by, state)
# ("it", "map"|"filter"|..., inner, f) etc.
STAGES = ("map", "filter", "copied", "take", "skip", "enum", "filter_map", "inspect", "take_while", "map_while")


def as_iter(eng, st, v, mode=None):
    """IntoIterator::into_iter"""
    if v[0] == "it":
        return v
    if v[0] in ("vec", "by", "arr"):
        return ("it", "vals", v, ZERO, "val")
    if v[0] == "map":
        name = st.fresh("iter:" + ty_head(v[1]))
        a = split_args(v[1])
        ety = a[0] if ty_head(v[1]).endswith("Set") else "(%s)" % ", ".join(a[:2])
        n = A(("s", ("len", name), "len"))
        eng.emit(st, ("mapiter", v[2], name))
        segs = eng.iter_hook(st, v, name, ety) if eng.iter_hook else None
        if segs is not None:
            return ("it", "vals", ("vec", segs), ZERO, "val")
        return ("it", "vals", ("vec", (("any", ("keys", v[2], name), ety, n),)), ZERO, "val")
    if v[0] == "adt" and ty_head(v[1]).endswith("Option"):
        return ("it", "vals", ("vec", tuple(("one", x) for x in v[3])), ZERO, "val")
    if v[0] == "adt" and ty_head(v[1]) in ("std::ops::Range",):
        return ("it", "range", v[3][0][1], v[3][1][1], 0)
    if v[0] == "adt" and ty_head(v[1]) in ("std::ops::RangeInclusive",):
        return ("it", "range", v[3][0][1], addc(v[3][1][1], 1), 0)
    if v[0] in ("ref", "vref", "sym"):
        if v[0] == "sym" and (eng.p.types.get(v[2]) or {}).get("k") != "ref":
            return None
        x = eng.load(st, v)
        if x[0] == "it" or (x[0] == "adt" and ty_head(x[1]) == "std::ops::Range"):
            return v
        if x[0] in ("ref", "vref"):
            return as_iter(eng, st, x)
        if x[0] in ("vec", "by", "arr"):
            return ("it", "vals", x, ZERO, "vref")
        if x[0] == "map":
            i = as_iter(eng, st, x)
            return ("it", "vals", i[2], ZERO, "vref")
        if x[0] == "op" and x[1] == "guard":
            return as_iter(eng, st, eng.load(st, x[4]))
    return None


def pull(eng, st, it):
    """one step of an iterator without closures: (item or None, iterator)"""
    if it[0] in ("ref", "sym"):
        r, inner = final_ref(eng, st, it)
        x, n = pull(eng, st, inner)
        eng.store(st, r, n)
        return x, it
    if it[0] == "adt":
        lo, hi = it[3][0], it[3][1]
        if not eng.decide(st, ("ge", addc(sub(hi[1], lo[1]), -1))):
            return None, it
        return lo, ("adt", it[1], it[2], (("i", addc(lo[1], 1)), hi))
    k = it[1]
    if k == "vals":
        c, i = it[2], it[3]
        n = vlen(eng, st, c)
        if not eng.decide(st, ("ge", addc(sub(n, i), -1))):
            return None, it
        x = eng.index(st, c, i)
        it = ("it", "vals", c, addc(i, 1), it[4])
        return (("vref", x) if it[4] == "vref" else x), it
    if k == "mut":
        c = eng.load(st, it[2])
        n = vlen(eng, st, c)
        i = it[3]
        if not eng.decide(st, ("ge", addc(sub(n, i), -1))):
            return None, it
        r = it[2]
        return ("ref", r[1], r[2] + (("x", i),), True), ("it", "mut", r, addc(i, 1))
    if k == "range":
        lo, hi = it[2], it[3]
        if not eng.decide(st, ("ge", addc(sub(hi, lo), -1))):
            return None, it
        return ("i", lo), ("it", "range", addc(lo, 1), hi, 0)
    if k == "rev":
        raise Unsupported("reverse iteration")
    if k == "copied":
        x, n = pull(eng, st, it[2])
        return (None if x is None else deref(eng, st, x)), ("it", "copied", n)
    if k == "take":
        if not eng.decide(st, ("ge", addc(it[3], -1))):
            return None, it
        x, n = pull(eng, st, it[2])
        return x, ("it", "take", n, addc(it[3], -1) if x is not None else it[3])
    if k == "skip":
        inner, cnt = it[2], it[3]
        while eng.decide(st, ("ge", addc(cnt, -1))):
            x, inner = pull(eng, st, inner)
            cnt = addc(cnt, -1)
            if x is None:
                return None, ("it", "skip", inner, ZERO)
        x, inner = pull(eng, st, inner)
        return x, ("it", "skip", inner, ZERO)
    if k == "enum":
        x, n = pull(eng, st, it[2])
        return (None if x is None else ("tup", (("i", it[3]), x))), ("it", "enum", n, addc(it[3], 1))
    if k == "chain":
        if it[2] is not None and it[2] != UNIT:
            x, n = pull(eng, st, it[2])
            if x is not None:
                return x, ("it", "chain", n, it[3])
        x, n = pull(eng, st, it[3])
        return x, ("it", "chain", UNIT, n)
    if k == "peek":
        if it[3] != UNIT:
            return (None if it[3] == NONE else it[3][3][0]), ("it", "peek", it[2], UNIT)
        x, n = pull(eng, st, it[2])
        return x, ("it", "peek", n, UNIT)
    raise Unsupported("iterator %s" % k)


def pure(eng, st, it):
    if it[0] in ("ref", "sym"):
        return pure(eng, st, final_ref(eng, st, it)[1])
    if it[0] == "adt":
        return True
    if it[0] != "it":
        return False
    if it[1] in ("map", "filter", "filter_map", "inspect", "take_while", "map_while", "skip_while"):
        return False
    if it[1] in ("copied", "take", "skip", "enum", "peek"):
        return pure(eng, st, it[2])
    if it[1] == "chain":
        return (it[2] == UNIT or pure(eng, st, it[2])) and pure(eng, st, it[3])
    return it[1] in ("vals", "mut", "range")


def bulk(eng, st, it):
    """all remaining items of a plain byte iterator as one sequence, or None"""
    lim, cur, path = None, it, []
    while True:
        if cur[0] in ("ref", "sym"):
            r, inner = final_ref(eng, st, cur)
            if inner[0] != "it":
                return None
            path.append(("ref", r))
            cur = inner
        elif cur[0] == "it" and cur[1] == "copied":
            path.append(("copied",))
            cur = cur[2]
        elif cur[0] == "it" and cur[1] == "take":
            path.append(("take", cur[3]))
            cur = cur[2]
        elif cur[0] == "it" and cur[1] == "vals" and cur[2][0] == "by":
            break
        else:
            return None
    c, i = cur[2], cur[3]
    n = sub(by_len(c), i)
    for p in reversed(path):
        if p[0] == "take" and eng.decide(st, ("ge", sub(n, p[1]))):
            n = p[1]
    got = eng.by_slice(st, c, i, add(i, n))
    new = ("it", "vals", c, add(i, n), cur[4])
    for p in reversed(path):
        if p[0] == "copied":
            new = ("it", "copied", new)
        elif p[0] == "take":
            new = ("it", "take", new, sub(p[1], n))
        else:
            eng.store(st, p[1], new)
            new = p[1]
    return got, new


def flatten(eng, st, it):
    """(base, stages) with stages from inner to outer"""
    stages = []
    while it[0] == "it" and not pure(eng, st, it) and it[1] in STAGES:
        stages.append((it[1],) + tuple(it[3:]))
        it = it[2]
    return it, tuple(reversed(stages))


def unflatten(base, stages):
    for s in stages:
        base = ("it", s[0], base) + tuple(s[1:])
    return base


def hold(st, f):
    """keep a closure in a heap cell so that calls share its state"""
    if f[0] in ("fn", "ref", "vref"):
        return f
    key = ("hp", st.fresh("clo"))
    st.cells[key] = f
    return ("ref", key, (), True)


# consumer loops run in a native frame: data = (consumer, acc, extra, base, stages, pos, item, itref)
def start_loop(eng, st, consumer, acc, extra, it, itref=None):
    base, stages = flatten(eng, st, it)
    st.frames.append(("nat", "loop", (consumer, acc, extra, base, stages, -1, UNIT, itref or UNIT), None))
    st.heads = 3
    return DONE


def loop_finish(eng, st, d, value):
    consumer, acc, extra, base, stages, pos, item, itref = d
    if itref != UNIT:
        eng.store(st, itref, unflatten(base, stages))
    st.frames.pop()
    st.ret = value


def nat(eng, st, fr, ret):
    name = fr[1]
    if name == "drop":
        return nat_drop(eng, st, fr, ret)
    if name == "pollfn":
        st.frames.pop()
        st.ret = ret
        if ret[0] == "adt" and ret[2] == 0 and not in_select(st):
            eng.emit(st, ("selected",))
        return
    if name == "opt":
        return nat_opt(eng, st, fr, ret)
    if name == "sort":
        st.frames.pop()
        st.ret = fr[2][0]
        return
    if name == "root":
        return nat_root(eng, st, fr, ret)
    if name == "loop":
        return nat_loop(eng, st, fr, ret)
    if name == "entry":
        st.frames.pop()
        d = fr[2]
        st.cells[d[0]] = ret
        eng.emit(st, ("mapinsert", d[1], d[2], d[3], ret, False))
        st.ret = ("ref", d[0], (), True)
        if d[4]:
            eng.emit(st, ("guard+", d[1], "get_mut", d[0][2]))
            st.ret = ("op", "guard", d[1], "get_mut", st.ret)
        return
    if name == "keep":
        # call finished, its result is ignored
        st.frames.pop()
        st.ret = fr[2][0]
        return
    raise Unsupported("native frame %s" % name)


def nat_loop(eng, st, fr, ret):
    consumer, acc, extra, base, stages, pos, item, itref = fr[2]

    def setd(*d):
        st.frames[-1] = ("nat", "loop", d, None)
    while True:
        if pos == -1:
            if consumer == "collect" and acc[0] == "vec" and len(extra) == 2 and extra[0] == "plain":
                b = bulk_seg(eng, st, base, stages, extra)
                if b is not None:
                    if not eng.decide(st, ("ge", addc(b[3], -1))):
                        setd(consumer, acc, extra, base[:2] + (("vec", tuple(x for x in base[2][1] if x is not b)),) + base[3:], stages, -1, UNIT, itref)
                        fr = st.frames[-1]
                        consumer, acc, extra, base, stages, pos, item, itref = fr[2]
                        continue
                    i = A(("s", ("bulk", b[1]), "nat"))
                    eng.require(st, ("ge", addc(sub(b[3], i), -1)))
                    x = eng.index(st, base[2], add(base[3], i))
                    item, pos, ret = (("vref", x) if base[4] == "vref" else x), 0, None
                    extra = extra + (b, as_by(eng, st, x))
                    continue
            if consumer == "retain" and len(extra) == 2:
                b = bulk_seg(eng, st, base, (("map", extra[0]),), None)
                if b is not None:
                    if not eng.decide(st, ("ge", addc(b[3], -1))):
                        base = base[:2] + (("vec", tuple(x for x in base[2][1] if x is not b)),) + base[3:]
                        setd(consumer, acc, extra, base, stages, -1, UNIT, itref)
                        continue
                    i = A(("s", ("bulk", b[1]), "nat"))
                    eng.require(st, ("ge", addc(sub(b[3], i), -1)))
                    item, pos, ret = eng.index(st, base[2], add(base[3], i)), 0, None
                    extra = extra + (b,)
                    continue
            x, base = pull(eng, st, base)
            if x is None:
                return loop_finish(eng, st, (consumer, acc, extra, base, stages, -1, UNIT, itref),
                                   loop_end(eng, st, consumer, acc, extra))
            item, pos, ret = x, 0, None
        if pos < len(stages):
            s = stages[pos]
            k = s[0]
            if ret is None:
                if k == "copied":
                    item = deref(eng, st, item)
                elif k == "enum":
                    item = ("tup", (("i", s[1]), item))
                    stages = stages[:pos] + (("enum", addc(s[1], 1)),) + stages[pos + 1:]
                elif k == "take":
                    if not eng.decide(st, ("ge", addc(s[1], -1))):
                        return loop_finish(eng, st, (consumer, acc, extra, base, stages, -1, UNIT, itref),
                                           loop_end(eng, st, consumer, acc, extra))
                    stages = stages[:pos] + (("take", addc(s[1], -1)),) + stages[pos + 1:]
                elif k == "skip":
                    if eng.decide(st, ("ge", addc(s[1], -1))):
                        stages = stages[:pos] + (("skip", addc(s[1], -1)),) + stages[pos + 1:]
                        setd(consumer, acc, extra, base, stages, -1, UNIT, itref)
                        st.heads = 2
                        return
                else:
                    setd(consumer, acc, extra, base, stages, pos, item, itref)
                    arg = item
                    if k in ("filter", "inspect", "take_while"):
                        arg = ("vref", item)
                    return eng.call_value(st, s[1], [arg])
                pos += 1
                continue
            # a closure stage answered
            r, ret = ret, None
            if k == "map":
                item = r
            elif k in ("filter", "take_while"):
                if not eng.decide(st, r[1]):
                    if k == "take_while":
                        return loop_finish(eng, st, (consumer, acc, extra, base, stages, -1, UNIT, itref),
                                           loop_end(eng, st, consumer, acc, extra))
                    setd(consumer, acc, extra, base, stages, -1, UNIT, itref)
                    st.heads = 2
                    return
            elif k in ("filter_map", "map_while"):
                v, f = eng.open(st, r)
                if v == 0:
                    if k == "map_while":
                        return loop_finish(eng, st, (consumer, acc, extra, base, stages, -1, UNIT, itref),
                                           loop_end(eng, st, consumer, acc, extra))
                    setd(consumer, acc, extra, base, stages, -1, UNIT, itref)
                    st.heads = 2
                    return
                item = f[0]
            pos += 1
            continue
        if consumer == "retain" and len(extra) == 3 and ret is not None:
            b = extra[2]
            if not eng.decide(st, ret[1]):
                eng.emit(st, ("vecremove", extra[1], item, None, acc))
            n = A(("s", st.fresh("kept"), "len"))
            eng.require(st, ("ge", sub(b[3], n)))
            acc = ("vec", acc[1] + (("any", ("sl", b[1], "kept", n), b[2], n),))
            base = base[:3] + (add(base[3], b[3]), base[4])
            setd(consumer, acc, extra[:2], base, stages, -1, UNIT, itref)
            st.heads = 2
            return
        if consumer == "collect" and len(extra) == 4:
            # one element stood for all of the segment: kept if each becomes its own text
            b = extra[2]
            y = as_by(eng, st, item)
            if y is not None and y == extra[3]:
                acc = ("vec", acc[1] + (("any", b[1], extra[1], b[3]),))
                base = base[:3] + (add(base[3], b[3]), base[4])
                extra = extra[:2]
            else:
                extra = extra[:1]
            setd(consumer, acc, extra, base, stages, -1, UNIT, itref)
            st.heads = 2
            return
        # the consumer
        done, acc, value, call = consume(eng, st, consumer, acc, extra, item, ret)
        if call is not None:
            setd(consumer, acc, extra, base, stages, pos, item, itref)
            return eng.call_value(st, call[0], call[1])
        if done:
            return loop_finish(eng, st, (consumer, acc, extra, base, stages, -1, UNIT, itref), value)
        setd(consumer, acc, extra, base, stages, -1, UNIT, itref)
        st.heads = 2
        return


def bulk_seg(eng, st, base, stages, extra):
    """the next segment of a list of texts, if the stages can be run once for all of it"""
    if base[0] != "it" or base[1] != "vals" or base[2][0] != "vec":
        return None
    for s in stages:
        if s[0] == "copied":
            continue
        f = deref(eng, st, s[1])
        if s[0] != "map" or f[0] not in ("clo", "fn") or f[0] == "clo" and any(x[0] == "ref" and x[3] for x in f[2]):
            return None
    at = ZERO
    for s in base[2][1]:
        if st.is_zero(sub(base[3], at)):
            if s[0] != "any":
                if s[0] == "one" or not st.is_zero(vseg_len(s)):
                    return None
                continue
            return s if extra is None or s[2] in ("&str", "std::string::String") else None
        at = add(at, vseg_len(s))
    return None


def consume(eng, st, c, acc, extra, item, ret):
    """(finished, acc, value, call)"""
    if c == "collect":
        return False, collect_add(eng, st, acc, extra, item), None, None
    if c == "extend":
        eng.store(st, extra, collect_add(eng, st, eng.load(st, extra), ("plain",), item))
        return False, acc, None, None
    if c == "next":
        return True, acc, some(item), None
    if c == "last":
        return False, item, None, None
    if c == "count":
        return False, ("i", addc(acc[1], 1)), None, None
    if c == "sum":
        return False, ("i", add(acc[1], deref(eng, st, item)[1])), None, None
    if c == "nth":
        if eng.decide(st, ("ge", addc(acc[1], -1))):
            return False, ("i", addc(acc[1], -1)), None, None
        return True, acc, some(item), None
    if ret is None:
        if c in ("for_each", "all", "any", "position", "find_map"):
            return False, acc, None, (extra, [item])
        if c == "find":
            return False, acc, None, (extra, [("vref", item)])
        if c == "retain":
            return False, acc, None, (extra[0], [("vref", item)])
        if c in ("fold", "try_fold"):
            return False, acc, None, (extra, [acc, item])
        if c == "max_by_key" or c == "min_by_key":
            raise Unsupported(c)
        raise Unsupported("consumer %s" % c)
    if c == "for_each":
        return False, acc, None, None
    if c == "retain":
        if eng.decide(st, ret[1]):
            return False, vec_grow(st, acc, item), None, None
        eng.emit(st, ("vecremove", extra[1], item, None, acc))
        return False, acc, None, None
    if c == "all":
        if eng.decide(st, ret[1]):
            return False, acc, None, None
        return True, acc, FALSE, None
    if c == "any":
        if eng.decide(st, ret[1]):
            return True, acc, TRUE, None
        return False, acc, None, None
    if c == "position":
        if eng.decide(st, ret[1]):
            return True, acc, some(acc), None
        return False, ("i", addc(acc[1], 1)), None, None
    if c == "find":
        if eng.decide(st, ret[1]):
            return True, acc, some(item), None
        return False, acc, None, None
    if c == "find_map":
        v, f = eng.open(st, ret)
        if v == 1:
            return True, acc, some(f[0]), None
        return False, acc, None, None
    if c == "fold":
        return False, ret, None, None
    raise Unsupported("consumer %s" % c)


def loop_end(eng, st, c, acc, extra):
    if c == "collect":
        if extra[0] == "result":
            return ok(acc)
        if extra[0] == "option":
            return some(acc)
        return acc
    if c in ("next", "find", "position", "find_map", "nth"):
        return NONE
    if c == "last":
        return NONE if acc == UNIT else some(acc)
    if c in ("for_each", "extend"):
        return UNIT
    if c == "retain":
        eng.store(st, extra[1], acc)
        return UNIT
    if c == "all":
        return TRUE
    if c == "any":
        return FALSE
    return acc


def collect_add(eng, st, acc, extra, item):
    if acc[0] == "by":
        x = deref(eng, st, item)
        eng.emit(st, ("put", acc, x if x[0] == "by" else BY(("u", x[1]))))
        return by_grow(st, acc, x if x[0] == "by" else BY(("u", x[1])))
    if acc[0] == "vec":
        eng.emit(st, ("push", None, item, acc))
        return vec_grow(st, acc, item)
    if acc[0] == "map":
        if ty_head(acc[1]).endswith("Set"):
            return map_put(eng, st, acc, item, UNIT)[0]
        return map_put(eng, st, acc, item[1][0], item[1][1])[0]
    raise Unsupported("collect into %s" % acc[0])


def vec_grow(st, v, x):
    """append, folding older elements so that loops close"""
    segs = v[1]
    ones = sum(1 for s in segs if s[0] == "one")
    v = ("vec", segs + (("one", x),))
    if ones >= 2 or any(s[0] in ("rep", "any") for s in segs):
        v = vec_norm_loop(st, v, 0)
    return v


def start_collect(eng, st, it, rty):
    h = ty_head(rty or "")
    if rty in BYTES_TY or h in ("std::string::String",):
        r = bulk(eng, st, it)
        if r is not None:
            return r[0]
        return start_loop(eng, st, "collect", BY(), ("plain",), it)
    if h == "std::vec::Vec" or h == "std::boxed::Box":
        if pure(eng, st, it) and it[0] == "it" and it[1] == "vals" and it[4] == "val":
            return vslice(eng, st, it[2], it[3], vlen(eng, st, it[2]))
        el = (split_args(rty) or [None])[0]
        return start_loop(eng, st, "collect", ("vec", ()), ("plain", el) if el in ("&str", "std::string::String") else ("plain",), it)
    if h in MAPS:
        return start_loop(eng, st, "collect", map_new(st, rty), ("plain",), it)
    return None


# ------------------------------------------------------------------ maps
def map_new(st, ty):
    return ("map", ty, st.fresh("map:" + ty_head(ty)), False, ())


def map_key(eng, st, k):
    v = deref(eng, st, k)
    return v


def map_find(eng, st, m, key):
    """(present, cell key, map): forks on what is not known"""
    ty, mid, base, ov = m[1], m[2], m[3], m[4]
    V = map_val_ty(ty)
    for k, pres in reversed(ov):
        if k == key or val_equal(eng, st, k, key):
            return pres, ("mc", mid, k, V), m
    if not base:
        return False, ("mc", mid, key, V), m
    pres = eng.decide(st, ("p", ("in", mid, key)))
    m = ("map", ty, mid, base, ov + ((key, pres),))
    cell = ("mc", mid, key, V)
    st.cells.pop(cell, None)
    if pres:
        st.cells[cell] = eng.sym(("mv", mid, key), V)
    return pres, cell, m


def map_put(eng, st, m, key, val):
    """(map, previous value or None)"""
    pres, cell, m = map_find(eng, st, m, key)
    old = (UNIT if cell[3] == "()" else eng.cell(st, cell)) if pres else None
    ty, mid, base, ov = m[1], m[2], m[3], m[4]
    k = cell[2]
    st.cells[cell] = val
    return ("map", ty, mid, base, tuple(x for x in ov if x[0] != k) + ((k, True),)), old


def map_del(eng, st, m, key):
    pres, cell, m = map_find(eng, st, m, key)
    ty, mid, base, ov = m[1], m[2], m[3], m[4]
    k = cell[2]
    old = (UNIT if cell[3] == "()" else eng.cell(st, cell)) if pres else None
    st.cells.pop(cell, None)
    return ("map", ty, mid, base, tuple(x for x in ov if x[0] != k) + ((k, False),)), (k, old) if pres else None


def map_empty(eng, st, m):
    if any(p for _, p in m[4]):
        return FALSE
    if not m[3]:
        return TRUE
    return ("b", ("p", ("empty", m[2], m[4])))


def guards(st, mid):
    return [k for k in st.ghost.get("guards", ()) if k[0] == mid]


def map_call(eng, st, last, args, rty, dash, c):
    r, m = final_ref(eng, st, args[0]) if args and args[0][0] in ("ref", "vref", "sym") else (None, args[0] if args else None)
    if m is None:
        return None
    if m[0] == "op" and m[1] == "guard":
        r = m[4]
        r, m = final_ref(eng, st, r)
    if m[0] == "sym":
        return None
    if m[0] != "map":
        return None
    mid = m[2]

    def back(x):
        eng.store(st, r, x)
    eng.emit(st, ("mapop", last, mid, m[1], map_key(eng, st, args[1]) if len(args) > 1 else None, dash))
    if last in ("contains_key", "contains"):
        p, _, m2 = map_find(eng, st, m, map_key(eng, st, args[1]))
        back(m2)
        return TRUE if p else FALSE
    if last in ("get", "get_mut"):
        p, cell, m2 = map_find(eng, st, m, map_key(eng, st, args[1]))
        back(m2)
        if not p:
            return NONE
        eng.cell(st, cell)
        ref = ("ref", cell, (), last == "get_mut")
        if dash:
            g = ("op", "guard", mid, last, ref)
            eng.emit(st, ("guard+", mid, last, cell[2]))
            return some(g)
        return some(ref)
    if last == "insert":
        isset = ty_head(m[1]).endswith("Set")
        key = map_key(eng, st, args[1])
        val = UNIT if isset else args[2]
        m2, old = map_put(eng, st, m, key, val)
        back(m2)
        eng.emit(st, ("mapinsert", mid, m[1], key, val, old is not None))
        if isset:
            return TRUE if old is None else FALSE
        return NONE if old is None else some(old)
    if last in ("remove", "take", "remove_entry"):
        isset = ty_head(m[1]).endswith("Set")
        key = map_key(eng, st, args[1])
        m2, old = map_del(eng, st, m, key)
        back(m2)
        eng.emit(st, ("mapremove", mid, m[1], key, old is not None))
        if isset and last == "remove":
            return TRUE if old else FALSE
        if old is None:
            return NONE
        if dash or last == "remove_entry":
            return some(("tup", old))
        return some(old[1] if not isset else old[0])
    if last == "is_empty":
        return map_empty(eng, st, m)
    if last == "len":
        e = map_empty(eng, st, m)
        if eng.decide(st, e[1]):
            return ("i", ZERO)
        x = A(("s", ("maplen", mid, m[4]), "len"))
        eng.require(st, ("ge", addc(x, -1)))
        return ("i", x)
    if last in ("into_iter", "drain", "iter", "keys", "values", "iter_mut", "values_mut", "into_keys"):
        i = as_iter(eng, st, m)
        if last in ("iter", "keys"):
            return ("it", "vals", i[2], ZERO, "vref")
        return i
    if last in ("clear",):
        back(("map", m[1], mid, False, ()))
        eng.emit(st, ("mapclear", mid, m[1]))
        return UNIT
    return None


# ------------------------------------------------------------------ drops
def nat_drop(eng, st, fr, ret):
    work = fr[2]
    while work:
        w = work[0]
        work = work[1:]
        if w[0] == "user":
            key = ("hp", st.fresh("drop"))
            st.cells[key] = w[2]
            st.frames[-1] = ("nat", "drop", work, None)
            eng.frame_push(st, w[1], [("ref", key, (), True)])
            return
        if w[0] == "op":
            v = w[1]
            if v[0] == "it":
                more = []
                for x in v[2:]:
                    if isinstance(x, tuple) and x and x[0] in ("op", "coro", "vec"):
                        eng.drop_parts(st, x, more)
                work = tuple(more) + work
                continue
            if v[0] == "op" and v[1] == "guard":
                eng.emit(st, ("guard-", v[2], v[3]))
            eng.emit(st, ("drop", v))
            if v[0] == "op" and v[1] == "fut":
                more = []
                for x in v[3:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("adt", "tup", "op", "coro", "clo"):
                        if x[0] != "op" or x[1] not in ("tx", "rx"):
                            eng.drop_parts(st, x, more)
                work = tuple(more) + work
        elif w[0] == "coro":
            ck = ("co", w[1][2])
            more = []
            for key in sorted([k for k in st.cells if k[0] == ck and isinstance(k[1], int)], key=lambda k: -k[1]):
                v = st.cells.pop(key)
                if v[0] not in ("ref",):
                    eng.drop_parts(st, v, more)
            for key in [k for k in st.cells if k[0] == ck]:
                del st.cells[key]
            work = tuple(more) + work
    st.frames.pop()
    st.ret = UNIT


def nat_root(eng, st, fr, ret):
    """drives a task: polls its coroutine again after every suspension"""
    d = fr[2]
    if ret is None:
        eng.resume(st, d[0])
        return
    if ret[2] == 1:
        eng.emit(st, ("suspend", d[0]))
        st.heads = max(st.heads, 1)
        return
    st.frames.pop()
    st.ret = ret[3][0]


# Option helpers that call closures and have no body at hand
def nat_opt(eng, st, fr, ret):
    kind = fr[2][0]
    st.frames.pop()
    if kind == "some":
        st.ret = some(ret)
    elif kind == "ok":
        st.ret = ok(ret)
    elif kind == "err":
        st.ret = err(ret)
    else:
        st.ret = ret


# ------------------------------------------------------------------ futures
def in_select(st):
    return any(f[0] == "nat" and f[1] == "pollfn" for f in st.frames)


def fut(kind, *a):
    return ("op", "fut", kind) + a


def poll(eng, st, args, c, rty):
    r = args[0]
    v = deref(eng, st, r)
    if v[0] == "coro":
        eng.resume(st, v)
        return DONE
    if v[0] == "op" and v[1] == "sleep":
        v = fut("sleep", v[2])
    if v[0] == "op" and v[1] == "orx":
        v = fut("orecv", v[2], v[3])
    if v[0] != "op" or v[1] != "fut":
        eng.emit(st, ("unknown", "poll of %s" % (c.get("rpath"),)))
        v = fut("unk:" + str(c.get("rpath")), r)
    k = v[2]
    if k == "poll_fn":
        st.frames.append(("nat", "pollfn", (), None))
        eng.call_value(st, v[3], [("op", "ctx")])
        return DONE
    if k == "ready":
        return ready(v[3])
    sel = in_select(st)
    eng.emit(st, ("wait", v, sel))
    outs = outcomes(eng, st, v, rty)
    opts = list(range(len(outs)))
    if sel:
        opts = opts + [-1]
    o = eng.pick(st, opts)
    if o == -1:
        eng.emit(st, ("pending", v))
        return PENDING
    name, f = outs[o]
    res = f()
    eng.emit(st, ("ready", v, name, res))
    eng.note(st, "%s %s at %s" % (k, name, eng.where(st)))
    # the future has completed
    try:
        rr, _ = final_ref(eng, st, r)
        if rr[0] == "ref":
            x = eng.load(st, rr)
            if x[0] == "op" and x[1] == "fut":
                eng.store(st, rr, ("op", "fut", "done", k))
    except Unsupported:
        pass
    return ready(res)


def ioerr(st):
    return ("sym", st.fresh("ioerr"), "std::io::Error")


def payload(rty):
    a = split_args(rty or "")
    return a[0] if a else "?"


def outcomes(eng, st, v, rty):
    k = v[2]
    if k == "send":
        def okf():
            eng.emit(st, ("send", v[3], v[4]))
            return ok()

        def bad():
            eng.emit(st, ("sendfail", v[3], v[4]))
            return err(("adt", "tokio::sync::mpsc::error::SendError<?>", 0, (v[4],)))
        return [("ok", okf), ("closed", bad)]
    if k == "recv":
        def got():
            h = eng.recv_hook(st, v[3]) if getattr(eng, "recv_hook", None) else None
            m = h if h is not None else eng.sym(st.fresh("msg:" + chan_ty(v[3])), chan_ty(v[3]))
            eng.emit(st, ("recv", v[3], m))
            return some(m)

        def none():
            eng.emit(st, ("recvnone", v[3]))
            return NONE
        return [("message", got), ("closed", none)]
    if k == "orecv":
        def got():
            h = eng.answer_hook(st, v[3], v[4]) if eng.answer_hook else None
            m = h if h is not None else eng.sym(("answer", v[3]), v[4])
            eng.emit(st, ("answer", v[3], m))
            return ok(m)

        def bad():
            eng.emit(st, ("noanswer", v[3]))
            return err(("op", "recverror"))
        return [("answer", got), ("dropped", bad)]
    if k in ("read_buf", "read"):
        def eof():
            eng.emit(st, ("eof", v[3]))
            return ok(I(0))

        def data():
            n = A(("s", st.fresh("nread"), "len"))
            eng.require(st, ("ge", addc(n, -1)))
            pos = st.ghost.get(("netpos", v[3]), ZERO)
            if k == "read_buf":
                b = deref(eng, st, v[4])
                rr, _ = final_ref(eng, st, v[4])
                eng.store(st, rr, concat(b, BY(("s", "NET", pos, n))))
            else:
                rr, b = final_ref(eng, st, v[4])
                eng.require(st, ("ge", sub(eng.length(st, b), n)))
                if b[0] != "by":
                    raise Unsupported("read into %s" % b[0])
                rest = eng.by_slice(st, b, n, by_len(b))
                eng.store(st, rr, concat(BY(("s", "NET", pos, n)), rest))
            st.ghost[("netpos", v[3])] = add(pos, n)
            eng.emit(st, ("read", v[3], n))
            return ok(("i", n))

        def bad():
            eng.emit(st, ("readerr", v[3]))
            return err(ioerr(st))
        return [("data", data), ("end of stream", eof), ("error", bad)]
    if k in ("write_all", "write_all_buf"):
        def okf():
            eng.emit(st, ("write", v[3], v[4]))
            if len(v) > 5 and isinstance(v[5], tuple):
                eng.store(st, v[5], BY())
            return ok()

        def bad():
            eng.emit(st, ("writefail", v[3]))
            return err(ioerr(st))
        return [("ok", okf), ("error", bad)]
    if k in ("write", "write_buf"):
        def okf():
            n = A(("s", st.fresh("nwrite"), "len"))
            eng.require(st, ("ge", sub(by_len(v[4]), n)))
            eng.emit(st, ("write_partial", v[3], v[4], n))
            if len(v) > 5 and isinstance(v[5], tuple):
                eng.store(st, v[5], eng.by_slice(st, v[4], n, by_len(v[4])))
            return ok(("i", n))

        def bad():
            eng.emit(st, ("writefail", v[3]))
            return err(ioerr(st))
        return [("ok", okf), ("error", bad)]
    if k in ("flush", "shutdown"):
        def okf():
            eng.emit(st, ("flushed", v[3]))
            return ok()

        def bad():
            eng.emit(st, ("flushfail", v[3]))
            return err(ioerr(st))
        return [("ok", okf), ("error", bad)]
    if k == "ctrl_c":
        return [("ok", lambda: ok()), ("error", lambda: err(ioerr(st)))]
    if k in ("cancelled", "sleep", "yield", "tracker_wait"):
        return [("ready", lambda: UNIT)]
    if k == "accept":
        def okf():
            s = st.fresh("conn")
            return ok(("tup", (("op", "stream", s), ("op", "addr", s))))
        return [("ok", okf), ("error", lambda: err(ioerr(st)))]
    if k == "bind":
        return [("ok", lambda: ok(("op", "listener"))), ("error", lambda: err(ioerr(st)))]
    if k == "join":
        return [("ready", lambda: eng.sym(st.fresh("join"), payload(rty)))]
    ty = payload(rty)
    eng.emit(st, ("unknown", "await of %s" % k))
    return [("ready", lambda: eng.sym(st.fresh("fut:" + k), ty))]


def chan_ty(ch):
    if ch[0] == "chan":
        return ch[2]
    if ch[0] == "symchan":
        return ch[2]
    return "?"


def chan_of(eng, st, v):
    v = deref(eng, st, v)
    if v[0] == "op" and v[1] in ("tx", "rx"):
        return v[2]
    if v[0] == "sym":
        a = split_args(v[2])
        return ("symchan", v[1], a[0] if a else "?")
    raise Unsupported("channel %s" % (v[:2],))


def ochan_of(eng, st, v):
    v = deref(eng, st, v)
    if v[0] == "op" and v[1] in ("otx", "orx"):
        return v[2], v[3]
    if v[0] == "sym":
        a = split_args(v[2])
        return v[1], a[0] if a else "?"
    raise Unsupported("oneshot %s" % (v[:2],))


def stream_id(v):
    return v[2] if v[0] == "op" and len(v) > 2 else v


# ------------------------------------------------------------------ unknown externals
def unknown(eng, st, c, args, rty):
    p = c.get("rpath") or c.get("path")
    eng.unknown[p] = eng.unknown.get(p, 0) + 1
    eng.emit(st, ("unknown", p, tuple(args)))
    for a in args:
        if a[0] == "ref" and a[3]:
            try:
                v = eng.load(st, a)
            except Unsupported:
                continue
            eng.store(st, a, havoc(eng, st, v))
    if rty is None:
        return ("op", "unk", st.fresh("u:" + str(p)))
    if rty == "!":
        raise Stop()
    return eng.sym(st.fresh("u:" + str(p)), rty)


def havoc(eng, st, v):
    n = st.fresh("hv")
    k = v[0]
    if k == "by":
        return BY(("o", n, A(("s", ("len", n), "len"))))
    if k == "i":
        return ("i", A(("s", n, "i128")))
    if k == "vec":
        ty = "?"
        for s in v[1]:
            if s[0] == "any":
                ty = s[2]
        return ("vec", (("any", n, ty, A(("s", ("len", n), "len"))),))
    if k == "map":
        return ("map", v[1], n, True, ())
    if k in ("adt", "tup", "arr"):
        if k == "adt" and len(eng.p.types.get(v[1], {}).get("variants", ())) > 1:
            return ("sym", n, v[1])
        vals = v[3] if k == "adt" else v[1]
        vals = tuple(havoc(eng, st, x) if x[0] in ("by", "i", "vec", "map", "b", "e", "it") else x for x in vals)
        return v[:3] + (vals,) if k == "adt" else (k, vals)
    if k == "b":
        return ("b", ("p", ("s", n)))
    if k == "e":
        return eng.sym(n, v[1])
    return v


# ------------------------------------------------------------------ the dispatcher
def norm(p):
    out, d = "", 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == "<":
            d += 1
        elif ch == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out += ch
        i += 1
    while "::::" in out:
        out = out.replace("::::", "::")
    return out


_last = {}


def last_of(p):
    r = _last.get(p)
    if r is None:
        q = p
        d, cut = 0, 0
        for i in range(len(q) - 1, -1, -1):
            ch = q[i]
            if ch == ">" and (i == 0 or q[i - 1] != "-"):
                d += 1
            elif ch == "<":
                d -= 1
            elif ch == ":" and d == 0:
                cut = i + 1
                break
        r = _last[p] = q[cut:]
    return r


def call(eng, st, c, args, rty):
    path = c.get("path") or ""
    rp = c.get("rpath") or path
    last = last_of(path)
    if last.startswith("<") or not last:
        last = last_of(rp)
    f = EXACT.get(path) or EXACT.get(rp)
    if f:
        return f(eng, st, args, c, rty)
    h = rp
    # maps
    if "HashMap" in h or "HashSet" in h or "BTreeMap" in h or "BTreeSet" in h:
        if last == "new" or last == "with_capacity" or last == "default":
            return map_new(st, rty)
        if args and "IntoIter" not in h:
            r = map_call(eng, st, last, args, rty, False, c)
            if r is not None:
                return r
    if "DashMap" in h or "dashmap" in h:
        if last == "new" or last == "with_capacity" or last == "default":
            return map_new(st, rty)
        if last in ("deref", "deref_mut", "value", "value_mut"):
            g = deref(eng, st, args[0])
            if g[0] == "op" and g[1] == "guard":
                return g[4]
        if args:
            r = map_call(eng, st, last, args, rty, True, c)
            if r is not None:
                return r
    g = BY_LAST.get(last)
    if g:
        r = g(eng, st, args, c, rty, h)
        if r is not None:
            return r
    return None


# ---- helpers used by the tables
def m_eq(eng, st, args, c, rty, h):
    if c.get("inst") and eng.p.inst.get(c["inst"], {}).get("local"):
        return None
    try:
        return TRUE if val_equal(eng, st, args[0], args[1]) else FALSE
    except Unsupported:
        return None


def m_ne(eng, st, args, c, rty, h):
    if c.get("inst") and eng.p.inst.get(c["inst"], {}).get("local"):
        return None
    try:
        return FALSE if val_equal(eng, st, args[0], args[1]) else TRUE
    except Unsupported:
        return None


def m_cmp3(eng, st, args, c, rty, h):
    if "log::Level" in h:
        return some(eng.ordering(-1))
    a, b = deref(eng, st, args[0]), deref(eng, st, args[1])
    if a[0] in ("i", "e") and b[0] in ("i", "e"):
        o = eng.binop(st, "Cmp", a, b, "?")
        return some(o) if last_of(c["path"]) == "partial_cmp" else o
    return None


def m_clone(eng, st, args, c, rty, h):
    v = deref(eng, st, args[0])
    if v[0] in ("by", "vec", "i", "b", "e", "op", "sym", "it", "tup", "map", "fn"):
        if v[0] == "op":
            eng.emit(st, ("clone", v))
        return v
    if v[0] in ("adt", "arr", "clo") and not c.get("inst"):
        return v
    if v[0] in ("adt",) and rty and not (eng.p.types.get(ty_head(rty)) or {}).get("local"):
        return v if not c.get("inst") else None
    return None


def m_len(eng, st, args, c, rty, h):
    v = deref(eng, st, args[0])
    if v[0] in ("by", "vec", "arr"):
        return ("i", eng.length(st, v))
    if v[0] == "it":
        b = v
        if b[1] == "vals":
            return ("i", sub(vlen(eng, st, b[2]), b[3]))
    if v[0] == "map":
        return map_call(eng, st, "len", args, rty, False, c)
    return None


def m_is_empty(eng, st, args, c, rty, h):
    v = deref(eng, st, args[0])
    if v[0] in ("by", "vec", "arr"):
        return ("b", eng.cmp(st, "Eq", eng.length(st, v), ZERO))
    if v[0] == "map":
        return map_call(eng, st, "is_empty", args, rty, "dash" in h, c)
    return None


def m_identity_ref(eng, st, args, c, rty, h):
    """Deref/AsRef/Borrow/as_str...: the same place"""
    v = args[0]
    if (c.get("rpath") or "").startswith(("std::option::Option", "std::result::Result")):
        return None         # these have a body
    if v[0] in ("ref", "vref"):
        r, x = final_ref(eng, st, v)
        if x[0] in ("by", "vec", "arr"):
            return r
        if x[0] == "op" and x[1] == "guard":
            return x[4]
        if x[0] == "op" and x[1] == "box":
            return ("ref", x[2], (), True)
        if is_ref(v):
            y = eng.load(st, v)
            if is_ref(y):
                return y
        return v
    return None


def to_owned(eng, st, args, c, rty, h):
    v = deref(eng, st, args[0])
    if v[0] in ("by",):
        return v
    if v[0] in ("i", "e"):
        if (rty or "").endswith("String"):
            n = ("fmt", v)
            return BY(("o", n, A(("s", ("len", n), "len"))))
        return v
    if v[0] in ("vec", "arr") and v[0] == "vec":
        return v
    if (rty or "").endswith("String"):
        n = ("fmt", v)
        return BY(("o", n, A(("s", ("len", n), "len"))))
    return None


def m_iter(eng, st, args, c, rty, h):
    i = as_iter(eng, st, args[0])
    if i is None:
        return None
    if i[0] == "it" and i[1] == "vals" and args[0][0] in ("ref", "vref"):
        return ("it", "vals", i[2], i[3], "vref")
    return i


def m_into_iter(eng, st, args, c, rty, h):
    return as_iter(eng, st, args[0])


def m_iter_mut(eng, st, args, c, rty, h):
    r, x = final_ref(eng, st, args[0])
    if x[0] == "op" and x[1] == "guard":
        r, x = final_ref(eng, st, x[4])
    if x[0] in ("vec", "arr"):
        return ("it", "mut", r, ZERO)
    return None


def adapter(kind, clo=False, extra=None):
    def f(eng, st, args, c, rty, h):
        if "iter" not in h.lower() and "Iterator" not in (c.get("path") or ""):
            return None
        it = as_iter(eng, st, args[0])
        if it is None:
            return None
        if clo:
            return ("it", kind, it, hold(st, args[1]))
        if extra is not None:
            return ("it", kind, it, extra)
        if len(args) > 1:
            return ("it", kind, it, args[1][1])
        return ("it", kind, it)
    return f


class Answers:
    """what a predicate says, collected from a run of its own"""
    props = ()

    def __init__(self):
        self.out = []

    def on(self, eng, st, ev):
        if ev[0] == "end" and ev[1] is not None:
            t = st.truth(ev[1][1]) if ev[1][0] == "b" else None
            self.out.append(t)
        elif ev[0] in ("panic", "unsupported"):
            self.out.append(None)


def char_set(eng, st, f, chars, byref):
    """(the ASCII characters or bytes a predicate accepts, its answer for all others); None if that cannot be told"""
    key = (f, chars, byref)
    pure_clo = f[0] == "clo" and not f[2] or f[0] == "fn"
    if pure_clo and key in eng.char_sets:
        return eng.char_sets[key]
    yes, rest = set(), None
    for n in range(129):
        s = st.copy()
        s.frames, s.ghost, s.oracle, s.opos, s.ret, s.heads = [], {}, [], 0, None, 0
        if n < 128:
            x = ("i", K(n))
        else:
            x = ("i", A(("s", "char", "char" if chars else "u8")))
            if not s.assume(("ge", addc(x[1], -128))) or not s.assume(("ge", sub(K(0x10ffff if chars else 255), x[1]))):
                return None
        a = Answers()
        e = eng.__class__(eng.p, [a], 4000)
        e.models = eng.models
        try:
            e.call_value(s, hold(s, f), [("vref", x) if byref else x])
            e.explore(s)
        except (core.Budget, Unsupported, Infeasible, Stop):
            return None
        eng.seen_insts |= e.seen_insts
        if not a.out or None in a.out or len(set(a.out)) != 1:
            return None
        if n < 128:
            if a.out[0]:
                yes.add(chr(n))
        else:
            rest = a.out[0]
    if pure_clo:
        eng.char_sets[key] = (frozenset(yes), rest)
    return frozenset(yes), rest


def text_quantifier(eng, st, kind, it, f):
    """chars/bytes of a text, any/all: what the predicate accepts decides which characters the text may hold"""
    if it[0] != "it" or it[1] != "vals" or it[3] != ZERO:
        return None
    v = it[2]
    if v[0] == "vec" and len(v[1]) == 1 and v[1][0][0] == "any" and isinstance(v[1][0][1], tuple) and v[1][0][1][0] == "chars":
        text, chars = v[1][0][1][1], True
    elif v[0] == "by":
        text, chars = v, False
    else:
        return None
    if not text[1] or any(s[0] not in ("s", "l", "o") for s in text[1]) or all(s[0] == "l" for s in text[1]):
        return None
    g = deref(eng, st, f)
    if g[0] not in ("clo", "fn"):
        return None
    r = char_set(eng, st, g, chars, it[4] != "val")
    if r is None:
        return None
    yes, rest = r
    if kind == "all":
        yes, rest = frozenset(map(chr, range(128))) - yes, not rest
    if rest or len(yes) > 6:
        return None
    for ch in sorted(yes):
        if eng.decide(st, ("p", ("has", text, ch))):
            return TRUE if kind == "any" else FALSE
    return FALSE if kind == "any" else TRUE


def consumer(kind, by_ref=False):
    def f(eng, st, args, c, rty, h):
        if "ter" not in h and "Iterator" not in (c.get("path") or ""):
            return None
        a = args[0]
        itref = None
        if by_ref and a[0] in ("ref", "sym"):
            itref, it = final_ref(eng, st, a)
            if it[0] == "adt" and ty_head(it[1]) == "std::ops::Range":
                if kind == "next":
                    x, n = pull(eng, st, it)
                    eng.store(st, itref, n)
                    return NONE if x is None else some(x)
            if it[0] != "it":
                return None
        else:
            it = as_iter(eng, st, a)
            if it is None:
                return None
        if kind == "next" and pure(eng, st, it):
            x, n = pull(eng, st, it)
            if itref:
                eng.store(st, itref, n)
            return NONE if x is None else some(x)
        if kind in ("any", "all"):
            r = text_quantifier(eng, st, kind, it, args[1])
            if r is not None:
                return r
        acc, extra = UNIT, UNIT
        if kind in ("position", "count"):
            acc = I(0)
        if kind == "sum":
            acc = I(0)
        if kind == "nth":
            acc = args[1]
        if kind == "fold":
            acc, extra = args[1], hold(st, args[2])
        elif len(args) > 1 and kind != "nth":
            extra = hold(st, args[1])
        return start_loop(eng, st, kind, acc, extra, it, itref)
    return f


def m_collect(eng, st, args, c, rty, h):
    it = as_iter(eng, st, args[0])
    if it is None:
        return None
    return start_collect(eng, st, it, rty or "")


def m_from_iter(eng, st, args, c, rty, h):
    it = as_iter(eng, st, args[0])
    if it is None:
        return None
    return start_collect(eng, st, it, rty or "")


def m_push(eng, st, args, c, rty, h):
    r, v = final_ref(eng, st, args[0])
    if v[0] == "op" and v[1] == "guard":
        r, v = final_ref(eng, st, v[4])
    x = args[1]
    if v[0] == "by":
        if x[0] == "i" and "String" not in h:
            eng.emit(st, ("put", v, BY(("u", x[1]))))
            eng.store(st, r, concat(v, BY(("u", x[1]))))
            return UNIT
        n = st.fresh("ch")
        eng.store(st, r, concat(v, BY(("o", n, ONE))))
        return UNIT
    if v[0] == "vec":
        eng.emit(st, ("push", r, x, v))
        eng.store(st, r, vec_grow(st, v, x) if st_loops(st) else ("vec", v[1] + (("one", x),)))
        return UNIT
    return None


def st_loops(st):
    return True


def m_extend(eng, st, args, c, rty, h):
    r, v = final_ref(eng, st, args[0])
    if v[0] == "by":
        b = as_by(eng, st, args[1]) if args[1][0] != "it" else None
        if b is None:
            it = as_iter(eng, st, args[1])
            if it is None:
                return None
            x = bulk(eng, st, it)
            if x is None:
                return start_loop(eng, st, "extend", UNIT, r, it)
            b = x[0]
        eng.store(st, r, concat(v, b))
        return UNIT
    if v[0] == "vec":
        x = deref(eng, st, args[1])
        if x[0] == "vec":
            eng.store(st, r, ("vec", v[1] + x[1]))
            return UNIT
        it = as_iter(eng, st, args[1])
        if it is not None:
            return start_loop(eng, st, "extend", UNIT, r, it)
    return None


def m_pop(eng, st, args, c, rty, h):
    r, v = final_ref(eng, st, args[0])
    if v[0] == "vec" and v[1] and v[1][-1][0] == "one":
        eng.store(st, r, ("vec", v[1][:-1]))
        return some(v[1][-1][1])
    if v[0] == "vec" and not v[1]:
        return NONE
    return None


def m_vec_remove(eng, st, args, c, rty, h):
    if "Vec" not in h:
        return None
    r, v = final_ref(eng, st, args[0])
    if v[0] == "op" and v[1] == "guard":
        r, v = final_ref(eng, st, v[4])
    i = args[1][1]
    n = eng.length(st, v)
    if not eng.decide(st, ("ge", addc(sub(n, i), -1))):
        eng.panic(st, ("Vec::remove", "index out of range", ""))
    if v[0] == "vec":
        x = eng.vec_get(st, v, i)
        a, b = vslice(eng, st, v, ZERO, i), vslice(eng, st, v, addc(i, 1), n)
        eng.emit(st, ("vecremove", r, x, i, v))
        eng.store(st, r, ("vec", a[1] + b[1]))
        return x
    if v[0] == "by":
        x = ("i", eng.by_at(st, v, i))
        eng.store(st, r, concat(eng.by_slice(st, v, ZERO, i), eng.by_slice(st, v, addc(i, 1), n)))
        return x
    return None


def m_truncate(eng, st, args, c, rty, h):
    r, v = final_ref(eng, st, args[0])
    if v[0] not in ("by", "vec"):
        return None
    n = eng.length(st, v)
    k = args[1][1] if len(args) > 1 else ZERO
    if eng.decide(st, ("ge", sub(n, k))):
        eng.store(st, r, vslice(eng, st, v, ZERO, k))
    return UNIT


def m_clear(eng, st, args, c, rty, h):
    r, v = final_ref(eng, st, args[0])
    if v[0] == "by":
        eng.store(st, r, BY())
        return UNIT
    if v[0] == "vec":
        eng.store(st, r, ("vec", ()))
        return UNIT
    return None


def m_get(eng, st, args, c, rty, h):
    """slice::get / get_mut / first / last"""
    last = last_of(c["path"])
    r, v = final_ref(eng, st, args[0]) if args[0][0] != "vref" else (args[0], deref(eng, st, args[0]))
    if v[0] not in ("by", "vec", "arr"):
        return None
    n = eng.length(st, v)
    if last in ("first", "first_mut"):
        i = I(0)
    elif last in ("last", "last_mut"):
        i = ("i", addc(n, -1))
    else:
        i = args[1]
    if i[0] == "i":
        if not (eng.decide(st, ("ge", i[1])) and eng.decide(st, ("ge", addc(sub(n, i[1]), -1)))):
            return NONE
        if last.endswith("_mut") and r[0] == "ref":
            return some(("ref", r[1], r[2] + (("x", i[1]),), True))
        return some(("vref", eng.index(st, v, i[1])))
    rg = range_of(eng, st, i, n)
    if rg is None:
        return None
    a, b = rg
    if not (eng.decide(st, ("ge", sub(b, a))) and eng.decide(st, ("ge", sub(n, b)))):
        return NONE
    return some(("vref", vslice(eng, st, v, a, b)))


def range_of(eng, st, i, n):
    if i[0] == "op" and i[1] in ("zst", "raw"):
        return (ZERO, n)
    if i[0] != "adt":
        return None
    h = ty_head(i[1])
    f = i[3]
    if h == "std::ops::Range":
        return f[0][1], f[1][1]
    if h == "std::ops::RangeFrom":
        return f[0][1], n
    if h == "std::ops::RangeTo":
        return ZERO, f[0][1]
    if h == "std::ops::RangeInclusive":
        return f[0][1], addc(f[1][1], 1)
    if h == "std::ops::RangeToInclusive":
        return ZERO, addc(f[0][1], 1)
    if h == "std::ops::RangeFull":
        return ZERO, n
    return None


def m_index(eng, st, args, c, rty, h):
    r, v = final_ref(eng, st, args[0]) if args[0][0] != "vref" else (args[0], deref(eng, st, args[0]))
    if v[0] not in ("by", "vec", "arr"):
        if v[0] == "map":
            x = map_call(eng, st, "get", args, rty, False, c)
            if x[2] == 0:
                eng.panic(st, ("Index::index", "no such key", ""))
            return x[3][0]
        return None
    n = eng.length(st, v)
    i = args[1]
    if i[0] == "i":
        if not eng.decide(st, ("ge", addc(sub(n, i[1]), -1))):
            eng.panic(st, ("index", "out of range", ""))
        if r[0] == "ref":
            return ("ref", r[1], r[2] + (("x", i[1]),), True)
        return ("vref", eng.index(st, v, i[1]))
    rg = range_of(eng, st, i, n)
    if rg is None:
        return None
    a, b = rg
    if not (eng.decide(st, ("ge", sub(b, a))) and eng.decide(st, ("ge", sub(n, b)))):
        eng.panic(st, ("slice index", "range out of bounds", ""))
    if "str" in h and v[0] == "by" and (a != ZERO or b != n):
        if eng.decide(st, ("p", ("charboundary", v, a, b))) is False:
            eng.panic(st, ("str index", "not a character boundary", ""))
    return ("vref", vslice(eng, st, v, a, b))


def m_split_to(eng, st, args, c, rty, h):
    r, v = final_ref(eng, st, args[0])
    if v[0] not in ("by", "vec"):
        return None
    n = eng.length(st, v)
    k = args[1][1]
    if not eng.decide(st, ("ge", sub(n, k))):
        eng.panic(st, (last_of(c["path"]), "out of bounds", ""))
    a, b = vslice(eng, st, v, ZERO, k), vslice(eng, st, v, k, n)
    if last_of(c["path"]) == "split_to":
        eng.store(st, r, b)
        return a
    if last_of(c["path"]) == "advance":
        eng.store(st, r, b)
        return UNIT
    eng.store(st, r, a)
    return b


def m_split_at(eng, st, args, c, rty, h):
    v = deref(eng, st, args[0])
    if v[0] not in ("by", "vec"):
        return None
    n = eng.length(st, v)
    k = args[1][1]
    if not eng.decide(st, ("ge", sub(n, k))):
        if "checked" in c["path"]:
            return NONE
        eng.panic(st, ("split_at", "out of bounds", ""))
    t = ("tup", (("vref", vslice(eng, st, v, ZERO, k)), ("vref", vslice(eng, st, v, k, n))))
    return some(t) if "checked" in c["path"] else t


def m_split_first(eng, st, args, c, rty, h):
    v = deref(eng, st, args[0])
    if v[0] not in ("by", "vec", "arr"):
        return None
    n = eng.length(st, v)
    if not eng.decide(st, ("ge", addc(n, -1))):
        return NONE
    if last_of(c["path"]) == "split_first":
        return some(("tup", (("vref", eng.index(st, v, ZERO)), ("vref", vslice(eng, st, v, ONE, n)))))
    return some(("tup", (("vref", eng.index(st, v, addc(n, -1))), ("vref", vslice(eng, st, v, ZERO, addc(n, -1))))))


def m_put(eng, st, args, c, rty, h):
    r, v = final_ref(eng, st, args[0])
    if v[0] != "by":
        return None
    last = last_of(c["path"])
    w = {"put_u8": 1, "put_u16": 2, "put_u32": 4, "put_u64": 8}.get(last)
    if w:
        x = args[1][1]
        s = BY(("u", x) if w == 1 else ("be", w, x))
    elif last in ("put", "put_slice", "extend_from_slice", "push_str"):
        s = as_by(eng, st, args[1])
        if s is None:
            return None
    elif last == "put_bytes":
        return None
    else:
        return None
    eng.emit(st, ("put", v, s))
    eng.store(st, r, by_grow(st, v, s))
    return UNIT


def by_grow(st, v, s):
    """append; a long run of single bytes becomes a repetition so that loops close"""
    segs = v[1]
    if segs and segs[-1][0] == "rep" and len(s[1]) == 1 and s[1][0][0] in ("u", "s"):
        r = segs[-1]
        p = star(s[1][0])
        pats = r[2] | ({("u", None)} if moving(p) else {p})
        if ("u", None) in pats:
            pats = frozenset({("u", None)})
        return ("by", segs[:-1] + (("rep", r[1], pats, addc(r[3], 1)),))
    v = concat(v, s)
    segs = v[1]
    tail = []
    for x in reversed(segs):
        if x[0] == "u" and x[1][1] and has_el(x[1]):
            tail.append(x)
        else:
            break
    if len(tail) >= 3:
        pats = frozenset(star(x) for x in tail)
        if any(moving(p) for p in pats):
            pats = frozenset({("u", None)})
        v = ("by", segs[:len(segs) - len(tail)] + (("rep", "r", pats, K(len(tail))),))
    return v


def has_el(l):
    f = []
    walk(l, lambda x: f.append(1) if x[0] == "el" else None)
    return bool(f)


def m_getu(eng, st, args, c, rty, h):
    """bytes::Buf readers: panic when the data runs out"""
    w = {"get_u8": 1, "get_u16": 2, "get_u32": 4, "get_u64": 8}.get(last_of(c["path"]))
    if not w:
        return None
    a = args[0]
    r, v = final_ref(eng, st, a)
    if v[0] != "by":
        return None
    n = by_len(v)
    if not eng.decide(st, ("ge", addc(n, -w))):
        eng.panic(st, (last_of(c["path"]), "advance past the end", ""))
    x = ZERO
    for i in range(w):
        x = add(scale(x, 256), eng.by_at(st, v, K(i)))
    rest = eng.by_slice(st, v, K(w), n)
    if r[0] == "ref":
        eng.store(st, r, rest)
    elif a[0] == "ref":
        eng.store(st, a, ("vref", rest))
    return ("i", x)


def m_from_be(eng, st, args, c, rty, h):
    v = deref(eng, st, args[0])
    le = last_of(c["path"]) == "from_le_bytes"
    if v[0] == "by":
        n = by_len(v)
        if n[1]:
            return None
        bs = [eng.by_at(st, v, K(i)) for i in range(n[0])]
    elif v[0] == "arr":
        bs = [x[1] for x in v[1]]
    else:
        return None
    if le:
        bs.reverse()
    x = ZERO
    for b in bs:
        x = add(scale(x, 256), b)
    return ("i", x)


def m_to_be(eng, st, args, c, rty, h):
    w = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}
    for t, n in w.items():
        if "impl %s>" % t in h:
            return BY(("be", n, args[0][1]) if n > 1 else ("u", args[0][1]))
    return None


def int_ty(h):
    for t in BITS:
        if "impl %s>" % t in h:
            return t
    return None


def m_checked(eng, st, args, c, rty, h):
    last = last_of(c["path"])
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}.get(last.split("_")[1])
    ty = int_ty(h)
    if op is None or ty is None:
        if last in ("checked_div", "checked_rem") and not args[1][1][1] and args[1][1][0]:
            return some(eng.binop(st, "Div" if last.endswith("div") else "Rem", args[0], args[1], ty))
        return None
    r = eng.binop(st, op + "WithOverflow", args[0], args[1], ty)
    v, o = r[1]
    k = last.split("_")[0]
    if k == "overflowing":
        return ("tup", (eng.binop(st, op, args[0], args[1], ty), o))
    if k == "wrapping":
        return eng.binop(st, op, args[0], args[1], ty)
    over = eng.decide(st, o[1])
    if k == "checked":
        return NONE if over else some(v)
    if k == "saturating":
        if not over:
            return v
        lo, hi = ty_range(ty)
        return I(lo if op == "Sub" else hi)
    return None


def m_shift(eng, st, args, c, rty, h):
    k, d = last_of(c["path"]).split("_")
    ty = int_ty(h)
    n = args[1][1]
    if ty is None or n[1] or not 0 <= n[0] < BITS[ty]:
        return None
    v = eng.binop(st, d.title(), args[0], args[1], ty)
    return some(v) if k == "checked" else v


def m_divrem(eng, st, args, c, rty, h):
    """division of an unsigned number by a constant"""
    last = last_of(c["path"])
    ty = int_ty(h)
    n = args[1][1]
    if ty is None or ty[0] != "u" or n[1] or n[0] <= 0:
        return None
    if last == "div_ceil":
        return ("i", eng.div(st, addc(eng.lin(args[0]), n[0] - 1), n[0]))
    r = eng.binop(st, "Div" if "div" in last else "Rem", args[0], args[1], ty)
    return ("b", ("eq", eng.lin(r))) if last == "is_multiple_of" else r


def derived_order(eng, ty):
    """the order of an enum type is that of its discriminants (a derived Ord, seen in its code)"""
    for i, x in eng.p.inst.items():
        if x["local"] and i == "<%s as std::cmp::Ord>::cmp" % ty:
            n = sum(1 for b in x["blocks"] if b["t"][0] == "call" and b["t"][1].get("path") in
                    ("std::intrinsics::discriminant_value", "std::cmp::Ord::cmp"))
            return n == 3 and len([b for b in x["blocks"] if b["t"][0] in ("call", "switch")]) == 3
    return False


def m_minmax(eng, st, args, c, rty, h):
    if c.get("inst") and eng.p.inst.get(c["inst"], {}).get("local"):
        return None
    a, b = args[0], args[1]
    if a[0] not in ("i", "e") or b[0] != a[0] or a[0] == "e" and not derived_order(eng, a[1]):
        return None
    ge = eng.decide(st, ("ge", sub(eng.lin(b), eng.lin(a))))
    if last_of(c["path"]) == "max":
        return b if ge else a
    return a if ge else b


def m_from_utf8(eng, st, args, c, rty, h):
    v = as_by(eng, st, args[0])
    if v is None:
        return None
    lossy = "lossy" in c["path"]
    if "unchecked" in c["path"]:
        eng.emit(st, ("unsafe", "from_utf8_unchecked"))
        return v if args[0][0] == "by" else ("vref", v)
    if all(s[0] == "l" for s in v[1]) or lossy:
        return ok(v if args[0][0] == "by" else ("vref", v)) if not lossy else BY(("o", ("lossy", v), A(("s", ("len", ("lossy", v)), "len"))))
    if eng.decide(st, ("p", ("utf8", v))):
        return ok(v if args[0][0] == "by" else ("vref", v))
    return err(("op", "utf8error"))


def pattern_chars(eng, st, p):
    """the characters of a str pattern: a char, an array or slice of chars, a string"""
    p = deref(eng, st, p)
    if p[0] == "i" and not p[1][1]:
        return ("chars", frozenset([chr(p[1][0])]))
    if p[0] in ("arr",):
        s = set()
        for x in p[1]:
            if x[0] != "i" or x[1][1]:
                return None
            s.add(chr(x[1][0]))
        return ("chars", frozenset(s))
    if p[0] == "vec" and all(x[0] == "one" and x[1][0] == "i" and not x[1][1][1] for x in p[1]):
        return ("chars", frozenset(chr(x[1][1][0]) for x in p[1]))
    if p[0] == "by" and all(s[0] == "l" for s in p[1]):
        t = b"".join(s[1] for s in p[1])
        if len(t) == 1:
            return ("chars", frozenset(t.decode("latin1")))
        return ("str", t)
    return None


def m_contains(eng, st, args, c, rty, h):
    v = deref(eng, st, args[0])
    if v[0] == "by":
        if "str" not in h and "String" not in h:
            x = deref(eng, st, args[1])
            if x[0] == "i" and not x[1][1]:
                p = ("chars", frozenset([chr(x[1][0])]))
            else:
                return None
        else:
            p = pattern_chars(eng, st, args[1])
        if p is None:
            f = deref(eng, st, args[1])
            if f[0] in ("clo", "fn"):
                r = None if all(s[0] == "l" for s in v[1]) else char_set(eng, st, f, True, False)
                if r is not None and not r[1] and len(r[0]) <= 6:
                    for ch in sorted(r[0]):
                        if eng.decide(st, ("p", ("has", v, ch))):
                            return TRUE
                    return FALSE
                # a predicate on characters: any answer
                return ("b", ("p", ("s", st.fresh("contains"))))
            return None
        if all(s[0] == "l" for s in v[1]):
            t = b"".join(s[1] for s in v[1])
            if p[0] == "str":
                return TRUE if p[1] in t else FALSE
            return TRUE if any(ch.encode() in t for ch in p[1]) else FALSE
        if p[0] == "str":
            return ("b", ("p", ("hasstr", v, p[1].decode("latin1"))))
        for ch in sorted(p[1]):
            if eng.decide(st, ("p", ("has", v, ch))):
                return TRUE
        return FALSE
    if v[0] in ("vec", "arr"):
        items = v[1] if v[0] == "arr" else None
        if v[0] == "vec" and all(s[0] == "one" for s in v[1]):
            items = tuple(s[1] for s in v[1])
        if items is not None:
            for x in items:
                if val_equal(eng, st, x, args[1]):
                    return TRUE
            return FALSE
        return ("b", ("p", ("vhas", v, deref(eng, st, args[1]))))
    if v[0] == "map":
        return map_call(eng, st, "contains", args, rty, False, c)
    if v[0] == "adt" and ty_head(v[1]).startswith("std::ops::Range"):
        x = deref(eng, st, args[1])
        rg = range_of(eng, st, v, K(LEN_MAX))
        if rg and x[0] == "i":
            return TRUE if eng.decide(st, ("ge", sub(x[1], rg[0]))) and eng.decide(st, ("ge", addc(sub(rg[1], x[1]), -1))) else FALSE
    return None


def m_starts(eng, st, args, c, rty, h):
    v = as_by(eng, st, args[0])
    if v is None:
        return None
    last = last_of(c["path"])
    p = pattern_chars(eng, st, args[1])
    if p is None:
        b = as_by(eng, st, args[1])
        if b is None:
            return None
        return ("b", ("p", (last, v, b)))
    t = p[1] if p[0] == "str" else None
    if t is None:
        if len(p[1]) != 1:
            return ("b", ("p", (last + "any", v, tuple(sorted(p[1])))))
        t = list(p[1])[0].encode()
    if all(s[0] == "l" for s in v[1]):
        x = b"".join(s[1] for s in v[1])
        return TRUE if (x.startswith(t) if last == "starts_with" else x.endswith(t)) else FALSE
    if all(s[0] in ("l", "s", "u") for s in v[1]) and 0 < len(t) < 16:
        n = by_len(v)
        if not eng.decide(st, ("ge", addc(n, -len(t)))):
            return FALSE
        at = ZERO if last == "starts_with" else addc(n, -len(t))
        for i, ch in enumerate(t):
            if not eng.decide(st, ("eq", addc(eng.by_at(st, v, addc(at, i)), -ch))):
                return FALSE
        return TRUE
    return ("b", ("p", (last, v, t.decode("latin1"))))


def m_strip(eng, st, args, c, rty, h):
    r = m_starts(eng, st, args, {"path": "x::" + ("starts_with" if "prefix" in c["path"] else "ends_with")}, rty, h)
    if r is None:
        return None
    p = pattern_chars(eng, st, args[1])
    if p is None:
        return None
    t = p[1] if p[0] == "str" else list(p[1])[0].encode()
    v = as_by(eng, st, args[0])
    n = by_len(v)
    if not eng.decide(st, r[1]):
        return NONE
    eng.require(st, ("ge", addc(n, -len(t))))
    if "prefix" in c["path"]:
        return some(("vref", eng.by_slice(st, v, K(len(t)), n)))
    return some(("vref", eng.by_slice(st, v, ZERO, addc(n, -len(t)))))


def m_str_split(eng, st, args, c, rty, h):
    if len(args) == 1:
        r, v = final_ref(eng, st, args[0])
        if v[0] != "by":
            return None
        eng.store(st, r, BY())
        return v
    v = as_by(eng, st, args[0])
    p = pattern_chars(eng, st, args[1])
    if v is None or p is None or last_of(c["path"]) != "split":
        return None
    pat = p[1].decode() if p[0] == "str" else "".join(sorted(p[1]))
    name = ("split", v, pat)
    n = A(("s", ("len", name), "len"))
    eng.require(st, ("ge", addc(n, -1)))
    return ("it", "vals", ("vec", (("any", name, "&str", n),)), ZERO, "val")


def m_default(eng, st, args, c, rty, h):
    t = rty or ""
    k = (eng.p.types.get(t) or {}).get("k")
    if t in BYTES_TY:
        return BY()
    if ty_head(t) == "std::vec::Vec":
        return ("vec", ())
    if ty_head(t) in MAPS:
        return map_new(st, t)
    if k == "int":
        return I(0)
    if k == "bool":
        return FALSE
    if t.startswith("std::option::Option"):
        return NONE
    return None


def m_new(eng, st, args, c, rty, h):
    if rty in BYTES_TY or h.startswith(("bytes::Bytes", "std::string::String", "bytes::BytesMut")):
        if not args or last_of(c["path"]) == "with_capacity":
            return BY()
        return None
    if "Vec" in h and (not args or last_of(c["path"]) == "with_capacity"):
        return BY() if rty == "std::vec::Vec<u8>" else ("vec", ())
    if h.startswith("std::boxed::Box") and args:
        return args[0]
    if "::Mutex" in h or "::Arc" in h or "::Rc" in h or "::RwLock" in h:
        if args:
            key = ("hp", st.fresh("arc"))
            st.cells[key] = args[0]
            return ("op", "box", key)
    return None


def m_freeze(eng, st, args, c, rty, h):
    return args[0] if args[0][0] == "by" else None


def m_from(eng, st, args, c, rty, h):
    """conversions between byte containers and between integers"""
    a = args[0]
    v = deref(eng, st, a) if a[0] in ("ref", "vref") else a
    t = rty or ""
    if t in BYTES_TY and v[0] in ("by", "arr"):
        return as_by(eng, st, v)
    if t in BITS and v[0] in ("i", "b", "e"):
        if v[0] == "b":
            return ("i", eng.b_to_lin(st, v[1]))
        return ("i", eng.lin(v))
    if t in ("f32", "f64") and v[0] == "i":
        return eng.to_float(st, v[1], t)
    if t == "f64" and v[0] == "op" and v[1] == "float":
        return v
    if t.startswith("std::boxed::Box"):
        return v
    return None


def m_try_from(eng, st, args, c, rty, h):
    a = args[0]
    t = split_args(rty or "")
    if a[0] == "i" and t and t[0] in BITS:
        lo, hi = ty_range(t[0])
        if eng.decide(st, ("ge", addc(a[1], -lo))) and eng.decide(st, ("ge", sub(K(hi), a[1]))):
            return ok(a)
        return err(("op", "tryfromint"))
    if t and t[0].startswith("["):
        v = as_by(eng, st, a)
        tt = eng.p.types.get(t[0])
        if v is not None and tt and tt["k"] == "array":
            if eng.decide(st, ("eq", addc(by_len(v), -tt["n"]))):
                return ok(eng.by_slice(st, v, ZERO, K(tt["n"])))
            return err(a if a[0] == "by" else ("op", "tryfromslice"))
    return None


def m_discr(eng, st, args, c, rty):
    v = deref(eng, st, args[0])
    if v[0] == "op" and v[1] == "raw":
        return I(int(v[3]))
    if v[0] in ("adt", "sym", "e"):
        return ("i", eng.discr_of(st, v))
    raise Unsupported("discriminant of %s" % v[0])


def m_transmute(eng, st, args, c, rty):
    v = args[0]
    if eng.p.fieldless(rty or "") and v[0] == "i":
        eng.emit(st, ("transmute", rty, v[1]))
        return ("e", rty, v[1])
    eng.emit(st, ("transmute", rty, None))
    return v


def m_sizeof(eng, st, args, c, rty):
    t = (c.get("args") or ["?"])[0]
    n = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "usize": 8, "u128": 16, "i32": 4, "bool": 1}.get(t)
    if n is None:
        return ("i", A(("s", ("sizeof", t), "len")))
    return I(n)


def m_panic(eng, st, args, c, rty):
    eng.panic(st, ("panic", last_of(c["path"]), ""))


def m_log(eng, st, args, c, rty):
    return UNIT


def m_opaque(kind):
    def f(eng, st, args, c, rty):
        return ("op", kind)
    return f


def m_channel(eng, st, args, c, rty):
    t = c.get("args") or ["?"]
    ty = t[0]
    name = ("chan", st.fresh("chan:" + ty), ty)
    bound = args[0][1] if args else None
    eng.emit(st, ("channel", name, "unbounded" if not args else bound))
    return ("tup", (("op", "tx", name), ("op", "rx", name)))


def m_oneshot(eng, st, args, c, rty):
    ty = (c.get("args") or ["?"])[0]
    n = st.fresh("oneshot")
    eng.emit(st, ("oneshot", n, ty))
    return ("tup", (("op", "otx", n, ty), ("op", "orx", n, ty)))


def m_send(eng, st, args, c, rty):
    return fut("send", chan_of(eng, st, args[0]), args[1])


def m_try_send(eng, st, args, c, rty):
    ch = chan_of(eng, st, args[0])
    if eng.choose(st, 2) == 0:
        eng.emit(st, ("try_send", ch, args[1], True))
        return ok()
    eng.emit(st, ("try_send", ch, args[1], False))
    return err(("sym", st.fresh("trysend"), "tokio::sync::mpsc::error::TrySendError<?>"))


def m_blocking_send(eng, st, args, c, rty):
    eng.emit(st, ("blocking", c["path"]))
    return m_try_send(eng, st, args, c, rty)


def m_recv(eng, st, args, c, rty):
    return fut("recv", chan_of(eng, st, args[0]))


def m_try_recv(eng, st, args, c, rty):
    ch = chan_of(eng, st, args[0])
    if eng.choose(st, 2) == 0:
        m = eng.sym(st.fresh("msg:" + chan_ty(ch)), chan_ty(ch))
        eng.emit(st, ("recv", ch, m))
        return ok(m)
    return err(("op", "tryrecv"))


def m_osend(eng, st, args, c, rty):
    n, ty = ochan_of(eng, st, args[0])
    if eng.choose(st, 2) == 0:
        eng.emit(st, ("osend", n, args[1], True))
        return ok()
    eng.emit(st, ("osend", n, args[1], False))
    return err(args[1])


def m_read_buf(eng, st, args, c, rty):
    return fut("read_buf", stream_id(deref(eng, st, args[0])), args[1])


def m_read(eng, st, args, c, rty):
    return fut("read", stream_id(deref(eng, st, args[0])), args[1])


def m_write(kind):
    def f(eng, st, args, c, rty):
        b = as_by(eng, st, args[1])
        rest = ()
        if kind.endswith("_buf"):
            # the buffer is moved past what was written
            r, _ = final_ref(eng, st, args[1])
            rest = (r,) if r is not None else ()
        return fut(kind, stream_id(deref(eng, st, args[0])), b if b is not None else BY(("o", st.fresh("w"), ZERO)), *rest)
    return f


def m_io1(kind):
    def f(eng, st, args, c, rty):
        return fut(kind, stream_id(deref(eng, st, args[0])))
    return f


def m_tsplit(eng, st, args, c, rty):
    s = deref(eng, st, args[0])
    i = stream_id(s)
    return ("tup", (("op", "reader", i), ("op", "writer", i)))


def m_bufreader(eng, st, args, c, rty):
    return args[0]


def m_tok_new(eng, st, args, c, rty):
    return ("op", "tok", st.fresh("token"))


def m_tok(kind):
    def f(eng, st, args, c, rty):
        t = deref(eng, st, args[0])
        if kind == "cancelled":
            return fut("cancelled", t)
        if kind == "cancel":
            eng.emit(st, ("cancel", t))
            return UNIT
        if kind == "is_cancelled":
            return ("b", ("p", ("s", st.fresh("iscancelled"))))
        if kind == "child":
            return ("op", "tok", ("child", t))
        return t
    return f


def m_tracker_new(eng, st, args, c, rty):
    return ("op", "tracker", st.fresh("tracker"))


def m_spawn(tracked):
    def f(eng, st, args, c, rty):
        t = deref(eng, st, args[0]) if tracked else None
        task = args[1] if tracked else args[0]
        eng.emit(st, ("spawn", t, task))
        return ("op", "join", st.fresh("join"))
    return f


def m_tracker(kind):
    def f(eng, st, args, c, rty):
        t = deref(eng, st, args[0])
        if kind == "wait":
            return fut("tracker_wait", t)
        eng.emit(st, ("tracker_" + kind, t))
        return ("b", ("p", ("s", st.fresh(kind)))) if kind == "close" else t
    return f


def dur(v):
    return v


def m_dur(unit):
    def f(eng, st, args, c, rty):
        return ("op", "dur", scale(args[0][1], unit))
    return f


def m_sleep(eng, st, args, c, rty):
    d = args[0]
    key = ("op", "sleep", st.fresh("timer"))
    eng.emit(st, ("sleep", key, d))
    return key


def m_instant_now(eng, st, args, c, rty):
    # the time after a message was sent says nothing of the client's last packet
    return ("op", "instant-late" if st.ghost.get("quiet") else "instant", ZERO)


def m_instant_add(eng, st, args, c, rty):
    a, b = deref(eng, st, args[0]), deref(eng, st, args[1])
    if a[0] == "op" and a[1] in ("instant", "instant-late") and b[0] == "op" and b[1] == "dur":
        return ("op", a[1], add(a[2], b[2]))
    if a[0] == "op" and a[1] == "dur" and b[0] == "op" and b[1] == "dur":
        return ("op", "dur", add(a[2], b[2]))
    return None


def m_sleep_reset(eng, st, args, c, rty):
    s = deref(eng, st, args[0])
    eng.emit(st, ("reset", s, deref(eng, st, args[1])))
    return UNIT


def m_sleep_until(eng, st, args, c, rty):
    key = ("op", "sleep", st.fresh("timer"))
    eng.emit(st, ("sleep_until", key, args[0]))
    return key


def in_ms(eng, st, l, den):
    """l / den milliseconds, rounded down to whole ones"""
    if any(k % den for _, k in l[1]) or l[0] % den:
        return ("op", "dur", eng.div(st, l, den))
    return ("op", "dur", mk(l[0] // den, {a: k // den for a, k in l[1]}))


def m_dur_mul(eng, st, args, c, rty, h):
    """a length of time multiplied by or divided by a number"""
    a, b = deref(eng, st, args[0]), deref(eng, st, args[1])
    if b[0] == "op" and b[1] == "dur":
        a, b = b, a
    if a[0] != "op" or a[1] != "dur":
        return None
    up = "mul" in last_of(c["path"])
    if b[0] == "op" and b[1] == "float":
        n, d = b[2], b[3]
    elif b[0] == "i":
        n, d = b[1], 1
    else:
        return None
    if n[1]:
        return None if a[2][1] or not up else in_ms(eng, st, scale(n, a[2][0]), d)
    if n[0] < 0 or n[0] == 0 and not up:
        eng.panic(st, ("duration", "multiplied by a negative number or divided by 0", ""))
    return in_ms(eng, st, scale(a[2], n[0]), d) if up else in_ms(eng, st, scale(a[2], d), n[0])


def m_dur_float(eng, st, args, c, rty):
    v = args[0]
    if v[0] != "op" or v[1] != "float":
        return None
    eng.require(st, ("ge", v[2]))
    return in_ms(eng, st, scale(v[2], 1000), v[3])


def m_opassign(op):
    def f(eng, st, args, c, rty, h):
        a, b = args[0], deref(eng, st, args[1])
        v = deref(eng, st, a)
        if "Duration" in h or "Instant" in h:
            return m_dur_mul(eng, st, args, c, rty, h) if op in ("Mul", "Div") else \
                m_instant_add(eng, st, args, c, rty) if op == "Add" else None
        ty = None
        for t in BITS:
            if h.startswith(("<%s " % t, "<&%s " % t, "<&'a %s " % t)) or "for %s" % t in h or "impl std::ops" in h and t in h:
                ty = t
                break
        if v[0] in ("i", "b") and b[0] in ("i", "b"):
            if op in ("BitAnd", "BitOr", "BitXor"):
                return eng.binop(st, op, v, b, ty or "u64")
            r = eng.binop(st, op + "WithOverflow", v, b, ty or "u64")
            if eng.decide(st, r[1][1][1]):
                eng.panic(st, ("overflow", op, ""))
            return r[1][0]
        return None
    return f


def m_pin_new(eng, st, args, c, rty):
    return args[0]


def m_pin_as_mut(eng, st, args, c, rty):
    v = args[0]
    x = eng.load(st, v)
    return x if x[0] in ("ref", "vref") else v


def m_poll_fn(eng, st, args, c, rty):
    return fut("poll_fn", hold(st, args[0]))


def m_mem_drop(eng, st, args, c, rty):
    work = []
    eng.drop_parts(st, args[0], work)
    if not work:
        return UNIT
    st.frames.append(("nat", "drop", tuple(work), None))
    return DONE


def m_replace(eng, st, args, c, rty):
    r = args[0]
    v = eng.load(st, r)
    last = last_of(c["path"])
    if last == "replace":
        eng.store(st, r, args[1])
        return v
    if last == "swap":
        w = eng.load(st, args[1])
        eng.store(st, r, w)
        eng.store(st, args[1], v)
        return UNIT
    d = m_default(eng, st, [], c, rty, "")
    if d is None:
        raise Unsupported("mem::take of %s" % rty)
    eng.store(st, r, d)
    return v


def m_atomic(kind):
    def f(eng, st, args, c, rty):
        cell = args[0]
        while cell[0] == "ref" and cell[1][0] != "static":
            cell = eng.load(st, cell)
        name = cell[1][1] if cell[0] == "ref" and cell[1][0] == "static" else repr(cell)[:60]
        amount = args[1][1] if len(args) > 1 and args[1][0] == "i" else None
        eng.emit(st, ("atomic", kind, name, amount))
        if kind == "store":
            return UNIT
        return ("i", A(("s", st.fresh("atomic:" + name), "usize")))
    return f


def uuid_in(eng, st, v, d=4):
    """a fresh identity somewhere in a value"""
    v = deref(eng, st, v)
    if v[:2] == ("op", "uuid"):
        return v
    if v[:2] == ("op", "fmt"):
        return v[2] if len(v) > 2 else None
    if v[0] == "by":
        for s in v[1]:
            if s[0] == "o" and isinstance(s[1], tuple) and s[1][0] == "fmt" and isinstance(s[1][1], tuple) and s[1][1][:2] == ("op", "uuid"):
                return s[1][1]
        return None
    parts = v[1] if v[0] in ("tup", "arr") else v[3] if v[0] == "adt" else [s[1] for s in v[1] if s[0] == "one"] if v[0] == "vec" else ()
    for y in parts if d else ():
        r = uuid_in(eng, st, y, d - 1) if isinstance(y, tuple) and y and isinstance(y[0], str) else None
        if r:
            return r
    return None


def m_fmt(eng, st, args, c, rty):
    """what is to be formatted: only whether a fresh identity is in it matters"""
    for a in args:
        u = uuid_in(eng, st, a)
        if u:
            return ("op", "fmt", u)
    return ("op", "fmt")


def m_format(eng, st, args, c, rty):
    n = ("fmt", uuid_in(eng, st, args[0]) or "s")
    return BY(("o", n, A(("s", ("len", n), "len"))))


def m_uuid(eng, st, args, c, rty):
    return ("op", "uuid", st.fresh("uuid"))


def m_uuid_text(eng, st, args, c, rty):
    """another way of writing the same identity"""
    return args[0] if (rty or "").startswith("&") else deref(eng, st, args[0])


def m_uuid_u128(eng, st, args, c, rty):
    v = deref(eng, st, args[0])
    return ("i", A(("s", ("uuidnum", v), "u128")))


def m_box_uninit(eng, st, args, c, rty):
    key = ("hp", st.fresh("box"))
    st.cells[key] = U
    return ("op", "box", key)


def m_box_vec(eng, st, args, c, rty):
    v = eng.cell(st, args[0][2])
    if v[0] == "arr":
        return ("vec", tuple(("one", x) for x in v[1]))
    return v


def m_to_vec(eng, st, args, c, rty):
    v = deref(eng, st, args[0])
    if v[0] in ("by", "vec"):
        return v
    if v[0] == "arr":
        return ("vec", tuple(("one", x) for x in v[1]))
    return None


def m_sort(eng, st, args, c, rty, h):
    r, v = final_ref(eng, st, args[0])
    if v[0] in ("vec", "by"):
        eng.emit(st, ("reorder", r, v))
        n = st.fresh("sorted")
        if v[0] == "vec":
            pats = frozenset(s[1] for s in v[1] if s[0] == "one")
            for s in v[1]:
                if s[0] == "rep":
                    pats |= s[2]
            ty = next((s[2] for s in v[1] if s[0] == "any"), "?")
            L_ = eng.length(st, v)
            eng.store(st, r, ("vec", (("any", n, ty, L_),)) if any(s[0] == "any" for s in v[1]) or not pats
                      else ("vec", (("rep", "sorted", pats, L_),)))
        else:
            eng.store(st, r, BY(("o", n, by_len(v))))
        return UNIT
    return None


def m_rev(eng, st, args, c, rty, h):
    it = as_iter(eng, st, args[0])
    if it is not None and it[0] == "it" and it[1] == "vals" and it[2][0] == "vec":
        v = it[2]
        if all(s[0] == "one" for s in v[1]) and it[3] == ZERO:
            return ("it", "vals", ("vec", tuple(reversed(v[1]))), ZERO, it[4])
    eng.emit(st, ("reorder", None, it))
    raise Unsupported("reverse iteration")


def m_retain(eng, st, args, c, rty, h):
    r, v = final_ref(eng, st, args[0])
    eng.emit(st, ("retain", r, v, args[1]))
    if v[0] == "vec" and "mut" not in last_of(c["path"]):
        return start_loop(eng, st, "retain", ("vec", ()), (args[1], r), ("it", "vals", v, ZERO, "val"))
    if v[0] == "vec":
        ty = next((s[2] for s in v[1] if s[0] == "any"), "?")
        n = st.fresh("retain")
        ln = A(("s", ("len", n), "len"))
        if any(s[0] == "any" for s in v[1]):
            eng.store(st, r, ("vec", (("any", n, ty, ln),)))
            return UNIT
    return None


def m_as_opt(eng, st, args, c, rty, h):
    return None


def m_cloned_opt(eng, st, args, c, rty, h):
    """Option::<&T>::cloned / copied"""
    v = args[0]
    if v[0] == "it" or is_ref(v):
        if "Iterator" in (c.get("path") or "") or "iter" in h:
            it = as_iter(eng, st, v)
            return ("it", "copied", it) if it is not None else None
        return None
    if v[0] in ("adt", "sym"):
        i, f = eng.open(st, v)
        return NONE if i == 0 else some(deref(eng, st, f[0]))
    return None


def m_chars(eng, st, args, c, rty, h):
    v = as_by(eng, st, args[0])
    if v is None:
        return None
    if last_of(c["path"]) == "bytes":
        return ("it", "vals", v, ZERO, "val")
    name = ("chars", v)
    n = A(("s", ("len", name), "len"))
    return ("it", "vals", ("vec", (("any", name, "char", n),)), ZERO, "val")


def m_unit(eng, st, args, c, rty, h=None):
    return UNIT


def m_peekable(eng, st, args, c, rty, h):
    it = as_iter(eng, st, args[0])
    return ("it", "peek", it, UNIT) if it is not None else None


def m_peek(eng, st, args, c, rty, h):
    r, it = final_ref(eng, st, args[0])
    if it[0] != "it" or it[1] != "peek":
        return None
    if it[3] == UNIT:
        x, n = pull(eng, st, it[2])
        nx = NONE if x is None else some(x)
        eng.store(st, r, ("it", "peek", n, nx))
    else:
        nx = it[3]
    return nx if nx == NONE else some(("vref", nx[3][0]))


def m_chain(eng, st, args, c, rty, h):
    a, b = as_iter(eng, st, args[0]), as_iter(eng, st, args[1])
    return ("it", "chain", a, b) if a is not None and b is not None else None


def m_by_ref(eng, st, args, c, rty, h):
    return args[0]


def m_entry(eng, st, args, c, rty, h):
    r, m = final_ref(eng, st, args[0])
    if m[0] != "map":
        return None
    key = map_key(eng, st, args[1])
    dash = "dash" in h.lower()
    eng.emit(st, ("mapop", "entry", m[2], m[1], key, dash))
    return ("op", "entry", r, key, dash)


def m_or_insert(eng, st, args, c, rty, h):
    e = args[0]
    if e[0] != "op" or e[1] != "entry":
        return None
    r, key, dash = e[2], e[3], e[4]
    _, m = final_ref(eng, st, r)
    pres, cell, m2 = map_find(eng, st, m, key)
    last = last_of(c["path"])
    if not pres:
        eng.store(st, r, ("map", m2[1], m2[2], m2[3], tuple(x for x in m2[4] if x[0] != cell[2]) + ((cell[2], True),)))
        if last == "or_insert_with":
            st.cells[cell] = U
            st.frames.append(("nat", "entry", (cell, m[2], m[1], key, dash), None))
            eng.call_value(st, args[1], [])
            return DONE
        v = args[1] if last == "or_insert" else m_default(eng, st, [], c, cell[3], "")
        if v is None:
            return None
        eng.emit(st, ("mapinsert", m[2], m[1], key, v, False))
        st.cells[cell] = v
    else:
        eng.store(st, r, m2)
        eng.cell(st, cell)
    ref = ("ref", cell, (), True)
    if dash:
        eng.emit(st, ("guard+", m[2], "get_mut", cell[2]))
        return ("op", "guard", m[2], "get_mut", ref)
    return ref


def m_shim_call(eng, st, args, c, rty):
    # FnOnce::call_once and friends on a function value
    tup = args[1]
    eng.call_value(st, args[0], list(tup[1]))
    return DONE


def m_abs_diff(eng, st, args, c, rty, h):
    return None


EXACT = {
    "std::mem::size_of": m_sizeof,
    "std::mem::drop": m_mem_drop,
    "std::mem::replace": m_replace, "std::mem::take": m_replace, "std::mem::swap": m_replace,
    "std::intrinsics::discriminant_value": m_discr,
    "std::mem::discriminant": m_discr,
    "std::intrinsics::transmute": m_transmute, "std::mem::transmute": m_transmute,
    "core::panicking::panic_fmt": m_panic, "core::panicking::panic": m_panic,
    "core::panicking::panic_explicit": m_panic, "core::panicking::panic_display": m_panic,
    "core::panicking::unreachable_display": m_panic, "core::panicking::assert_failed": m_panic,
    "core::panicking::panic_nounwind": m_panic,
    "std::option::unwrap_failed": m_panic, "std::option::expect_failed": m_panic,
    "core::option::unwrap_failed": m_panic, "core::option::expect_failed": m_panic,
    "std::result::unwrap_failed::unwrap_failed_inner": m_panic, "std::result::unwrap_failed": m_panic,
    "std::rt::begin_panic": m_panic, "std::rt::panic_fmt": m_panic, "std::process::exit": m_panic,
    "std::process::abort": m_panic,
    "log::max_level": m_opaque("level"), "log::__private_api::log": m_log,
    "log::__private_api::enabled": lambda e, s, a, c, r: TRUE,
    "tokio::sync::mpsc::channel": m_channel, "tokio::sync::mpsc::unbounded_channel": m_channel,
    "tokio::sync::oneshot::channel": m_oneshot,
    "tokio::sync::mpsc::Sender::<T>::send": m_send,
    "tokio::sync::mpsc::Sender::<T>::try_send": m_try_send,
    "tokio::sync::mpsc::UnboundedSender::<T>::send": m_try_send,
    "tokio::sync::mpsc::Sender::<T>::blocking_send": m_blocking_send,
    "tokio::sync::mpsc::Receiver::<T>::recv": m_recv,
    "tokio::sync::mpsc::Receiver::<T>::try_recv": m_try_recv,
    "tokio::sync::oneshot::Sender::<T>::send": m_osend,
    "tokio::io::AsyncReadExt::read_buf": m_read_buf, "tokio::io::AsyncReadExt::read": m_read,
    "tokio::io::AsyncWriteExt::write_all": m_write("write_all"),
    "tokio::io::AsyncWriteExt::write": m_write("write"),
    "tokio::io::AsyncWriteExt::write_buf": m_write("write_buf"),
    "tokio::io::AsyncWriteExt::write_all_buf": m_write("write_all_buf"),
    "tokio::io::AsyncWriteExt::flush": m_io1("flush"), "tokio::io::AsyncWriteExt::shutdown": m_io1("shutdown"),
    "tokio::io::AsyncWriteExt::shutdown": m_io1("shutdown"),
    "tokio::io::split": m_tsplit,
    "tokio::net::TcpStream::into_split": m_tsplit,
    "tokio::io::BufReader::<R>::new": m_bufreader,
    "tokio::io::BufReader::<R>::with_capacity": lambda e, s, a, c, r: a[1],
    "tokio::net::TcpListener::bind": m_io1("bind"),
    "tokio::net::TcpListener::accept": m_io1("accept"),
    "tokio::signal::ctrl_c": lambda e, s, a, c, r: fut("ctrl_c", s.fresh("ctrl_c")),
    "tokio::time::sleep": m_sleep, "tokio::time::Sleep::reset": m_sleep_reset,
    "tokio::time::sleep_until": m_sleep_until,
    "tokio::time::Instant::now": m_instant_now, "std::time::Instant::now": m_instant_now,
    "<tokio::time::Instant as std::ops::Add<std::time::Duration>>::add": m_instant_add,
    "<std::time::Duration as std::ops::Add>::add": m_instant_add,
    "std::time::Duration::from_secs": m_dur(1000), "std::time::Duration::from_millis": m_dur(1),
    "std::time::Duration::from_secs_f32": m_dur_float, "std::time::Duration::from_secs_f64": m_dur_float,
    "tokio_util::sync::CancellationToken::new": m_tok_new,
    "tokio_util::sync::CancellationToken::cancel": m_tok("cancel"),
    "tokio_util::sync::CancellationToken::cancelled": m_tok("cancelled"),
    "tokio_util::sync::CancellationToken::cancelled_owned": m_tok("cancelled"),
    "tokio_util::sync::CancellationToken::is_cancelled": m_tok("is_cancelled"),
    "tokio_util::sync::CancellationToken::child_token": m_tok("child"),
    "tokio_util::task::TaskTracker::new": m_tracker_new,
    "tokio_util::task::TaskTracker::spawn": m_spawn(True),
    "tokio_util::task::TaskTracker::track_future": lambda e, s, a, c, r: ("op", "tracked", deref(e, s, a[0]), a[1]),
    "tokio_util::task::TaskTracker::close": m_tracker("close"),
    "tokio_util::task::TaskTracker::wait": m_tracker("wait"),
    "tokio::spawn": m_spawn(False), "tokio::task::spawn": m_spawn(False), "tokio::task::spawn_local": m_spawn(False),
    "tokio::macros::support::poll_fn": m_poll_fn, "std::future::poll_fn": m_poll_fn,
    "tokio::macros::support::thread_rng_n": lambda e, s, a, c, r: I(0),
    "tokio::task::yield_now": lambda e, s, a, c, r: fut("yield", UNIT),
    "std::future::get_context": lambda e, s, a, c, r: ("op", "ctx"),
    "std::pin::Pin::<Ptr>::new_unchecked": m_pin_new, "std::pin::Pin::<Ptr>::new": m_pin_new,
    "std::pin::Pin::<Ptr>::as_mut": m_pin_as_mut,
    "std::pin::Pin::<&'a mut T>::get_unchecked_mut": m_pin_new,
    "std::future::IntoFuture::into_future": lambda e, s, a, c, r: a[0],
    **{"uuid::fmt::<impl uuid::Uuid>::" + n: m_uuid_text for n in
       ("simple", "as_simple", "hyphenated", "as_hyphenated", "urn", "as_urn", "braced", "as_braced")},
    "uuid::v4::<impl uuid::Uuid>::new_v4": m_uuid, "uuid::Uuid::as_u128": m_uuid_u128,
    "std::boxed::Box::<T>::new_uninit": m_box_uninit,
    "std::boxed::box_assume_init_into_vec_unsafe": m_box_vec,
    "std::slice::<impl [T]>::into_vec": m_to_vec, "std::slice::<impl [T]>::to_vec": m_to_vec,
    "std::slice::<impl [T]>::to_vec_in::ConvertVec::to_vec": m_to_vec,
    "std::slice::hack::into_vec": m_to_vec,
    "std::ops::FnOnce::call_once": m_shim_call, "std::ops::FnMut::call_mut": m_shim_call,
    "std::ops::Fn::call": m_shim_call,
    "core::fmt::rt::Argument::<'_>::new_display": m_fmt,
    "core::fmt::rt::Argument::<'_>::new_debug": m_fmt,
    "std::fmt::Arguments::<'a>::from_str": m_opaque("fmt"),
    "std::fmt::Arguments::<'a>::from_str_nonconst": m_opaque("fmt"),
    "std::fmt::Arguments::<'a>::new": m_fmt,
    "std::fmt::format": m_format, "alloc::fmt::format": m_format,
    "std::hint::must_use": lambda e, s, a, c, r: a[0],
    "env_logger::Builder::new": m_opaque("logger"),
    "env_logger::Builder::filter": lambda e, s, a, c, r: a[0],
    "env_logger::Builder::init": m_log,
    "std::thread::sleep": lambda e, s, a, c, r: (e.emit(s, ("blocking", "std::thread::sleep")), UNIT)[1],
    "tokio::runtime::Builder::new_multi_thread": m_opaque("rtb"),
    "tokio::runtime::Builder::new_current_thread": m_opaque("rtb"),
    "tokio::runtime::Builder::enable_all": lambda e, s, a, c, r: a[0],
    "tokio::runtime::Builder::worker_threads": lambda e, s, a, c, r: a[0],
    "tokio::runtime::Builder::build": lambda e, s, a, c, r: ok(("op", "rt")) if e.choose(s, 2) == 0 else err(ioerr(s)),
}
for k in ("fetch_add", "fetch_sub", "load", "store", "swap", "compare_exchange", "fetch_max", "fetch_min"):
    for t in ("usize", "u64", "u32", "u128", "bool", "isize"):
        EXACT["std::sync::atomic::Atomic::<%s>::%s" % (t, k)] = m_atomic(k)


def m_block_on(eng, st, args, c, rty):
    co = args[1]
    if co[0] != "coro":
        co = deref(eng, st, co)
    if co[0] != "coro":
        return None
    st.frames.append(("nat", "root", (co,), None))
    return DONE


EXACT["tokio::runtime::Runtime::block_on"] = m_block_on

BY_LAST = {
    "eq": m_eq, "ne": m_ne, "partial_cmp": m_cmp3, "cmp": m_cmp3,
    "clone": m_clone, "to_owned": to_owned, "to_string": to_owned, "into_bytes": m_freeze, "into_string": m_freeze,
    "into_boxed_slice": m_freeze, "into_vec": m_freeze,
    "len": m_len, "is_empty": m_is_empty, "remaining": m_len,
    "deref": m_identity_ref, "deref_mut": m_identity_ref, "as_ref": m_identity_ref, "as_bytes": m_identity_ref,
    "as_str": m_identity_ref, "as_slice": m_identity_ref, "as_mut_slice": m_identity_ref, "borrow": m_identity_ref,
    "as_mut": m_identity_ref, "borrow_mut": m_identity_ref, "chunk": m_identity_ref,
    "iter": m_iter, "into_iter": m_into_iter, "iter_mut": m_iter_mut,
    "map": adapter("map", True), "filter": adapter("filter", True), "filter_map": adapter("filter_map", True),
    "inspect": adapter("inspect", True), "take_while": adapter("take_while", True),
    "map_while": adapter("map_while", True),
    "take": adapter("take"), "skip": adapter("skip"), "enumerate": adapter("enum", extra=ZERO),
    "copied": m_cloned_opt, "cloned": m_cloned_opt, "rev": m_rev, "chain": m_chain, "by_ref": m_by_ref,
    "peekable": m_peekable, "peek": m_peek,
    "next": consumer("next", True), "all": consumer("all", True), "any": consumer("any", True),
    "find": consumer("find", True), "position": consumer("position", True), "find_map": consumer("find_map", True),
    "for_each": consumer("for_each"), "fold": consumer("fold"), "count": consumer("count"), "sum": consumer("sum"),
    "nth": consumer("nth", True), "last": consumer("last"),
    "collect": m_collect, "from_iter": m_from_iter,
    "push": m_push, "push_back": m_push, "pop": m_pop, "extend": m_extend, "remove": m_vec_remove,
    "truncate": m_truncate, "clear": m_clear, "swap_remove": m_vec_remove,
    "get": m_get, "get_mut": m_get, "first": m_get, "first_mut": m_get, "last_mut": m_get,
    "index": m_index, "index_mut": m_index,
    "split_to": m_split_to, "split_off": m_split_to, "advance": m_split_to, "split_at": m_split_at,
    "split_at_checked": m_split_at, "split_first": m_split_first, "split_last": m_split_first,
    "put": m_put, "put_slice": m_put, "put_u8": m_put, "put_u16": m_put, "put_u32": m_put, "put_u64": m_put,
    "extend_from_slice": m_put, "push_str": m_put,
    "get_u8": m_getu, "get_u16": m_getu, "get_u32": m_getu,
    "from_be_bytes": m_from_be, "from_le_bytes": m_from_be, "to_be_bytes": m_to_be,
    "checked_add": m_checked, "checked_sub": m_checked, "checked_mul": m_checked, "wrapping_add": m_checked,
    "wrapping_sub": m_checked, "wrapping_mul": m_checked, "saturating_add": m_checked, "saturating_sub": m_checked,
    "saturating_mul": m_checked, "overflowing_add": m_checked, "overflowing_sub": m_checked,
    "wrapping_shr": m_shift, "wrapping_shl": m_shift, "checked_shr": m_shift, "checked_shl": m_shift,
    "wrapping_div": m_divrem, "wrapping_rem": m_divrem, "rem_euclid": m_divrem, "div_euclid": m_divrem,
    "div_ceil": m_divrem, "is_multiple_of": m_divrem,
    "checked_div": m_checked, "checked_rem": m_checked,
    "max": m_minmax, "min": m_minmax,
    "from_utf8": m_from_utf8, "from_utf8_unchecked": m_from_utf8, "from_utf8_lossy": m_from_utf8,
    "contains": m_contains, "starts_with": m_starts, "ends_with": m_starts, "strip_prefix": m_strip,
    "strip_suffix": m_strip, "split": m_str_split, "chars": m_chars, "bytes": m_chars,
    "default": m_default, "new": m_new, "with_capacity": m_new, "freeze": m_freeze,
    "mul_f32": m_dur_mul, "mul_f64": m_dur_mul, "div_f32": m_dur_mul, "div_f64": m_dur_mul,
    "from": m_from, "into": m_from, "try_from": m_try_from, "try_into": m_try_from,
    "copy_from_slice": m_from, "from_static": m_from,
    "sort": m_sort, "sort_by": m_sort, "sort_by_key": m_sort, "sort_unstable": m_sort, "reverse": m_sort,
    "dedup": m_sort, "retain": m_retain,
    "reserve": m_unit, "shrink_to_fit": m_unit,
    "bitand": m_opassign("BitAnd"), "bitor": m_opassign("BitOr"), "bitxor": m_opassign("BitXor"),
    "add": m_opassign("Add"), "sub": m_opassign("Sub"), "mul": m_opassign("Mul"), "div": m_opassign("Div"),
    "entry": m_entry, "or_insert_with": m_or_insert, "or_insert": m_or_insert, "or_default": m_or_insert,
    "is_power_of_two": m_abs_diff,
}

"""The subscription tree, one call at a time: C01, C11, C12, C13, C16.

Every recursive operation on a node is analysed once with an arbitrary node and an arbitrary list of
levels; the calls it makes to itself are replaced by the record (operation, child, levels left), which
is what the induction over the levels needs.  A distinguished element at an arbitrary place of a list
stands for "every element of the list".
"""
from rules.common import *

PROPS = ("C01", "C11", "C12", "C13", "C16")
HIER = "topic_heir::SubHier"
LEAF = "topic_heir::SubscriptionLeaf"
TREE = "topic_heir::SubscriptionTree"
QOS = "packets::enums::QosLevel"
STRING = "std::string::String"
ITER = "std::vec::IntoIter<%s>" % STRING
OUT = "std::vec::Vec<(u128, "
N = A(("s", "nlev", "len"))
MAXDEPTH = 1000
PLUS, HASH = lit(b"+"), lit(b"#")


# ------------------------------------------------------------------ finding the operations
def params(p, i):
    return p.inst[i]["locals"][1:1 + p.inst[i]["argc"]]


def callees(p, i):
    out = set()
    for b in p.inst[i]["blocks"]:
        t = b["t"]
        if t[0] == "call" and isinstance(t[1], dict) and t[1].get("inst"):
            out.add(t[1]["inst"])
        for s in b["s"]:
            if s[0] == "a" and s[2][0] == "agg" and isinstance(s[2][1], dict) and s[2][1].get("inst"):
                out.add(s[2][1]["inst"])
    return out


def role(tys):
    if not any(HIER in t and t[0] == "&" and "Map" not in t for t in tys):
        return None
    if any(t.startswith("&mut " + OUT) for t in tys):
        return "get"
    if LEAF in tys:
        return "insert"
    if "u128" in tys:
        return "delete"
    return None


def operations(p):
    """{instance: role} of the recursive functions over tree nodes"""
    out = {}
    local = [i for i, x in p.inst.items() if x["local"]]
    for i in local:
        r = role(params(p, i))
        if not r:
            continue
        seen, todo = set(), list(callees(p, i))
        while todo:
            j = todo.pop()
            if j in seen or j not in p.inst or not p.inst[j]["local"]:
                continue
            seen.add(j)
            todo += callees(p, j)
        if i in seen:
            out[i] = r
    return out


def collectors(p):
    """functions that put one subscription into a result list"""
    return [i for i, x in p.inst.items() if x["local"] and x["kind"] == "fn"
            and any(t.startswith("&mut " + OUT) for t in params(p, i)) and "&" + LEAF in params(p, i)
            and not role(params(p, i))]


def hier_fields(p):
    f = {}
    for n, x in enumerate(p.types[HIER]["variants"][0]["f"]):
        t = x["t"]
        if t.startswith("std::vec::Vec<") and LEAF in t:
            f["subs"] = n
        elif "Map<" in t and t.endswith(HIER + ">"):
            f["children"] = n
        elif "Map<" in t and LEAF in t:
            f["shared"] = n
    return f if len(f) == 3 else None


def jobs():
    out = [("tree", "await", "")]
    for w in ("plain", "subs", "shared", "hsubs", "hshared"):
        out += [("tree", "get", w, lv, sh) for lv in (0, 1) for sh in (0, 1)]
    for op in ("insert", "delete"):
        out += [("tree", op, w, lv, sh) for lv in (0, 1) for sh in (0, 1) for w in ("plain", "same", "other") if w == "plain" or lv == 0]
    out += [("tree", "collect", w) for w in ("same", "other")]
    out += [("tree", "tget", w, 1, sh) for w in ("plain", "hsubs", "hshared") for sh in (0, 1)]
    out += [("tree", "tdelete", "plain")]
    out += [("tree", "tinsert", v) for v in ("W", "Wx", "xW", "xWx")]
    out += [("tree", "tokenise", v) for v in ("W", "Wx", "xW", "xWx")]
    return out


# ------------------------------------------------------------------ values
def text(src):
    return BY(("s", src, ZERO, A(("s", src + "len", "len"))))


def notwild(st, src):
    """a level of a topic name: no wildcard characters"""
    t = text(src)
    for ch in "+#":
        st.preds[("has", t, ch)] = False
    st.mask[("B", src, ZERO)] = ((1 << 256) - 1) & ~(1 << 43) & ~(1 << 35)
    return t


def any_seg(name, ty, n=None):
    return ("any", name, ty, n if n is not None else A(("s", ("len", name), "len")))


class Mon(Base):
    props = PROPS

    def __init__(self, p, op, who):
        Base.__init__(self)
        self.p, self.op, self.who = p, op, who
        self.hf = hier_fields(p)
        self.share = None
        self.head = None
        self.ends_ok = 0

    # ---------------------------------------------------------- bookkeeping
    def log(self, st, name, x):
        st.ghost[name] = tuple(st.ghost.get(name, ())) + (x,)

    def ev_panic(self, eng, st, ev):
        self.bad(eng, st, "C01", "panic:%s:%s" % (fname(eng, st), short(ev[1], 60)), "a topic or filter can reach %s" % short(ev[1]))

    def ev_guard_on(self, eng, st, ev):
        g = dict(st.ghost.get("guards", ()))
        g[(ev[1], ev[2])] = g.get((ev[1], ev[2]), 0) + 1
        st.ghost["guards"] = tuple(sorted(g.items(), key=repr))

    def ev_guard_off(self, eng, st, ev):
        g = dict(st.ghost.get("guards", ()))
        k = (ev[1], ev[2])
        if g.get(k, 0) > 1:
            g[k] -= 1
        else:
            g.pop(k, None)
        st.ghost["guards"] = tuple(sorted(g.items(), key=repr))

    WRITES = ("insert", "remove", "get_mut", "clear", "retain", "entry", "alter", "remove_if", "iter_mut", "shrink_to_fit", "alter_all")

    def ev_mapop(self, eng, st, ev):
        last, mid, dash = ev[1], ev[2], ev[5]
        if not dash:
            return
        for (m, how), n in st.ghost.get("guards", ()):
            if m != mid:
                continue
            if how != "get" or last in self.WRITES:
                self.bad(eng, st, "C16", "lock:%s:%s" % (fname(eng, st), last),
                         "%s on a map of the tree while a guard from %s on the same map is alive" % (last, how))
                return
        self.ok("C16")

    # ---------------------------------------------------------- recursion
    def visit(self, eng, st, c, args, iid):
        tys = params(eng.p, iid)
        r = role(tys)
        node = left = None
        okargs = True
        for t, v in zip(tys, args):
            if HIER in t and t[0] == "&":
                while v[0] == "ref" and v[1][0] != "mc" and v[1][0] != "hp":
                    v = eng.load(st, v)
                node = v
            elif "IntoIter<" in t or "[%s]" % STRING in t or t.startswith("std::vec::Vec<%s" % STRING):
                left = self.left(eng, st, v)
                if t.startswith("&mut"):
                    rr, _ = models.final_ref(eng, st, v)
                    eng.store(st, rr, ("it", "vals", ("vec", (any_seg(st.fresh("used"), STRING),)), ZERO, "val"))
            elif "Option<" in t:
                if not self.same_share(eng, st, v):
                    okargs = False
            elif t.startswith("&mut " + OUT):
                rr, x = models.final_ref(eng, st, v)
                if not self.is_out(rr):
                    okargs = False
                eng.store(st, rr, ("vec", (any_seg("out2", self.outty),)))
            elif t == LEAF:
                if v != self.leaf:
                    okargs = False
            elif t == "u128":
                if v[0] != "i" or not st.is_zero(sub(v[1], self.ident)):
                    okargs = False
        key = None
        if node is not None and node[0] == "ref" and node[1][0] == "mc" and not node[2] and node[1][1] == self.children:
            key = node[1][2]
            if (r in ("insert", "delete")):
                # the call may change anything below that child
                st.cells[node[1]] = eng.sym(("after", key), HIER)
        good = key is not None and left == self.rest and okargs and r == self.role
        self.log(st, "visits", (key if key is not None else ("?",), good, r))
        return eng.sym(("rec", len(st.ghost["visits"])), eng.p.inst[iid]["locals"][0])

    def left(self, eng, st, v):
        x = models.deref(eng, st, v)
        if x[0] == "it" and x[1] == "vals":
            pos, vec = x[3], x[2]
        elif x[0] == "vec":
            pos, vec = ZERO, x
        else:
            return None
        segs = []
        for s in vec[1]:
            if s[0] == "one" and pos[0] > 0 and not pos[1]:
                pos = addc(pos, -1)
                continue
            if pos != ZERO:
                return None
            segs.append(("one", models.deref(eng, st, s[1])) if s[0] == "one" else s)
        return tuple(segs)

    def same_share(self, eng, st, v):
        x = models.deref(eng, st, v)
        if x[0] not in ("adt", "sym"):
            return False
        var, f = eng.open(st, x)
        if var == 0:
            return self.share is None
        return self.share is not None and models.deref(eng, st, f[0]) == self.share

    def is_out(self, rr):
        return rr[0] == "ref" and (rr[1] == ("hp", "out") or self.op[0] == "t")

    # ---------------------------------------------------------- collecting
    def collect(self, eng, st, c, args, iid):
        leaf = out = None
        for t, v in zip(params(eng.p, iid), args):
            if t == "&" + LEAF:
                leaf = models.deref(eng, st, v)
            elif t.startswith("&mut " + OUT):
                out, x = models.final_ref(eng, st, v)
                eng.store(st, out, ("vec", (any_seg("out2", self.outty),)))
        src = self.source(leaf)
        w = self.is_witness(leaf)
        if src is None or out is None or not self.is_out(out):
            self.bad(eng, st, "C11", "collect:source", "a subscription that is not one of the node's own is collected")
        else:
            cs = dict(st.ghost.get("cols", ()))
            k = src + ("*" if w else "",)
            cs[k] = min(cs.get(k, 0) + 1, 2) if w else 1
            st.ghost["cols"] = tuple(sorted(cs.items(), key=repr))
            self.ok("C11")
        return UNIT

    def is_witness(self, leaf):
        return leaf[0] == "adt" and any(x == ("i", A(("s", "Wid", "u128"))) for x in leaf[3])

    def source(self, leaf):
        """which list of which node an element comes from: ('' or '#', 'subs' or 'shared')"""
        if self.is_witness(leaf):
            return {"subs": ("", "subs"), "shared": ("", "shared"), "hsubs": ("H", "subs"), "hshared": ("H", "shared")}.get(self.who)
        found = []
        walk(leaf, lambda x: found.append(x[1]) if x[0] == "el" and len(x) == 3 else None)
        for name in found:
            while name[0] == "sl":
                name = name[1]
            if name in self.names:
                return self.names[name]
        return None

    # ---------------------------------------------------------- ends
    def pres(self, st, mid, key):
        """is key in the map: True, False, or None if never asked"""
        for k, v in st.preds.items():
            if k[0] == "in" and k[1] == mid and k[2] == key:
                return v
        found = []

        def look(x):
            if x[0] == "map" and len(x) == 5 and x[2] == mid:
                found.extend(pr for k, pr in x[4] if k == key)
        for v in list(st.cells.values()):
            walk(v, look)
        return found[0] if found else None

    def ev_end(self, eng, st, ev):
        self.ends += 1
        getattr(self, "end_" + self.op)(eng, st, ev[1])

    def levels_known(self, eng, st, prop):
        return True

    def children_of(self, st, keys, what, eng):
        """the visits there must be, given which of the keys are present"""
        want = []
        for k in keys:
            pr = self.pres(st, self.children, k)
            if pr is None:
                self.bad(eng, st, "C11" if self.role == "get" else "C12", "unasked:%s" % what,
                         "%s: the child %s is never looked up" % (what, "at the next level's text" if k == self.head else k[1][0][1].decode()))
                return None
            if pr:
                want.append(k)
        return want

    def check_get(self, eng, st, keys, hash_too, what):
        vis = st.ghost.get("visits", ())
        for k, good, r in vis:
            if not good:
                self.bad(eng, st, "C11", "visit:" + what, "%s: a branch is searched for something else than all the remaining levels" % what)
                return
        want = self.children_of(st, keys, what, eng)
        if want is None:
            return
        got = {k for k, _, _ in vis}
        if set(want) - got:
            self.bad(eng, st, "C11", "missed:" + what, "%s: a matching branch is not searched" % what)
            return
        if got - set(want):
            self.bad(eng, st, "C11", "extra:" + what, "%s: a branch that does not match is searched" % what)
            return
        cols = dict(st.ghost.get("cols", ()))
        lst = "subs" if self.share is None else "shared"
        allowed = {}
        if not keys and self.op == "get":
            allowed[("", lst)] = lst == "subs" or self.pres(st, self.shared, self.share)
        if hash_too:
            h = self.pres(st, self.children, HASH)
            if h is None:
                self.bad(eng, st, "C11", "unasked#:" + what, "%s: the child # is never looked up" % what)
                return
            if h:
                allowed[("H", lst)] = lst == "subs" or self.pres(st, self.hshared, self.share)
        for k in cols:
            if k[:2] not in allowed:
                self.bad(eng, st, "C11", "foreign:" + what, "%s: subscriptions of a filter that does not match are collected" % what)
                return
        wk = {"subs": ("", "subs"), "shared": ("", "shared"), "hsubs": ("H", "subs"), "hshared": ("H", "shared")}.get(self.who)
        for k, pr in allowed.items():
            if pr is None:
                self.bad(eng, st, "C11", "unasked-share:" + what, "%s: the group is never looked up" % what)
                return
            if k == wk and pr and not cols.get(k + ("*",)):
                self.bad(eng, st, "C11", "uncollected:%s:%s%s" % (what, k[0], k[1]), "%s: a matching subscription is not collected" % what)
                return
        self.ok("C11", len(want) + len(allowed) + 1)
        self.ends_ok += 1

    def end_get(self, eng, st, v):
        keys = [self.head, PLUS] if self.head is not None else []
        self.check_get(eng, st, keys, True, "a node")

    def end_tget(self, eng, st, v):
        v = v if v[0] == "adt" else None
        if v is None or variant_name(eng, v) == "Err":
            if st.ghost.get("tok") != "err" or st.ghost.get("visits"):
                self.bad(eng, st, "C11", "tget:err", "the lookup of an accepted topic fails")
            else:
                self.ok("C11")
            return
        d = self.dollar(st)
        if d is None:
            self.bad(eng, st, "C11", "tget:dollar", "topics starting with $ are not told apart from the others")
            return
        keys = [self.head] if d else [self.head, PLUS]
        self.check_get(eng, st, keys, not d, "the root")

    def watch(self, eng, st):
        if self.op == "tinsert":
            for ch in "+#":
                if ("fine", ch) not in st.ghost and self.fine(st, ch):
                    st.ghost[("fine", ch)] = True
            return
        d = self.dollar(st)
        if d is not None:
            st.ghost["dollar"] = d

    def dollar(self, st):
        if "dollar" in st.ghost:
            return st.ghost["dollar"]
        L = A(("s", "L0len", "len"))
        if st.is_zero(L):
            return False
        m = st.m(("B", "L0", ZERO))
        if not st.nonneg(addc(L, -1)):
            # the empty level and the others are treated alike: fine if no byte was asked for
            return False if not m >> 36 & 1 else None
        if m == 1 << 36:
            return True
        return None if m >> 36 & 1 else False

    # insert / delete
    def final_self(self, eng, st):
        return st.cells.get(("hp", "self"))

    def lists(self, eng, st, v):
        """(own list, the group's list or None)"""
        return None

    def map_changes(self, st):
        return st.ghost.get("mapw", ())

    def ev_mapinsert(self, eng, st, ev):
        if ev[2].startswith("dashmap") or True:
            x = ev[4]
            fresh = None
            if x is not None:
                if x[0] == "adt" and x[1] == HIER:
                    fresh = all(y[0] == "map" and not y[3] and not any(pr for _, pr in y[4]) or y[0] == "vec" and not y[1] for y in x[3])
                elif x[0] == "vec":
                    fresh = not x[1]
            if fresh and ev[5] is False:
                # inserted as an empty object where nothing was
                self.log(st, "mapw", ("new", ev[1], ev[3]))
            else:
                self.log(st, "mapw", ("put", ev[1], ev[3]))

    def ev_mapremove(self, eng, st, ev):
        if ev[4]:
            self.log(st, "mapw", ("del", ev[1], ev[3]))

    def ev_mapclear(self, eng, st, ev):
        self.log(st, "mapw", ("clear", ev[1], None))

    def ev_vecremove(self, eng, st, ev):
        x = ev[2]
        if self.role not in ("insert", "delete"):
            return
        idn = self.leaf_id(eng, x)
        if idn is None or not st.is_zero(sub(idn, self.ident)):
            self.bad(eng, st, "C12", "remove:other", "an entry of another client can be removed")
        elif self.who == "same" and not self.is_witness(x):
            raise Infeasible()      # a list never holds two entries of one client
        else:
            self.ok("C12")

    def leaf_id(self, eng, x):
        if x[0] == "sym" and x[2] == LEAF:
            x = eng.expand(None, x, 0)
        if x[0] != "adt" or x[1] != LEAF:
            return None
        for f, y in zip(eng.p.types[LEAF]["variants"][0]["f"], x[3]):
            if f["t"] == "u128":
                return y[1]
        return None

    def ev_vecset(self, eng, st, ev):
        if self.op == "collect":
            self.updated(eng, st, ev[3], ev[4])
            return
        if self.role in ("insert", "delete"):
            old, new = ev[3], ev[4]
            idn = self.leaf_id(eng, old)
            if old != U and (idn is None or not st.is_zero(sub(idn, self.ident))) or new != U and new != self.leaf:
                self.bad(eng, st, "C12", "replace:other", "an entry of another client can be overwritten")
            elif old != U and self.who == "same" and not self.is_witness(old):
                raise Infeasible()      # a list never holds two entries of one client

    def ev_retain(self, eng, st, ev):
        st.ghost["retained"] = True

    def own_list(self, eng, st):
        """the list the operation is about, at the end"""
        me = st.cells[("hp", "self")]
        if self.share is None:
            return me[3][self.hf["subs"]]
        pr = None
        for k, x in me[3][self.hf["shared"]][4]:
            if k == self.share:
                pr = x
        if pr:
            return st.cells.get(("mc", self.shared, self.share, "std::vec::Vec<%s>" % LEAF))
        return ("vec", ())

    def check_list(self, eng, st, added):
        v = self.own_list(eng, st)
        if v is None or v[0] != "vec":
            self.bad(eng, st, "C12", "list:shape", "the list of subscriptions cannot be followed")
            return False
        ones = [s[1] for s in v[1] if s[0] == "one"]
        n = sum(1 for x in ones if x == self.leaf)
        if added and n != 1:
            self.bad(eng, st, "C12", "list:added", "the subscription is stored %d times" % n)
            return False
        w = sum(1 for x in ones if self.is_witness(x))
        if self.who == "other" and w != 1:
            if self.share is None or self.pres(st, self.shared, self.share):
                self.bad(eng, st, "C12", "list:lost", "another client's entry at this filter is lost")
                return False
        if self.who == "same" and w != 0 and (self.share is None or self.pres(st, self.shared, self.share)):
            self.bad(eng, st, "C12", "list:kept", "the client's own entry at this filter stays behind")
            return False
        strange = [x for x in ones if x != self.leaf and not self.is_witness(x) and self.source(x) is None]
        if strange:
            self.bad(eng, st, "C12", "list:extra", "an entry nobody asked for is stored")
            return False
        return True

    def untouched(self, eng, st, names):
        me = st.cells[("hp", "self")]
        for nm in names:
            i = self.hf[nm]
            if me[3][i] != self.orig[3][i]:
                if me[3][i][0] == "map" and me[3][i][2] == self.orig[3][i][2]:
                    continue        # only looked up: writes are in the log
                return False
        return True

    def writes_ok(self, eng, st, allowed, what):
        for k, mid, key in st.ghost.get("mapw", ()):
            if (k, mid, key) not in allowed:
                self.bad(eng, st, "C12", "mapw:%s:%s" % (what, k), "%s: an entry of the tree that is not the named one is changed" % what)
                return False
        return True

    def end_insert(self, eng, st, v):
        vis = st.ghost.get("visits", ())
        if self.head is not None:
            if not (len(vis) == 1 and vis[0][1] and vis[0][0] == self.head):
                self.bad(eng, st, "C12", "insert:descend", "the subscription is not handed to the child for the next level, once")
                return
            if not self.untouched(eng, st, ("subs",)) or not self.writes_ok(eng, st, {("new", self.children, self.head)}, "insert"):
                self.bad(eng, st, "C12", "insert:touch", "storing below a child changes the node itself")
                return
        else:
            if vis:
                self.bad(eng, st, "C12", "insert:deeper", "a subscription whose levels are used up is handed on")
                return
            if not self.writes_ok(eng, st, {("new", self.shared, self.share), ("put", self.shared, self.share)} if self.share else set(), "insert"):
                return
            if self.share is not None and not self.untouched(eng, st, ("subs",)):
                self.bad(eng, st, "C12", "insert:touch", "storing in a group changes the node's own list")
                return
            if not self.check_list(eng, st, True):
                return
        self.ok("C12", 3)
        self.ends_ok += 1

    def end_delete(self, eng, st, v):
        vis = st.ghost.get("visits", ())
        allowed = set()
        if self.head is not None:
            pr = self.pres(st, self.children, self.head)
            if pr is None or pr and not (len(vis) == 1 and vis[0][1] and vis[0][0] == self.head) or not pr and vis:
                self.bad(eng, st, "C12", "delete:descend", "the removal is not handed to the child for the next level, once")
                return
            if pr and self.said(st, ("rec", 1)) is True:
                allowed.add(("del", self.children, self.head))
            if not self.untouched(eng, st, ("subs", "shared")):
                self.bad(eng, st, "C12", "delete:touch", "removing below a child changes the node itself")
                return
        else:
            if vis:
                self.bad(eng, st, "C12", "delete:deeper", "a removal whose levels are used up is handed on")
                return
            if self.share is not None:
                allowed |= {("del", self.shared, self.share)} if self.empty_group(eng, st) else set()
                if not self.untouched(eng, st, ("subs",)):
                    self.bad(eng, st, "C12", "delete:touch", "removing from a group changes the node's own list")
                    return
            if not self.check_list(eng, st, False):
                return
        if not self.writes_ok(eng, st, allowed, "delete"):
            return
        # "may be pruned" is only said of an empty node
        if v[0] == "b" and not self.false_or_empty(eng, st, v):
            self.bad(eng, st, "C12", "delete:prune", "a node that still holds something is reported empty")
            return
        self.ok("C12", 4)
        self.ends_ok += 1

    def empty_group(self, eng, st):
        c = st.cells.get(("mc", self.shared, self.share, "std::vec::Vec<%s>" % LEAF))
        return c is None or c[0] == "vec" and st.is_zero(models.vlen(eng, st, c))

    def said(self, st, name):
        return st.preds.get(("s", name))

    def false_or_empty(self, eng, st, v):
        s = st.copy()
        if not s.assume(v[1]):
            return True
        me = s.cells[("hp", "self")]
        n = models.vlen(eng, s, me[3][self.hf["subs"]])
        if not s.is_zero(n):
            return False
        for nm in ("children", "shared"):
            e = models.map_empty(eng, s, me[3][self.hf[nm]])
            if e[0] != "b" or s.truth(e[1]) is not True:
                return False
        return True

    # collect
    def ev_push(self, eng, st, ev):
        if self.op == "collect":
            self.log(st, "pushed", ev[2])
        elif self.op == "tokenise":
            self.tok_push(eng, st, ev)

    def end_collect(self, eng, st, v):
        up, pu = st.ghost.get("upd", ()), st.ghost.get("pushed", ())
        if not up and not pu:
            # nothing to do: the client is in the result already, with a QoS that is high enough
            wid = ("s", "Wid", "u128")
            other = any(st.is_zero(sub(A(a), self.ident)) for f in st.ge for a, _ in f[1]
                        if a[0] == "s" and len(a) == 3 and a[2] == "u128" and a not in (wid, ("s", "Lid", "u128")))
            if other and self.who == "same":
                raise Infeasible()      # the result never holds two entries of one client
            lq, wq = ("e", QOS, A(("s", "Lqos", ("en", QOS)))), ("e", QOS, A(("s", "Wqos", ("en", QOS))))
            if other or self.who == "same" and self.is_max(eng, st, wq, wq, lq):
                self.ok("C13", 1)
                return
        if len(up) + len(pu) != 1:
            self.bad(eng, st, "C13", "collect:count", "a collected client gets %d new and %d changed entries" % (len(pu), len(up)))
            return
        lf = fields(eng, self.leaf)
        lq = next(x for f, x in zip(eng.p.types[LEAF]["variants"][0]["f"], self.leaf[3]) if f["t"] == QOS)
        lb = next(x for f, x in zip(eng.p.types[LEAF]["variants"][0]["f"], self.leaf[3]) if "Sender" in f["t"])
        if pu:
            if self.who == "same":
                self.bad(eng, st, "C13", "collect:twice", "a client that is in the result already is added a second time")
                return
            x = pu[0]
            if x[0] != "tup" or x[1][0] != ("i", self.ident) or x[1][2] != lq:
                self.bad(eng, st, "C13", "collect:entry", "the entry added is not the subscription's client and QoS")
                return
            if not self.same_bridge(x[1][1], lb):
                self.bad(eng, st, "C13", "collect:bridge", "the entry added has another client's channel")
                return
        self.ok("C13", 3)
        self.ends_ok += 1

    def updated(self, eng, st, old, new):
        self.log(st, "upd", 1)
        lq = next(x for f, x in zip(eng.p.types[LEAF]["variants"][0]["f"], self.leaf[3]) if f["t"] == QOS)
        old = models.deref(eng, st, old)
        if old[0] == "sym":
            old = eng.expand(st, old, 0)
        if old[0] != "tup" or new[0] != "tup" or not st.is_zero(sub(old[1][0][1], self.ident)):
            self.bad(eng, st, "C13", "collect:other", "the entry of another client is changed")
        elif self.who == "same" and old[1][0] != ("i", A(("s", "Wid", "u128"))):
            raise Infeasible()      # the result never holds two entries of one client
        elif new[1][0] != old[1][0] or new[1][1] != old[1][1]:
            self.bad(eng, st, "C13", "collect:changed", "more than the QoS of an entry is changed")
        elif not self.is_max(eng, st, new[1][2], old[1][2], lq):
            self.bad(eng, st, "C13", "collect:max", "the QoS kept is not the higher one of the two")
        else:
            self.ok("C13")

    def same_bridge(self, a, b):
        if a == b:
            return True
        return a[0] == "op" and a[1] == "clone" and b in a

    def is_max(self, eng, st, n, a, b):
        n, a, b = (eng.lin(x) for x in (n, a, b))
        for x, y in ((a, b), (b, a)):
            if st.is_zero(sub(n, x)) and st.nonneg(sub(x, y)):
                return True
        # decide it value by value
        bases = set()
        for l in (n, a, b):
            for at, _ in l[1]:
                bases.add(base_small(at))
        if None in bases or len(bases) > 2:
            return False
        bl = sorted(bases, key=repr)
        tn, good = None, True
        vals = [[x for x in range(256) if st.m(q) >> x & 1] for q in bl]
        if any(len(v) > 8 for v in vals):
            return False
        import itertools
        for combo in itertools.product(*vals):
            s = st.copy()
            if not all(s.assume(("m", q, 1 << x)) for q, x in zip(bl, combo)):
                continue
            av, bv, nv = (s.bounds(l) for l in (a, b, n))
            if av[0] != av[1] or bv[0] != bv[1] or nv != (max(av[0], bv[0]),) * 2:
                return False
        return True

    # the tree itself
    def end_tinsert(self, eng, st, v):
        vis = st.ghost.get("visits", ())
        ok_ = v[0] == "adt" and variant_name(eng, v) == "Ok"
        if st.ghost.get("tok") == "err":
            if vis or ok_ or st.ghost.get("mapw"):
                self.bad(eng, st, "C12", "tinsert:err", "a filter that cannot be split is stored or reported stored")
            else:
                self.ok("C12")
            return
        if not ok_:
            if vis:
                self.bad(eng, st, "C12", "tinsert:failstore", "a subscription reported as refused is stored")
            elif st.ghost.get("mapw"):
                self.bad(eng, st, "C12", "tinsert:failmap", "a refused subscription changes the tree")
            else:
                self.ok("C12")
            if self.must_accept(st):
                self.bad(eng, st, "C12", "tinsert:refused", "a filter without wildcards is refused")
            return
        if not (len(vis) == 1 and vis[0][1] and vis[0][0] == self.head):
            self.bad(eng, st, "C12", "tinsert:descend", "a subscription reported as stored is not handed to the child for its first level with the other levels")
            return
        if not self.writes_ok(eng, st, {("new", self.children, self.head)}, "insert"):
            return
        w = self.invalid(eng, st)
        if w:
            self.bad(eng, st, "C11", "filter:" + w, "a filter with %s is stored" % w)
            return
        self.ok("C11")
        self.ok("C12", 2)
        self.ends_ok += 1

    def must_accept(self, st):
        return False

    def invalid(self, eng, st):
        for ch in "+#":
            if ("fine", ch) not in st.ghost and not self.fine(st, ch):
                return "'%s' in a wrong place" % ch
        return None

    def fine(self, st, ch):
        """the level W does not hold ch, or is ch alone and may be"""
        L = A(("s", "Wlen", "len"))
        if st.preds.get(("has", text("W"), ch)) is False or st.is_zero(L):
            return True
        if not st.is_zero(addc(L, -1)):
            return False
        m = st.m(("B", "W", ZERO))
        return not m >> ord(ch) & 1 or ch == "+" or self.who in ("W", "xW")

    def end_tdelete(self, eng, st, v):
        vis = st.ghost.get("visits", ())
        if st.ghost.get("tok") == "err":
            if vis or st.ghost.get("mapw"):
                self.bad(eng, st, "C12", "tdelete:err", "a filter that cannot be split changes the tree")
            else:
                self.ok("C12")
            return
        pr = self.pres(st, self.children, self.head)
        if pr is None or pr and not (len(vis) == 1 and vis[0][1] and vis[0][0] == self.head) or not pr and vis:
            self.bad(eng, st, "C12", "tdelete:descend", "the removal is not handed to the child for its first level with the other levels")
            return
        allowed = {("del", self.children, self.head)} if pr and self.said(st, ("rec", 1)) is True else set()
        if not self.writes_ok(eng, st, allowed, "delete"):
            return
        self.ok("C12", 2)
        self.ends_ok += 1

    # splitting
    def tok_push(self, eng, st, ev):
        x = models.deref(eng, st, ev[2])
        if x == text("W") and ev[3][0] == "vec":
            self.log(st, "wpos", models.vlen(eng, st, ev[3]))

    def end_tokenise(self, eng, st, v):
        if v[0] != "adt":
            self.bad(eng, st, "C11", "tokenise:shape", "the result of splitting cannot be followed")
            return
        if variant_name(eng, v) == "Err":
            self.ok("C11")
            return
        tup = v[3][0]
        lv, sh = tup[1]
        var, f = eng.open(st, sh)
        n = models.vlen(eng, st, lv)
        if not st.nonneg(sub(K(MAXDEPTH), n)):
            self.bad(eng, st, "C01", "tokenise:depth", "a topic of any number of levels is accepted, and the tree recurses once per level")
            return
        self.ok("C01")
        if var == 1:
            self.ok("C11")
            return
        m = models.deref(eng, st, lv)
        if not st.is_zero(sub(n, self.total)):
            self.bad(eng, st, "C11", "tokenise:count", "the number of levels is not the number of parts between the slashes")
            return
        pos, at = ZERO, None
        for s in lv[1]:
            if s[0] == "one" and models.deref(eng, st, s[1]) == text("W"):
                at = pos
            pos = add(pos, models.vseg_len(s))
        if at is None or not st.is_zero(sub(at, self.wpos)):
            self.bad(eng, st, "C11", "tokenise:order", "the levels are not the parts between the slashes in their order")
            return
        self.ok("C11", 3)
        self.ends_ok += 1


# ------------------------------------------------------------------ the jobs
def levels(v):
    """(segments, position of W, count) of a list of levels with a distinguished one"""
    W, X = ("one", text("W")), ("one", text("X"))
    a, b = any_seg("la", STRING), any_seg("lb", STRING)
    if v == "W":
        return (W,), ZERO, ONE
    if v == "Wx":
        return (W, X, b), ZERO, addc(b[3], 2)
    if v == "xW":
        return (X, a, W), addc(a[3], 1), addc(a[3], 2)
    return (X, a, W, ("one", text("Y")), b), addc(a[3], 1), add(addc(a[3], 3), b[3])


def leaf_value(p, pre):
    vals = []
    for f in p.types[LEAF]["variants"][0]["f"]:
        if f["t"] == "u128":
            vals.append(("i", A(("s", pre + "id", "u128"))))
        elif f["t"] == QOS:
            vals.append(("e", QOS, A(("s", pre + "qos", ("en", QOS)))))
        else:
            vals.append(("sym", (pre, f["n"]), f["t"]))
    return ("adt", LEAF, 0, tuple(vals))


def pair(st, who, p):
    """a list with a distinguished element"""
    return ("vec", (any_seg("pre", LEAF), ("one", leaf_value(p, "W")), any_seg("post", LEAF)))


def origins(x, its):
    """for an operand: the place of the map it refers to (None: unknown); for an iterator: those of the maps it may go through"""
    alias, src = {}, {k: set() for k in its}

    def place(pl):
        l, pr = pl["l"], tuple(q[1] for q in pl["p"] if q[0] == "field")
        if l in alias:
            a = alias[l]
            return None if a is None else (a[0], a[1] + pr)
        return (l, pr)

    def maps(o):
        pl = o.get("m") or o.get("c") if isinstance(o, dict) else None
        if pl is None:
            return set()
        if pl["l"] in its:
            return src[pl["l"]]
        a = place(pl)
        if a is not None and a[0] in its:
            return src[a[0]]
        return {a} if "DashMap<" in x["locals"][pl["l"]] else set()
    for _ in range(4):
        seen = set()
        for b in x["blocks"]:
            for s in b["s"]:
                if s[0] != "a" or s[1]["p"]:
                    continue
                l = s[1]["l"]
                o = s[2][1] if s[2][0] in ("ref", "use") else None
                pl = o if s[2][0] == "ref" else (o.get("m") or o.get("c")) if isinstance(o, dict) else None
                if l in its:
                    src[l] |= src.get(pl["l"], set()) if pl else {None}
                elif pl is not None and x["locals"][l].startswith("&"):
                    alias[l] = place(pl) if l not in seen else None
                    seen.add(l)
            t = b["t"]
            if t[0] == "call" and t[3]["l"] in its and not t[3]["p"]:
                for o in t[2]:
                    src[t[3]["l"]] |= maps(o)

    def of(o):
        if isinstance(o, int):
            return src[o] or {None}
        pl = o.get("m") or o.get("c")
        return None if pl is None else place(pl)
    return of


def inside(c):
    """what a closure does to maps it captured"""
    of = origins(c, set())
    for b in c["blocks"]:
        t = b["t"]
        if t[0] == "call" and t[1].get("path", "").startswith("dashmap::DashMap") and t[2]:
            a = of(t[2][0])
            if a is None or a[0] == 1:
                yield t[1]["path"].split("::")[-1], ", ".join(t[1].get("args", ())[:2])


def awaits(p):
    """no map is changed while an iterator over it is alive, in any function; and no guard into a concurrent map is alive where a task is suspended: liveness over each coroutine's MIR"""
    viol, n, names = [], 0, []
    for i, x in p.inst.items():
        if not x["local"]:
            continue
        its = {k for k, t in enumerate(x["locals"]) if not t.startswith("&") and ("dashmap::iter" in t or "dashmap::mapref::multiple" in t)}
        if not its and not any(b["t"][0] == "yield" or b["t"][0] == "call" and b["t"][1].get("path", "").startswith("dashmap::DashMap")
                               for b in x["blocks"]):
            continue
        names.append(x["path"])
        of = origins(x, its) if its else None
        g = {k for k, t in enumerate(x["locals"]) if not t.startswith("&") and ("dashmap::mapref" in t or "dashmap::iter" in t or "RwLockReadGuard" in t or "RwLockWriteGuard" in t)}
        held = {0: frozenset()}
        todo = [0]
        while todo:
            b = todo.pop()
            h = set(held[b])
            bl = x["blocks"][b]

            def used(o):
                if isinstance(o, dict) and "m" in o and (not o["m"]["p"] or o["m"]["p"][0][0] == "down"):
                    h.discard(o["m"]["l"])
                elif isinstance(o, (list, tuple)):
                    for y in o:
                        used(y)
            for s in bl["s"]:
                if s[0] == "a":
                    used(s[2])
                    if s[1]["l"] in g:
                        h.add(s[1]["l"])
                elif s[0] == "dead":
                    h.discard(s[1])
            t = bl["t"]
            succ = []
            if t[0] == "goto":
                succ = [t[1]]
            elif t[0] == "switch":
                succ = [bb for _, bb in t[2]] + [t[3]]
            elif t[0] == "drop":
                if not t[1]["p"]:
                    h.discard(t[1]["l"])
                succ = [t[2]]
            elif t[0] == "call":
                last = (t[1].get("path") or "").split("::")[-1]
                if of and t[1].get("path", "").startswith("dashmap::DashMap") and t[2]:
                    n += 1
                    to = of(t[2][0])
                    for k in sorted(h & its):
                        if (last in Mon.WRITES or "Mut" in x["locals"][k]) and (to is None or None in of(k) or to in of(k)):
                            viol.append({"key": ["C16", "lock:%s:%s" % (x["path"], last)], "where": "%s (%s)" % (x["path"], bl.get("sp", "")),
                                         "msg": "%s on a map of the tree while an iterator over it, or an entry it gave, is alive" % last, "path": []})
                            break
                used(t[2])
                held_by = [x["locals"][o["m"]["l"]] for o in t[2] if isinstance(o, dict) and "m" in o and not o["m"]["p"]]
                through = next((y for y in held_by if not y.startswith("closure:") and ("dashmap::iter" in y or "dashmap::mapref::multiple" in y)), None)
                if through or t[1].get("path", "").startswith("dashmap::DashMap") and last in ("retain", "alter", "alter_all", "remove_if", "view"):
                    for y in held_by:
                        c = p.inst.get((p.types.get(y) or {}).get("inst")) if y.startswith("closure:") else None
                        for op, kv in inside(c) if c else ():
                            n += 1
                            if kv not in (through or ", ".join(t[1].get("args", ()))):
                                continue            # a map of another kind
                            if op in Mon.WRITES or not through and last != "view" or through and "Mut" in through:
                                viol.append({"key": ["C16", "lock:%s:%s" % (x["path"], op)], "where": "%s (%s)" % (c["path"], bl.get("sp", "")),
                                             "msg": "%s on a map of the tree in a closure that %s runs on the entries of one" % (op, last), "path": []})
                if t[3]["l"] in g:
                    h.add(t[3]["l"])
                succ = [t[4]]
            elif t[0] == "assert":
                succ = [y for y in t[1:] if isinstance(y, int) and not isinstance(y, bool)][-1:]
            elif t[0] == "yield":
                n += 1
                if h:
                    viol.append({"key": ["C16", "await:" + x["path"]], "where": "%s (%s)" % (x["path"], bl.get("sp", "")),
                                 "msg": "a guard of a concurrent map (%s) is alive at a suspension point" % x["locals"][min(h)], "path": []})
                succ = [t[2]]
            for y in succ:
                if y is None:
                    continue
                new = frozenset(h) | held.get(y, frozenset())
                if y not in held or new != held[y]:
                    held[y] = new
                    todo.append(y)
    r = missing([], "")
    r.update(viol=viol, ob={"C16": n}, fns=names, what="guards at %d suspension points" % n)
    if not n:
        return missing(["C16"], "suspension points")
    return r


def run(p, op, who, lv=1, sh=0):
    if op == "await":
        return awaits(p)
    hf = hier_fields(p)
    ops = operations(p)
    if hf is None or {"get", "insert", "delete"} - set(ops.values()):
        return missing(PROPS, "recursive operations of the subscription tree")
    mon = Mon(p, op, who)
    mon.role = op if op[0] != "t" else {"tget": "get", "tinsert": "insert", "tdelete": "delete"}.get(op)
    models.WITNESS.clear()
    models.WITNESS |= {("s", "Wid", "u128"), ("s", "Lid", "u128"), ("s", "Wlen", "len")}
    res = None
    cols = collectors(p)
    mon.outty = outty(p)
    if op == "collect":
        roots = cols
    elif op in ("get", "insert", "delete"):
        roots = [i for i, r in ops.items() if r == op]
    elif op == "tokenise":
        roots = p.fn("utils::tokenise_topic")
    else:
        roots = p.fn(TREE + "::" + op[1:])
    if not roots:
        return missing(PROPS, op)
    for root in roots:
        res = one(p, op, who, lv, sh, mon, root, ops, cols, hf)
    if not mon.ends_ok and not res["viol"] and not (op in ("get", "insert", "delete") and len(roots) > 1):
        res["viol"].append({"key": ["C11" if mon.role in ("get", None) else "C12", "none:" + op], "msg": "no path of %s completes" % op,
                            "where": op, "path": []})
    res["what"] = "%s (%s, %s, %s): %d end states" % (op, who, "levels left" if lv else "no level left", "group" if sh else "no group", mon.ends)
    return res


def outty(p):
    for i, x in p.inst.items():
        if x["local"]:
            for t in params(p, i):
                if t.startswith("&mut " + OUT):
                    return split_args(t[5:])[0]
    return "(u128, tokio::sync::mpsc::Sender<core::enums::ClientEvent>, %s)" % QOS


def one(p, op, who, lv, sh, mon, root, ops, cols, hf):
    eng = new_engine(p, mon)
    eng.map_limit = 8
    eng.pin = lambda st, a: a[0] == "s" and a[1] in ("nlev", "L0len", "Wlen", "Wid", "Lid") or a[0] == "B" and a[1] in ("L0", "W") \
        or a[0] == "s" and a[2] == "u128" \
        or a[0] == "s" and isinstance(a[1], tuple) and a[1][0] == "len" and a[1][1] in ("la", "lb", "pre", "post")
    st = St()
    mon.share = text("SH") if sh else None
    OS = "std::option::Option<%s>" % STRING
    share = ("adt", OS, 1, (mon.share,)) if sh else ("adt", OS, 0, ())
    mon.leaf = leaf_value(p, "L")
    eng.keep_items = (mon.leaf,)
    mon.ident = A(("s", "Lid", "u128"))
    if op == "collect":
        e = ("tup", (("i", A(("s", "Wid", "u128"))), ("sym", "Wbridge", split_args("x<" + mon.outty[1:-1] + ">")[1]),
                     ("e", QOS, A(("s", "Wqos", ("en", QOS))))))
        st.cells[("hp", "out")] = ("vec", (any_seg("pre", mon.outty), ("one", e), any_seg("post", mon.outty)))
        st.cells[("hp", "leaf")] = mon.leaf
        d = sub(A(("s", "Wid", "u128")), mon.ident)
        if not st.assume(("eq", d), who == "same"):
            raise ValueError("assume")
        args = []
        for t in params(p, root):
            args.append(("ref", ("hp", "out"), (), True) if t.startswith("&mut") else ("ref", ("hp", "leaf"), (), False))
        eng.frame_push(st, root, args)
        return run_job(eng, st, mon)
    if op == "tokenise":
        segs, mon.wpos, mon.total = levels(who)
        src = BY(("s", "F", ZERO, A(("s", "flen", "len"))))

        def split(eng, st, a, c):
            v = models.as_by(eng, st, a[0])
            pc = models.pattern_chars(eng, st, a[1])
            if v != src or pc is None or (pc[1] if pc[0] == "str" else "".join(sorted(pc[1])).encode()) != b"/":
                mon.bad(eng, st, "C11", "tokenise:split", "the topic is not split at its slashes")
            return ("it", "vals", ("vec", tuple(("one", ("vref", s[1])) if s[0] == "one" else ("any", s[1], "&str", s[3]) for s in segs)), ZERO, "val")
        eng.summaries["core::str::<impl str>::split"] = split
        args = [src if t == STRING else ("vref", src) for t in params(p, root)]
        eng.frame_push(st, root, args)
        return run_job(eng, st, mon)
    # a node and the levels left
    rest = (any_seg("lv", STRING, N),)
    if op in ("tinsert",):
        segs, wp, total = levels(who)
        first, rest = segs[0], segs[1:]
        mon.head = first[1]
    elif lv:
        mon.head = notwild(st, "L0") if mon.role == "get" else text("L0")
        segs = (("one", mon.head),) + rest
    else:
        mon.head, segs, rest = None, (), ()
    mon.rest = rest
    me = eng.sym("self", HIER)
    ch = ("c", "self", 0, hf["children"])
    mon.children, mon.shared = ch, ("c", "self", 0, hf["shared"])
    # the lists a path may see, by the name of their elements
    selfsubs, hashname = ("c", "self", 0, hf["subs"]), ("mv", ch, HASH)
    mon.hshared = ("c", hashname, 0, hf["shared"])
    mon.names = {selfsubs: ("", "subs"), ("mv", mon.shared, mon.share): ("", "shared"),
                 ("c", hashname, 0, hf["subs"]): ("H", "subs"), ("mv", mon.hshared, mon.share): ("H", "shared"),
                 "pre": None, "post": None}
    if mon.role in ("insert", "delete"):
        mon.names = {}
    tgt = {"subs": selfsubs, "shared": ("mv", mon.shared, mon.share), "hsubs": ("c", hashname, 0, hf["subs"]),
           "hshared": ("mv", mon.hshared, mon.share)}.get(who)
    if mon.role in ("insert", "delete") and who in ("same", "other"):
        tgt = selfsubs if not sh else ("mv", mon.shared, mon.share)
    wl = pair(st, who, p)
    if tgt is not None:
        mon.names["pre"] = mon.names["post"] = mon.names[tgt] = mon.names.get(tgt, ("", ""))

    def sym(name, ty, plain=eng.sym):
        if name == tgt and tgt is not None and isinstance(ty, str) and ty.startswith("std::vec::Vec<"):
            return wl
        return plain(name, ty)
    eng.sym = sym
    me = eng.sym("self", HIER)
    mon.orig = me
    d = sub(A(("s", "Wid", "u128")), mon.ident)
    if who in ("same", "other") and not st.assume(("eq", d), who == "same"):
        raise ValueError("assume")
    st.cells[("hp", "self")] = me
    st.cells[("hp", "out")] = ("vec", (any_seg("out", mon.outty),))
    it = ("it", "vals", ("vec", segs), ZERO, "val")
    for i in ops:
        eng.summaries[p.inst[i]["path"]] = (lambda i: lambda eng, st, a, c: mon.visit(eng, st, c, a, c["inst"]))(i)
    for i in cols:
        eng.summaries[p.inst[i]["path"]] = lambda eng, st, a, c: mon.collect(eng, st, c, a, c["inst"])
    if op[0] == "t":
        tk = only(p, "utils::tokenise_topic")
        rty = p.inst[tk]["locals"][0]

        def tok_(eng, st, a, c):
            if eng.choose(st, 2) == 0:
                st.ghost["tok"] = "err"
                return ("adt", rty, 1, (("i", A(("s", "tokerr", "u8"))),))
            return ("adt", rty, 0, (("tup", (("vec", segs), share)),))
        eng.summaries["utils::tokenise_topic"] = tok_
        st.cells[("hp", "self")] = ("adt", TREE, 0, (me[3][hf["children"]],))
    args = []
    for n, t in enumerate(params(p, root)):
        if TREE in t or HIER in t and t[0] == "&":
            args.append(("ref", ("hp", "self"), (), t.startswith("&mut")))
        elif t == ITER:
            args.append(it)
        elif t == "&mut " + ITER:
            st.cells[("hp", "it")] = it
            args.append(("ref", ("hp", "it"), (), True))
        elif t == STRING:
            args.append(text("F"))
        elif t == LEAF:
            args.append(mon.leaf)
        elif t == "u128":
            args.append(("i", mon.ident))
        elif t.startswith("&mut " + OUT):
            args.append(("ref", ("hp", "out"), (), True))
        elif t.endswith(OS):
            args.append(share if t[0] != "&" else ("vref", share))
        elif t in ("&[%s]" % STRING, "std::vec::Vec<%s>" % STRING):
            args.append(("vec", segs) if t[0] != "&" else ("vref", ("vec", segs)))
        else:
            args.append(eng.sym("arg%d" % n, t))
    if op in ("tget", "tinsert"):
        eng.watch = mon.watch
    st.ghost["keep"] = tuple(("ref", k, (), True) for k in sorted(st.cells) if k[0] == "hp")
    eng.frame_push(st, root, args)
    return run_job(eng, st, mon)

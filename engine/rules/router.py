"""One step of the router, from receiving a command to waiting for the next: C01, C10, C12, C13, C14, C15,
C19, C20, C24, C25, C27.

The router is the task that owns the receiving end of the command channel.  Its code up to the first
receive runs as it is; then everything it keeps between commands becomes arbitrary, one command with
arbitrary contents arrives, and the code runs on to the next receive.  A distinguished element at an
arbitrary place of each list (requested filters, matching subscribers, filters of the old session)
stands for "every element".  The subscription tree is replaced by what rules/tree.py shows about it.
"""
from rules.common import *
from rules.tree import text, any_seg, LEAF, TREE, QOS, STRING, outty

PROPS = ("C01", "C10", "C12", "C13", "C14", "C15", "C19", "C20", "C24", "C25", "C27")
CMD = "core::enums::Command"
EV = "core::enums::ClientEvent"
RX = "tokio::sync::mpsc::Receiver<%s>" % CMD
CODE = "packets::enums::SubackReturnCode"
COMMANDS = ("register", "subscribe", "unsubscribe", "publish", "disconnect", "exit", "closed")
CH = ("symchan", "cmd", CMD)


def kind_of(v):
    """what a variant of Command asks for, by the types it carries"""
    ts = [f["t"] for f in v["f"]]
    if not ts:
        return "exit"
    if any("bytes::Bytes" in t for t in ts):
        return "publish"
    if any(t.startswith("tokio::sync::mpsc::Sender") for t in ts):
        return "register"
    if any("Vec<(" in t and QOS in t for t in ts):
        return "subscribe"
    if any(t == "std::vec::Vec<%s>" % STRING for t in ts):
        return "unsubscribe"
    if STRING in ts and "u128" in ts:
        return "disconnect"
    return "?"


def router_roots(p):
    """the outermost coroutines that own the receiving end of the command channel"""
    own = {k: t for k, t in p.types.items() if t.get("k") == "coroutine" and RX in t["upvars"] and p.inst.get(t["inst"], {}).get("local")}
    inner = set()
    for k, t in own.items():
        for b in p.inst[t["inst"]]["blocks"]:
            for s in b["s"]:
                if s[0] == "a" and s[2][0] == "agg" and isinstance(s[2][1], dict):
                    i = s[2][1].get("inst")
                    inner |= {k2 for k2, t2 in own.items() if t2["inst"] == i and k2 != k}
            tt = b["t"]
            if tt[0] == "call" and isinstance(tt[1], dict) and tt[1].get("inst") in p.inst:
                r = p.inst[tt[1]["inst"]]["locals"][0]
                inner |= {r} & set(own) - {k}
    return [k for k in own if k not in inner]


def jobs():
    return [("router", c) for c in COMMANDS]


class Mon(Base):
    props = PROPS

    def __init__(self, p, kind):
        Base.__init__(self)
        self.p, self.kind = p, kind
        self.done = 0
        self.pidfields = []

    # ------------------------------------------------------------ helpers
    def cnt(self, st, k, n=1):
        st.ghost[k] = min(st.ghost.get(k, 0) + n, 3)

    def session(self, eng, st):
        """(present, value) of the session of the command's client in the map it arrived with"""
        pr = st.preds.get(("in", self.smap, self.cid))
        if pr is None:
            pr = st.ghost.get("pres")
        return pr

    def is_cid(self, v):
        return v is not None and v == self.cid

    # ------------------------------------------------------------ what must not happen
    def ev_panic(self, eng, st, ev):
        for pr in ("C01", "C27"):
            self.bad(eng, st, pr, "panic:%s:%s" % (fname(eng, st), short(ev[1], 60)), "the router can reach %s" % short(ev[1]))

    def ev_wait(self, eng, st, ev):
        f = ev[1]
        if f[2] == "recv" and f[3] == CH:
            self.ok("C15")
            return
        for pr in ("C15",):
            self.bad(eng, st, pr, "wait:%s" % f[2], "the router waits for something else than its next command: %s" % short(f[2:4], 80))

    def ev_blocking(self, eng, st, ev):
        self.bad(eng, st, "C15", "blocking:%s" % ev[1], "the router's thread is blocked by %s" % ev[1])

    def ev_spawn(self, eng, st, ev):
        self.bad(eng, st, "C25", "spawn:" + fname(eng, st), "the router hands work to a concurrent task")

    def ev_atomic(self, eng, st, ev):
        self.bad(eng, st, "C24", "atomic:" + fname(eng, st), "the router changes a statistic: %s" % short(ev[1:], 80))

    # ------------------------------------------------------------ answers and messages
    def ev_osend(self, eng, st, ev):
        name, val, okk = ev[1], ev[2], ev[3]
        if name != "cb":
            self.bad(eng, st, "C10", "answer:other", "something else than the request's own callback is answered")
            return
        n = st.ghost.get("answers", 0)
        if n:
            self.bad(eng, st, "C10", "answer:twice", "a request is answered twice")
            return
        st.ghost["answers"] = 1
        if self.kind == "subscribe" and val[0] == "adt" and val[2] == 0:
            v = models.deref(eng, st, val[3][0])
            if v[0] != "vec":
                self.bad(eng, st, "C10", "codes:shape", "the return codes cannot be followed")
            elif not st.is_zero(sub(sum_([vseg_len(s) for s in v[1]]), self.ntopics)):
                self.bad(eng, st, "C10", "codes:count", "there is not one return code per requested filter")
            val = ("adt", val[1], 0, (UNIT,))
        st.ghost["answer"] = val

    def ev_try_send(self, eng, st, ev):
        ch, val, okk = ev[1], ev[2], ev[3]
        if val[0] != "adt" or val[1] != EV:
            for pr in ("C14", "C20"):
                self.bad(eng, st, pr, "sent:shape", "an unknown value is sent to a connection")
            return
        f = val[3]
        if self.kind == "publish":
            if not f:
                self.bad(eng, st, "C20", "disconnect:publish", "a connection is told to close by a publish")
                return
            pk = self.pkt(f[0])
            if pk is None:
                self.bad(eng, st, "C14", "sent:packet", "something else than a PUBLISH made for this message is sent")
                return
            w = self.chan_of_sub(ch)
            if w is None:
                self.bad(eng, st, "C14", "sent:to", "the message is sent to a connection that is not among the subscribers")
                return
            self.ok("C14")
            if w == "W":
                if st.ghost.get("wsent"):
                    self.bad(eng, st, "C13", "sent:twice", "a subscriber is sent two copies")
                    return
                st.ghost["wsent"] = 1
                if not self.qos_is_min(st, pk[1]):
                    self.bad(eng, st, "C13", "sent:qos", "the copy is not sent at the lower of the published and the granted QoS")
                    return
                self.ok("C13")
            return
        if self.kind != "register" or f:
            self.bad(eng, st, "C20", "told:%s" % self.kind, "a connection is sent a message by a %s request" % self.kind)
            return
        if ch != self.oldch:
            self.bad(eng, st, "C20", "told:other", "a connection other than the older one of the client identifier is told to close")
            return
        self.ok("C20")

    ev_send = lambda self, eng, st, ev: self.bad(eng, st, "C15", "send", "the router waits for room in a queue")

    def pkt(self, b):
        """the token of a packet made for this message"""
        if b[0] == "vref":
            b = b[1]
        if b[0] == "by" and len(b[1]) == 1 and b[1][0][0] == "s" and isinstance(b[1][0][1], tuple) and b[1][0][1][0] == "PKT":
            return b[1][0][1]
        return None

    def chan_of_sub(self, ch):
        if ch == ("symchan", "Wch", EV):
            return "W"
        if ch[0] == "symchan" and isinstance(ch[1], tuple):
            found = []
            walk(ch[1], lambda x: found.append(x[1]) if x[0] == "el" and len(x) == 3 else None)
            if any(x in ("pre", "post") or isinstance(x, tuple) and x[0] == "sl" for x in found):
                return "other"
        return None

    def qos_is_min(self, st, q):
        a, b = self.pubqos, self.wqos
        le = st.nonneg(sub(a, q)) and st.nonneg(sub(b, q))
        return le and (st.is_zero(sub(q, a)) or st.is_zero(sub(q, b)) or self.minval(st, q, a, b))

    def minval(self, st, q, a, b):
        return q == A(("min", a, b)) if False else False

    # ------------------------------------------------------------ replaced functions
    def make_publish(self, eng, st, args, c):
        dup, qos, retain, topic, pid, payload = args[:6]
        for nm, v in (("DUP", dup), ("RETAIN", retain)):
            if v[0] != "b" or st.truth(v[1]) is not False:
                self.bad(eng, st, "C14", "flag:" + nm, "a forwarded message has %s set" % nm)
        t, pl = models.as_by(eng, st, topic), models.as_by(eng, st, payload)
        if t is None or t != self.topic:
            self.bad(eng, st, "C14", "topic", "a forwarded message has another topic")
        if pl is None or pl != self.payload:
            self.bad(eng, st, "C14", "payload", "a forwarded message has another payload")
        q = eng.lin(qos)
        var, pf = eng.open(st, pid)
        zero = eng.decide(st, ("eq", q))
        n = st.ghost.get("npkt", 0)
        if zero:
            if var != 0:
                self.bad(eng, st, "C14", "pid:qos0", "a QoS 0 message has a packet identifier")
        elif var == 0:
            self.bad(eng, st, "C14", "pid:none", "a QoS 1 or 2 message has no packet identifier")
        else:
            x = eng.lin(pf[0])
            if not (st.nonneg(addc(x, -1)) and st.nonneg(addc(scale(x, -1), 65535))):
                self.bad(eng, st, "C14", "pid:zero", "the packet identifier of a forwarded message can be 0")
            last = st.ghost.get("lastpid")
            if last is not None and st.truth(("eq", sub(x, last))) is not False:
                self.bad(eng, st, "C14", "pid:same", "two QoS 1 or 2 messages in a row can have the same packet identifier")
            st.ghost["lastpid"] = x
        self.ok("C14", 5)
        return BY(("s", ("PKT", q), ZERO, A(("s", "pktlen", "len"))))

    def tree_get(self, eng, st, args, c):
        ty = eng.p.inst[c["inst"]]["locals"][0] if c.get("inst") else c["rty"]
        t = models.as_by(eng, st, args[1])
        if t != self.topic:
            self.bad(eng, st, "C14", "lookup", "the subscribers of another topic are looked up")
        if st.ghost.get("looked"):
            self.bad(eng, st, "C13", "lookup:twice", "the subscribers are looked up twice")
        st.ghost["looked"] = 1
        if eng.choose(st, 2) == 0:
            st.ghost["lookup"] = "err"
            return ("adt", ty, 1, (("i", A(("s", "treeerr", "u8"))),))
        st.ghost["lookup"] = "ok"
        o = self.outty
        w = ("tup", (("i", A(("s", "Wid", "u128"))), ("sym", "Wch", "tokio::sync::mpsc::Sender<%s>" % EV), ("e", QOS, self.wqos)))
        return ("adt", ty, 0, (("vec", (any_seg("pre", o), ("one", w), any_seg("post", o))),))

    def element(self, v):
        """what of a list a text is: "W" or "other" element, or None"""
        if v == text("F"):
            return "W"
        found = []
        walk(v, lambda x: found.append(x[1]) if x[0] == "el" and len(x) == 3 else None)
        base = []
        for n in found:
            while isinstance(n, tuple) and n and n[0] == "sl":
                n = n[1]
            base.append(n)
        return "other" if any(b in ("pre", "post") for b in base) else None

    def tree_insert(self, eng, st, args, c):
        ty = eng.p.inst[c["inst"]]["locals"][0]
        f, leaf = models.as_by(eng, st, args[1]), args[2]
        el = self.element(f)
        if self.kind != "subscribe":
            self.bad(eng, st, "C12", "insert:" + self.kind, "a %s request adds a subscription" % self.kind)
        elif el is None:
            self.bad(eng, st, "C12", "insert:filter", "a filter that was not requested is stored")
        else:
            lf = fields(eng, leaf) if leaf[0] == "adt" else {}
            tys = {x["n"]: x["t"] for x in eng.p.types[LEAF]["variants"][0]["f"]}
            for n, v in lf.items():
                if tys[n] == "u128" and not (v[0] == "i" and st.is_zero(sub(v[1], self.oldid))):
                    self.bad(eng, st, "C12", "insert:id", "a subscription is stored under another session's identity")
                if "Sender" in tys[n] and self.chan(eng, st, v) != self.oldch:
                    self.bad(eng, st, "C12", "insert:bridge", "a subscription is stored with another connection's queue")
                if tys[n] == QOS and el == "W" and not st.is_zero(sub(eng.lin(v), self.wqos)):
                    self.bad(eng, st, "C10", "insert:qos", "a subscription is stored with another QoS than requested")
            if not lf:
                self.bad(eng, st, "C12", "insert:leaf", "the stored subscription cannot be followed")
            self.ok("C12", 3)
        good = eng.choose(st, 2) == 0
        if el == "W":
            if st.ghost.get("wins"):
                self.bad(eng, st, "C12", "insert:twice", "a requested filter is stored twice")
            st.ghost["wins"] = "ok" if good else "err"
        st.ghost["ops"] = 1
        return ("adt", ty, 0, (UNIT,)) if good else ("adt", ty, 1, (("i", A(("s", "treeerr", "u8"))),))

    def ev_push(self, eng, st, ev):
        code = ev[2]
        if self.kind != "subscribe" or code[0] not in ("e", "adt") or code[1] != CODE or ev[3][0] != "vec":
            return
        n = sum_([vseg_len(s) for s in ev[3][1]])
        if not eng.decide(st, ("eq", sub(n, self.wpos))):
            return
        w = st.ghost.get("wins")
        if w is None:
            self.bad(eng, st, "C10", "codes:place", "the return code of a filter is not at the filter's place")
            return
        if st.ghost.get("wcode"):
            self.bad(eng, st, "C10", "codes:twice", "there are two return codes for one filter")
            return
        st.ghost["wcode"] = 1
        q = self.code(eng, st, code)
        if q is None or not st.is_zero(sub(q, self.wqos) if w == "ok" else addc(q, -128)):
            self.bad(eng, st, "C10", "codes:value:" + w, "the return code of a %s filter is wrong" % ("stored" if w == "ok" else "refused"))
        else:
            self.ok("C10", 2)

    def ev_reorder(self, eng, st, ev):
        if self.kind == "subscribe":
            self.bad(eng, st, "C10", "codes:order", "the order of filters or return codes is changed")
        if self.kind == "publish":
            self.ok("C14")

    def chan(self, eng, st, v):
        try:
            return models.chan_of(eng, st, v)
        except Unsupported:
            return None

    def tree_delete(self, eng, st, args, c):
        ty = eng.p.inst[c["inst"]]["locals"][0]
        f = models.as_by(eng, st, args[1])
        i = eng.lin(args[2])
        el = self.element(f)
        if el is None or not st.is_zero(sub(i, self.oldid)):
            self.bad(eng, st, "C12", "delete:%s" % ("filter" if el is None else "id"),
                     "a subscription of another %s is removed" % ("filter" if el is None else "session"))
        elif self.kind == "disconnect" and not st.is_zero(sub(self.cmdid, self.oldid)):
            self.bad(eng, st, "C20", "delete:newer", "the end of an older connection removes subscriptions of the newer one")
        elif self.kind not in ("unsubscribe", "register", "disconnect"):
            self.bad(eng, st, "C12", "delete:" + self.kind, "a %s request removes a subscription" % self.kind)
        else:
            self.ok("C12")
        if el == "W":
            st.ghost["wdel"] = 1
        st.ghost["ops"] = 1
        if eng.choose(st, 2) == 0:
            return ("adt", ty, 0, (UNIT,))
        return ("adt", ty, 1, (("i", A(("s", "treeerr", "u8"))),))

    # ------------------------------------------------------------ the session map and the filter sets
    def ev_mapinsert(self, eng, st, ev):
        mid, key, val = ev[1], ev[3], ev[4]
        if mid == self.smap:
            if self.kind != "register" or not self.is_cid(key):
                self.bad(eng, st, "C20", "sessions:insert:" + self.kind, "a session is stored under another client identifier or by another request")
            self.cnt(st, "sins")
            st.ghost["newsess"] = val if val is not None else U
        elif mid == self.fmap:
            el = self.element(key)
            if self.kind == "subscribe" and el == "W":
                st.ghost["wnoted"] = 1

    def ev_mapremove(self, eng, st, ev):
        mid, key, existed = ev[1], ev[3], ev[4]
        if mid == self.smap:
            if self.kind not in ("register", "disconnect") or not self.is_cid(key):
                self.bad(eng, st, "C20", "sessions:remove:" + self.kind, "a session of another client identifier, or by another request, is removed")
            elif self.kind == "disconnect" and existed is not False and not st.is_zero(sub(self.cmdid, self.oldid)):
                self.bad(eng, st, "C20", "sessions:newer", "the end of an older connection removes the newer registration")
            else:
                self.ok("C20")
            st.ghost["removed"] = 1
        elif mid == self.fmap and self.element(key) == "W":
            st.ghost["wforgot"] = "no" if existed is False else "yes"

    def ev_mapclear(self, eng, st, ev):
        if ev[1] == self.fmap and st.ghost.get("removed"):
            return                          # of a session already taken out of the map
        for pr in ("C19", "C20"):
            self.bad(eng, st, pr, "clear", "all sessions or filters are dropped at once")

    def ev_retain(self, eng, st, ev):
        pass

    # ------------------------------------------------------------ the end of the step
    def check_end(self, eng, st, closing):
        self.done += 1
        k, g = self.kind, st.ghost
        pr = self.session(eng, st)
        n = g.get("answers", 0)
        if k in ("register", "subscribe", "unsubscribe"):
            if n != 1:
                self.bad(eng, st, "C10", "answer:none:" + k, "a %s request is not answered on this path" % k)
            else:
                self.ok("C10")
        getattr(self, "end_" + k)(eng, st, pr)

    def answer(self, eng, st):
        """(True, value) for Ok, (False, None) for Err, None if unknown"""
        v = st.ghost.get("answer")
        if v is None:
            return None
        if v[0] == "sym":
            return None
        var, f = eng.open(st, v)
        return (var == 0, f[0] if f else None)

    def end_register(self, eng, st, pr):
        g = st.ghost
        if g.get("sins", 0) != 1:
            self.bad(eng, st, "C20", "register:stored", "the new session is not stored exactly once")
            return
        v = g.get("newsess")
        if v is None or v[0] != "adt":
            self.bad(eng, st, "C20", "register:shape", "the new session cannot be followed")
            return
        tys = [x["t"] for x in eng.p.types[v[1]]["variants"][0]["f"]]
        ident = None
        for t, x in zip(tys, v[3]):
            if t == "u128":
                ident = x[1]
                # the whole of a random identity, nothing taken off it
                fresh = x[0] == "i" and len(x[1][1]) == 1 and x[1][0] == 0 and x[1][1][0][1] == 1 and \
                    x[1][1][0][0][0] == "s" and isinstance(x[1][1][0][0][1], tuple) and x[1][1][0][0][1][0] == "uuidnum"
                if not fresh:
                    self.bad(eng, st, "C20", "register:id", "the identity of the new session is not fresh")
            elif "mpsc::Sender" in t:
                if self.chan(eng, st, x) != ("symchan", "NEW", EV):
                    self.bad(eng, st, "C20", "register:bridge", "the new session has another connection's queue")
            elif "Set<" in t or "Vec<" in t:
                if not (x[0] == "map" and not x[3] and not any(q for _, q in x[4]) or x[0] == "vec" and not x[1]):
                    self.bad(eng, st, "C20", "register:filters", "the new session does not start without subscriptions")
        a = self.answer(eng, st)
        if a is None or not a[0] or a[1] is None or a[1][0] != "i" or ident is None or not st.is_zero(sub(a[1][1], ident)):
            self.bad(eng, st, "C20", "register:answer", "the answer to a registration is not the identity of the new session")
        else:
            self.ok("C20", 4)
        self.old_gone(eng, st, pr, "register")

    def old_gone(self, eng, st, pr, what):
        if pr is False:
            return
        if pr is None:
            self.bad(eng, st, "C20", what + ":unasked", "whether the client identifier is in use is never looked up")
            return
        if not st.ghost.get("wdel"):
            for p in ("C19", "C20"):
                self.bad(eng, st, p, what + ":subs", "a subscription of the ended session stays in the tree")
        else:
            self.ok("C19")
            self.ok("C20")

    def end_disconnect(self, eng, st, pr):
        same = st.truth(("eq", sub(self.cmdid, self.oldid)))
        if pr is False:
            return
        if same is False:
            self.ok("C20")
            return
        if same is None and pr is None and not st.ghost.get("removed"):
            self.bad(eng, st, "C19", "disconnect:unasked", "a disconnect does not look its session up")
            return
        if pr is None or same is None:
            self.bad(eng, st, "C20", "disconnect:unasked", "a disconnect is not compared with the registered session")
            return
        if not st.ghost.get("removed"):
            self.bad(eng, st, "C19", "disconnect:kept", "the session of an ended connection is kept")
            return
        self.old_gone(eng, st, pr, "disconnect")

    def end_subscribe(self, eng, st, pr):
        g = st.ghost
        a = self.answer(eng, st)
        if pr is False:
            if g.get("ops"):
                self.bad(eng, st, "C12", "subscribe:nosession", "a subscription is stored for a client that has no session")
            if a is not None and a[0]:
                self.bad(eng, st, "C10", "subscribe:nosession", "a subscribe request of a client without session is answered as done")
            else:
                self.ok("C10")
            return
        if pr is None:
            self.bad(eng, st, "C10", "subscribe:unasked", "the client's session is not looked up")
            return
        w = g.get("wins")
        if w is None:
            self.bad(eng, st, "C10", "subscribe:skipped", "a requested filter is not stored")
            return
        if w == "ok" and not g.get("wnoted"):
            self.bad(eng, st, "C19", "subscribe:noted", "a stored subscription is not remembered for the end of the session")
        else:
            self.ok("C19")
        if a is None:
            return
        if not a[0]:
            self.bad(eng, st, "C10", "subscribe:err", "a subscribe request of a registered client is answered with an error")
            return
        if not g.get("wcode"):
            self.bad(eng, st, "C10", "codes:missing", "a requested filter gets no return code")

    def code(self, eng, st, v):
        if v[0] in ("e", "i"):
            return v[-1]
        if v[0] == "adt" and eng.p.types.get(v[1]):
            return K(eng.p.types[v[1]]["variants"][v[2]]["d"])
        return None

    def end_unsubscribe(self, eng, st, pr):
        g = st.ghost
        if pr is False:
            if g.get("ops"):
                self.bad(eng, st, "C12", "unsubscribe:nosession", "a subscription is removed for a client that has no session")
            return
        if pr is None:
            self.bad(eng, st, "C10", "unsubscribe:unasked", "the client's session is not looked up")
            return
        if not g.get("wdel") and g.get("wforgot") != "no":
            self.bad(eng, st, "C12", "unsubscribe:skipped", "a filter that is to be removed stays in the tree")
            if g.get("wforgot"):
                self.bad(eng, st, "C19", "unsubscribe:forgot", "a subscription is forgotten but stays in the tree")
        else:
            self.ok("C12")
            self.ok("C19")
        a = self.answer(eng, st)
        if a is not None and not a[0]:
            self.bad(eng, st, "C10", "unsubscribe:err", "an unsubscribe request of a registered client is answered with an error")

    def end_publish(self, eng, st, pr):
        g = st.ghost
        if not g.get("looked"):
            self.bad(eng, st, "C14", "publish:nolookup", "a published message is dropped without looking for subscribers")
            return
        if g.get("lookup") == "ok" and not g.get("wsent"):
            self.bad(eng, st, "C14", "publish:unsent", "a matching subscriber is not attempted")
        else:
            self.ok("C14")
        last = g.get("lastpid")
        app = [st.cells.get(k) for k in self.pidcell]
        if last is not None:
            # what the next step starts from is again the last identifier issued
            cur = self.pid_now(eng, st)
            if cur is None or not st.is_zero(sub(cur, last)):
                self.bad(eng, st, "C14", "pid:kept", "the last packet identifier is not remembered")
            else:
                self.ok("C14")

    def end_exit(self, eng, st, pr):
        self.bad(eng, st, "C27", "exit:ignored", "the router goes on after it was told to exit")
        self.bad(eng, st, "C21", "exit:ignored", "the router goes on after it was told to exit") if "C21" in self.props else None

    def ev_end(self, eng, st, ev):
        if st.ghost.get("nrecv", 0) == 0 or st.ghost.get("none"):
            if not st.ghost.get("none"):
                self.bad(eng, st, "C27", "end:start", "the router ends before it received anything")
            else:
                self.ok("C27")
                self.done += 1
            return
        if self.kind in ("exit",):
            self.ok("C27")
            self.done += 1
            return
        self.bad(eng, st, "C27", "end:" + self.kind, "the router ends on a %s request" % self.kind)

    def ev_recvnone(self, eng, st, ev):
        if ev[1] != CH:
            return
        if self.kind != "closed" or st.ghost.get("nrecv", 0):
            raise Infeasible()
        if st.ghost.get("none"):
            self.bad(eng, st, "C27", "spin", "the router goes on asking a closed channel")
            raise Infeasible()
        st.ghost["none"] = True

    def pid_now(self, eng, st):
        for key, i in self.pidcell:
            v = st.cells.get(key)
            if v is None:
                return None
            x = v if i is None else v[3][i] if v[0] == "adt" else None
            return eng.lin(x) if x is not None and x[0] == "i" else None
        return None


def scale(l, k):
    return (l[0] * k, tuple((a, c * k) for a, c in l[1])) if not hasattr(l, "_replace") else l


def sum_(ls):
    x = ZERO
    for l in ls:
        x = add(x, l)
    return x


def run(p, kind):
    roots = router_roots(p)
    if len(roots) != 1 or CMD not in p.types:
        return missing(PROPS, "the task that owns the command channel")
    kinds = [kind_of(v) for v in p.types[CMD]["variants"]]
    if "?" in kinds:
        return missing(("C27",), "a command of a known kind (found %s)" % p.types[CMD]["variants"][kinds.index("?")]["n"])
    todo = [i for i, k in enumerate(kinds) if k == kind] or ([None] if kind == "closed" else [])
    if not todo:
        return missing(PROPS, "the %s command" % kind)
    res = None
    for vi in todo:
        r = step(p, kind, roots[0], vi)
        if res is None:
            res = r
        else:
            res["viol"] += r["viol"]
            for k, v in r["ob"].items():
                res["ob"][k] = res["ob"].get(k, 0) + v
    return res


def step(p, kind, root, vi):
    mon = Mon(p, kind)
    eng = new_engine(p, mon)
    eng.map_limit = lambda mid: 1 if mid == mon.smap else 0
    models.WITNESS.clear()
    models.WITNESS |= {("s", "Wid", "u128"), ("s", "Flen", "len")}
    mon.cid, mon.topic, mon.payload = text("CID"), text("T"), text("P")
    mon.wqos = A(("s", "Wqos", ("en", QOS)))
    mon.pubqos = A(("s", "Pqos", ("en", QOS)))
    mon.cmdid = A(("s", "cmdid", "u128"))
    mon.outty = outty(p)
    mon.smap = mon.fmap = mon.oldch = None
    mon.oldid = A(("s", "noold", "u128"))
    mon.pidcell = []
    pre, post = any_seg("pre", "?")[3], any_seg("post", "?")[3]
    mon.wpos, mon.ntopics = pre, addc(add(pre, post), 1)
    eng.pin = lambda st, a: a in (mon.wqos.__class__,) if False else (a[0] == "s" and (a[1] in ("Wqos", "Pqos", "cmdid", "Wid", "Flen", "CIDlen", "Tlen", "Plen")
        or isinstance(a[1], tuple) and a[1][0] == "len" and a[1][1] in ("pre", "post")))
    eng.keep_items = ()
    eng.K_const = 1
    eng.use_live = True

    def command():
        vals = []
        for f in p.types[CMD]["variants"][vi]["f"]:
            t = f["t"]
            if t == STRING:
                vals.append(mon.topic if kind == "publish" else mon.cid)
            elif t == "bytes::Bytes":
                vals.append(mon.payload)
            elif t == QOS:
                vals.append(("e", QOS, mon.pubqos))
            elif t == "u128":
                vals.append(("i", mon.cmdid))
            elif t.startswith("std::vec::Vec<("):
                e = split_args(t)[0]
                parts = split_args("x<" + e[1:-1] + ">")
                w = tuple(text("F") if x == STRING else ("e", QOS, mon.wqos) if x == QOS else eng.sym("Wx", x) for x in parts)
                vals.append(("vec", (any_seg("pre", e), ("one", ("tup", w)), any_seg("post", e))))
            elif t == "std::vec::Vec<%s>" % STRING:
                vals.append(("vec", (any_seg("pre", STRING), ("one", text("F")), any_seg("post", STRING))))
            elif t.startswith("tokio::sync::mpsc::Sender"):
                vals.append(("sym", "NEW", t))
            elif t.startswith("tokio::sync::oneshot::Sender"):
                vals.append(("sym", "cb", t))
            else:
                vals.append(eng.sym("cmd." + f["n"], t))
        return ("adt", CMD, vi, tuple(vals))

    def havoc(st):
        """whatever the router keeps between commands becomes arbitrary"""
        live = []
        for key in [x for x in st.cells if isinstance(x[0], tuple) and x[0][0] == "co"]:
            v = st.cells[key]
            if v[0] == "adt" and (p.types.get(v[1]) or {}).get("local") or v[0] in ("map", "vec"):
                ty = v[1] if v[0] != "vec" else None
                if ty is None:
                    continue
                st.cells[key] = eng.sym(("st", key[1]), ty)
                live.append(key)
        find(st, live)

    def find(st, live):
        for key in live:
            v = st.cells[key]
            parts = [(None, v)] if v[0] != "adt" else list(enumerate(v[3]))
            for i, x in parts:
                if x[0] == "map" and "Map<" in x[1]:
                    a = split_args(x[1])
                    s = p.types.get(a[1]) or {}
                    if a[0] == STRING and s.get("k") == "adt" and s.get("local") and any("Sender<%s>" % EV in f["t"] for f in s["variants"][0]["f"]):
                        mon.smap, mon.stype = x[2], a[1]
                elif x[0] == "i":
                    mon.pidcell.append((key, i))

    def recv(st, ch):
        if ch != CH:
            return None
        n = st.ghost.get("nrecv", 0)
        if kind == "closed":
            raise Infeasible()
        if n == 0:
            mon.smap = None
            mon.pidcell = []
            havoc(st)
            if mon.smap is None:
                raise Unsupported("the table of sessions is not found")
            sess = eng.sym(("mv", mon.smap, mon.cid), mon.stype)
            for f, x in zip(p.types[mon.stype]["variants"][0]["f"], sess[3]):
                if f["t"] == "u128":
                    mon.oldid = x[1]
                elif "Sender<%s>" % EV in f["t"]:
                    mon.oldch = models.chan_of(eng, st, x)
                elif x[0] == "map":
                    mon.fmap = x[2]
            st.ghost["nrecv"] = 1
            if kind == "disconnect":
                st.ghost["ids"] = ("tup", (("i", mon.cmdid), ("i", mon.oldid)))
            if kind == "publish" and mon.pidcell:
                st.ghost["lastpid"] = mon.pid_now(eng, st)
            return command()
        mon.check_end(eng, st, False)
        raise Infeasible()

    def elements(st, v, name, ety):
        if v[2] == mon.fmap and ety == STRING:
            return (any_seg("pre", STRING), ("one", text("F")), any_seg("post", STRING))
        return None
    eng.recv_hook = recv
    eng.iter_hook = elements
    eng.summaries[TREE + "::insert"] = mon.tree_insert
    eng.summaries[TREE + "::delete"] = mon.tree_delete
    eng.summaries[TREE + "::get"] = mon.tree_get
    eng.summaries["packets::Packet::make_publish"] = mon.make_publish
    st = St()
    ups = p.types[root]["upvars"]
    st.cells[(("co", 1), 1)] = ("tup", tuple(("op", "rx", CH) if t == RX else eng.sym("up%d" % i, t) for i, t in enumerate(ups)))
    st.cells[(("co", 1), "pc")] = ("pc", 0)
    st.frames.append(("nat", "root", (("coro", root, 1),), None))
    r = run_job(eng, st, mon)
    if not mon.done and not r["viol"]:
        for pr in mon.props:
            r["viol"].append({"key": [pr, "none:" + kind], "msg": "no path of the %s step completes" % kind, "where": kind, "path": []})
    r["what"] = "router step on %s: %d ends" % (kind, mon.done)
    return r

"""The life of one connection, from the start of its task to its end: C01, C02, C07, C08, C09, C14, C17, C18,
C19, C20, C21, C22, C23, C24, C25, C26.

The root is the task the listener spawns for an accepted stream.  Its code runs from the start; the
network delivers any bytes in any pieces, the router takes or refuses any command and answers any
way, and every future may stay pending.  Packet::unpack (decided by rules/decode.py) is replaced by
"any well-formed packet of the kinds this job looks at, or an error", after checking which bytes it
is given; the packet constructors (rules/encode.py) by tokens that remember their arguments.
Monitors follow what was received, routed, acknowledged, written and counted.  One QoS 2 identifier
is followed through the whole connection, standing for each of them.
"""
from rules.common import *
from rules.tree import text, any_seg, QOS, STRING
from rules.router import CMD, EV, kind_of

LOW7 = tuple(x & 127 for x in range(256))

PROPS = ("C01", "C02", "C07", "C08", "C09", "C14", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C10", "C13")
PACKET = "packets::Packet"
VH = "packets::VariableHeader"
TCP = "tokio::net::TcpStream"
TOKEN = "tokio_util::sync::CancellationToken"
CMDTX = "tokio::sync::mpsc::Sender<%s>" % CMD
BYTES = "bytes::Bytes"
NIB = {"Connect": 1, "ConnAck": 2, "Publish": 3, "PubAck": 4, "PubRec": 5, "PubRel": 6, "PubComp": 7, "Subscribe": 8, "SubAck": 9,
       "Unsubscribe": 10, "UnsubAck": 11, "PingReq": 12, "PingResp": 13, "Disconnect": 14, "Auth": 15}
ACK = {"Subscribe": "suback", "Unsubscribe": "unsuback", "PubRec": "pubrel", "PubRel": "pubcomp", "PingReq": "ping_resp"}
ROLES = ("BYTES_RECEIVED", "BYTES_SENT", "CLIENTS_CONNECTED", "MESSAGES_RECEIVED", "MESSAGES_SENT",
         "MESSAGES_PUBLISH_RECEIVED", "MESSAGES_PUBLISH_SENT")      # in the order get_stats reports them
COUNT = {"BYTES_RECEIVED": "C24", "BYTES_SENT": "C24", "MESSAGES_RECEIVED": "C24", "MESSAGES_SENT": "C24",
         "MESSAGES_PUBLISH_RECEIVED": "C24", "MESSAGES_PUBLISH_SENT": "C24"}
KINDS = ("Connect", "Publish", "PubRec", "PubRel", "PubAck", "Subscribe", "Unsubscribe", "PingReq", "Disconnect", "rest", "events")


def conn_roots(p):
    """the outermost coroutines that own an accepted stream and a way to the router"""
    own = {k: t for k, t in p.types.items() if t.get("k") == "coroutine" and t["inst"] in p.inst and p.inst[t["inst"]]["local"]
           and TCP in t["upvars"] and any(CMDTX in u for u in t["upvars"])}
    inner = set()
    for k, t in own.items():
        for b in p.inst[t["inst"]]["blocks"]:
            tt = b["t"]
            if tt[0] == "call" and isinstance(tt[1], dict) and tt[1].get("inst") in p.inst:
                inner |= {p.inst[tt[1]["inst"]]["locals"][0]} & set(own) - {k}
    return [k for k in own if k not in inner]


def jobs():
    return [("conn", k) for k in KINDS] + [("conn", "stats")]


class Stats(Base):
    """what get_stats reports at each place of its answer"""
    props = ("C24",)

    def __init__(self):
        Base.__init__(self)
        self.got = set()

    def ev_end(self, eng, st, ev):
        v = ev[1]
        r = []
        for x in v[1] if v[0] == "tup" else v[3] if v[0] == "adt" else ():
            a = x[1][1] if x[0] == "i" else ()
            n = a[0][0][1][1] if len(a) == 1 and a[0][1] == 1 and x[1][0] == 0 and a[0][0][0] == "s" and isinstance(a[0][0][1], tuple) else None
            r.append(n[7:] if n and n.startswith("atomic:") else None)
        self.got.add(tuple(r))

    def ev_atomic(self, eng, st, ev):
        if ev[1] != "load":
            self.bad(eng, st, "C24", "stats:changes", "reading the statistics changes them")
        else:
            self.ok("C24")


def stats(p):
    """({counter: what it counts}, report)"""
    ids = [i for i, x in p.inst.items() if x["local"] and x["kind"] == "fn" and x["path"].endswith("::get_stats") and x["argc"] == 0]
    if len(ids) != 1:
        return None, missing(("C24",), "get_stats")
    mon = Stats()
    eng = new_engine(p, mon, 20000)
    st = St()
    eng.frame_push(st, ids[0], [])
    r = run_job(eng, st, mon)
    r["what"] = "get_stats"
    got = list(mon.got)
    if len(got) != 1 or len(got[0]) != len(ROLES) or None in got[0] or len(set(got[0])) != len(ROLES):
        r["viol"].append({"key": ["C24", "stats:places"], "msg": "get_stats does not report seven different counters", "where": "get_stats", "path": []})
        return None, r
    return dict(zip(got[0], ROLES)), r


PID = A(("s", "PID", "u16"))
KA = A(("s", "KA", "u16"))
SESS = A(("s", "SESSID", "u128"))


class Mon(Base):
    props = PROPS

    def __init__(self, p, kind):
        Base.__init__(self)
        self.p, self.kind = p, kind
        self.cid = text("CID")
        self.done = 0
        self.seen = set()

    # ------------------------------------------------------------ panics and unknown things
    def ev_panic(self, eng, st, ev):
        self.bad(eng, st, "C01", "panic:%s:%s" % (fname(eng, st), short(ev[1], 60)), "a client can reach %s" % short(ev[1]))

    def ev_unknown(self, eng, st, ev):
        if str(ev[1]).startswith(("await of", "poll of")):
            for pr in ("C17", "C18", "C21", "C22"):
                self.bad(eng, st, pr, "undecided:%s" % ev[1], "the connection waits for something unknown: %s" % ev[1])

    def ev_blocking(self, eng, st, ev):
        self.bad(eng, st, "C21", "blocking:%s" % ev[1], "a connection blocks its thread in %s" % ev[1])

    def ev_spawn(self, eng, st, ev):
        for pr in ("C21", "C22", "C25"):
            self.bad(eng, st, pr, "spawn:" + fname(eng, st), "a connection hands work to another task")

    # ------------------------------------------------------------ receiving packets
    def ev_read(self, eng, st, ev):
        self.short(eng, st)
        self.unasked(st)

    def unasked(self, st):
        st.ghost.pop("asked", None)
        if self.frames:
            # what is found out about the length matters until it is looked at
            st.ghost["hold"] = ("tup", tuple(("i", x) for i in range(1, 5) for x in (A(("B", "NET", K(i))), from_table(("B", "NET", K(i)), LOW7))))

    def complete(self, st):
        """can NET hold a complete packet on this path"""
        E = st.ghost.get(("netpos", self.stream), ZERO)
        for d in range(1, 5):
            s = st.copy()
            ok_ = s.assume(("ge", addc(E, -1 - d)))
            size = K(1 + d)
            for i in range(1, d + 1):
                base = ("B", "NET", K(i))
                ok_ = ok_ and s.assume(("m", base, bmask(lambda x: (x >= 128) == (i < d))))
                size = add(size, scale_lin(from_table(base, LOW7), 128 ** (i - 1)))
            if ok_ and s.assume(("ge", sub(E, size))):
                return True
        return False

    def unpack(self, eng, st, args, c):
        g = st.ghost
        self.settle(eng, st)
        v = models.as_by(eng, st, args[0])
        size = None
        if v is None or self.stream is None:
            self.bad(eng, st, "C02", "frame:what", "it cannot be seen which bytes are decoded")
        else:
            size = self.frame(eng, st, v)
        if g.get("over"):
            self.bad(eng, st, "C18", "goes on:" + g["over"], "a packet is processed after %s" % g["over"])
            self.second(eng, st)
            raise Infeasible()
        ty = eng.p.inst[c["inst"]]["locals"][0]
        opts = ["err"] + [k for k in self.kinds]
        o = opts[eng.choose(st, len(opts))]
        self.age(eng, st)
        self.unasked(st)
        if o == "err":
            g["over"] = "a decode error"
            return ("adt", ty, 1, (eng.sym("decodeerr", split_args(ty)[1]),))
        g["pk"] = o
        psize = size if size is not None else A(("s", "psize", "usize"))
        self.count(st, "BYTES_RECEIVED", psize)
        self.count(st, "MESSAGES_RECEIVED", K(1))
        if o == "Publish" and g.get("reg", 0) == 2:
            self.count(st, "MESSAGES_PUBLISH_RECEIVED", K(1))
        if o == "Disconnect":
            g["over"] = "DISCONNECT"
        if o == "Connect" and g.get("reg"):
            g["over"] = "a second CONNECT"
        if o != "Connect" and g.get("reg", 0) != 2:
            g["early"] = 1
        pk = self.packet(eng, st, o)
        return ("adt", ty, 0, (("tup", (pk, ("i", psize))),))

    def second(self, eng, st):
        if st.ghost.get("over") == "a second CONNECT":
            self.bad(eng, st, "C07", "goes on", "the connection goes on after a second CONNECT")

    def packet(self, eng, st, kind):
        """an arbitrary well-formed packet of this kind"""
        g = st.ghost
        low = {"PubRel": {2}, "Subscribe": {2}, "Unsubscribe": {2}}.get(kind)
        q = None
        if kind == "Publish":
            q = eng.choose(st, 3)
            g["qos"] = q
            m = bmask(lambda x: x >> 4 == 3 and x >> 1 & 3 == q)
        else:
            m = bmask(lambda x: x >> 4 == NIB[kind] and (low is None or x & 15 in low))
        base = ("B", "FH", ZERO)
        st.mask[base] = m
        pt = self.p.types[PACKET]
        vals = []
        for f in pt["variants"][0]["f"]:
            if f["t"] == VH:
                vals.append(self.variable(eng, st, kind, q))
                continue
            v = eng.sym(("hdr", f["n"]), f["t"])
            if v[0] == "adt":
                ft = self.p.types[v[1]]["variants"][0]["f"]
                v = v[:3] + (tuple(("i", A(base)) if x["t"] == "u8" else y for x, y in zip(ft, v[3])),)
            vals.append(v)
        return ("adt", PACKET, 0, tuple(vals))

    def variable(self, eng, st, kind, q):
        g = st.ghost
        t = self.p.types[VH]
        i = next(i for i, v in enumerate(t["variants"]) if v["n"] == kind)
        fs = t["variants"][i]["f"]
        second = kind == "Connect" and g.get("reg")
        vals = []
        for f in fs:
            n, ty = f["n"], f["t"]
            v = eng.sym(("pk", kind, n), ty)
            if kind == "Connect" and n == "client_id":
                v = text("CID2") if second else self.cid
            elif kind == "Connect" and n == "keepalive" and not second:
                v = ("i", KA)
            elif n == "packet_id" and ty == "u16":
                v = self.pid(eng, st)
            elif n == "packet_id" and ty.startswith("std::option::Option"):
                v = ("adt", ty, 0, ()) if q == 0 else ("adt", ty, 1, (self.pid(eng, st),))
            elif kind == "Publish" and n == "topic":
                v = text("T")
            elif kind == "Publish" and n == "payload":
                v = text("P")
            elif n == "tuples" and v[0] == "vec":
                v = ("vec", (any_seg("filters", v[1][0][2]),))
            vals.append(v)
        return ("adt", VH, i, tuple(vals))

    def pid(self, eng, st):
        """the followed identifier, or any other one"""
        g = st.ghost
        if self.follow and eng.choose(st, 2) == 0:
            g["isW"] = 1
            g["pid"] = ("i", PID)
            return ("i", PID)
        a = A(("s", st.fresh("pid"), "u16"))
        if self.follow:
            eng.require(st, ("eq", sub(a, PID)), False)
        g["isW"] = 0
        g["pid"] = ("i", a)
        return ("i", a)

    def frame(self, eng, st, v):
        """check the bytes handed to the decoder; the bytes after them become the new start of NET"""
        E = st.ghost.get(("netpos", self.stream), ZERO)
        size = None
        for d in range(1, 5):
            ms = [st.m(("B", "NET", K(i))) for i in range(1, d + 1)]
            if all(m & bmask(lambda x: x < 128) == 0 for m in ms[:-1]) and ms[-1] & bmask(lambda x: x >= 128) == 0:
                size = K(1 + d)
                for i in range(1, d + 1):
                    size = add(size, scale_lin(from_table(("B", "NET", K(i)), LOW7), 128 ** (i - 1)))
                break
        if size is None:
            self.bad(eng, st, "C02", "frame:unread", "bytes are decoded as a packet before its length is known")
            raise Stop()
        if not same_bytes(st, v, ZERO, size, "NET"):
            self.bad(eng, st, "C02", "frame:bytes", "the bytes decoded as a packet are not the next packet of the stream")
            raise Stop()
        self.ok("C02")
        if st.truth(("eq", sub(E, size))) is False and not st.nonneg(sub(E, size)):
            self.bad(eng, st, "C02", "frame:early", "a packet is decoded before all its bytes have arrived")
            raise Stop()
        return self.rebase(eng, st, size, E)

    def rebase(self, eng, st, size, E):
        # the number of bytes received is now written as this packet and a rest
        r = A(("s", st.fresh("rest"), "len"))
        if not self.solve(eng, st, E, add(r, size)):
            raise Unsupported("length of the received bytes")

        def one(fn):
            return self.rewrite(st, fn)

        def old(x):
            if x[0] == "B" and x[1] == "PKTIN":
                return A(("B", "PKTOLD", x[2]))
            if x[0] == "f8" and x[1][0] == "B" and x[1][1] == "PKTIN":
                return from_table(("B", "PKTOLD", x[1][2]), TABS[x[2]])
            if x[0] == "s" and len(x) == 4 and x[1] == "PKTIN":
                return ("s", "PKTOLD", x[2], x[3])
            return None
        one(old)
        st.mask = {b: m for b, m in st.mask.items() if not (b[0] == "B" and b[1] in ("PKTIN", "PKTOLD"))}

        def new(x):
            if x[0] == "B" and x[1] == "NET":
                return A(("B", "PKTIN", x[2]))
            if x[0] == "f8" and x[1][0] == "B" and x[1][1] == "NET":
                return from_table(("B", "PKTIN", x[1][2]), TABS[x[2]])
            if x[0] == "s" and len(x) == 4 and x[1] == "NET":
                memo = {}
                pos, n = subst(x[2], new, memo), subst(x[3], new, memo)
                sz = subst(size, new, memo)
                if st.nonneg(sub(x[2], size)):
                    return ("s", "NET", sub(pos, sz), n)
                return ("s", "PKTIN", pos, n)
            return None
        st.ghost[("netpos", self.stream)] = r
        S = one(new)
        st.mask = {("B", "PKTIN", b[2]) if b[0] == "B" and b[1] == "NET" else b: m for b, m in st.mask.items()}
        size = S(size)
        self.short(eng, st)
        return size

    def rewrite(self, st, fn):
        """replace terms everywhere in the state"""
        memo = {}

        def S(x):
            return subst(x, fn, memo)
        st.cells = {S(k) if not (isinstance(k, tuple) and k and k[0] == "static") else k: S(x) if isinstance(x, tuple) else x for k, x in st.cells.items()}
        for k, x in list(st.ghost.items()):
            if isinstance(x, tuple):
                st.ghost[k] = S(x)
        st.preds = {S(k): x for k, x in st.preds.items()}
        st.frames = [("nat", f[1], S(f[2]), f[3]) if f[0] == "nat" else f for f in st.frames]
        old, st.ge = st.ge, frozenset()
        for f in sorted(old, key=repr):
            if not st.add_ge(S(f)):
                raise Infeasible()
        return S

    def solve(self, eng, st, E, new):
        """write the sum E as new, by expressing one of its unknowns through new"""
        var = next((a for a, c in E[1] if c == 1 and a[0] in "sW"), None)
        if var is None:
            return False
        sol = sub(new, sub(E, A(var)))
        lo, hi = st.bounds(A(var))
        st.rng.pop(var, None)
        self.rewrite(st, lambda x: sol if x == var else None)
        for x in [a for a, _ in new[1]]:
            if x[0] == "s" and x[2] == "len":
                eng.require(st, ("ge", A(x)))
        eng.require(st, ("ge", addc(sol, -lo)))
        return True

    def short(self, eng, st):
        """jobs that do not decide framing look at packets with one digit of Remaining Length"""
        if not self.frames:
            eng.require(st, ("m", ("B", "NET", K(1)), bmask(lambda x: x < 128)))

    def age(self, eng, st):
        """a packet arrived: what was read off the clock before is old, and timers set before are stale"""
        st.ghost.pop("quiet", None)
        memo = {}

        def fn(x):
            return ("op", "instant-old", x[2]) if x[0] == "op" and len(x) == 3 and x[1] in ("instant", "instant-late") else None
        st.cells = {k: subst(x, fn, memo) if isinstance(x, tuple) else x for k, x in st.cells.items()}
        st.ghost["tmr"] = ("tup", tuple(("tup", (t[1][0], ("op", "stale"))) for t in st.ghost.get("tmr", ("tup", ()))[1]))

    def text_is(self, eng, st, v, want):
        x = models.as_by(eng, st, v) if v is not None else None
        return x == want

    # ------------------------------------------------------------ commands to the router
    def ev_send(self, eng, st, ev, mayfail=False):
        ch, val = ev[1], ev[2]
        g = st.ghost
        if ch != self.cmdch:
            self.bad(eng, st, "C22", "send:other", "something is sent over another channel than the router's")
            return
        if val[0] != "adt" or val[1] != CMD:
            raise Unsupported("a command that is not known")
        var = self.p.types[CMD]["variants"][val[2]]
        kind = kind_of(var)
        f = {x["t"]: y for x, y in zip(var["f"], val[3])}
        reg, pk = g.get("reg", 0), g.get("pk")
        if kind == "disconnect":
            if reg != 2:
                self.bad(eng, st, "C19", "drop:unregistered", "the router is told to drop a registration there is not")
                return
            if g.get("dc"):
                self.bad(eng, st, "C19", "drop:twice", "the router is told twice to drop the registration")
            g["dc"] = 1
            if not self.text_is(eng, st, f.get(STRING), self.cid):
                self.bad(eng, st, "C23", "cid:disconnect", "another client identifier is dropped than the connection's")
                self.bad(eng, st, "C19", "cid:disconnect", "another client identifier is dropped than the connection's")
            if eng.lin(f["u128"]) != SESS:
                self.bad(eng, st, "C20", "id:disconnect", "the registration to drop is not named by the identity the router gave")
                self.bad(eng, st, "C19", "id:disconnect", "the registration to drop is not named by the identity the router gave")
            self.ok("C19")
            self.ok("C20")
            self.ok("C23")
            return
        if kind == "exit":
            self.bad(eng, st, "C19", "exit", "a connection tells the router to stop")
            return
        if g.get("over"):
            self.bad(eng, st, "C18", "goes on:" + g["over"], "the router is sent a %s request after %s" % (kind, g["over"]))
            if g["over"] == "a second CONNECT":
                self.bad(eng, st, "C07", "second", "a second CONNECT reaches the router")
            return
        cb = next((y for t, y in f.items() if t.startswith("tokio::sync::oneshot::Sender")), None)
        if kind == "register":
            if pk != "Connect":
                self.bad(eng, st, "C07", "register:" + str(pk), "a client is registered without its CONNECT")
                return
            if reg:
                self.bad(eng, st, "C07", "second", "a connection registers twice")
                return
            g["reg"] = 1
            g["cb"] = models.deref(eng, st, cb)
            if not self.text_is(eng, st, f.get(STRING), self.cid):
                self.bad(eng, st, "C23", "cid:register", "the client is registered under another identifier than its CONNECT's")
                self.bad(eng, st, "C08", "cid:register", "the client is registered under another identifier than its CONNECT's")
            else:
                self.ok("C23")
            tx = next((y for t, y in f.items() if t.startswith("tokio::sync::mpsc::Sender")), None)
            g["own"] = models.deref(eng, st, tx)
            self.ok("C07")
            return
        if reg != 2:
            self.bad(eng, st, "C07", "early:" + kind, "a %s request reaches the router before the client is registered" % kind)
            return
        self.ok("C07")
        if kind == "publish":
            if pk != "Publish":
                self.bad(eng, st, "C25", "publish:" + str(pk), "a message is routed that is not the packet just received")
                return
            if g.get("routed"):
                self.bad(eng, st, "C25", "publish:twice", "a message is routed twice")
                self.bad(eng, st, "C26", "publish:twice", "a message is routed twice")
                return
            g["routed"] = 1
            if not self.text_is(eng, st, f[STRING], text("T")):
                self.bad(eng, st, "C14", "topic:routed", "a message is routed under another topic")
            if not self.text_is(eng, st, f[BYTES], text("P")):
                self.bad(eng, st, "C14", "payload:routed", "a message is routed with another payload")
            qv = f[QOS]
            if qv[0] != "e" or not st.is_zero(addc(qv[2], -g["qos"])):
                self.bad(eng, st, "C13", "qos:routed", "a message is routed with another QoS than published")
                self.bad(eng, st, "C14", "qos:routed", "a message is routed with another QoS than published")
            self.ok("C14")
            self.ok("C25")
            if g["qos"] == 2 and g.get("isW"):
                if g.get("aw"):
                    self.bad(eng, st, "C26", "again", "a QoS 2 message that awaits PUBREL is routed again")
                else:
                    self.ok("C26")
                    g["aw"] = 1
            return
        want = {"subscribe": "Subscribe", "unsubscribe": "Unsubscribe"}.get(kind)
        if pk != want or g.get("routed"):
            self.bad(eng, st, "C09", "request:" + kind, "a %s request is sent that the client did not make" % kind)
            return
        g["routed"] = 1
        g["cb"] = models.deref(eng, st, cb)
        if not self.text_is(eng, st, f.get(STRING), self.cid):
            self.bad(eng, st, "C23", "cid:" + kind, "a %s request names another client than the connection's" % kind)
        else:
            self.ok("C23")
        lst = next((y for t, y in f.items() if t.startswith("std::vec::Vec")), None)
        lst = models.deref(eng, st, lst)
        if lst[0] != "vec" or len(lst[1]) != 1 or lst[1][0][:2] != ("any", "filters"):
            self.bad(eng, st, "C09", "filters:" + kind, "a %s request does not carry the packet's filters" % kind)
        else:
            self.ok("C09")

    def ev_try_send(self, eng, st, ev):
        if ev[3]:
            self.ev_send(eng, st, ev)

    def ev_sendfail(self, eng, st, ev):
        g = st.ghost
        if not g.get("over"):
            g["over"] = "the router was gone"
        g["gone"] = 1

    def answer(self, st, name, ty):
        """what the router answers: nothing but Ok or Err of the type asked for"""
        eng = self.eng
        okv, er = split_args(ty)
        if eng.choose(st, 2):
            return ("adt", ty, 1, (eng.sym("answererr", er),))
        if okv == "u128":
            return ("adt", ty, 0, (("i", SESS),))
        if okv.startswith("std::vec::Vec"):
            return ("adt", ty, 0, (("vec", (any_seg("codes", split_args(okv)[0]),)),))
        return ("adt", ty, 0, (eng.sym("answerok", okv),))

    def ev_answer(self, eng, st, ev):
        g = st.ghost
        cb = g.get("cb")
        if cb is None or cb[0] != "op" or cb[2] != ev[1]:
            # the sending half never left this task: nobody answers
            raise Infeasible()
        okk = ev[2][2] == 0
        if g.get("reg") == 1:
            g["reg"] = 2 if okk else 3
            if not okk:
                g["over"] = "a refused registration"
        elif okk:
            g["answered"] = 1
        else:
            g["refused"] = 1
        g.pop("cb", None)

    def ev_noanswer(self, eng, st, ev):
        g = st.ghost
        g["gone"] = 1
        g["over"] = g.get("over") or "the router was gone"

    # ------------------------------------------------------------ events from the router
    def recv(self, st, ch):
        eng, g = self.eng, st.ghost
        own = g.get("own")
        if ch == self.cmdch or own is None or own[:2] != ("op", "tx") or own[2] != ch:
            return None
        self.settle(eng, st)
        t = self.p.types[EV]["variants"]
        i = eng.choose(st, len(t))
        if g.get("over"):
            self.bad(eng, st, "C18", "goes on:" + g["over"], "the connection goes on after %s" % g["over"])
            self.second(eng, st)
            raise Infeasible()
        if not t[i]["f"]:
            g["over"] = "a takeover"
            return ("adt", EV, i, ())
        if self.kind != "events":
            raise Infeasible()
        g["msg"] = 1
        eng.require(st, ("ge", addc(A(("s", "msglen", "len")), -2)))
        return ("adt", EV, i, tuple(BY(("s", ("MSG",), ZERO, A(("s", "msglen", "len")))) for f in t[i]["f"]))

    def ev_recv(self, eng, st, ev):
        own = st.ghost.get("own")
        if own is None or own[0] != "op" or own[2] != ev[1]:
            # nobody but this task holds the sending half
            raise Infeasible()

    def ev_recvnone(self, eng, st, ev):
        own = st.ghost.get("own")
        if own is None or own[0] != "op" or own[2] != ev[1]:
            raise Infeasible()
        self.settle(eng, st)
        if st.ghost.get("over"):
            self.bad(eng, st, "C18", "goes on:" + st.ghost["over"], "the connection goes on after %s" % st.ghost["over"])
            raise Infeasible()
        st.ghost["over"] = "the end of its session"

    # ------------------------------------------------------------ writing
    def token(self, kind):
        def f(eng, st, args, c):
            args = tuple(models.deref(eng, st, a) for a in args)
            # no packet is shorter than its fixed header (rule C06 looks at what is built)
            eng.require(st, ("ge", addc(A(("s", ("pktlen", kind), "len")), -2)))
            return BY(("s", ("PKT", kind) + args, ZERO, A(("s", ("pktlen", kind), "len"))))
        return f

    def ev_write_partial(self, eng, st, ev):
        s, v, n = ev[1:4]
        g = st.ghost
        g.pop("wpend", None)
        rest = g.get("wrest")
        t = self.tok_of(v)
        if rest is None:
            if t is None:
                self.bad(eng, st, "C22", "write:what", "something else than a whole packet is written")
                return
            self.writing(eng, st, t)
            g["wrest"] = ("tup", (v, ("i", n), ("i", n)))
            return
        whole, off = rest[1][0], rest[1][1][1]
        sp = whole[1][0]
        if len(v[1]) != 1 or v[1][0][0] != "s" or v[1][0][1] != sp[1] or not st.is_zero(sub(v[1][0][2], off)):
            self.bad(eng, st, "C22", "write:rest", "a packet is only partly written before something else")
            return
        g["wrest"] = ("tup", (whole, ("i", add(off, n)), ("i", n)))

    def flushrest(self, eng, st):
        g = st.ghost
        rest = g.get("wrest")
        if rest is None:
            return
        if not st.is_zero(sub(by_len(rest[1][0]), rest[1][1][1])):
            if g.get("wbroken") or st.is_zero(rest[1][2][1]):
                # failed, given up, or the stream takes nothing more: no packet may follow
                g.pop("wrest")
                g["wbroken"] = 1
                g["over"] = g.get("over") or "a failed write"
                return
            self.bad(eng, st, "C22", "write:part", "a write that takes only part of a packet is not continued")
        g.pop("wrest")
        self.written(eng, st, self.tok_of(rest[1][0]))

    def tok_of(self, v):
        if v[0] == "by" and len(v[1]) == 1 and v[1][0][0] == "s" and isinstance(v[1][0][1], tuple) and v[1][0][1][0] in ("PKT", "MSG"):
            s = v[1][0]
            if s[2] == ZERO and s[3][1] and (s[3] == A(("s", ("pktlen", s[1][1]), "len")) if s[1][0] == "PKT" else s[3] == A(("s", "msglen", "len"))):
                return s[1]
        return None

    def ev_write(self, eng, st, ev):
        g = st.ghost
        g.pop("wpend", None)
        rest = g.get("wrest")
        v = ev[2]
        if rest is not None:
            whole, off = rest[1][0], rest[1][1][1]
            if len(v[1]) == 1 and v[1][0][0] == "s" and v[1][0][1] == whole[1][0][1] and st.is_zero(sub(v[1][0][2], off)) and st.is_zero(sub(add(off, v[1][0][3]), by_len(whole))):
                g["wrest"] = ("tup", (whole, ("i", by_len(whole)), ("i", by_len(whole))))
                return self.flushrest(eng, st)
            self.flushrest(eng, st)
        t = self.tok_of(v)
        if t is None:
            self.bad(eng, st, "C22", "write:what", "something else than a whole packet is written to the client")
            return
        self.writing(eng, st, t)
        self.written(eng, st, t)

    def written(self, eng, st, t):
        self.count(st, "BYTES_SENT", A(("s", ("pktlen", t[1]), "len")) if t[0] == "PKT" else A(("s", "msglen", "len")))
        self.count(st, "MESSAGES_SENT", K(1))
        self.ok("C22")
        if t[0] == "MSG":
            self.count(st, "MESSAGES_PUBLISH_SENT", K(1))

    def writing(self, eng, st, t):
        """packet t starts to be written"""
        g = st.ghost
        if g.get("wbroken"):
            self.bad(eng, st, "C22", "write:after", "the connection writes on after a packet was cut short")
            return
        if t[0] == "MSG":
            if not g.get("msg"):
                self.bad(eng, st, "C25", "message:twice", "a queued message is written twice")
            elif g.get("over"):
                self.bad(eng, st, "C18", "goes on:" + g["over"], "a message is written after %s" % g["over"])
            else:
                self.ok("C25")
            g["msg"] = 0
            return
        kind, a = t[1], t[2:]
        reg, pk = g.get("reg", 0), g.get("pk")
        if kind == "connack":
            code = eng.lin(a[0]) if a[0][0] in ("e", "i") else K(self.p.types[a[0][1]]["variants"][a[0][2]]["d"])
            acc = st.truth(("eq", code))
            if acc is False:
                if pk != "Connect":
                    self.bad(eng, st, "C09", "ack:connack:" + str(pk), "a %s is answered with CONNACK" % pk)
                elif g.get("conn"):
                    self.ok("C08")
                return
            if reg != 2:
                self.bad(eng, st, "C08", "connack:early", "CONNACK says accepted before the router confirmed the registration")
                return
            if pk != "Connect" or g.get("over") == "a second CONNECT":
                self.bad(eng, st, "C08", "connack:for", "CONNACK says accepted in answer to %s" % (g.get("over") or pk))
                return
            if g.get("conn"):
                self.bad(eng, st, "C08", "connack:twice", "CONNACK is written twice")
                return
            if a[1][0] != "b" or st.truth(a[1][1]) is not False:
                self.bad(eng, st, "C08", "connack:present", "CONNACK claims a stored session")
                return
            g["conn"] = 1
            self.ok("C08", 3)
            return
        if reg != 2:
            self.bad(eng, st, "C07", "response:" + kind, "a packet before CONNECT is answered")
            return
        if g.get("over"):
            self.bad(eng, st, "C18", "goes on:" + g["over"], "a %s is written after %s" % (kind, g["over"]))
            return
        want = ACK.get(pk)
        if pk == "Publish":
            want = (None, "puback", "pubrec")[g["qos"]]
        if want != kind:
            self.bad(eng, st, "C09", "ack:%s:%s" % (pk, kind), "a %s is answered with %s" % (pk, kind))
            return
        if g.get("acked"):
            self.bad(eng, st, "C09", "twice:" + kind, "a %s is answered twice" % pk)
            return
        g["acked"] = 1
        if kind != "ping_resp" and (a[0][0] != "i" or not st.is_zero(sub(a[0][1], g["pid"][1]))):
            self.bad(eng, st, "C09", "pid:" + kind, "a %s carries another identifier than the packet it answers" % kind)
            return
        if kind in ("suback", "unsuback") and not g.get("answered"):
            self.bad(eng, st, "C09", "early:" + kind, "a %s is written before the router reported the request done" % kind)
            return
        if kind == "suback" and (a[1][0] != "vec" or len(a[1][1]) != 1 or a[1][1][0][:2] != ("any", "codes")):
            self.bad(eng, st, "C09", "codes", "SUBACK does not carry the router's return codes")
            self.bad(eng, st, "C10", "codes", "SUBACK does not carry the router's return codes")
            return
        if kind in ("puback", "pubrec") and not g.get("routed"):
            w = g["qos"] == 2 and (g.get("aw") if g.get("isW") else True)
            if not w:
                self.bad(eng, st, "C09", "early:" + kind, "a message is acknowledged before it was handed to the router")
                return
        self.ok("C09", 2)
        if kind == "pubcomp" and g.get("isW"):
            pass

    def ev_writefail(self, eng, st, ev):
        st.ghost["wbroken"] = 1
        st.ghost["over"] = st.ghost.get("over") or "a failed write"

    def unflushed(self, st):
        """what was written may never have left: it need not be counted, and nothing may follow it"""
        for name in ("BYTES_SENT", "MESSAGES_SENT", "MESSAGES_PUBLISH_SENT"):
            st.ghost.pop("st:" + name, None)
        st.ghost["wbroken"] = 1
        st.ghost["over"] = st.ghost.get("over") or "a failed write"

    def ev_flushed(self, eng, st, ev):
        st.ghost.pop("fpend", None)

    def ev_flushfail(self, eng, st, ev):
        st.ghost.pop("fpend", None)
        self.unflushed(st)

    def ev_drop(self, eng, st, ev):
        v = ev[1]
        if v[0] == "op" and v[1] == "fut" and v[2] in ("flush", "shutdown") and st.ghost.pop("fpend", None):
            self.unflushed(st)
        if v[0] == "op" and v[1] == "fut" and v[2] in ("write_all", "write_all_buf", "write", "write_buf") and st.ghost.get("wpend"):
            st.ghost["wbroken"] = 1
            st.ghost.pop("wpend")
        if v[0] == "op" and v[1] == "sleep" or v[0] == "op" and v[1] == "fut" and v[2] == "sleep":
            n = v[2] if v[1] == "sleep" else v[3]
            self.untimer(st, n)

    # ------------------------------------------------------------ waiting
    def ev_wait(self, eng, st, ev):
        f, sel = ev[1], ev[2]
        k = f[2]
        g = st.ghost
        if k == "recv":
            g.pop("quiet", None)
        if k in ("read", "read_buf"):
            self.stream = f[3]
            self.settle(eng, st)
            if g.get("over"):
                self.bad(eng, st, "C18", "goes on:" + g["over"], "the connection reads on after %s" % g["over"])
                self.second(eng, st)
                raise Infeasible()
            if self.frames and not g.get("asked"):
                if self.complete(st):
                    self.bad(eng, st, "C02", "frame:late", "a packet all of whose bytes have arrived waits for more")
                else:
                    self.ok("C02")
                g.pop("hold", None)
            g["asked"] = 1
        elif k == "cancelled":
            if not self.is_token(f[3]):
                self.bad(eng, st, "C21", "token", "a connection waits for another token than the one shutdown cancels")
        elif k in ("write", "write_buf", "write_all", "write_all_buf"):
            if g.get("wpend") and g["wpend"] != f[4]:
                g["wbroken"] = 1
        elif k == "orecv":
            cb = g.get("cb")
        if not sel:
            if k in ("send", "orecv", "ready"):
                self.ok("C21")
            else:
                self.bad(eng, st, "C21", "wait:%s:%s" % (k, fname(eng, st)), "a connection waits for %s without observing the cancellation" % k)

    def is_token(self, t):
        while isinstance(t, tuple) and t[:2] == ("op", "tok") and isinstance(t[2], tuple) and t[2][0] == "child":
            t = t[2][1]
        return t == self.tokv

    def ev_pending(self, eng, st, ev):
        f = ev[1]
        k = f[2]
        w = set(st.ghost.get("pend", ()))
        w.add(k if k != "sleep" else ("sleep", self.deadline(eng, st, f[3])))
        st.ghost["pend"] = tuple(sorted(w, key=repr))
        if k in ("write_all", "write_all_buf", "write", "write_buf"):
            st.ghost["wpend"] = f[4]
        elif k in ("flush", "shutdown"):
            st.ghost["fpend"] = 1

    def deadline(self, eng, st, n):
        """is the limit of this timer the one the standard asks for"""
        g = st.ghost
        d = next((t[1][1] for t in g.get("tmr", ("tup", ()))[1] if t[1][0] == ("op", "sleep", n)), None)
        if d is None or d[1] in ("stale", "?"):
            return "stale"
        if d[1] == "late":
            return "late"
        L = d[2]
        if g.get("reg", 0) != 2:
            return "good" if st.is_zero(addc(L, -60000)) else "bad"
        lo, hi = sub(L, scale_lin(KA, 1000)), sub(scale_lin(KA, 1500), L)
        return "good" if st.nonneg(lo) and st.nonneg(hi) else "bad"

    def off(self, eng, st):
        return st.ghost.get("reg", 0) == 2 and eng.decide(st, ("eq", KA))

    def ev_suspend(self, eng, st, ev):
        g = st.ghost
        pend = g.pop("pend", ())
        kinds = {x if isinstance(x, str) else x[0] for x in pend}
        if "cancelled" not in kinds and kinds - {"send", "orecv"}:
            self.bad(eng, st, "C21", "wait:%s" % ",".join(sorted(kinds)), "a connection waits for %s without observing the cancellation" % ", ".join(sorted(kinds)))
        else:
            self.ok("C21")
        if kinds & {"read", "read_buf"}:
            timers = [x[1] for x in pend if not isinstance(x, str)]
            if not self.off(eng, st):
                if "good" in timers:
                    self.ok("C17")
                elif "stale" in timers:
                    self.bad(eng, st, "C17", "timer:stale", "the interval is not restarted by a packet")
                elif "late" in timers:
                    self.bad(eng, st, "C17", "timer:late", "the interval is restarted by a message sent to the client")
                elif "bad" in timers:
                    self.bad(eng, st, "C17", "timer:length", "the interval waited for is not the client's Keep Alive")
                else:
                    self.bad(eng, st, "C17", "timer:none", "the connection waits for packets without a limit")
            if g.get("reg") == 2 and "recv" not in kinds:
                self.bad(eng, st, "C25", "deaf", "the connection waits for packets without looking at its queued messages")
            elif g.get("reg") == 2:
                self.ok("C25")

    def ev_ready(self, eng, st, ev):
        f, name = ev[1], ev[2]
        k = f[2]
        g = st.ghost
        if k == "sleep":
            if self.off(eng, st):
                g["zero"] = 1
            else:
                d = self.deadline(eng, st, f[3])
                if d not in ("good", "late"):
                    g["late"] = d
                g["over"] = g.get("over") or "the inactivity limit"
            self.untimer(st, f[3])
        elif k == "recv":
            g["quiet"] = 1
        elif k == "cancelled":
            g["over"] = g.get("over") or "the shutdown"
            g["shut"] = 1
        if g.get("pend"):
            g["pend"] = tuple(x for x in g["pend"] if (x if isinstance(x, str) else x[0]) != k)

    def ev_selected(self, eng, st, ev):
        st.ghost.pop("pend", None)
        self.unasked(st)

    def timer(self, st, key, d):
        t = [x for x in st.ghost.get("tmr", ("tup", ()))[1] if x[1][0] != key]
        st.ghost["tmr"] = ("tup", tuple(t) + (("tup", (key, d)),))

    def untimer(self, st, n):
        pass

    def ev_sleep(self, eng, st, ev):
        d = ev[2]
        if st.ghost.get("quiet"):
            self.timer(st, ev[1], ("op", "late"))
        else:
            self.timer(st, ev[1], ("op", "dur", d[2]) if d[0] == "op" and d[1] == "dur" else ("op", "?"))

    def until(self, i):
        if i[0] == "op" and i[1] == "instant-late":
            return ("op", "late")
        return ("op", "dur", i[2]) if i[0] == "op" and i[1] == "instant" else ("op", "?")

    def ev_reset(self, eng, st, ev):
        s = ev[1]
        i = ev[2]
        self.timer(st, s, self.until(i))

    def ev_sleep_until(self, eng, st, ev):
        i = models.deref(eng, st, ev[2])
        self.timer(st, ev[1], self.until(i))

    def at_head(self, eng, st):
        """how the received bytes add up is forgotten, and timers that are gone"""
        E = st.ghost.get(("netpos", self.stream), ZERO)
        if E[1] and not (len(E[1]) == 1 and E[1][0][1] == 1 and E[0] == 0 and E[1][0][0][0] == "s" and E[1][0][0][1][1] == "have"):
            self.solve(eng, st, E, A(("s", st.fresh("have"), "len")))
            E = st.ghost[("netpos", self.stream)]
        if st.ghost.get("asked") and E[1]:
            # what is known of the bytes at hand is found out again
            a = E[1][0][0]
            st.rng.pop(a, None)
            st.mask = {b: m for b, m in st.mask.items() if b[:2] != ("B", "NET")}
            st.ge = frozenset(f for f in st.ge if not any(x == a or x[0] == "f8" and x[1][:2] == ("B", "NET") for x, _ in f[1]))
            if not st.add_ge(A(a)):
                raise Infeasible()
            self.short(eng, st)
        self.done_with(st)
        t = st.ghost.get("tmr")
        if t and len(t[1]) > 1:
            live = set()
            for v in st.cells.values():
                if isinstance(v, tuple):
                    walk(v, lambda x: live.add(x) if x[0] == "op" and len(x) == 3 and x[1] == "sleep" else None)
                    walk(v, lambda x: live.add(("op", "sleep", x[3])) if x[0] == "op" and len(x) == 4 and x[1] == "fut" and x[2] == "sleep" else None)
            st.ghost["tmr"] = ("tup", tuple(x for x in t[1] if x[1][0] in live))

    def done_with(self, st):
        """a packet that everything was done for needs no more attention"""
        g = st.ghost
        pk = g.get("pk")
        if pk in (None, "done") or g.get("over") or g.get("early"):
            return
        if pk == "Publish":
            q = g["qos"]
            again = q == 2 and (not g.get("isW") or g.get("aw0"))
            fin = (g.get("routed") or again) and (not q or g.get("acked"))
        elif pk == "Connect":
            fin = g.get("conn")
        else:
            fin = pk not in ACK or g.get("acked")
        if fin:
            self.close(st)
            g["pk"] = "done"

    def ev_eof(self, eng, st, ev):
        st.ghost["over"] = "the end of the stream"

    def ev_readerr(self, eng, st, ev):
        st.ghost["over"] = "a failed read"

    # ------------------------------------------------------------ counting
    def count(self, st, name, n):
        """n more are to be counted"""
        k = "st:" + name
        x = st.ghost.get(k, ("i", ZERO))
        x = add(x[1], n)
        st.ghost[k] = ("i", x)
        if st.is_zero(x):
            del st.ghost[k]
            self.ok("C24")

    def ev_atomic(self, eng, st, ev):
        op, name, n = ev[1], str(ev[2]), ev[3]
        g = st.ghost
        last = self.roles.get(name) if self.roles else name.rsplit("::", 1)[-1]
        if op == "load":
            return
        if last == "CLIENTS_CONNECTED":
            if op == "fetch_add" and n == K(1):
                g["cc"] = g.get("cc", 0) + 1
                g["ninc"] = min(g.get("ninc", 0) + 1, 2)
            elif op == "fetch_sub" and n == K(1):
                g["cc"] = g.get("cc", 0) - 1
            else:
                self.bad(eng, st, "C19", "count:op", "the number of connected clients is changed by other than one")
            if g["cc"] not in (0, 1) or g["ninc"] > 1:
                self.bad(eng, st, "C19", "count:twice", "the connected clients are counted wrongly")
                raise Stop()
            return
        if last not in COUNT:
            return
        if op != "fetch_add" or n is None:
            self.bad(eng, st, "C24", "op:" + last, "%s is changed by other than adding" % last)
            return
        self.count(st, last, neg(n))
        if last in ("BYTES_SENT", "MESSAGES_SENT", "MESSAGES_PUBLISH_SENT"):
            self.flushrest(eng, st)

    def balance(self, eng, st):
        for name in COUNT:
            x = st.ghost.get("st:" + name)
            if x is None:
                continue
            if name == "MESSAGES_PUBLISH_RECEIVED" and st.ghost.get("early"):
                del st.ghost["st:" + name]
                continue
            if not st.is_zero(x[1]):
                self.bad(eng, st, "C24", "count:" + name, "%s is not changed by exactly what was transferred" % name)
                del st.ghost["st:" + name]
                continue
            self.ok("C24")
            del st.ghost["st:" + name]

    # ------------------------------------------------------------ a packet is dealt with
    def settle(self, eng, st):
        g = st.ghost
        self.flushrest(eng, st)
        self.balance(eng, st)
        if g.get("msg") and not g.get("over"):
            self.bad(eng, st, "C25", "message:lost", "a message taken from the queue is not written")
            self.bad(eng, st, "C14", "message:lost", "a message taken from the queue is not written")
        g.pop("msg", None)
        pk = g.get("pk")
        if pk is None or pk == "done":
            g.pop("pk", None)
            return
        if not g.get("over"):
            if g.get("early"):
                self.bad(eng, st, "C07", "goes on", "the connection goes on after a packet before CONNECT") if False else None
            elif pk == "Connect":
                if not g.get("conn") or g.get("reg") != 2:
                    self.bad(eng, st, "C08", "connack:none", "the connection goes on without CONNACK")
            elif pk == "Publish":
                q = g["qos"]
                need = q < 2 or g.get("isW") and not g.get("aw0")
                if need and not g.get("routed"):
                    self.bad(eng, st, "C25", "publish:lost", "a published message is not routed")
                    if q == 2:
                        self.bad(eng, st, "C26", "publish:lost", "a new QoS 2 message is not routed")
                else:
                    self.ok("C25")
                if q and not g.get("acked"):
                    self.bad(eng, st, "C09", "none:publish", "a QoS %d message is not acknowledged" % q)
                else:
                    self.ok("C09")
            elif pk in ACK:
                if not g.get("acked") and not g.get("refused"):
                    self.bad(eng, st, "C09", "none:" + pk, "a %s is not answered" % pk)
                else:
                    self.ok("C09")
        self.close(st)

    def close(self, st):
        g = st.ghost
        self.seen.add(g["pk"])
        if g["pk"] == "PubRel" and g.get("isW"):
            g["aw"] = 0
        if g.get("aw"):
            g["aw0"] = 1
        else:
            g.pop("aw0", None)
            g.pop("aw", None)
        for k in ("pk", "qos", "pid", "isW", "acked", "routed", "answered", "refused", "cb", "early"):
            g.pop(k, None)

    def ev_end(self, eng, st, ev):
        g = st.ghost
        if not g.get("over"):
            # an end that nobody asked for is not forbidden, but loses nothing
            pass
        self.settle(eng, st)
        self.done += 1
        if g.get("cc", 0) != 0 or g.get("ninc", 0) != 1:
            self.bad(eng, st, "C19", "count:end", "a connection ends with the connected clients not lowered exactly once")
        else:
            self.ok("C19")
        reg = g.get("reg", 0)
        if reg == 2 and not g.get("dc") and not g.get("gone"):
            self.bad(eng, st, "C19", "kept", "a connection ends without telling the router (after %s)" % g.get("over"))
        elif reg == 1 and not g.get("gone"):
            self.bad(eng, st, "C19", "kept:unanswered", "a connection ends without waiting for its registration")
        else:
            self.ok("C19")
        if g.get("zero"):
            self.bad(eng, st, "C17", "timer:zero", "a connection with a Keep Alive of 0 is closed by the timer")
        if g.get("late"):
            self.bad(eng, st, "C17", "timer:" + g["late"], "a connection is closed by a timer that is not the client's Keep Alive")
        if g.get("over") == "the inactivity limit":
            self.ok("C17")
        if g.get("over"):
            self.ok("C18")
        if g.get("over") == "a takeover":
            self.ok("C20")


def scale_lin(l, k):
    return Lin((l[0] * k, tuple((a, c * k) for a, c in l[1]))) if k else ZERO


def run(p, kind):
    roots = conn_roots(p)
    if len(roots) != 1 or PACKET not in p.types or VH not in p.types or EV not in p.types:
        return missing(PROPS, "the task of an accepted connection")
    names = {v["n"] for v in p.types[VH]["variants"]}
    if not set(NIB) - {"Auth"} <= names:
        return missing(PROPS, "a packet kind")
    known = {"Connect", "Publish", "PubRec", "PubRel", "Subscribe", "Unsubscribe", "PingReq", "Disconnect", "PubAck"}
    roles, rep = stats(p)
    if kind == "stats":
        return rep
    mon = Mon(p, kind)
    mon.roles = roles
    mon.kinds = ["Connect"]
    if kind == "rest":
        mon.kinds += sorted(names & set(NIB) - known)
    elif kind in ("Publish", "PubRel"):
        mon.kinds += ["Publish", "PubRel"]
    elif kind not in ("Connect", "events"):
        mon.kinds.append(kind)
    mon.follow = kind in ("Publish", "PubRel")
    if kind == "PubRel":
        mon.kinds = ["Connect"] + [k for k in ("PubRec", "PubAck", "Subscribe", "PingReq") if k in names] + ["Publish"]
    mon.frames = kind == "Connect"
    mon.stream = None
    eng = new_engine(p, mon)
    mon.eng = eng
    models.WITNESS.clear()
    models.WITNESS |= {("s", "PID", "u16")}
    eng.use_live = True
    def unroll(st):
        if len(st.frames) > 1 and st.frames[-2][:2] == ("nat", "pollfn"):
            return True
        # the digits of a length are few
        return mon.frames and not st.ghost.get("asked") and st.frames[-1][0] != "nat" and p.inst[st.frames[-1][0]]["kind"] == "fn"
    eng.unroll = unroll
    eng.map_limit = 0
    if mon.frames:
        eng.G_max = 200
    eng.keep_keys = lambda ty: [("i", PID)] if mon.follow and split_args(ty)[:1] == ["u16"] else []
    eng.pin = lambda st, a: a[0] == "s" and a[1] in ("PID", "KA", "SESSID", "CIDlen", "Tlen", "Plen", "msglen")
    eng.answer_hook = mon.answer
    eng.recv_hook = mon.recv
    eng.summaries["packets::Packet::unpack"] = mon.unpack
    for k in ("connack", "suback", "unsuback", "puback", "pubrec", "pubrel", "pubcomp", "ping_resp", "publish"):
        eng.summaries["packets::Packet::make_" + k] = mon.token(k)
    st = St()
    ups = p.types[roots[0]]["upvars"]
    vals = []
    for i, t in enumerate(ups):
        v = ("op", "stream", "conn") if t == TCP else eng.sym("up%d" % i, t)
        if t == CMDTX:
            mon.cmdch = models.chan_of(eng, st, v)
        if t == TOKEN:
            mon.tokv = v
        vals.append(v)
    st.cells[(("co", 1), 1)] = ("tup", tuple(vals))
    st.cells[(("co", 1), "pc")] = ("pc", 0)
    st.frames.append(("nat", "root", (("coro", roots[0], 1),), None))
    r = run_job(eng, st, mon)
    if not mon.done and not r["viol"]:
        for pr in mon.props:
            r["viol"].append({"key": [pr, "none:" + kind], "msg": "no path of a connection comes to its end", "where": kind, "path": []})
    gone = [k for k in mon.kinds if k not in mon.seen]
    if gone and not r["viol"]:
        r["viol"].append({"key": ["C09", "unseen"], "msg": "no path deals with %s" % gone, "where": kind, "path": []})
    r["what"] = "connection with %s: %d ends" % (", ".join(mon.kinds), mon.done)
    return r

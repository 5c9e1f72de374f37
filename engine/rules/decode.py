"""Packet::unpack over an unconstrained byte string: C01, C02, C03, C05, C06, C28.

One job per value of the packet type nibble.  Every successful path must have taken each field from
its prescribed place (a second, independent reading of the standard walks the same bytes under the
facts of the path), every refusal must be justified by one of the malformations, and no path panics.
"""
from rules.common import *

PROPS = ("C01", "C02", "C03", "C05", "C06", "C28")
NAMES = {1: "Connect", 2: "ConnAck", 3: "Publish", 4: "PubAck", 5: "PubRec", 6: "PubRel", 7: "PubComp",
         8: "Subscribe", 9: "SubAck", 10: "Unsubscribe", 11: "UnsubAck", 12: "PingReq", 13: "PingResp",
         14: "Disconnect"}
N = A(("s", "n", "len"))
LOW, HIGH = (1 << 128) - 1, ((1 << 128) - 1) << 128
LOW7 = [x & 127 for x in range(256)]
IDENT = {"PubAck", "PubRec", "PubRel", "PubComp"}


def b(i):
    return ("B", "IN", i if isinstance(i, Lin) else K(i))


def at(st, i):
    a = b(i)
    m = st.m(a)
    return K(m.bit_length() - 1) if m and m & (m - 1) == 0 else A(a)


def jobs():
    return [("decode", n, d) for n in (8, 1, 10, 9) for d in (1, 2, 3, 4, 5)] + \
           [("decode", n) for n in (3, 2, 4, 5, 6, 7, 11, 12, 13, 14, 0, 15)]


class Mon(Base):
    props = PROPS

    def __init__(self, nib):
        Base.__init__(self)
        self.nib = nib
        self.okends = 0

    # ---------------------------------------------------------- events
    def ev_panic(self, eng, st, ev):
        self.bad(eng, st, "C01", "panic:%s:%s" % (fname(eng, st), short(ev[1], 60)),
                 "a byte string from the network can reach %s" % short(ev[1]))

    def ev_transmute(self, eng, st, ev):
        ty, l = ev[1], ev[2]
        t = eng.p.types.get(ty)
        if l is None or not t or not t.get("variants"):
            self.bad(eng, st, "C28", "transmute:" + fname(eng, st), "unchecked conversion to %s" % ty)
            return
        ds = {x["d"] for x in t["variants"]}
        base = single_base(l)
        vals = None
        if base is not None:
            tab, m = table_of(l, base), st.m(base)
            vals = {tab[i] for i in range(len(tab)) if m >> i & 1}
        else:
            lo, hi = st.bounds(l)
            if hi - lo < 300:
                vals = set(range(lo, hi + 1))
        if vals is None or not vals <= ds:
            self.bad(eng, st, "C28", "transmute:" + fname(eng, st),
                     "unchecked conversion to %s of a value outside its %d declared ones" % (ty, len(ds)))
        else:
            self.ok("C28", len(vals))

    def ev_unsafe(self, eng, st, ev):
        self.bad(eng, st, "C28", "unsafe:%s:%s" % (fname(eng, st), short(ev[1], 40)), "unchecked operation %s" % short(ev[1]))

    def ev_push(self, eng, st, ev):
        if self.nib not in (8, 10):
            return
        x = ev[2]
        if x[0] == "i":
            return
        cur = st.ghost.get("cur")
        if cur is None:
            h = self.header(st)
            if h is None:
                self.bad(eng, st, "C05", "list:header", "a list entry is stored before the header is known")
                return
            cur = addc(K(h), 2)
        v = x
        q = None
        if self.nib == 8:
            if x[0] == "tup" and len(x[1]) == 2:
                v, q = x[1]
            elif x[0] == "adt" and len(x[3]) == 2:
                v, q = x[3]
            else:
                self.bad(eng, st, "C05", "list:shape", "a SUBSCRIBE entry is not a filter with its QoS")
                return
        L = add(scale(B(cur), 256), B(addc(cur, 1)))
        if not same_bytes(st, v, addc(cur, 2), L):
            self.bad(eng, st, "C05", "list:filter", "an entry's filter is not the string at its place in the list")
        else:
            self.ok("C05")
        if not self.utf8(st, v):
            self.bad(eng, st, "C06", "list:utf8", "a filter that is not UTF-8 is accepted")
        else:
            self.ok("C06")
        cur = addc(cur, 2) if st.is_zero(L) else add(addc(cur, 2), L)
        if self.nib == 8:
            bb = b(cur)
            if q[0] != "e" or not st.is_zero(sub(q[2], A(bb))):
                if q[0] != "e" or bits_of(st, bb, lambda z: z) != self.vals(st, q[2]) or len(self.vals(st, q[2])) != 1:
                    self.bad(eng, st, "C05", "list:qos", "an entry's QoS is not the byte after its filter")
            if not bits_of(st, bb, lambda z: z) <= {0, 1, 2}:
                self.bad(eng, st, "C06", "list:qos3", "a SUBSCRIBE entry with a QoS above 2 is accepted")
            else:
                self.ok("C06")
            cur = addc(cur, 1)
        st.ghost["cur"] = cur
        st.ghost["some"] = True

    def vals(self, st, l):
        base = single_base(l)
        if base is None:
            lo, hi = st.bounds(l)
            return {lo, hi}
        tab, m = table_of(l, base), st.m(base)
        return {tab[i] for i in range(len(tab)) if m >> i & 1}

    # ---------------------------------------------------------- ends
    def header(self, st):
        """length of the fixed header on this path"""
        for k in range(1, 5):
            c = bit(st, b(k), 7)
            if c is None:
                return None
            if not c:
                return 1 + k
        return None

    def utf8(self, st, v):
        if v[0] == "vref":
            v = v[1]
        if st.is_zero(by_len(v)):
            return True
        if all(s[0] in ("l", "o") for s in v[1]):
            return True
        for q, val in st.preds.items():
            if q[0] == "utf8" and val and (q[1] == v or self.eqv(st, q[1], v)):
                return True
        return False

    def eqv(self, st, x, y):
        """the same byte string, segment by segment"""
        xs = [s for s in x[1] if not st.is_zero(seg_len(s))]
        ys = [s for s in y[1] if not st.is_zero(seg_len(s))]
        if len(xs) != len(ys):
            return False
        for s, t in zip(xs, ys):
            if s[0] != "s" or t[0] != "s" or s[1] != t[1]:
                if s != t:
                    return False
            elif not st.is_zero(sub(s[2], t[2])) or not st.is_zero(sub(s[3], t[3])):
                return False
        return True

    def has(self, st, v, ch):
        """does text v contain the character: True, False or None"""
        if v[0] == "vref":
            v = v[1]
        if st.is_zero(by_len(v)):
            return False
        for q, val in st.preds.items():
            if q[0] == "has" and q[2] == ch and (q[1] == v or self.eqv(st, q[1], v)):
                return val
        return None

    def ev_end(self, eng, st, ev):
        v = ev[1]
        self.ends += 1
        if v[0] != "adt" or variant_name(eng, v) not in ("Ok", "Err"):
            self.bad(eng, st, "C05", "result", "Packet::unpack does not return a Result")
            return
        if variant_name(eng, v) == "Err":
            self.refusal(eng, st, v)
            return
        self.okends += 1
        s, v = canon(st, v[3][0])
        if s is None:
            return
        self.success(eng, s, v)

    def success(self, eng, st, v):
        nib, h = self.nib, self.header(st)
        if len(self.samples) < 3:
            self.samples.append("%s accepted; %d facts, %d byte tables" % (NAMES.get(nib, nib), len(st.ge), len(st.mask)))
        if nib in (0, 15):
            self.bad(eng, st, "C06", "type:%d" % nib, "reserved packet type %d is accepted" % nib)
            return
        if h is None:
            self.bad(eng, st, "C03", "digits", "a packet is accepted without a complete one to four digit Remaining Length")
            return
        self.ok("C03")
        R = ZERO
        for i in range(1, h):
            R = add(R, self.low7(st, i))
        end = addc(R, h)
        if v[0] != "tup" or len(v[1]) != 2 or v[1][1][0] != "i":
            self.bad(eng, st, "C02", "result", "Packet::unpack does not return the packet with its size")
            return
        pk, size = v[1]
        if not st.is_zero(sub(size[1], end)):
            self.bad(eng, st, "C02", "size", "the size reported for a packet is not its fixed header plus Remaining Length")
        else:
            self.ok("C02")
        if not st.nonneg(sub(N, end)):
            self.bad(eng, st, "C02", "early", "a packet is decoded before all its declared bytes are there")
        else:
            self.ok("C02")
        fs = fields(eng, pk)
        fx = fields(eng, fs["fixed"])
        if not ("flags" in fx and fx["flags"][0] == "i" and st.is_zero(sub(fx["flags"][1], at(st, 0)))):
            self.bad(eng, st, "C05", "flags", "the header byte kept with the packet is not its first byte")
        if not ("remaining_len" in fx and fx["remaining_len"][0] == "i" and st.is_zero(sub(fx["remaining_len"][1], R))):
            self.bad(eng, st, "C03", "remaining", "the Remaining Length read differs from its base-128 digits")
        else:
            self.ok("C03")
        var = fs["variable"]
        name = variant_name(eng, var) if var[0] == "adt" else None
        if name != NAMES[nib]:
            self.bad(eng, st, "C05", "type", "packet type %d is decoded as %s" % (nib, name))
            return
        self.ok("C05", 2)
        f = fields(eng, var)
        getattr(self, "is_" + name, lambda *a: None)(eng, st, f, K(h), end)

    def low7(self, st, i):
        """value of digit i of the Remaining Length on this path, where its top bit is known"""
        return scale(from_table(b(i), LOW7), 128 ** (i - 1))

    def u16(self, eng, st, v, pos, end, what):
        if v[0] != "i" or not st.is_zero(sub(v[1], add(scale(at(st, pos), 256), at(st, addc(pos, 1))))):
            self.bad(eng, st, "C05", what, "%s is not the big-endian integer at its place" % what)
        else:
            self.ok("C05")
        return self.fits(eng, st, addc(pos, 2), end, what)

    def fits(self, eng, st, pos, end, what):
        if not st.nonneg(sub(end, pos)):
            self.bad(eng, st, "C02", "past:" + what, "%s is read from beyond the packet's declared end" % what)
            self.bad(eng, st, "C06", "cut:" + what, "a packet whose %s is cut short is accepted" % what)
        else:
            self.ok("C02")
            self.ok("C06")
        return pos

    def text(self, eng, st, v, pos, end, what, utf8=True):
        L = add(scale(at(st, pos), 256), at(st, addc(pos, 1)))
        if not same_bytes(st, v, addc(pos, 2), L):
            self.bad(eng, st, "C05", what, "%s is not the string at its place" % what)
        else:
            self.ok("C05")
        if utf8 and not self.utf8(st, v):
            self.bad(eng, st, "C06", "utf8:" + what, "a %s that is not UTF-8 is accepted" % what)
        elif utf8:
            self.ok("C06")
        return self.fits(eng, st, add(addc(pos, 2), L), end, what)

    def opt(self, eng, v):
        if v[0] == "adt":
            n = variant_name(eng, v)
            if n == "None":
                return False, None
            return True, v[3][0]
        return None, None

    def ident(self, eng, st, f, h, end):
        self.u16(eng, st, f["packet_id"], h, end, "packet identifier")

    is_PubAck = is_PubRec = is_PubComp = ident

    def is_PubRel(self, eng, st, f, h, end):
        self.ident(eng, st, f, h, end)
        self.flag2(eng, st)

    def flag2(self, eng, st):
        if bits_of(st, b(0), lambda x: x & 15) != {2}:
            self.bad(eng, st, "C06", "flags", "%s with flag bits other than 0010 is accepted" % NAMES[self.nib])
        else:
            self.ok("C06")

    def lists(self, eng, st, f, h, end):
        self.u16(eng, st, f["packet_id"], h, end, "packet identifier")
        self.flag2(eng, st)
        cur = st.ghost.get("cur")
        if cur is None:
            self.bad(eng, st, "C06", "empty", "%s with an empty list is accepted" % NAMES[self.nib])
            return
        self.ok("C06")
        if not st.is_zero(sub(cur, end)):
            self.bad(eng, st, "C05", "list:end", "the list read does not end where the packet ends")
        else:
            self.ok("C05")
        v = f["tuples"]
        if v[0] != "vec" or any(s[0] == "rep" and not s[2] for s in v[1]):
            self.bad(eng, st, "C05", "list", "the decoded list is not the one that was read")

    is_Subscribe = is_Unsubscribe = lists

    def is_Publish(self, eng, st, f, h, end):
        q = bits_of(st, b(0), lambda x: x >> 1 & 3)
        if 3 in q:
            self.bad(eng, st, "C06", "qos3", "PUBLISH with QoS 3 is accepted")
        else:
            self.ok("C06")
        p = self.text(eng, st, f["topic"], h, end, "topic")
        for ch in "+#":
            if self.has(st, f["topic"], ch) is not False:
                self.bad(eng, st, "C06", "wildcard:" + ch, "a PUBLISH topic containing '%s' is accepted" % ch)
            else:
                self.ok("C06")
        there, pid = self.opt(eng, f["packet_id"])
        if there is None or (q - {3}) not in ({0},) and not there or there and 0 in q:
            self.bad(eng, st, "C05", "id presence", "PUBLISH has a packet identifier other than exactly when its QoS is above 0")
        else:
            self.ok("C05")
        if there:
            p = self.u16(eng, st, pid, p, end, "packet identifier")
        if not same_bytes(st, f["payload"], p, sub(end, p)):
            self.bad(eng, st, "C05", "payload", "the payload is not the rest of the packet")
        else:
            self.ok("C05")

    def is_Connect(self, eng, st, f, h, end):
        for i, x in enumerate(b"\x00\x04MQTT\x04"):
            if bits_of(st, b(addc(h, i)), lambda z: z) != {x}:
                self.bad(eng, st, "C06", "protocol", "a CONNECT with another protocol name or level is accepted")
                break
        else:
            self.ok("C06", 7)
        fb = b(addc(h, 7))
        fv = f["flags"]
        if not (fv[0] == "adt" and fv[3] and fv[3][0][0] == "i" and st.is_zero(sub(fv[3][0][1], A(fb)))):
            self.bad(eng, st, "C05", "connect flags", "the CONNECT flags kept are not the byte at their place")
        else:
            self.ok("C05")
        if bit(st, fb, 0) is not False:
            self.bad(eng, st, "C06", "reserved flag", "a CONNECT with the reserved flag set is accepted")
        else:
            self.ok("C06")
        if not (f["protocol_version"][0] == "e" and st.is_zero(f["protocol_version"][2])):
            self.bad(eng, st, "C05", "protocol version", "level 4 is not recorded as version 3.1.1")
        p = self.u16(eng, st, f["keepalive"], addc(h, 8), end, "keep alive")
        L = add(scale(at(st, p), 256), at(st, addc(p, 1)))
        if st.is_zero(L):
            v = f["client_id"]
            if bit(st, fb, 1) is not True:
                self.bad(eng, st, "C06", "empty id", "an empty client identifier is accepted without clean session")
            else:
                self.ok("C06")
            if v[0] != "by" or not any(s[0] == "o" and isinstance(s[1], tuple) and s[1][0] == "fmt" and
                                       isinstance(s[1][1], tuple) and s[1][1][:2] == ("op", "uuid") for s in v[1]):
                self.bad(eng, st, "C05", "generated id", "an empty client identifier is not replaced by a generated one")
            p = self.fits(eng, st, addc(p, 2), end, "client identifier")
        else:
            if not st.nonneg(addc(L, -1)) and bit(st, fb, 1) is not True:
                self.bad(eng, st, "C06", "empty id", "an empty client identifier may be accepted without clean session")
            p = self.text(eng, st, f["client_id"], p, end, "client identifier")
        for flag, names in ((2, ("will_topic", "will_message")), (7, ("username",)), (6, ("password",))):
            on = bit(st, fb, flag)
            for n in names:
                there, x = self.opt(eng, f[n])
                if there is None or on is None or there != on:
                    self.bad(eng, st, "C05", n + " presence", "%s is present other than exactly when its CONNECT flag is set" % n)
                    return
                self.ok("C05")
                if there:
                    p = self.text(eng, st, x, p, end, n, n in ("will_topic", "username"))

    # ---------------------------------------------------------- refusals
    def refusal(self, eng, st, v):
        """a refusal is right only if every packet on this path is malformed"""
        s = canon(st)[0]
        why = s is not None and self.wellformed(s)
        if why:
            e = v[3][0]
            self.bad(eng, st, "C05", "refused:%s:%s" % (NAMES.get(self.nib, self.nib), variant_name(eng, e) if e[0] == "adt" else "?"),
                     "a well-formed %s can be refused (%s)" % (NAMES.get(self.nib, self.nib), why))
        else:
            self.ok("C05")

    def wellformed(self, st):
        """can a packet on this path be well-formed?  tries to build the assumption step by step"""
        nib = self.nib
        if nib in (0, 15) or not st.assume(("ge", addc(N, -2))):
            return None
        for k in range(1, 5):
            s = st.copy()
            if not s.assume(("m", b(k), bmask(lambda x: x < 128))):
                pass
            else:
                h = K(1 + k)
                R = ZERO
                for i in range(1, k + 1):
                    R = add(R, self.low7(s, i))
                end = add(R, h)
                if s.assume(("ge", sub(N, end))):
                    w = self.body(s, h, end)
                    if w:
                        return w
            if not st.assume(("m", b(k), bmask(lambda x: x >= 128))):
                return None
        return None

    def need(self, s, pos, end):
        return s.assume(("ge", sub(end, pos)))

    def wtext(self, s, pos, end, utf8=True):
        if not self.need(s, addc(pos, 2), end):
            return None
        L = add(scale(at(s, pos), 256), at(s, addc(pos, 1)))
        nxt = add(addc(pos, 2), L)
        if not self.need(s, nxt, end):
            return None
        for q, val in s.preds.items():
            if q[0] == "utf8" and not val and utf8 and same_bytes(s, q[1], addc(pos, 2), L):
                return None
        return nxt

    def body(self, s, h, end):
        nib = self.nib
        if nib in (6, 8, 10) and not s.assume(("m", b(0), bmask(lambda x: x & 15 == 2))):
            return None
        if nib not in (3, 6, 8, 10) and not s.assume(("m", b(0), bmask(lambda x: x & 15 == 0))):
            return None
        if nib in (4, 5, 6, 7, 11):
            return "identifier" if s.is_zero(addc(sub(end, h), -2)) or self.eq(s, sub(end, h), 2) else None
        if nib in (12, 13, 14):
            return "empty body" if self.eq(s, sub(end, h), 0) else None
        if nib in (2, 9):
            return None          # not sent by clients
        if nib == 3:
            if not s.assume(("m", b(0), bmask(lambda x: x >> 1 & 3 != 3))):
                return None
            p = self.wtext(s, h, end)
            if p is None:
                return None
            L = sub(p, addc(h, 2))
            if self.eq(s.copy(), L, 0) and not s.assume(("ge", addc(L, -1))):
                return None      # an empty topic name
            for q, val in s.preds.items():
                if q[0] in ("has",) and val and q[2] in "+#" and same_bytes(s, q[1], addc(h, 2), L):
                    return None
            z = s.copy()
            if z.assume(("m", b(0), bmask(lambda x: x >> 1 & 3 == 0))) and self.need(z, p, end):
                return "QoS 0"
            if s.assume(("m", b(0), bmask(lambda x: x >> 1 & 3 != 0))) and self.need(s, addc(p, 2), end):
                return "QoS 1 or 2"
            return None
        if nib == 1:
            for i, x in enumerate(b"\x00\x04MQTT\x04"):
                if not s.assume(("m", b(addc(h, i)), 1 << x)):
                    return None
            for q, val in s.preds.items():
                if q[0] == "utf8" and not val and same_bytes(s, q[1], addc(h, 2), K(4)):
                    return None
                if q[0] == "streq" and not val and {("by", (("l", b"MQTT"),))} & set(q[1:]) and \
                        any(same_bytes(s, x, addc(h, 2), K(4)) for x in q[1:]):
                    return None
            fb = b(addc(h, 7))
            # user name without password is fine, a password needs a user name; will bits only with a will
            if not s.assume(("m", fb, bmask(lambda x: not x & 1 and (x & 4 or not x & 0x38) and x & 0x18 != 0x18 and (x & 0x80 or not x & 0x40)))):
                return None
            if not self.need(s, addc(h, 10), end):
                return None
            p = self.wtext(s, addc(h, 10), end)
            if p is None:
                return None
            L = sub(p, addc(h, 12))
            z = s.copy()
            for c, more in ((("ge", addc(L, -1)), None), (("eq", L), ("m", fb, bmask(lambda x: x & 2)))):
                z = s.copy()
                if z.assume(c) and (more is None or z.assume(more)):
                    w = self.connect_rest(z, fb, p, end, ((2, True), (2, True), (7, True), (6, True)), "")
                    if w:
                        return "CONNECT" + w
            return None
        if nib in (8, 10):
            p = s.ghost.get("cur")
            if p is None:
                p = addc(h, 2)
            elif not self.need(s, p, end):
                return None
            # one more entry must be right for the refusal to be wrong
            if self.eq(s.copy(), sub(end, p), 0) and s.ghost.get("cur") is not None:
                return "list complete"
            t = self.wtext(s, p, end)
            if t is None:
                return None
            if nib == 8:
                if not self.need(s, addc(t, 1), end) or not s.assume(("m", b(t), 7)):
                    return None
            return "list entry"
        return None

    def connect_rest(self, s, fb, p, end, todo, acc):
        """last chance: every optional field, present or absent"""
        if not todo:
            return (acc or " without options") if self.eq(s, sub(end, p), 0) else None
        (flag, utf8), rest = todo[0], todo[1:]
        z = s.copy()
        if z.assume(("m", fb, bmask(lambda x: not x >> flag & 1))):
            w = self.connect_rest(z, fb, p, end, rest, acc)
            if w:
                return w
        z = s.copy()
        if z.assume(("m", fb, bmask(lambda x: x >> flag & 1))):
            t = self.wtext(z, p, end, utf8)
            if t is not None:
                return self.connect_rest(z, fb, t, end, rest, acc + " %d" % flag)
        return None

    def eq(self, s, l, n):
        return s.assume(("ge", addc(l, -n))) and s.assume(("ge", neg(addc(l, -n))))


def pinned(nib, head):
    """the bytes whose tables the rule still needs: the header, and the length of the next list entry"""
    def pin(st, a):
        if a[0] != "B" or a[1] != "IN":
            return False
        pos = a[2]
        if nib in (8, 10):
            cur = st.ghost.get("cur")
            if cur is not None and (pos == cur or pos == addc(cur, 1)):
                return True
            if nib == 8:
                # the byte after the entry's filter
                if cur is None:
                    cur = K(head + 2)
                L = add(scale(B(cur), 256), B(addc(cur, 1)))
                if pos == add(addc(cur, 2), L) or pos == addc(cur, 2):
                    return True
                cur = st.ghost.get("cur")
            return not pos[1] and pos[0] <= (9 if cur is None else 4)
        if not pos[1]:
            return pos[0] < 16
        return nib in (1, 3)
    return pin


def run(p, nib, dig=0):
    try:
        i = only(p, "packets::Packet::unpack")
    except KeyError as e:
        return missing(PROPS, str(e))
    mon = Mon(nib)
    eng = new_engine(p, mon)
    st = St()
    st.mask[b(0)] = ((1 << 16) - 1) << (16 * nib)
    if dig:
        # exactly dig length digits; 5: more than four
        for k in range(1, min(dig, 4) + 1):
            st.mask[b(k)] = LOW if k == dig else HIGH
    eng.pinned = set(st.mask)
    eng.k_const = lambda st: 5 if st.ghost.get("cur") is None else 1
    eng.pin = pinned(nib, 1 + dig)
    eng.frame_push(st, i, [("vref", BY(("s", "IN", ZERO, N))),
                           ("e", "core::enums::ProtocalVersion", A(("s", "proto", ("en", "core::enums::ProtocalVersion"))))])
    r = run_job(eng, st, mon)
    if mon.okends == 0 and nib not in (0, 15) and dig != 5:
        r["viol"].append({"key": ["C05", "none:%d" % nib], "msg": "no %s is ever accepted" % NAMES[nib],
                          "where": "Packet::unpack", "path": []})
        if dig:
            r["viol"].append({"key": ["C03", "digits:%d" % dig], "msg": "no %s whose Remaining Length has %d digits is ever accepted" % (NAMES[nib], dig),
                              "where": "Packet::unpack", "path": []})
    r["what"] = "Packet::unpack, type nibble %d%s: %d end states, %d accepted" % (nib, ", %d length digits" % dig if dig else "", mon.ends, mon.okends)
    return r

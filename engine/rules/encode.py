"""Every packet constructor with arbitrary arguments: C03 (lengths written), C04 (layout), C01 (no panic)."""
from rules.common import *

PROPS = ("C01", "C03", "C04", "C28")
T, PAY, ID, QOS, RC, CODES = "T", "P", ("s", "id", "u16"), "packets::enums::QosLevel", \
    "packets::enums::ConnectReturnCode", "packets::enums::SubackReturnCode"
TLEN, PLEN = A(("s", "tlen", "len")), A(("s", "plen", "len"))
NCODES = A(("s", ("len", "codes"), "len"))
MAXBODY = 268435455
IDONLY = {"make_puback": 0x40, "make_pubrec": 0x50, "make_pubrel": 0x62, "make_pubcomp": 0x70, "make_unsuback": 0xb0}
ALL = ["make_publish", "make_suback", "make_connack", "make_ping_resp"] + sorted(IDONLY)
CODEVALS = {"packets::enums::SubackReturnCode": {0, 1, 2, 128}}


def jobs():
    return [("encode", n) for n in ALL]


def boolean(n):
    return ("b", ("p", ("s", n)))


def undiv(l):
    """remainders written as x - n*(x div n), nested divisions merged"""
    def dv(x, n):
        x = undiv(x)
        if x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1 and x[1][0][0][0] == "div":
            return A(("div", x[1][0][0][1], x[1][0][0][2] * n))
        return A(("div", x, n))
    r = K(l[0])
    for a, k in l[1]:
        if a[0] == "rem":
            t = sub(undiv(a[1]), scale(dv(a[1], a[2]), a[2]))
        elif a[0] == "div":
            t = dv(a[1], a[2])
        elif a[0] == "opr" and a[3] == "wrap":
            t = undiv(a[4])
            t = None
        else:
            t = A(a)
        if t is None:
            t = A(a)
        r = add(r, scale(t, k))
    return r


class Mon(Base):
    props = PROPS

    def __init__(self, name):
        Base.__init__(self)
        self.name = name

    def ev_panic(self, eng, st, ev):
        self.bad(eng, st, "C01", "panic:%s" % self.name, "%s can panic: %s" % (self.name, short(ev[1])))

    def ev_transmute(self, eng, st, ev):
        t = eng.p.types.get(ev[1])
        lo, hi = st.bounds(ev[2]) if ev[2] is not None else (0, 1 << 64)
        ds = {x["d"] for x in t["variants"]} if t and t.get("variants") else set()
        if hi - lo > 300 or not set(range(lo, hi + 1)) <= ds:
            self.bad(eng, st, "C28", "transmute:" + fname(eng, st), "unchecked conversion to %s of an undeclared value" % ev[1])
        else:
            self.ok("C28")

    def ev_put(self, eng, st, ev):
        """SUBACK: the codes go out one by one, in order"""
        if self.name != "make_suback" or not st.is_zero(addc(by_len(ev[2]), -1)):
            return
        segs = [s for s in ev[2][1] if not st.is_zero(seg_len(s))]
        for s in segs:
            l = s[1] if s[0] == "u" else None
            if l is not None and len(l[1]) >= 1 and all(has_code(a) for a, _ in l[1]):
                k = st.ghost.get("codes", ZERO)
                want = eng.sym(("el", "codes", k), CODES)[2]
                if not st.is_zero(sub(l, want)):
                    self.bad(eng, st, "C04", "suback:order", "a code is written that is not the next one of the list")
                st.ghost["codes"] = addc(k, 1)
                self.ok("C04")

    def ev_end(self, eng, st, ev):
        v = ev[1]
        if v[0] == "vref":
            v = v[1]
        self.ends += 1
        if v[0] != "by":
            self.bad(eng, st, "C04", "shape:" + self.name, "%s gives no byte string" % self.name)
            return
        r = Reader(eng, st, v)
        w = self.layout(eng, st, r)
        if w:
            self.bad(eng, st, w[0], "%s:%s" % (self.name, w[1]), "%s: %s" % (self.name, w[1]))
        else:
            self.ok("C04", r.n)
            self.ok("C03")

    def layout(self, eng, st, r):
        # first byte
        b0 = r.byte()
        if b0 is None:
            return "C04", "no first byte"
        if self.name == "make_publish":
            want = add(add(scale(r.boolean("dup"), 8), scale(A(QS), 2)), add(r.boolean("retain"), K(0x30)))
            if not r.zero(sub(b0, want)):
                return "C04", "type or flag bits are wrong"
        else:
            want = {"make_suback": 0x90, "make_connack": 0x20, "make_ping_resp": 0xd0}.get(self.name) or IDONLY[self.name]
            if not r.zero(addc(b0, -want)):
                return "C04", "type or flag bits are wrong"
        # body length
        total, k, more = ZERO, 0, True
        while more:
            d = r.byte()
            if d is None:
                return "C03", "the Remaining Length is incomplete"
            k += 1
            lo, hi = st.bounds(d)
            if lo >= 128 and hi < 256:
                d = addc(d, -128)
            elif lo >= 0 and hi < 128:
                more = False
            else:
                return "C03", "a Remaining Length digit is not a byte with a decided continuation bit"
            total = add(total, scale(d, 128 ** (k - 1)))
            if k > 4:
                return "C03", "the Remaining Length has more than four digits"
        body = r.rest_len()
        diff = undiv(sub(total, body))
        # what is left is a multiple of the last quotient, which the path makes zero
        ok = st.is_zero(diff) or diff[0] == 0 and all(
            a[0] == "div" and (st.is_zero(A(a)) or st.nonneg(a[1]) and st.nonneg(sub(K(a[2] - 1), a[1]))) for a, _ in diff[1])
        if not ok:
            return "C03", "the Remaining Length is not the size of the body"
        # body
        if self.name == "make_ping_resp":
            pass
        elif self.name == "make_connack":
            a, b = r.byte(), r.byte()
            if a is None or not r.zero(sub(a, r.boolean("present"))):
                return "C04", "the acknowledge flags are not the session-present bit"
            if b is None or not r.zero(sub(b, A(("s", "rc", ("en", RC))))):
                return "C04", "the second byte is not the return code"
        elif self.name == "make_publish":
            if not r.u16(TLEN):
                return "C04", "the topic is not prefixed with its length"
            if not r.bytes(T, TLEN):
                return "C04", "the topic is not written as given"
            if st.ghost["some"]:
                if not r.u16(A(ID)):
                    return "C04", "no packet identifier after the topic"
            if not r.bytes(PAY, PLEN):
                return "C04", "the payload is not written as given"
        else:
            if not r.u16(A(ID)):
                return "C04", "the packet identifier is not the first field"
            if self.name == "make_suback":
                if not st.is_zero(sub(r.rest_len(), NCODES)) or not st.is_zero(sub(st.ghost.get("codes", ZERO), NCODES)):
                    return "C04", "the body has not one byte per code"
                return None
        if not r.zero(r.rest_len()):
            return "C04", "bytes follow the last field"
        return None


QS = ("s", "qos", ("en", QOS))


def has_code(a):
    return a[0] == "s" and isinstance(a[1], tuple) and a[1][0] == "el" and a[1][1] == "codes"


class Reader:
    def __init__(self, eng, st, v):
        self.eng, self.st, self.n = eng, st, 0
        self.segs = [s for s in v[1] if not st.is_zero(seg_len(s))]

    def zero(self, l):
        return self.st.is_zero(l) or self.st.is_zero(undiv(l))

    def boolean(self, n):
        return self.eng.b_to_lin(self.st, ("p", ("s", n)))

    def rest_len(self):
        return by_len(("by", tuple(self.segs)))

    def byte(self):
        if not self.segs:
            return None
        s = self.segs[0]
        self.n += 1
        if s[0] == "l":
            self.segs[0:1] = [("l", s[1][1:])] if len(s[1]) > 1 else []
            return K(s[1][0])
        if s[0] == "u":
            self.segs.pop(0)
            return s[1]
        if s[0] == "s" and self.st.is_zero(addc(s[3], -1)):
            self.segs.pop(0)
            return A(("B", s[1], s[2]))
        if s[0] == "be" and s[1] > 1:
            return None
        return None

    def u16(self, want):
        if self.segs and self.segs[0][0] == "be":
            s = self.segs.pop(0)
            self.n += 2
            return s[1] == 2 and self.zero(sub(s[2], want))
        h = self.byte()
        l = self.byte()
        if h is None or l is None:
            return False
        # two single bytes: high then low
        v = undiv(add(scale(h, 256), l))
        return self.zero(sub(v, want))

    def bytes(self, src, n):
        if self.st.is_zero(n):
            return True
        if not self.segs:
            return False
        s = self.segs.pop(0)
        self.n += 1
        return s[0] == "s" and s[1] == src and self.st.is_zero(s[2]) and self.st.is_zero(sub(s[3], n))


def run(p, name):
    try:
        i = only(p, "packets::Packet::" + name)
    except KeyError as e:
        return missing(PROPS, str(e))
    mon = Mon(name)
    eng = new_engine(p, mon)
    eng.pin = lambda st, a: a[0] in ("div", "rem") or A(a) == NCODES
    rs = []
    for some_id in ((True, False) if name == "make_publish" else (True,)):
        st = St()
        st.ghost["some"] = some_id
        ident = ("i", A(ID))
        if name == "make_publish":
            st.add_ge(sub(K(65535), TLEN))
            st.add_ge(sub(K(MAXBODY - 4), add(TLEN, PLEN)))
            oty = "std::option::Option<u16>"
            by = lambda s, n: BY(("s", s, ZERO, n))
            args = [boolean("dup"), ("e", QOS, A(QS)), boolean("retain"), by(T, TLEN),
                    ("adt", oty, 1, (ident,)) if some_id else ("adt", oty, 0, ()), by(PAY, PLEN)]
        elif name == "make_suback":
            st.add_ge(sub(K(MAXBODY - 2), NCODES))
            args = [ident, ("vec", (("any", "codes", CODES, NCODES),))]
        elif name == "make_connack":
            args = [("e", RC, A(("s", "rc", ("en", RC)))), boolean("present")]
        elif name == "make_ping_resp":
            args = []
        else:
            args = [ident]
        if p.inst[i]["argc"] != len(args):
            return missing(PROPS, "arguments of " + name)
        eng.frame_push(st, i, args)
        rs.append(run_job(eng, st, mon))
    r = rs[-1]
    if mon.ends == 0:
        r["viol"].append({"key": ["C04", "none:" + name], "msg": "%s never returns" % name, "where": name, "path": []})
    r["what"] = "Packet::%s with arbitrary arguments: %d end states" % (name, mon.ends)
    return r

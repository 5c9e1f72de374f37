"""Flag accessors and code conversions, tabulated over every byte value: C05, C06, C28."""
from rules.common import *

PROPS = ("C01", "C05", "C06", "C28")
# function, self type, expected result of byte x (None: an error)
FLAGS = {
    "packets::headers::fixed_header::FixedHeader::get_packet_type": ("fixed", lambda x: x >> 4 if 1 <= x >> 4 <= 14 else None),
    "packets::headers::fixed_header::FixedHeader::get_dup": ("fixed", lambda x: x >> 3 & 1),
    "packets::headers::fixed_header::FixedHeader::get_qos": ("fixed", lambda x: x >> 1 & 3 if x >> 1 & 3 < 3 else None),
    "packets::headers::fixed_header::FixedHeader::get_retain": ("fixed", lambda x: x & 1),
    "packets::headers::connect::Flags::validate_flags": ("flags", lambda x: x & 1),
    "packets::headers::connect::Flags::clean_session": ("flags", lambda x: x >> 1 & 1),
    "packets::headers::connect::Flags::will": ("flags", lambda x: x >> 2 & 1),
    "packets::headers::connect::Flags::will_qos": ("flags", lambda x: x >> 3 & 3 if x >> 3 & 3 < 3 else None),
    "packets::headers::connect::Flags::will_retain": ("flags", lambda x: x >> 5 & 1),
    "packets::headers::connect::Flags::has_password": ("flags", lambda x: x >> 6 & 1),
    "packets::headers::connect::Flags::has_username": ("flags", lambda x: x >> 7 & 1),
}
CODES = {
    "packets::enums::PacketType": lambda x: x if 1 <= x <= 14 else None,
    "packets::enums::QosLevel": lambda x: x if x < 3 else None,
    "packets::enums::ConnectReturnCode": lambda x: x if x < 6 else None,
    "packets::enums::SubackReturnCode": lambda x: x if x in (0, 1, 2, 128) else None,
}
X = ("s", "x", "u8")


def jobs():
    return [("codes", 0)]


class Mon(Base):
    props = PROPS

    def __init__(self, name, want, prop):
        Base.__init__(self)
        self.name, self.want, self.prop = name, want, prop
        self.seen = set()

    def ev_panic(self, eng, st, ev):
        self.bad(eng, st, "C01", "panic:" + self.name, "%s can panic: %s" % (self.name, short(ev[1])))

    def ev_transmute(self, eng, st, ev):
        ty, l = ev[1], ev[2]
        t = eng.p.types.get(ty)
        ok = False
        if l is not None and t and t.get("variants"):
            ds = {x["d"] for x in t["variants"]}
            ok = all(self.value(l, x) in ds for x in self.bytes(st))
        if not ok:
            self.bad(eng, st, "C28", "transmute:" + self.name, "unchecked conversion to %s of an undeclared value" % ty)
        else:
            self.ok("C28")

    def bytes(self, st):
        m = st.m(X)
        return [x for x in range(256) if m >> x & 1]

    def value(self, l, x):
        base = single_base(l)
        if base is None:
            return l[0] if not l[1] else None
        if base != X:
            return None
        return table_of(l, X)[x]

    def ev_end(self, eng, st, ev):
        v = ev[1]
        self.ends += 1
        for x in self.bytes(st):
            w = self.want(x)
            self.seen.add(x)
            got = self.result(eng, st, v, x)
            if got != w:
                p = self.prop if w is not None or self.prop == "C05" else "C06"
                self.bad(eng, st, p, "%s" % self.name, "%s of byte 0x%02x gives %s, not %s" % (
                    self.name, x, "an error" if got is None else got, "an error" if w is None else w))
                return
            self.ok(self.prop)
            if w is None:
                self.ok("C06")

    def result(self, eng, st, v, x):
        if v[0] == "adt" and ty_head(v[1]).endswith(("Result", "Option")):
            n = variant_name(eng, v)
            if n in ("Err", "None"):
                return None
            v = v[3][0]
        if v[0] == "b":
            c = v[1]
            if c[0] in "TF" and len(c) == 1:
                return int(c[0] == "T")
            if c[0] == "m" and c[1] == X:
                return c[2] >> x & 1
            if c[0] in ("ge", "eq", "ne"):
                z = self.value(c[1], x)
                return None if z is None else int({"ge": z >= 0, "eq": z == 0, "ne": z != 0}[c[0]])
            return ("?", str(c)[:80])
        if v[0] == "e":
            return self.value(v[2], x)
        if v[0] == "adt":
            t = eng.p.types.get(v[1])
            return t["variants"][v[2]]["d"] if t and t.get("enum") else ("?",)
        if v[0] == "i":
            return self.value(v[1], x)
        return ("?", v[0])


def run(p, _n):
    out = {"viol": [], "ob": {}, "steps": 0, "states": 0, "fns": [], "unknown": {}, "events": {}, "samples": []}
    n = 0

    def merge(r):
        out["viol"] += r["viol"]
        for k, v in r["ob"].items():
            out["ob"][k] = out["ob"].get(k, 0) + v
        for k in ("steps", "states"):
            out[k] += r[k]
        out["fns"] = sorted(set(out["fns"]) | set(r["fns"]))
        out["unknown"].update(r["unknown"])

    def go(iid, name, arg, want, prop):
        mon = Mon(name, want, prop)
        eng = new_engine(p, mon, 20000)
        st = St()
        eng.pinned = {X}
        a = arg
        eng.frame_push(st, iid, [a])
        r = run_job(eng, st, mon)
        if mon.seen != set(range(256)) and not r["viol"]:
            r["viol"].append({"key": [prop, "partial:" + name], "msg": "%s returns nothing for some bytes" % name, "where": name, "path": []})
        merge(r)

    # every function of the crate, also those no other rule runs
    for name, where, ops in p.f["fns"]:
        out["ob"]["C28"] = out["ob"].get("C28", 0) + 1
        for op in sorted(set(ops)):
            # conversions are looked at where they are run: here, by decode and by encode
            if op not in ("std::intrinsics::transmute", "std::mem::transmute") or "packets::" not in name:
                out["viol"].append({"key": ["C28", "unsafe:%s:%s" % (name.split("@")[0], op)], "msg": "%s is used" % op, "where": "%s (%s)" % (name, where), "path": []})
    for path, (kind, want) in FLAGS.items():
        ids = p.fn(path)
        if not ids:
            continue          # an accessor may go as long as the decoded values stay right
        n += 1
        st = St()
        ty = "packets::headers::fixed_header::FixedHeader" if kind == "fixed" else "packets::headers::connect::Flags"
        fs = p.types[ty]["variants"][0]["f"]
        vals = []
        for i, f in enumerate(fs):
            vals.append(("i", A(X)) if f["t"] == "u8" else ("i", A(("s", ("fld", i), f["t"]))))
        go(ids[0], path.split("::", 2)[-1], ("vref", ("adt", ty, 0, tuple(vals))), want, "C05")
    for iid, inst in sorted(p.inst.items()):
        path = inst["path"]
        for ty, want in CODES.items():
            for arg in ("u8", "&u8"):
                if path == "<%s as std::convert::TryFrom<%s>>::try_from" % (ty, arg):
                    n += 1
                    go(iid, path, ("i", A(X)) if arg == "u8" else ("vref", ("i", A(X))), want, "C06")
    out["what"] = "%d accessors and conversions over 256 byte values" % n
    out["samples"] = ["FixedHeader::get_qos: 256 byte values against bits 2-1, 3 refused"]
    if n < 8:
        out["viol"].append({"key": ["C06", "few"], "msg": "only %d accessors and conversions found" % n, "where": "-", "path": []})
    return out

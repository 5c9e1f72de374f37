"""The listener, from the start of the program to its end: C21, C27.

The program is run from main with every outcome of binding, accepting, sending and waiting, and with
the interrupt arriving at any moment.  Tasks it spawns are not followed here (rules/router.py and
rules/conn.py do); what they are given, and by which tracker, is.
"""
from rules.common import *
from rules.router import CMD, RX, kind_of
from rules.conn import TCP, TOKEN

PROPS = ("C21", "C27")


def jobs():
    return [("main", 0)]


class Mon(Base):
    props = PROPS

    def __init__(self, p):
        Base.__init__(self)
        self.p = p
        self.done = 0
        self.served = 0
        self.errors = 0

    def both(self, eng, st, key, msg):
        for pr in PROPS:
            self.bad(eng, st, pr, key, msg)

    def ev_unknown(self, eng, st, ev):
        if str(ev[1]).startswith(("await of", "poll of")):
            self.both(eng, st, "undecided:%s" % ev[1], "the listener waits for something unknown: %s" % ev[1])

    def ev_blocking(self, eng, st, ev):
        if st.ghost.get("on"):
            self.bad(eng, st, "C27", "blocking:%s" % ev[1], "the listener blocks its thread in %s" % ev[1])

    def ev_panic(self, eng, st, ev):
        if st.ghost.get("on"):
            self.bad(eng, st, "C27", "panic:%s" % short(ev[1], 60), "the listener can reach %s" % short(ev[1]))

    # ------------------------------------------------------------ tasks
    def holds(self, eng, st, v, want, seen=None):
        """the things of one kind a value keeps"""
        out, todo, seen = [], [v], set()
        while todo:
            x = todo.pop()

            def visit(y):
                if want(y):
                    out.append(y)
                if y[0] == "coro":
                    for k in [k for k in st.cells if k[0] == ("co", y[2]) and isinstance(k[1], int)]:
                        if k not in seen:
                            seen.add(k)
                            todo.append(st.cells[k])
                elif y[0] == "ref" and y[1] in st.cells and y[1] not in seen:
                    seen.add(y[1])
                    todo.append(st.cells[y[1]])
                elif y[0] == "op" and y[1] == "box" and y[2] in st.cells and y[2] not in seen:
                    seen.add(y[2])
                    todo.append(st.cells[y[2]])
            if isinstance(x, tuple):
                walk(x, visit)
        return out

    def ev_spawn(self, eng, st, ev):
        g = st.ghost
        tr, task = ev[1], ev[2]
        if task[0] == "op" and task[1] == "tracked":
            tr, task = task[2], task[3]
        if tr is None:
            self.bad(eng, st, "C21", "untracked:" + fname(eng, st), "a task is started that shutdown does not wait for")
        else:
            old = g.get("trackers", ("tup", ()))[1]
            if tr not in old and len(old) < 2:
                g["trackers"] = ("tup", old + (tr,))
            self.ok("C21")
        streams = self.holds(eng, st, task, lambda y: y[0] == "op" and len(y) > 2 and y[1] in ("stream", "reader", "writer"))
        rxs = self.holds(eng, st, task, lambda y: y[0] == "op" and len(y) > 2 and y[1] == "rx" and isinstance(y[2], tuple) and y[2][-1] == CMD)
        if rxs:
            g["router"] = rxs[0]
            self.ok("C27")
        if streams:
            if streams[0][2] != g.get("new"):
                self.bad(eng, st, "C27", "served:twice", "a stream is handed to a task twice")
            g.pop("new", None)
            self.served += 1
            toks = self.holds(eng, st, task, lambda y: y[0] == "op" and len(y) == 3 and y[1] == "tok")
            inner = {t[2][1] for t in toks if isinstance(t[2], tuple) and t[2][0] == "child"}
            toks = [t for t in toks if t not in inner]
            if len(set(toks)) != 1:
                self.bad(eng, st, "C21", "token:none", "a connection is started without a cancellation token")
            else:
                old = g.get("toks", ("tup", ()))[1]
                if toks[0] not in old and len(old) < 2:
                    g["toks"] = ("tup", old + (toks[0],))
                self.ok("C21")
            txs = self.holds(eng, st, task, lambda y: y[0] == "op" and len(y) > 2 and y[1] == "tx")
            if not txs or g.get("router") is None or txs[0][2] != g["router"][2]:
                self.bad(eng, st, "C27", "bridge", "a connection is started without a way to the router")
            else:
                self.ok("C27")

    # ------------------------------------------------------------ waiting
    def ev_wait(self, eng, st, ev):
        f, sel = ev[1], ev[2]
        k = f[2]
        g = st.ghost
        if k == "accept":
            if g.get("new") is not None:
                self.bad(eng, st, "C27", "unserved", "an accepted connection is not given to a task")
                g.pop("new")
            if g.get("sig"):
                self.bad(eng, st, "C21", "goes on", "the listener accepts connections after the interrupt")
                raise Infeasible()
            if g.get("router") is None:
                self.bad(eng, st, "C27", "router", "connections are accepted with no router running")
            g["on"] = 1
        elif k == "ctrl_c":
            if g.get("sighere") not in (None, f[3]):
                pass
            g["sighere"] = f[3]
        elif k in ("read", "read_buf", "write", "write_buf", "write_all", "write_all_buf", "orecv"):
            self.both(eng, st, "serves", "the listener itself serves a connection, deaf to the interrupt and to new connections")
            raise Infeasible()
        elif not sel and g.get("on") and not g.get("sig"):
            self.both(eng, st, "wait:" + k, "the listener waits for %s, deaf to the interrupt and to new connections" % k)
            raise Infeasible()

    def ev_pending(self, eng, st, ev):
        st.ghost["pend"] = tuple(sorted(set(st.ghost.get("pend", ())) | {ev[1][2]}))

    def ev_suspend(self, eng, st, ev):
        g = st.ghost
        pend = g.pop("pend", ())
        if not g.get("on") or g.get("sig"):
            return
        if "ctrl_c" not in pend:
            self.bad(eng, st, "C21", "deaf:" + ",".join(pend), "the listener waits for %s without looking for the interrupt" % ", ".join(pend))
        else:
            self.ok("C21")
        if "accept" not in pend:
            self.bad(eng, st, "C27", "deaf:" + ",".join(pend), "the listener waits for %s without looking for new connections" % ", ".join(pend))
            raise Infeasible()
        else:
            self.ok("C27")

    def ev_selected(self, eng, st, ev):
        st.ghost.pop("pend", None)

    def ev_ready(self, eng, st, ev):
        f, name, res = ev[1:4]
        k = f[2]
        g = st.ghost
        if g.get("pend"):
            g["pend"] = tuple(x for x in g["pend"] if x != k)
        if k == "ctrl_c":
            g["sig"] = 1
            g.pop("sighere", None)
        elif k == "accept":
            if name == "ok":
                g["new"] = res[3][0][1][0][2]
            else:
                self.errors += 1
        elif k == "tracker_wait":
            self.waited(eng, st, f[3])
        g["pend"] = tuple(x for x in g.get("pend", ()) if x != k)
        if not g["pend"]:
            g.pop("pend")

    def ev_drop(self, eng, st, ev):
        v = ev[1]
        g = st.ghost
        if v[0] == "op" and v[1] == "fut" and v[2] == "ctrl_c" and g.get("sighere") == v[3]:
            g.pop("sighere")
            if not g.get("sig"):
                self.bad(eng, st, "C21", "missed", "the listener for the interrupt is thrown away and made anew: an interrupt in between is lost")

    # ------------------------------------------------------------ shutting down
    def ev_send(self, eng, st, ev):
        self.told(eng, st, ev[1], ev[2])

    def ev_sendfail(self, eng, st, ev):
        self.told(eng, st, ev[1], ev[2])

    def ev_try_send(self, eng, st, ev):
        if not ev[3]:
            st.ghost["tryfail"] = 1
        else:
            self.told(eng, st, ev[1], ev[2])

    def told(self, eng, st, ch, v):
        g = st.ghost
        if g.get("router") is None or ch != g["router"][2]:
            return
        var = self.p.types[CMD]["variants"][v[2]] if v[0] == "adt" else None
        if var is None or kind_of(var) != "exit":
            self.bad(eng, st, "C27", "command", "the listener itself sends the router a command")
            return
        if not g.get("sig"):
            self.bad(eng, st, "C27", "exit:early", "the router is told to stop without an interrupt")
        g["told"] = 1

    def ev_cancel(self, eng, st, ev):
        g = st.ghost
        if not g.get("sig"):
            self.both(eng, st, "cancel:early", "connections are cancelled without an interrupt")
        g["cancelled"] = ("tup", g.get("cancelled", ("tup", ()))[1] + (ev[1],))

    def ev_tracker_close(self, eng, st, ev):
        g = st.ghost
        g["closed"] = ("tup", g.get("closed", ("tup", ()))[1] + (ev[1],))

    def below(self, t, tops):
        while True:
            if t in tops:
                return True
            if t[:2] == ("op", "tok") and isinstance(t[2], tuple) and t[2][0] == "child":
                t = t[2][1]
            else:
                return False

    def waited(self, eng, st, tracker):
        g = st.ghost
        if not g.get("told"):
            self.bad(eng, st, "C21", "order:exit", "the tasks are waited for before the router is told to stop")
        tops = g.get("cancelled", ("tup", ()))[1]
        for t in g.get("toks", ("tup", ()))[1]:
            if not self.below(t, tops):
                self.bad(eng, st, "C21", "order:cancel", "the tasks are waited for before the connections are cancelled")
            else:
                self.ok("C21")
        if tracker not in g.get("closed", ("tup", ()))[1]:
            self.bad(eng, st, "C21", "open", "the tracker waited for is not closed, so the wait never ends")
        g["waited"] = ("tup", g.get("waited", ("tup", ()))[1] + (tracker,))
        self.ok("C21")

    def ev_end(self, eng, st, ev):
        g = st.ghost
        if not g.get("on"):
            return
        self.done += 1
        if not g.get("sig"):
            self.bad(eng, st, "C27", "end", "the listener ends without an interrupt")
            return
        self.ok("C27")
        if g.get("new") is not None:
            self.bad(eng, st, "C27", "unserved", "an accepted connection is not given to a task")
        if not g.get("told"):
            self.bad(eng, st, "C21", "exit", "the broker ends without telling the router to stop")
        for t in g.get("toks", ("tup", ()))[1]:
            if not self.below(t, g.get("cancelled", ("tup", ()))[1]):
                self.bad(eng, st, "C21", "cancel", "the broker ends without cancelling the connections")
        for t in g.get("trackers", ("tup", ()))[1]:
            if t not in g.get("waited", ("tup", ()))[1]:
                self.bad(eng, st, "C21", "wait", "the broker ends without waiting for its tasks")
            else:
                self.ok("C21")


def run(p, _n):
    ids = [i for i, x in p.inst.items() if x["local"] and x["kind"] == "fn" and x["path"] == "main"]
    if len(ids) != 1 or CMD not in p.types:
        return missing(PROPS, "main")
    mon = Mon(p)
    eng = new_engine(p, mon)
    eng.use_live = True
    eng.unroll = lambda st: len(st.frames) > 1 and st.frames[-2][:2] == ("nat", "pollfn")
    st = St()
    eng.frame_push(st, ids[0], [])
    r = run_job(eng, st, mon)
    if not r["viol"] and not (mon.done and mon.served and mon.errors):
        for pr in PROPS:
            r["viol"].append({"key": [pr, "none"], "msg": "no path listens, serves, survives a failed accept and ends", "where": "main", "path": []})
    r["what"] = "main: %d ends, %d connections" % (mon.done, mon.served)
    return r

"""Which jobs decide which property, and what to say about it."""
import importlib
import re

TRUST = [
    "rustc's own type checking and MIR construction (mir_built), read by driver/main.rs",
    "engine/core.py: the abstract interpreter over that MIR (intervals, byte tables, linear facts, widening at loop heads)",
    "engine/models.py: summaries of the std, bytes, tokio, dashmap and uuid functions the broker calls",
    "the rule modules in engine/rules",
]
ASSUME = [
    "library functions without a summary return any value of their type, may write through the mutable references they get, and do not panic",
    "allocation succeeds; lengths of in-memory objects stay below 2^48",
]

PROPS = {}


def prop(pid, jobs, rule, level="proof", floor=1, assumptions=(), also=()):
    """also: (job, property, key pattern): what those jobs report of another property breaks this one too"""
    PROPS[pid] = {"jobs": jobs, "rule": rule, "level": level, "floor": floor, "assumptions": list(assumptions), "also": list(also)}


def select(name):
    """the jobs of a module, or those of it with one first argument"""
    mod, _, arg = name.partition(":")
    return [j for j in importlib.import_module("rules." + mod).jobs() if not arg or str(j[1]) == arg]


def jobs(pid):
    out = []
    for name in PROPS[pid]["jobs"] + [a[0] for a in PROPS[pid]["also"]]:
        for j in select(name):
            if j not in out:
                out.append(j)
    return out


def also(pid, job, prop):
    """which keys of a property reported by a job count for this one"""
    return [pat for name, q, pat in PROPS[pid]["also"] if q == prop and tuple(job) in select(name)]


def counts(pid, job, key):
    return key[0] in (pid, "*") or any(re.match(pat, key[1]) for pat in also(pid, job, key[0]))


def obligations(pid, job, ob):
    return ob.get(pid, 0) + sum(n for q, n in ob.items() if q != pid and also(pid, job, q))


prop("C03", ["decode", "encode"], "Reading: on every accepting path of Packet::unpack the declared size is the sum of one to four digits weighted by powers of 128, and a fifth digit is refused. Writing: for every constructor and every size of body up to 268,435,455, the digits written add up to exactly the size of the bytes after them, with at most four digits and the continuation bit on all but the last.", floor=60, also=[("decode", "C05", "refused:[^:]*:MalformedHeader")])
prop("C04", ["encode"], "Every packet constructor is run with arbitrary arguments; the resulting byte string is compared piece by piece with the layout in the standard.", floor=100)
prop("C05", ["decode", "codes"], "On every accepting path of Packet::unpack each field of the result is the byte range or 16-bit integer that an independent walk of the same bytes by the standard's layout finds, optional fields are present exactly when their flag bit is set, and every refusing path is inconsistent with every well-formed packet; the flag accessors are tabulated over all 256 byte values.", floor=2000)
prop("C06", ["decode", "codes"], "On every accepting path of Packet::unpack the byte tables and facts exclude each listed malformation; each code conversion is tabulated over all 256 byte values.", floor=2000)
prop("C28", ["decode", "codes", "encode"], "Every unchecked conversion reached holds a value among the declared discriminants of its target, for every byte table on the path; no function of the crate (its typed source is searched, also what no rule runs) calls any other unsafe function, reads through a raw pointer or uses a union, mutable static or assembly.", floor=150)
prop("C11", ["tree"], "Each recursive lookup over the subscription tree is run once with an arbitrary node, an arbitrary remaining topic and a distinguished subscription at an arbitrary place: it must descend with all the remaining levels into exactly the children at the next level's text and '+', collect the '#' child's and, when no level is left, its own list, and nothing else (at the root: no wildcard child for topics starting with '$'); splitting and filter validation are checked for an arbitrary level at an arbitrary place. Induction over the levels gives the statement.", floor=400)
prop("C12", ["tree", "router"], "Each recursive insertion and removal is run once with an arbitrary node and arbitrary remaining levels, with a distinguished entry of the same or of another client: exactly one descent into the child of the next level's text, or exactly one entry added (any earlier one of the client replaced) or removed in exactly the named list; every write to a map of the tree and every claim that a node may be pruned is checked.", floor=300)
prop("C16", ["tree"], "Every access to a concurrent map in the tree's operations is compared with the guards alive at that moment on the same map; guards alive at each suspension point of each task, and iterators and their entries alive at each access to the map they go through, are computed by liveness over the compiler's IR.", floor=100)
STEP = "The router's code is run from the start to its first receive; everything it keeps then becomes arbitrary, one arbitrary command of each kind arrives and the code runs to the next receive, with a distinguished element at an arbitrary place of every list standing for each of them (induction over commands). "
prop("C10", ["router", "conn"], also=[("encode:make_suback", "C04", "")], rule=STEP + "Every path of a register, subscribe or unsubscribe step answers its callback exactly once; the list of codes has the length of the request, and the code at the distinguished filter's place is its QoS if the tree accepted it and 0x80 otherwise.", floor=200)
CONN = "The task of an accepted connection is run from its start over every way the network can deliver bytes, the router can answer and futures can stay pending, with loop heads widened; "
prop("C13", ["tree", "router", "conn"], also=[("encode:make_publish", "C04", ".*flag bits|undecided|none")], rule=STEP + "The tree lookup is shown to return one entry per client at its highest QoS (collection step with the same and with another client); a publish step looks subscribers up once and sends the distinguished one exactly one packet at min(published, granted).", floor=100)
prop("C14", ["router", "conn"], STEP + "Every PUBLISH made in a publish step gets the command's topic and payload unchanged, DUP and RETAIN clear, an identifier from 1 to 65535 exactly when its QoS is above 0, and one different from the last identifier issued, which the router keeps; the distinguished subscriber is attempted whatever the earlier sends return. The decoder takes topic and payload from where the standard puts them, and the constructor of PUBLISH writes out what it is given.", floor=200,
     also=[("encode:make_publish", "C03", ""), ("encode:make_publish", "C04", ""), ("decode:3", "C05", "topic|payload|flags|undecided|none")])
prop("C15", ["router"], STEP + "The only suspension point or blocking call reached in the router's task is receiving the next command.", floor=15)
prop("C20", ["router", "conn"], STEP + "A register step with the identifier in use tells exactly the older connection to close, removes its distinguished subscription from the tree and stores one fresh session; a disconnect step with another identity than the stored one removes nothing.", floor=10)

prop("C01", ["decode", "codes", "encode", "tree", "router", "conn"], "Every panic, arithmetic overflow, out-of-range index, failed unwrap and unbounded recursion that the decoder, the constructors, the subscription tree, the router's steps and a connection's task can reach on any path is a violation.", floor=5)
prop("C02", ["decode", "conn"], CONN + "the bytes given to Packet::unpack must be exactly the next packet of the stream, known to have arrived, and no read may be waited for while a whole packet is at hand; Packet::unpack itself reads nothing past the declared end.", floor=300)
prop("C07", ["conn"], CONN + "no request is sent to the router and no packet written before the registration was confirmed, and none after a second CONNECT.", floor=10)
prop("C08", ["conn"], CONN + "an accepting CONNACK is written exactly once, after the router's answer, with session-present clear; its constructor writes both in their places.", floor=30,
     also=[("encode:make_connack", "C04", ""), ("encode:make_connack", "C03", "")])
prop("C09", ["conn"], CONN + "each packet received gets exactly the acknowledgement the standard names, with its identifier, after the router's answer or the hand-over of the message. The decoder reads and the constructors write that identifier in its place.", floor=100,
     also=[("encode:" + n, "C04", "") for n in ("make_puback", "make_pubrec", "make_pubrel", "make_pubcomp", "make_suback", "make_unsuback", "make_ping_resp")] +
          [("decode:%d" % n, "C05", "packet identifier|id presence|undecided|none") for n in (3, 5, 6, 8, 10)])
prop("C17", ["conn"], CONN + "whenever it waits for a packet a timer is armed that was set after the last packet and whose length is between Keep Alive and one and a half times that (60 s before CONNECT), and with Keep Alive 0 no timer ends the connection. The decoder takes the Keep Alive from its place in CONNECT.", floor=50,
     also=[("decode:1", "C05", "keep alive|undecided|none")])
prop("C18", ["conn"], CONN + "after end of stream, a failed read or write, a decode error, DISCONNECT, a takeover or the loss of the router nothing is read, written or requested any more, and the task ends.", floor=500)
prop("C19", ["router", "conn"], CONN + "on every path to its end the connected-clients count is lowered exactly once and, if registered, the router is told exactly once, with the right identifier and identity. " + STEP + "A disconnect step with the stored identity removes the session and the distinguished subscription.", floor=1000)
prop("C21", ["main", "conn"], "main is run with every outcome of its awaits: every task is started through the tracker, the listener for the interrupt is kept, and after the interrupt the router is told to stop, the token every connection got is cancelled, and the closed tracker is waited for before main returns. " + CONN + "every suspension point other than the router's channel also looks at the cancellation.", floor=500)
prop("C22", ["conn"], CONN + "everything written is a whole packet, every partial write is continued before anything else is written, and nothing is written after a packet was cut short.", floor=50)
prop("C23", ["conn"], CONN + "every command names the identifier decoded from the connection's own CONNECT, which the decoder takes from its place there or generates if it is empty.", floor=100,
     also=[("decode:1", "C05", "client identifier|generated id|undecided|none")])
prop("C24", ["router", "conn"], CONN + "every packet received or written is balanced by exactly one addition of its size and one of 1 to the counters that get_stats reports in those places; the router changes none. The size the decoder reports is that of the packet.", floor=200,
     also=[("decode", "C02", "size|result|undecided")])
prop("C25", ["router", "conn"], CONN + "each PUBLISH is handed to the router before the next packet is looked at, each queued message is written before the next is taken, and no work is handed to other tasks. " + STEP + "The router sends while it processes the command.", floor=50)
prop("C26", ["conn"], CONN + "with an arbitrary identifier followed through the whole connection: a QoS 2 PUBLISH with it is routed exactly if it is not awaiting PUBREL.", floor=2)
prop("C27", ["router", "main"], STEP + "No command but Exit, and no failed send, ends the router's loop. main is run with every outcome of its awaits: only the interrupt ends the accept loop, and every accepted stream is given to a task.", floor=5)

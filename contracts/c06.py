"""Sending a SET: all values, all message kinds, lists of up to four messages with gaps (bounded), bidirectional feedback with up to
three listeners."""
from vf.api import *
from vf import sym as S
from .lib import *
from .pending import *

T = ["controller.client.Client.set", "controller.client.ClientParameterMapping.set_value"]
TB = ["controller.client.BidirectionalClient.set", "controller.client.ClientRequest.notify_listeners"] + T


class Protocol:
    def __init__(self, covered, feedback=None):
        self.covered = covered
        self.fb = covered if feedback is None else feedback
        self.log = []
        self.result = False
    def init(self, midi, client): self.client = client
    def is_bidirectional(self, m): return m.name in self.covered
    def feedback_value(self, m): return m.name in self.fb
    def update(self): self.log.append("update")
    def receive(self, m):
        self.log.append(m)
        return self.result


def set_messages(c, shape):
    """-> (set field, messages in order, value, expected snapshots after set)"""
    def one(i):
        k = c.choice("kind%s" % i, ("sysex", "cc", "pc"))
        if k == "sysex":
            a = [byte(c, "a%s" % i) for _ in range(6)]
            v = c.int("v%s" % i, 0, 16383)
            return sysex(c, [0, 0x20, 0x33], a), v, ("SystemExclusive", [0, 0x20, 0x33], a + [v // 128, v % 128])
        if k == "cc":
            ctl, v = byte(c, "ctl%s" % i), byte(c, "v%s" % i)
            return cc(c, ctl, 0), v, ("ControlChange", ctl, v)
        v = byte(c, "v%s" % i)
        return pc(c, 0), v, ("ProgramChange", v)
    if shape == "none":
        return None, [], c.int("v"), []
    if shape == "single":
        m, v, s = one("")
        return m, [m], v, [s]
    ms, vs, ss, sets = [], [], [], []
    for i in range(shape):
        if c.flag("gap%d" % i):
            sets.append(None)
            vs.append(c.choice("value of the gap", (None, 0)))
        else:
            m, v, s = one(i)
            sets.append(m); ms.append(m); vs.append(v); ss.append(s)
    return sets, ms, vs, ss


def check_sent(c, midi, ms, ss):
    c.check("every SET message exactly once and in order, nothing else", len(midi.log) == len(ms) and all(a is b[0] for a, b in zip(ms, midi.log)),
            lambda: "sent %r, expected %r" % ([x[1] for x in midi.log], ss))
    for (m, s), w in zip(midi.log, ss):
        c.check_eq("sent after the value has been put into it", s, w)


@harness("C06", targets=T, params=("none", "single"))
def set_sends(c, shape):
    midi = Midi(c)
    cl = client(c, midi)
    f, ms, v, ss = set_messages(c, shape)
    p = mapping(c, "p", set=f)
    cl.set(p, v)
    check_sent(c, midi, ms, ss)
    c.cover("done")


@harness("C06", targets=T, params=(1, 2, 3), bounds="lists of one to three messages")
def set_sends_list(c, shape):
    set_sends(c, shape)


class TraceMidi(Midi):
    def send(self, m):
        self.c.trace.append(("sent",) + snap(m))


def any_messages(c, tag, kind):
    """any number of SET messages of a kind, each with a value of its own"""
    def new():
        v = c.int(tag + " v", 0, 16383 if kind == "sysex" else 127)
        if kind == "sysex":
            a = [byte(c, tag + " a") for _ in range(6)]
            m = sysex(c, [0, 0x20, 0x33], a)
            m.want = ("SystemExclusive", [0, 0x20, 0x33], a + [v // 128, v % 128])
        elif kind == "cc":
            ctl = byte(c, tag + " ctl")
            m = cc(c, ctl, 0)
            m.want = ("ControlChange", ctl, v)
        else:
            m = pc(c, 0)
            m.want = ("ProgramChange", v)
        m.v = v
        return m

    def after():
        m = new()
        if kind == "sysex": m.data = S.SymBytes(m.want[2])
        elif kind == "cc": m.value = m.v
        else: m.patch = m.v
        return m
    return c.seg(tag, new, calls=lambda m: [("sent",) + m.want], after=after,
                 inv=lambda m: c.check("the value is put into each message", c.eq(snap(m), m.want)))


@harness("C06", targets=T, params=("sysex", "cc", "pc"), covers=["gap", "message"])
def any_number_of_messages(c, kind):
    """any number of SET messages with values of their own, with gaps: each is sent once, in order, after all values have been put in"""
    midi = TraceMidi(c)
    cl = client(c, midi)
    A, B, C = any_messages(c, "A", kind), any_messages(c, "B", kind), any_messages(c, "C", c.choice("other", ("sysex", "cc")))
    w, v = cc(c, byte(c, "control"), 0), byte(c, "value")
    gap = c.flag("gap")
    c.cover("gap" if gap else "message")
    items = [A, None, B, w, C] if gap else [A, w, C]
    f = c.segs(*items)
    p = mapping(c, "p", set=f)
    cl.set(p, c.twin(f, lambda m: None if m is None else v if m is w else m.v))
    c.check_trace("every message once, in order, with its value", c.trace,
                  c.unroll(items, lambda m: [("sent", "ControlChange", w.control, v)] if m is w else []))


@harness("C06", targets=TB, params=("covered", "not covered"))
def any_number_of_listeners(c, kind):
    """feedback of a set value: each of the listeners of the parameter once, whatever else is registered"""
    covered = kind == "covered"
    midi = TraceMidi(c)
    proto = Protocol(["w"] if covered else [])
    cl = c.get(CL + ":BidirectionalClient")(midi, {}, proto)
    P = Pending(c, cl=cl, midi=midi)
    sm = cc(c, 5, 0)
    w = mapping(c, "w", set=sm, response=nrpn(c, 0), value=c.int("old"))
    old = w.value
    A = P.others("A", False)
    r, items = P.known(w, cl.register)
    B = P.others("B", False)
    P.install(A, r, B)
    v = byte(c, "v")
    changed = lambda l: [("changed", l.name, "w", v)]
    P.expect(items, changed)
    cl.set(w, v)
    c.check_trace("message and each listener once", c.trace, [("sent", "ControlChange", 5, v)] + (P.expect(items, changed) if covered else []))
    c.check_eq("value", w.value, v if covered else old)
    c.check("still registered", cl.get_matching_request(w) is r)


@harness("C06", targets=TB, params=[(s, n) for s in ("none", "single", 2) for n in (0, 1, 2, 3)], bounds="up to three listeners, lists of two messages")
def bidirectional_feedback(c, prm):
    shape, n = prm
    midi = Midi(c)
    covered = c.flag("covered")
    proto = Protocol(["p", "q"] if covered else ["q"])
    cl = c.get(CL + ":BidirectionalClient")(midi, {}, proto)
    f, ms, v, ss = set_messages(c, shape)
    old, qold = c.int("old"), c.int("qold")
    p = mapping(c, "p", set=f, response=nrpn(c, 0), value=old)
    q = mapping(c, "q", response=nrpn(c, 1), value=qold)
    log = []
    Ls = [Listener("L%d" % i, log) for i in range(n)]
    M = Listener("M", log)
    for x in (c.choice("order", ("pq", "qp"))):
        if x == "p":
            cl.register(p, None)
            for l in Ls: cl.register(p, l)
        else:
            cl.register(q, M)
    cl.set(p, v)
    check_sent(c, midi, ms, ss)
    if covered:
        want = [("changed", "L%d" % i, "p") for i in range(n)]
        c.check("value available immediately", p.value is v or c.eq(p.value, v))
    else:
        want = []
        c.check_eq("value untouched", p.value, old)
    c.check("each listener of this parameter exactly once, no other", sorted(e[:3] for e in log) == want, lambda: repr(log))
    c.check_eq("other parameters untouched", q.value, qold)
    # the registration stays: set again
    log.clear()
    cl.set(p, v)
    c.check("again on the next set", sorted(e[:3] for e in log) == want)

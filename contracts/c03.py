"""Two-part parameters: one inductive step from any buffer state (all values, all message kinds, all interleavings by induction) plus
public histories."""
from vf.api import *
from .lib import *

T = ["controller.client.ClientTwoPartParameterMapping.parse", "controller.client.ClientTwoPartParameterMapping.result_finished",
     "controller.client.ClientRequest.parse", "controller.client.Client.receive"]
FIELDS = ("name", "set", "request", "response", "value", "type", "depends")


def make(c, kind):
    if kind == "cc":
        c1, c2 = byte(c, "ctl1"), byte(c, "ctl2")
        c.assume(c1 != c2)
        resp = [cc(c, c1, 0), cc(c, c2, 0)]
        def first(v): return cc(c, c1, v)
        def second(v): return cc(c, c2, v)
        def foreign():
            f = byte(c, "fctl")
            c.assume(c.all([f != c1, f != c2]))
            return cc(c, f, byte(c, "fval"))
    elif kind == "rigid":      # like the Kemper rig id: CC 32, then PC
        c1 = byte(c, "ctl1")
        resp = [cc(c, c1, 0), pc(c, 0)]
        def first(v): return cc(c, c1, v)
        def second(v): return pc(c, v)
        def foreign():
            f = byte(c, "fctl")
            c.assume(f != c1)
            return cc(c, f, byte(c, "fval"))
    else:
        a1 = [byte(c, "a1") for _ in range(6)]
        a2 = [byte(c, "a2") for _ in range(6)]
        c.assume(c.not_(c.eq(a1[2:], a2[2:])))
        man = [byte(c, "man") for _ in range(3)]
        resp = [sysex(c, man, a1), sysex(c, man, a2)]
        def first(v): return sysex(c, man, [0, 0] + a1[2:] + [0, v])
        def second(v): return sysex(c, man, [0, 0] + a2[2:] + [0, v])
        def foreign():
            a3 = [byte(c, "a3") for _ in range(4)]
            c.assume(c.all([c.not_(c.eq(a3, a1[2:])), c.not_(c.eq(a3, a2[2:]))]))
            return sysex(c, man, [0, 0] + a3 + [0, byte(c, "fval")])
    return resp, first, second, foreign


def step(c, cl, p, L, first, second, foreign, spec):
    """one received message; spec = [pending first part or None, value]"""
    L.log.clear()
    op = c.choice("message", ("first", "second", "foreign"))
    if op == "first":
        v = byte(c, "v")
        cl.receive(first(v))
        spec[0] = v
        c.check("a first part alone notifies nobody", L.log == [])
        c.check_eq("a first part alone changes no value", p.value, spec[1])
    elif op == "second":
        v = byte(c, "v")
        cl.receive(second(v))
        if spec[0] is not None:
            spec[1] = spec[0] * 128 + v
            spec[0] = None
            c.check("notified exactly once", len(L.log) == 1 and L.log[0][0] == "changed")
            c.check_eq("128 * first + second", p.value, spec[1])
            c.check_eq("listener sees the new value", L.log[0][3], spec[1])
        else:
            c.check("second without first notifies nobody", L.log == [])
            c.check_eq("second without first changes nothing", p.value, spec[1])
    else:
        cl.receive(foreign())
        c.check("foreign message notifies nobody", L.log == [])
        c.check_eq("foreign message changes nothing", p.value, spec[1])


@harness("C03", targets=T, kind="induction", params=("cc", "rigid", "sysex"))
def step_contract(c, kind):
    resp, first, second, foreign = make(c, kind)
    old = c.choice("known", (True, False))
    old = c.int("old") if old else None
    p = two_part(c, "p", response=resp, value=old)
    L = Listener()
    cl = client(c, Midi(c))
    cl.register(p, L)                      # no request: permanently registered
    buf = byte(c, "buffered") if c.flag("first part pending") else None
    c.inject(p, {"_ClientTwoPartParameterMapping__value_1": buf}, allow=FIELDS)
    spec = [buf, old]
    step(c, cl, p, L, first, second, foreign, spec)
    got = c.field(p, "_ClientTwoPartParameterMapping__value_1")
    if spec[0] is None:
        c.check("invariant: no first part pending", got is None)
    else:
        c.check("invariant: last first part pending", got is not None and c.eq(got, spec[0]))
    c.cover("reached")


@harness("C03", targets=T, kind="history", params=("cc", "rigid", "sysex"), bounds="histories of 4 messages")
def history(c, kind):
    resp, first, second, foreign = make(c, kind)
    old = c.int("old")
    p = two_part(c, "p", response=resp, value=old)
    L = Listener()
    cl = client(c, Midi(c))
    cl.register(p, L)
    spec = [None, old]
    for _ in range(4 if c.symbolic else c.choice("len", range(4, 30))):
        step(c, cl, p, L, first, second, foreign, spec)


@harness("C03", targets=T, kind="history", params=("cc", "rigid"), bounds="histories of 4 messages")
def history_request(c, kind):
    """requested (not permanently registered) two-part parameter: answered once by the first complete pair, then gone"""
    resp, first, second, foreign = make(c, kind)
    p = two_part(c, "p", response=resp, request=nrpn(c, 7), value=None)
    L = Listener()
    midi = Midi(c)
    cl = client(c, midi)
    cl.request(p, L)
    spec = [None, None]
    pending = True
    for _ in range(4 if c.symbolic else 12):
        if pending:
            before = spec[1]
            n = spec[0]
            step(c, cl, p, L, first, second, foreign, spec)
            if L.log:
                pending = False
        else:
            L.log.clear()
            v = byte(c, "late")
            cl.receive(c.choice("late message", (first, second))(v))
            c.check("an answered request gets nothing more", L.log == [])
            c.check_eq("an answered request changes nothing more", p.value, spec[1])

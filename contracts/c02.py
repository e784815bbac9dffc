"""Message matching: the value changes iff message type, manufacturer and address bytes 2..5 (or the controller) match, for all byte
values; numeric answers of 8 data bytes and string answers of up to 12 characters (bounded by message length only)."""
from vf.api import *
from .lib import *

PA = ["controller.client.ClientParameterMapping.parse", "controller.client.ClientParameterMapping.parse_against"]
RQ = ["controller.client.ClientRequest.parse", "controller.client.Client.receive", "controller.client.Client._register_mapping"]


def incoming(c, kinds=("sysex", "cc", "pc", "other"), n=8):
    k = c.choice("incoming", kinds)
    if k == "sysex":
        man = [byte(c, "im") for _ in range(c.choice("imlen", (3, 1)))]
        data = [byte(c, "id") for _ in range(n)]
        return k, sysex(c, man, data), (man, data)
    if k == "cc":
        a, b = byte(c, "ictl"), byte(c, "ival")
        return k, cc(c, a, b), (a, b)
    if k == "pc":
        a = byte(c, "ipatch")
        return k, pc(c, a), a
    M = c.get("adafruit_midi.midi_message:MIDIUnknownEvent")
    return k, M(0xF8), None


def template(c, kind):
    if kind == "sysex":
        man = [byte(c, "tm") for _ in range(c.choice("tmlen", (3, 1)))]
        data = [byte(c, "td") for _ in range(6)]
        return sysex(c, man, data), (man, data)
    if kind == "cc":
        a = byte(c, "tctl")
        return cc(c, a, byte(c, "tval")), a
    return pc(c, byte(c, "tpatch")), None


def matches(c, tk, t, ik, i):
    if tk != ik: return False, None
    if tk == "sysex":
        man, data = i
        return c.all([c.eq(t[0], man), c.eq(t[1][2:6], data[2:6])]), data[6] * 128 + data[7] if len(data) >= 8 else None
    if tk == "cc":
        return i[0] == t, i[1]
    return True, i


@harness("C02", targets=PA, params=("sysex", "cc", "pc"), covers=["match", "no match"])
def numeric_match_iff(c, tk):
    resp, t = template(c, tk)
    old = c.int("old value")
    p = mapping(c, "p", response=resp, value=old)
    ik, m, i = incoming(c)
    cond, v = matches(c, tk, t, ik, i)
    r = p.parse(m)
    if c.is_true(cond):
        c.cover("match")
        c.check("accepted", r is True)
        c.check_eq("value taken over", p.value, v)
    else:
        c.cover("no match")
        c.check("not accepted", r is False)
        c.check_eq("value untouched", p.value, old)
    c.check_eq("template untouched", snap(resp), snap(resp))


@harness("C02", targets=PA, bounds="string answers of 0 to 12 characters")
def string_answers(c):
    n = c.choice("chars", range(0, 13))
    man = [byte(c, "man") for _ in range(3)]
    addr = [byte(c, "addr") for _ in range(6)]
    chars = [c.int("ch", 1, 127) for _ in range(n)]
    S = c.get(CL + ":ClientParameterMapping").PARAMETER_TYPE_STRING
    p = mapping(c, "p", response=sysex(c, man, addr), type=S)
    r = p.parse(sysex(c, man, [0, 0] + addr[2:6] + chars + [0]))
    c.check("accepted", r is True)
    c.check("is text", isinstance(p.value, str) and len(p.value) == n)
    want = "".join(chr(x) if isinstance(x, int) else c.token(x, 'chr') for x in chars)
    c.check("exactly the characters behind the address, without the terminator", c.text_eq(p.value, want))


@harness("C02", targets=PA + RQ, params=("sysex", "cc", "pc"), covers=["match", "no match"])
def pending_listeners(c, tk):
    """through the client: pending request and permanently registered parameter, one listener each"""
    midi = Midi(c)
    cl = client(c, midi)
    resp, t = template(c, tk)
    old = c.int("old value")
    L = Listener()
    permanent = c.flag("registered without request")
    if permanent:
        p = mapping(c, "p", response=resp, value=old)
        cl.register(p, L)
    else:
        p = mapping(c, "p", response=resp, request=nrpn(c, 5), value=old)
        cl.request(p, L)
    midi.take()
    ik, m, i = incoming(c)
    cond, v = matches(c, tk, t, ik, i)
    r = cl.receive(m)
    if c.is_true(cond):
        c.cover("match")
        c.check("receive reports it as used", r is True)
        c.check("listener notified once", len(L.log) == 1 and L.log[0][:3] == ("changed", "L", "p"))
        c.check_eq("value", p.value, v)
        c.check_eq("value seen by the listener", L.log[0][3], v)
    else:
        c.cover("no match")
        c.check("receive reports it as not used", not r)
        c.check("listener not notified", L.log == [])
        c.check_eq("value untouched", p.value, old)
    c.check("receiving sends nothing", midi.log == [])


@harness("C02", targets=PA + RQ, params=[(a, b) for a in ("sysex", "cc", "pc") for b in ("sysex", "cc", "pc")], bounds="two parameters waiting", covers=["none"])
def every_waiting_parameter(c, p):
    """two parameters, pending or registered permanently: each one gets the message iff it matches, whatever the other one does"""
    midi = Midi(c)
    cl = client(c, midi)
    par, t, L, old = [], [], [], []
    for i, tk in enumerate(p):
        if tk == "sysex":
            data = [2, 127, 1, 0] + [byte(c, "address") for _ in range(2)]
            resp, x = sysex(c, (0, 32, 51), data), ([0, 32, 51], data)
        else: resp, x = template(c, tk)
        t.append(x)
        L.append(Listener("L%d" % i))
        old.append(c.int("old"))
        if c.flag("permanent"):
            m = mapping(c, "p%d" % i, response=resp, value=old[i])
            cl.register(m, L[i])
        else:
            m = mapping(c, "p%d" % i, response=resp, request=nrpn(c, 5), value=old[i])
            cl.request(m, L[i])
        par.append(m)
    ik = c.choice("incoming", ("sysex", "cc", "pc"))
    if ik == "sysex":
        data = [2, 0, 1, 0] + [byte(c, "id") for _ in range(4)]
        m, i = sysex(c, (0, 32, 51), data), ([0, 32, 51], data)
    else: ik, m, i = incoming(c, (ik,))
    r = cl.receive(m)
    n = 0
    for j in range(2):
        cond, v = matches(c, p[j], t[j], ik, i)
        if c.is_true(cond):
            n += 1
            c.check("notified once", len(L[j].log) == 1 and L[j].log[0][:3] == ("changed", "L%d" % j, "p%d" % j))
            c.check_eq("value", par[j].value, v)
        else:
            c.check("not notified", L[j].log == [])
            c.check_eq("value untouched", par[j].value, old[j])
    c.cover("both", n == 2)
    c.cover("one", n == 1)
    c.cover("none", n == 0)
    c.check("used or not", bool(r) == (n > 0))

"""Encoding and decoding of parameter values: for every value, every address and every message kind the sent message carries
exactly the value; lists of messages are covered up to 4 entries per parameter (bounded), single messages without any bound."""
from vf.api import *
from .lib import *

SV = ["controller.client.ClientParameterMapping.set_value", "controller.client.ClientParameterMapping.__set_value"]
PA = ["controller.client.ClientParameterMapping.parse", "controller.client.ClientParameterMapping.parse_against"]


def msg(c, kind, i=""):
    """arbitrary SET message; returns (message, check(message, v, name))"""
    if kind == "sysex":
        man = [byte(c, "man%s" % i) for _ in range(c.choice("manlen%s" % i, (3, 1)))]
        addr = [byte(c, "addr%s" % i) for _ in range(6)]
        tail = [byte(c, "tail%s" % i) for _ in range(c.choice("taillen%s" % i, (0, 2, 1)))]
        m = sysex(c, man, addr + tail)
        def chk(v, name):
            d = list(m.data)
            c.check(name + ": eight data bytes", len(d) == 8)
            c.check_eq(name + ": address bytes unchanged", d[:6], addr)
            c.check(name + ": quotient and remainder by 128", c.all([d[6] * 128 + d[7] == v, d[6] >= 0, d[6] <= 127, d[7] >= 0, d[7] <= 127]))
            c.check_eq(name + ": manufacturer id unchanged", list(m.manufacturer_id), man)
        return m, chk, 16383
    if kind == "cc":
        ctl = byte(c, "ctl%s" % i)
        m = cc(c, ctl, byte(c, "oldval%s" % i))
        def chk(v, name):
            c.check_eq(name + ": value", m.value, v)
            c.check_eq(name + ": controller unchanged", m.control, ctl)
        return m, chk, 127
    m = pc(c, byte(c, "oldpatch%s" % i))
    def chk(v, name):
        c.check_eq(name + ": patch", m.patch, v)
    return m, chk, 127


@harness("C01", targets=SV + ["controller.client.Client.set"], params=("sysex", "cc", "pc"))
def set_single(c, kind):
    midi = Midi(c)
    cl = client(c, midi)
    m, chk, hi = msg(c, kind)
    o, ochk, ohi = msg(c, c.choice("other kind", ("sysex", "cc", "pc")), "o")
    osnap = snap(o)
    p = mapping(c, "p", set=m)
    q = mapping(c, "q", set=o)
    for r in range(2):          # repeated sets on the same message object
        v = c.int("v", 0, hi)
        cl.set(p, v)
        chk(v, "set")
        c.check("exactly this message is sent", [x[0] for x in midi.log] == [m] * (r + 1))
        c.check_eq("sent as set", midi.log[-1][1], snap(m))
        c.check_eq("no other parameter's message is touched", snap(o), osnap)


@harness("C01", targets=SV, bounds="up to 4 SET messages per parameter")
def set_list(c):
    kinds = [c.choice("kind%d" % i, ("sysex", "cc")) for i in range(c.choice("n", (1, 2, 3, 4)))]
    ms = []
    for i, k in enumerate(kinds):
        if k == "sysex":
            addr = [byte(c, "a%d" % i) for _ in range(6)]
            m = sysex(c, [0, 0x20, 0x33], addr)
            ms.append((m, addr, c.int("v%d" % i, 0, 16383)))
        else:
            ctl = byte(c, "ctl%d" % i)
            ms.append((cc(c, ctl, 0), ctl, c.int("v%d" % i, 0, 127)))
    p = mapping(c, "p", set=[m for m, _, _ in ms])
    p.set_value([v for _, _, v in ms])
    for k, (m, a, v) in zip(kinds, ms):
        if k == "sysex":
            d = list(m.data)
            c.check("eight data bytes", len(d) == 8)
            c.check_eq("address unchanged", d[:6], a)
            c.check_eq("high byte", d[6], v // 128)
            c.check_eq("low byte", d[7], v % 128)
        else:
            c.check_eq("value", m.value, v)
            c.check_eq("controller", m.control, a)


@harness("C01", targets=SV + PA, params=("sysex", "cc", "pc"))
def round_trip(c, kind):
    """A device answering with what was set: decoded to the same value."""
    if kind == "sysex":
        man = [byte(c, "man") for _ in range(3)]
        addr = [byte(c, "addr") for _ in range(6)]
        v = c.int("v", 0, 16383)
        s = sysex(c, man, addr)
        p = mapping(c, "p", set=s, response=sysex(c, man, [byte(c, "r0"), byte(c, "r1")] + addr[2:]))
        p.set_value(v)
        d = list(s.data)
        ok = p.parse(sysex(c, man, [0, 0] + d[2:]))
    elif kind == "cc":
        ctl = byte(c, "ctl")
        v = byte(c, "v")
        s = cc(c, ctl, 0)
        p = mapping(c, "p", set=s, response=cc(c, ctl, 0))
        p.set_value(v)
        ok = p.parse(cc(c, s.control, s.value))
    else:
        v = byte(c, "v")
        s = pc(c, 0)
        p = mapping(c, "p", set=s, response=pc(c, 0))
        p.set_value(v)
        ok = p.parse(pc(c, s.patch))
    c.check("answer accepted", ok is True)
    c.check_eq("decoded value", p.value, v)
    c.cover("done")


@harness("C01", targets=SV)
def shared_address_bytes(c):
    """messages whose data has been given as the same list"""
    data = [byte(c, "d") for _ in range(c.choice("length", (6, 8)))]
    was = list(data)
    a, b = sysex(c, [0, 32, 51], []), sysex(c, [0, 32, 51], [])
    a.data = data
    b.data = data
    p = mapping(c, "p", set=a)
    v = c.int("v", 0, 16383)
    p.set_value(v)
    c.check_eq("carries the value", list(a.data), was[:6] + [v // 128, v % 128])
    c.check_eq("the other message is untouched", list(b.data), was)

"""MIDI routing: every routing table of up to three distinct routings between three devices and the application (bounded), every answer pattern of
the devices (message, unknown message, message without status, nothing); longer message streams and larger tables concretely."""
from vf.api import *
from .lib import *

T = ["controller.midi.MidiController.__init__", "controller.midi.MidiController.send", "controller.midi.MidiController.receive",
     "controller.midi.MidiController.__process_external_routings"]
M = "pyswitch.controller.midi:MidiController"
R = "pyswitch.controller.midi:MidiRouting"


class Dev:
    def __init__(self, name, log):
        self.name, self.log = name, log
        self.queue = []
        self.polls = 0
        self.read = []
    def receive(self):
        self.polls += 1
        m = self.queue.pop(0) if self.queue else None
        if m is not None: self.read.append(m)
        return m
    def send(self, m): self.log.append((self.name, m))


class NoStatus:
    pass


def message(c, kind, k):
    if kind == "message": return cc(c, k, 1)
    if kind == "unknown":
        return c.get("adafruit_midi.midi_message:MIDIUnknownEvent")(0xf4)
    if kind == "no status": return NoStatus()
    return None


NODES = ("A", "B", "C", None)          # None: the application
PAIRS = [(s, t) for s in NODES for t in NODES if not (s is None and t is None)]


class Net:
    def __init__(self, c, table):
        self.c, self.table = c, table
        self.log = []
        self.dev = {n: Dev(n, self.log) for n in "ABC"}
        app = c.get(R).APPLICATION
        node = lambda n: app if n is None else self.dev[n]
        self.midi = c.get(M)([c.get(R)(node(s), node(t)) for s, t in table])
        self.ext = [s for s, t in table if s is not None and t is not None]
        self.app_src = [s for s, t in table if t is None]
        self.app = []

    def known(self, m): return not isinstance(m, NoStatus) and type(m).__name__ != "MIDIUnknownEvent"

    def cycle(self):
        c = self.c
        for d in self.dev.values(): d.polls = 0
        self.log.clear()
        before = {n: len(d.read) for n, d in self.dev.items()}
        m = self.midi.receive()
        if m: self.app.append(m)
        for n, d in self.dev.items():
            new = d.read[before[n]:]
            targets = [t for s, t in self.table if s == n and t is not None]
            if n in self.ext:
                c.check("each source is polled once per cycle", d.polls == 1 if n not in self.app_src else d.polls <= 1)
            elif n not in self.app_src:
                c.check("sources without routing are not polled", d.polls == 0)
            for t in set(targets):
                got = [x for tt, x in self.log if tt == t and any(x is y for y in new)]
                want = [x for x in new if self.known(x)]
                c.check("every message reaches every target exactly once, in order", len(got) == len(want) and all(x is y for x, y in zip(got, want)))
            c.check("no other target", all(t in targets for t, x in self.log if any(x is y for y in new)))
        c.check("only messages just read are forwarded", all(any(x is y for n, d in self.dev.items() for y in d.read[before[n]:]) for _, x in self.log))
        return m

    def finish(self):
        """everything the application sources delivered has reached the application, in order per source"""
        c = self.c
        for _ in range(400):
            if self.cycle() is None: break
        else:
            c.check("messages run dry", False)
        for n in set(self.app_src):
            d = self.dev[n]
            c.check("sources of the application are drained", not d.queue)
            got = [m for m in self.app if any(m is x for x in d.read)]
            c.check("the application loses no message and gets none twice", len(got) == len(d.read) and all(x is y for x, y in zip(got, d.read)))
        c.check("the application gets nothing else", all(any(m is x for n in set(self.app_src) for x in self.dev[n].read) for m in self.app))


KINDS = ("message", "unknown", "no status", None)
TABLES = [()] + [(p,) for p in PAIRS] + [(p, q) for p in PAIRS for q in PAIRS if p != q]


@harness("C16", targets=T, params=[(i, len(PAIRS)) for i in range(len(PAIRS))], bounds="up to two routings, two cycles, all message kinds")
def small_tables(c, p):
    first = PAIRS[p[0]]
    rest = [q for q in [None] + PAIRS if q != first]
    second = c.choice("second routing", rest)
    order = (first,) if second == None and c.flag("single") else (first, second) if second is not None else (first,)
    n = Net(c, order)
    k = 0
    for name in sorted({s for s, t in order if s is not None}):
        for i in (0, 1):
            m = message(c, c.choice("%s%d" % (name, i), KINDS), k)
            if m is not None: n.dev[name].queue.append(m)
            k += 1
    first_app = n.app_src[0] if n.app_src else None
    n.cycle()
    n.cycle()
    n.finish()


@harness("C16", targets=T, params=PAIRS, bounds="three routings, two messages per source")
def three_routings(c, first):
    rest = [q for q in PAIRS if q != first]
    second = c.choice("second", rest)
    third = c.choice("third", [q for q in rest if q != second])
    n = Net(c, (first, second, third))
    for k, name in enumerate("ABC"):
        n.dev[name].queue = [message(c, "message", 2 * k), message(c, "message", 2 * k + 1)]
    n.finish()


@harness("C16", targets=T, kind="history", bounds="concretely up to 12 routings, 60 messages", random_runs=600)
def streams(c):
    if c.symbolic: table = (("A", "B"), ("A", None), ("B", "C"))
    else: table = tuple({c.choice("routing", PAIRS): 1 for _ in range(c.int("routings", 0, 12))})
    n = Net(c, table)
    for k in range(4 if c.symbolic else 60):
        m = message(c, "message" if c.symbolic else c.choice("kind", KINDS), k % 128)
        if m is not None: n.dev[c.choice("source", "ABC")].queue.append(m)
        if not c.symbolic and c.flag("cycle"): n.cycle()
    n.finish()


@harness("C16", targets=T, params=[()] + [(p,) for p in PAIRS] + [(p, q) for p in PAIRS for q in PAIRS if p != q], bounds="up to two routings")
def sending(c, table):
    n = Net(c, table)
    for k in (0, 1):
        m = cc(c, c.int("control", 0, 127), c.int("value", 0, 127))
        n.log.clear()
        n.midi.send(m)
        c.check("sent exactly once to every target of the application, and to nobody else", n.log == [(t, m) for s, t in table if s is None])
        c.check("nothing is read while sending", all(d.polls == 0 for d in n.dev.values()))


@harness("C16", targets=T, bounds="three sources")
def first_available(c):
    """the application gets the first available message in the order of the routings"""
    n = Net(c, (("B", None), ("A", None), ("C", None)))
    have = [c.flag(x) for x in "BAC"]
    for k, (h, x) in enumerate(zip(have, "BAC")):
        if h: n.dev[x].queue = [cc(c, k, 0)]
    got = n.cycle()
    want = [x for h, x in zip(have, "BAC") if h]
    c.check("first available message", (got is None and not want) or (bool(want) and got is n.dev[want[0]].read[0]))
    c.check("the others stay", all(len(n.dev[x].queue) == 1 for x in want[1:]))


# any number of routings
class AnyDev:
    """any device, writing to the ghost trace; answers with a message or nothing"""
    def __init__(self, c, name, message=None): self.c, self.name, self.message = c, name, message
    def send(self, m): self.c.trace.append(("send", self.name, m))
    def receive(self):
        self.c.trace.append(("read", self.name))
        return self.message


def any_routes(c, tag, kind):
    """any number of routings from or to the application, or between other devices"""
    app = c.get(R).APPLICATION
    def make():
        d = AnyDev(c, c.int(tag + " device"))
        if kind == "from": return c.get(R)(app, d)
        if kind == "to": return c.get(R)(d, app)
        return c.get(R)(d, AnyDev(c, c.int(tag + " target")))
    return c.seg(tag, make)


@harness("C16", targets=T, params=("none", "to", "external"))
def any_number_of_targets(c, other):
    """any number of routings from the application, among any number of other ones: each gets the message once, in order"""
    A, B, O, P = any_routes(c, "A", "from"), any_routes(c, "B", "from"), any_routes(c, "O", other), any_routes(c, "P", other)
    app = c.get(R).APPLICATION
    w = AnyDev(c, "w")
    items = [A, c.get(R)(app, w), B] if other == "none" else [A, O, c.get(R)(app, w), P, B]
    midi = c.get(M)(c.segs(*items))
    del c.trace[:]
    for k in range(2):
        m = message(c, c.choice("kind", KINDS[:3]), k)
        for s in (A, B): s.calls = lambda r: [("send", r.target.name, m)]
        midi.send(m)
        c.check_trace("once to each target of the application, in order, and to nobody else", c.trace, c.unroll(items, lambda r: [("send", "w", m)]))
        del c.trace[:]


@harness("C16", targets=T, params=("none", "from"), covers=["message", "none"])
def any_number_of_sources(c, other):
    """any number of sources for the application, among any number of targets: each one before the first message is read once, the others stay"""
    A, B, O, P = any_routes(c, "A", "to"), any_routes(c, "B", "to"), any_routes(c, "O", other), any_routes(c, "P", other)
    app = c.get(R).APPLICATION
    m = message(c, "message", 1)
    w = AnyDev(c, "w", m if c.flag("available") else None)
    items = [A, c.get(R)(w, app), B] if other == "none" else [A, O, c.get(R)(w, app), P, B]
    midi = c.get(M)(c.segs(*items))
    c.cover("message" if w.message else "none")
    del c.trace[:]
    for s in (A, B): s.calls = lambda r: [("read", r.source.name)]
    want = items if w.message is None else items[:-2] if other == "none" else items[:-2]
    got = midi.receive()
    c.check("the first message available", got is w.message)
    c.check_trace("in order, up to the first message", c.trace, c.unroll(items[:items.index(P if other != "none" else B)] if w.message else items, lambda r: [("read", "w")]))

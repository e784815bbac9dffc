"""Main loop: every availability pattern of messages, all update intervals and clock readings; maximum message counts 0..12, up to three inputs and
three components (bounded). Any number of messages, inputs and components, and all limits: one reception and one round of updates (loop rules)."""
from vf.api import *
from .lib import *

T = ["controller.controller.Controller.tick", "controller.controller.Controller.__receive_midi_messages", "controller.controller.Controller.init",
     "misc.PeriodCounter.exceeded"]
CT = "pyswitch.controller.controller:Controller"


class LedDriver:
    def __init__(self):
        self.leds = Leds()
        self.inits = []
    def init(self, n): self.inits.append(n)


class Port:
    """MIDI interface: each receive() may or may not deliver a message"""
    def __init__(self, c, log, limit=None):
        self.c, self.log, self.limit, self.n = c, log, limit, 0
    def receive(self):
        m = None
        if self.limit is None or self.n < self.limit:
            if self.c.flag("message available"):
                self.n += 1
                m = ["message", self.n]
        self.log.append(("receive", m))
        return m
    def send(self, m): self.log.append(("send", m))


class Rec:
    def __init__(self, log): self.log = log
    def receive(self, m): self.log.append(("client", m))


class Input:
    def __init__(self, i, log):
        self.i, self.log = i, log
        self.actions = []
    def process(self): self.log.append(("input", self.i))


def component(c, i, log):
    U = c.get("pyswitch.misc:Updateable")
    class Comp(U):
        def update(self): log.append(("update", i))
    return Comp()


class Loop:
    def __init__(self, c, inputs, comps, limit=None, **config):
        self.c = c
        self.log = []
        self.port = Port(c, self.log, limit)
        self.ctl = c.get(CT)(LedDriver(), self.port, config=config)
        self.ctl.client = Rec(self.log)
        self.ctl.inputs = [Input(i, self.log) for i in range(inputs)]
        self.inputs = inputs
        self.comps = comps
        for i in range(comps): self.ctl.add_updateable(component(c, i, self.log))
        self.mx = config.get("maxConsecutiveMidiMessages", 10)
        self.log.clear()

    def tick(self, update):
        """one tick; update: whether components are due"""
        c = self.c
        self.log.clear()
        c.check("the loop stays alive", self.ctl.tick() == True)
        # split into processing blocks
        blocks, ups, cur = [], [], []
        for e in self.log:
            if e[0] == "update":
                ups.append(e[1])
                blocks.append(cur)
                cur = []
            else: cur.append(e)
        blocks.append(cur)
        c.check("every component exactly once, in order, when due", ups == (list(range(self.comps)) if update else []), lambda: "updated %r" % ups)
        for b in blocks:
            c.check("messages are processed between components", len(b) > 0)
            steps = []
            i = 0
            while i < len(b):
                want = [("input", k) for k in range(self.inputs)]
                c.check("all inputs are polled before each message is taken", b[i:i + self.inputs] == want)
                i += self.inputs
                c.check("then one message is taken", i < len(b) and b[i][0] == "receive")
                m = b[i][1]
                c.check("and handed to the client exactly once", i + 1 < len(b) and b[i + 1][0] == "client" and b[i + 1][1] is m)
                i += 2
                steps.append(m)
            c.check("reception stops when nothing is available", all(m is not None for m in steps[:-1]))
            n = len([m for m in steps if m is not None])
            c.check("reception stops after the maximum", n <= self.mx + 1)
            c.check("reception does not stop early", (steps and steps[-1] is None) or n > self.mx - 1)
            if n == self.mx + 1: c.cover("limit reached")
            if steps and steps[-1] is None: c.cover("ran dry")


@harness("C17", targets=T, params=range(0, 4), covers=["limit reached", "ran dry"], bounds="limits 0..3, two inputs, two components")
def one_tick(c, mx):
    l = Loop(c, 2, 2 if mx < 3 else 1, maxConsecutiveMidiMessages=mx, updateInterval=200)
    due = c.flag("due")
    c.advance(c.int("t", 201) if due else c.int("t", 0, 200))
    l.tick(due)


@harness("C17", targets=T, params=[0, 1, 5, 10, 12, None], covers=["ran dry"], bounds="limits up to 12, up to three inputs")
def limits(c, mx):
    cfg = {} if mx is None else {"maxConsecutiveMidiMessages": mx}
    l = Loop(c, c.choice("inputs", (0, 1, 3)), 0, **cfg)
    l.tick(False)


@harness("C17", targets=T, bounds="three components")
def intervals(c):
    """periodic updates: at most once per elapsed interval, for all intervals and clock readings"""
    iv = c.int("interval", 0) if c.flag("configured") else None
    cfg = {} if iv is None else {"updateInterval": iv}
    l = Loop(c, 1, 3, limit=0, **cfg)
    iv = 200 if iv is None else iv
    c.set_now(c.int("t0", 0))
    l.tick(c.is_true(c.now() > iv))
    c.advance(iv + 1)
    l.tick(True)
    d = c.int("dt", 0)
    c.advance(d)
    l.tick(c.is_true(d > iv))
    d2 = c.int("dt2", 0)
    c.advance(d2)
    l.tick(c.is_true((d2 if d > iv else d + d2) > iv))


@harness("C17", targets=T, kind="history", bounds="concretely 40 ticks")
def history(c):
    mx = c.int("max", 0, 12) if not c.symbolic else 1
    l = Loop(c, 2, 1 if c.symbolic else 3, limit=3 if c.symbolic else 100, maxConsecutiveMidiMessages=mx, updateInterval=100)
    last = 0
    for _ in range(2 if c.symbolic else 40):
        c.advance(c.int("dt", 0, None if c.symbolic else 150))
        due = c.is_true(c.now() - last > 100)
        if due: last = c.now()
        l.tick(due)


@harness("C17", targets=T, bounds="two messages waiting at the start")
def start(c):
    """buffers are cleared at the start, unless switched off"""
    clear = c.choice("clear", (None, True, False))
    log = []
    port = Port(c, log, 2)
    ctl = c.get(CT)(LedDriver(), port, config={} if clear is None else {"clearBuffers": clear})
    c.g["mem_free"] = 100000
    ctl.init()
    if clear is False: c.check("nothing is taken", not log)
    else: c.check("the queue is empty at the start", len(log) > 0 and log[-1] == ("receive", None) and all(m is not None for _, m in log[:-1]))


@harness("C17", targets=T, bounds="two switches, one wheel")
def inputs_created(c):
    """every configured input is created and polled; the LED driver gets all pixels"""
    polls = []
    class Mod:
        def __init__(self, n): self.n = n
        def init(self): polls.append(("init", self.n))
        @property
        def pushed(self):
            polls.append(self.n)
            return False
    class Wheel:
        def init(self): polls.append(("init", "w"))
        @property
        def position(self):
            polls.append("w")
            return 0
    led = LedDriver()
    pix = c.choice("pixels", ((0, 1, 2), (7,), ()))
    ctl = c.get(CT)(led, Port(c, [], 0), inputs=[{"assignment": {"model": Mod("a"), "pixels": pix}}, {"assignment": {"model": Wheel()}}, {"assignment": {"model": Mod("b"), "pixels": (3, 4)}}])
    c.check("LED driver initialized with all pixels", led.inits == [max(list(pix) + [3, 4]) + 1])
    c.check("hardware initialized once", sorted(str(p) for p in polls if isinstance(p, tuple)) == sorted(map(str, [("init", "a"), ("init", "w"), ("init", "b")])))
    polls.clear()
    ctl.tick()
    c.check("every input polled", set(polls) == {"a", "w", "b"})


class TracePort:
    """MIDI interface: each receive() may or may not deliver a message"""
    def __init__(self, c): self.c, self.last = c, None
    def receive(self):
        m = ["message"] if self.c.flag("message available") else None
        self.c.trace.append(("receive", m is not None))
        self.last = m
        return m


class TraceClient:
    def __init__(self, c, port): self.c, self.port = c, port
    def receive(self, m): self.c.trace.append(("client", m is self.port.last, m is not None))


class TraceInput:
    def __init__(self, c, name): self.c, self.name, self.actions = c, name, []
    def process(self): self.c.trace.append(("input", self.name))


def polled(i): return [("input", i.name)]


def trace_loop(c, inputs, **config):
    port = TracePort(c)
    ctl = c.get(CT)(LedDriver(), port, config=config)
    ctl.client = TraceClient(c, port)
    ctl.inputs = inputs
    return ctl


def any_inputs(c, name):
    """any number of inputs"""
    return c.seg(name, lambda: TraceInput(c, name), polled)


TAKEN = [("receive", True), ("client", True, True)]


@harness("C17", targets=T, covers=["ran dry", "limit reached"])
def any_number_of_messages(c):
    """all limits, any number of inputs and of messages waiting: all inputs are polled before each message, each message goes to the client exactly
    once, and reception stops when nothing is available, or after the maximum"""
    A, x, B = any_inputs(c, "A"), TraceInput(c, "x"), any_inputs(c, "B")
    items = [A, x, B]
    mx = c.int("maximum", 0, None if c.symbolic else 12) if c.flag("configured") else None
    cfg = {} if mx is None else {"maxConsecutiveMidiMessages": mx}
    if mx is None: mx = 10
    ctl = trace_loop(c, c.segs(*items), updateInterval=200, **cfg)
    rule = c.while_rule("reception", calls=lambda: c.unroll(items, polled) + TAKEN, inv=lambda k: k <= mx)
    del c.trace[:]
    c.check("the loop stays alive", ctl.tick() == True)
    one = c.unroll(items, polled)
    if c.symbolic: k, done = rule.k, rule.mark()
    else:
        k = max(0, len([e for e in c.trace if e[0] == "receive"]) - 1)
        done = (one + TAKEN) * k
    last = ("receive", True) in c.trace[-2:]
    n = k + 1 if last else k
    c.cover("limit reached" if last else "ran dry")
    c.check_trace("all inputs polled, one message taken, and handed over, again and again", c.trace, done + one + (TAKEN if last else [("receive", False), ("client", True, False)]))
    c.check("reception stops after the maximum", n <= mx + 1)
    if last: c.check("reception does not stop early", n >= mx)


@harness("C17", targets=T, covers=["due", "not due"])
def any_number_of_components(c):
    """any number of inputs and components: each component exactly once, in order, with reception before each one and after the last one"""
    U = c.get("pyswitch.misc:Updateable")
    def comp(name):
        class Comp(U):
            def update(self): c.trace.append(("update", name))
        return Comp()
    I, x = any_inputs(c, "I"), TraceInput(c, "x")
    block = lambda: c.unroll([I, x], polled) + [("receive", False), ("client", True, False)]
    def seg(name): return c.seg(name, lambda: comp(name), lambda u: block() + [("update", name)])
    A, B = seg("A"), seg("B")
    y, z = comp("y"), comp("z")
    calls = lambda u: block() + [("update", "y" if u is y else "z")]
    items = [A, y, z, B]
    iv = c.int("interval", 0)
    port = DryPort(c)
    ctl = c.get(CT)(LedDriver(), port, config={"updateInterval": iv})
    ctl.client = TraceClient(c, port)
    ctl.inputs = c.segs(I, x)
    c.field(ctl, "updateables")
    ctl.updateables = c.segs(*items)
    due = c.flag("due")
    c.cover("due" if due else "not due")
    d = c.int("elapsed", 0)
    c.assume((d > iv) if due else (d <= iv))
    c.advance(d)
    del c.trace[:]
    c.check("the loop stays alive", ctl.tick() == True)
    c.check_trace("each component exactly once, in order, if due, reception in between", c.trace, (c.unroll(items, calls) if due else []) + block())


class DryPort(TracePort):
    """nothing is waiting"""
    def receive(self):
        self.c.trace.append(("receive", False))
        self.last = None


@harness("C17", targets=T)
def any_number_waiting_at_start(c):
    """the queue is empty when the loop starts: however many messages were waiting"""
    port = TracePort(c)
    ctl = c.get(CT)(LedDriver(), port, config={})
    c.g["mem_free"] = 100000
    rule = c.while_rule("clear", calls=lambda: [("receive", True)])
    ctl.init()
    k = 0 if c.symbolic else len(c.trace) - 1
    c.check_trace("everything is taken, until nothing is left", c.trace, (rule.mark() if c.symbolic else [("receive", True)] * k) + [("receive", False)])

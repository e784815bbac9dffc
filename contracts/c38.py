"""Runtime statistics: one operation from any state (any numbers measured before), any clock readings; sequences."""
from vf.api import *
from .lib import *

M = "controller.measure.RuntimeMeasurement."
T = [M + x for x in ("__init__", "average", "sum", "calls", "update", "reset", "start", "finish")] + ["misc.EventEmitter.add_listener"]
P = "_RuntimeMeasurement__"


class Spec:
    def __init__(self, c, interval=None):
        self.c = c
        self.interval = c.int("interval", 0) if interval is None else interval
        self.m = c.get("pyswitch.controller.measure:RuntimeMeasurement")(self.interval, "name")
        self.out = 0
        self.clear()
        self.reports = []
        s = self
        class L:
            def __init__(self, k): self.k = k
            def measurement_updated(self, m):
                s.c.check("the measurement reports itself", m is s.m)
                s.reports.append(self.k)
                s.values("in the report: ")
        self.n = c.choice("listeners", (0, 1, 2))
        for k in range(self.n): self.m.add_listener(L(k))
        c.check("name", self.m.name == "name")
        self.values()

    def clear(self):
        self.max = self.sum = self.num = 0
        self.begin = None

    def values(self, where=""):
        c, m = self.c, self.m
        c.check(where + "the exact maximum", c.eq(m.value, self.max))
        c.check(where + "the exact sum", c.eq(m.sum, self.sum))
        c.check(where + "the exact number", c.eq(m.calls, self.num))
        if type(self.num) is int and self.num == 0: c.check(where + "the average", m.average == 0)
        elif type(self.num) is int:
            a = m.average
            c.check(where + "the average rounded down", c.all([a * self.num <= self.sum, self.sum < (a + 1) * self.num]))

    def start(self):
        self.m.start()
        self.begin = self.c.now()
        self.values()

    def finish(self):
        self.m.finish()
        if self.begin is not None:
            d = self.c.now() - self.begin
            self.max = c_max(self.c, self.max, d)
            self.sum, self.num = self.sum + d, self.num + 1
            self.c.cover("measured")
        self.values()

    def update(self):
        c = self.c
        self.reports.clear()
        self.m.update()
        due = c.is_true(c.now() - self.out > self.interval)
        c.check("each listener gets a report exactly once per elapsed interval", self.reports == (list(range(self.n)) if due else []))
        if due:
            c.cover("reported")
            self.out = c.now()
            self.clear()
        self.values()


def c_max(c, a, b): return b if c.is_true(b > a) else a


OPS = ("start", "finish", "update")


@harness("C38", targets=T, kind="induction", params=OPS, covers=[])
def any_state(c, op):
    """one operation from any state"""
    s = Spec(c)
    t = c.int("clock", 1)
    c.advance(t)
    out = c.int("last report", 0)
    c.assume(out <= t)
    mx, sm, n = c.int("max", 0), c.int("sum", 0), c.choice("number", (1, 2, 3, 1000)) if op == "update" else c.int("number", 1)
    c.assume(mx <= sm)
    for f, v in (("last_output", out), ("time_aggr", sm), ("time_num", n)):
        c.field(s.m, P + f)
        s.m.__dict__[P + f] = v
    s.m.value = mx
    s.out, s.max, s.sum, s.num = out, mx, sm, n
    if c.flag("running"):
        b = c.int("begin", 1)
        c.assume(b <= t)
        s.m.start_time = b
        s.begin = b
    getattr(s, op)()


@harness("C38", targets=T, params=OPS, covers=["measured", "reported"], bounds="six operations")
def sequences(c, first):
    s = Spec(c, interval=c.choice("interval", (0, 500)))
    c.advance(c.int("boot", 1))
    getattr(s, first)()
    for op in ("finish", "update", "start", "finish"):
        c.advance(c.int("dt", 0))
        if c.flag(op): getattr(s, op)()
    s.finish()
    c.advance(c.int("dt", 0))
    s.update()
    c.cover("measured")


@harness("C38", targets=T, kind="history", bounds="concretely: 100 operations", random_runs=300)
def history(c):
    if c.symbolic: return c.check("concrete only", True)
    s = Spec(c, c.choice("interval", (0, 1, 100, 1000)))
    c.advance(c.int("boot", 1))
    for _ in range(100):
        getattr(s, c.choice("op", OPS + ("finish", "start")))()
        c.advance(c.choice("dt", (0, 0, 1, 7, 99, 100, 101, 3000)))

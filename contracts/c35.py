"""Registries: any names (as far as they are equal or not), any identity pattern of listeners and components; sequences up to four symbolically
(bounded), longer ones concretely. Any number of known parameters, listeners and components (loop rules, unbounded)."""
from vf.api import *
from .lib import *

MAPPING = ["controller.client.ClientParameterMapping.get", "controller.client.ClientTwoPartParameterMapping.get", "controller.client.ClientParameterMapping.__init__",
           "controller.client.ClientTwoPartParameterMapping.__init__"]
UPD = ["misc.Updater.__init__", "misc.Updater.add_updateable", "misc.Updater.update", "misc.Updater.reset"]
EV = ["misc.EventEmitter.__init__", "misc.EventEmitter.add_listener"]
FIELDS = ("set", "request", "response", "value", "type", "depends")


class Registry:
    """the parameters known"""
    def __init__(self, c):
        self.c = c
        self.known = []          # (name, mapping)
        self.P = c.get("pyswitch.controller.client:ClientParameterMapping")
        self.two = c.get("pyswitch.controller.client:ClientTwoPartParameterMapping")

    def get(self, name, two=False):
        c = self.c
        kw = {f: (f, len(self.known)) for f in FIELDS}
        m = (self.two if two else self.P).get(name, **kw)
        for n, x in self.known:
            if c.is_true(c.eq(n, name)):
                c.cover("known")
                return c.check("the same object for the same name", m is x)
        c.cover("new")
        for _, x in self.known: c.check("another object for another name", m is not x)
        c.check("has the name", c.eq(m.name, name))
        for f in FIELDS: c.check("has the properties given", getattr(m, f) is kw[f])
        c.check("of the type asked for", type(m) is (self.two if two else self.P))
        self.known.append((name, m))

    def unchanged(self):
        for k, (n, m) in enumerate(self.known): self.c.check("a known parameter keeps its properties", [getattr(m, f) for f in FIELDS] == [(f, k) for f in FIELDS])


@harness("C35", targets=MAPPING, params=(2, 3, 4), covers=["known", "new"], bounds="up to four parameters with any names")
def parameters(c, n):
    r = Registry(c)
    for i in range(n): r.get(c.int("name", 1), c.flag("two parts"))
    r.unchanged()


@harness("C35", targets=MAPPING)
def refused(c):
    """parameters without a name, or created otherwise, are refused"""
    P = c.get("pyswitch.controller.client:ClientParameterMapping")
    bad = [lambda: P.get(c.choice("name", ("", None, 0))), lambda: P(name="x", create_key=None), lambda: P(name="x", create_key="other"),
           lambda: c.get("pyswitch.controller.client:ClientTwoPartParameterMapping")(name="x", create_key=None)]
    try: bad[c.int("way", 0, 3) if not c.symbolic else c.choice("way", range(4))]()
    except Exception: return c.check("refused", True)
    c.check("refused", False)


def component(c, log, name, hook=None):
    class U(c.get("pyswitch.misc:Updateable")):
        id = "same"              # IDs are for debugging and paging, any number of components can have the same
        def update(self):
            log.append(("update", name))
            if hook: hook()
        def reset(self): log.append(("reset", name))
    return U()


class Reg:
    def __init__(self, c):
        self.c, self.log = c, []
        self.u = c.get("pyswitch.misc:Updater")()
        self.want = []
        self.n = 0
    def new(self):
        self.n += 1
        return component(self.c, self.log, self.n - 1), self.n - 1
    def add(self, x, name):
        self.u.add_updateable(x)
        if name is not None and name not in self.want: self.want.append(name)
    def run(self):
        c = self.c
        for what in ("update", "reset"):
            self.log.clear()
            getattr(self.u, what)()
            c.check(what + " reaches each component once, in order", self.log == [(what, n) for n in self.want])


class Plain:
    def update(self): raise AssertionError("not a component")
    reset = update


@harness("C35", targets=UPD, bounds="up to four registrations")
def components(c):
    r = Reg(c)
    us = [r.new() for _ in range(4)]
    top = 0
    r.run()
    for i in range(4):
        k = c.choice("which", ["plain", "none"] + list(range(min(top + 1, 4))))
        if k == "plain": r.add(Plain(), None)
        elif k == "none": r.add(None, None)
        else:
            top = max(top, k + 1)
            r.add(*us[k])
    r.run()
    r.run()


def other(c, log, i):
    """any number of components, none of them the known one"""
    def make():
        u = component(c, log, None)
        u.name = c.int("component", 0)
        u.update = lambda: log.append(("update", u.name))
        u.reset = lambda: log.append(("reset", u.name))
        return u
    return c.seg("others %d" % i, make)


@harness("C35", targets=UPD, params=("update", "reset"), covers=["known", "new"])
def any_components(c, what):
    """any number of components registered: a new one comes last, a known one is not added again, all are called once, in order"""
    log = c.trace
    u = c.get("pyswitch.misc:Updater")()
    w = component(c, log, "w")
    segs = [other(c, log, 0), other(c, log, 1)]
    for s in segs: s.calls = lambda e: [(what, e.name)]
    known = c.flag("known")
    items = [segs[0], w, segs[1]] if known else segs
    u.updateables = c.segs(*items)
    c.cover("known" if known else "new")
    u.add_updateable(w)
    if not known: items = items + [w]
    if c.flag("plain"): u.add_updateable(Plain())
    del log[:]
    getattr(u, what)()
    c.check_trace("each component once, in order", log, c.unroll(items, lambda e: [(what, "w")]))


@harness("C35", targets=EV, bounds="up to four registrations")
def event_listeners(c):
    e = c.get("pyswitch.misc:EventEmitter")()
    ls = [Listener("L%d" % i) for i in range(4)]
    want, top = [], 0
    for i in range(4):
        k = c.choice("which", range(min(top + 1, 4)))
        top = max(top, k + 1)
        new = e.add_listener(ls[k])
        c.check("tells if the listener is new", new is (ls[k] not in want))
        if ls[k] not in want: want.append(ls[k])
    c.check("each listener once, in order", list(e.listeners) == want and all(a is b for a, b in zip(e.listeners, want)))


@harness("C35", targets=UPD + ["controller.callbacks.Callback.init", "controller.callbacks.Callback.update", "controller.callbacks.Callback.register_mapping"], params=(0, 1, 2, 3), bounds="up to three parameters")
def callbacks(c, n):
    """a callback initialized several times is registered once, and requests each of its parameters once per update"""
    Cb = c.get("pyswitch.controller.callbacks:Callback")
    ms = [FakeMapping("p%d" % i) for i in range(n)]
    k = c.choice("at creation", range(n + 1))
    cb = Cb(mappings=ms[:k])
    for m in ms[k:]: cb.register_mapping(m)
    class Ap(c.get("pyswitch.misc:Updater")): pass
    appl = Ap()
    appl.client = FakeClient()
    l = Listener("l") if c.flag("listener") else None
    cb.init(appl, l)
    c.check("listens to each parameter", appl.client.take() == [("register", m, cb) for m in ms])
    if c.flag("again"):
        cb.init(appl, Listener("other"))
        c.check("initialized only once", appl.client.take() == [])
    c.check("registered once", list(appl.updateables) == [cb])
    try: cb.register_mapping(FakeMapping("late"))
    except Exception: c.check("no parameters afterwards", True)
    else: c.check("no parameters afterwards", False)
    appl.update()
    c.check("requests each parameter once", appl.client.take() == [("request", m, cb) for m in ms])
    if n:
        i = c.choice("changed", range(n))
        for m in ms: m.value = 5
        if c.flag("terminated"):
            cb.request_terminated(ms[i])
            c.check("exactly the value of this parameter is unknown", [m.value for m in ms] == [None if j == i else 5 for j in range(n)])
            c.check("passed on once", l is None or l.log == [("terminated", "l", ms[i].name)])
        else:
            cb.parameter_changed(ms[i])
            c.check("values kept", [m.value for m in ms] == [5] * n)
            c.check("passed on once", l is None or l.log == [("changed", "l", ms[i].name, 5)])


@harness("C35", targets=MAPPING + UPD + EV, kind="history", bounds="concretely: 60 registrations", random_runs=300)
def history(c):
    if c.symbolic: return c.check("concrete only", True)
    g = Registry(c)
    r = Reg(c)
    e = c.get("pyswitch.misc:EventEmitter")()
    want = []
    us, ls = [r.new() for _ in range(12)], [Listener(str(i)) for i in range(12)]
    for _ in range(60):
        op = c.choice("op", ("get", "add", "run", "listen"))
        if op == "get": g.get(c.choice("name", ["p%d" % i for i in range(15)] + [1, 2, (1, 2)]), c.flag("two"))
        elif op == "add": r.add(*c.choice("which", us + [(Plain(), None), (3, None)]))
        elif op == "run": r.run()
        else:
            l = c.choice("l", ls)
            c.check("tells if the listener is new", e.add_listener(l) is (l not in want))
            if l not in want: want.append(l)
            c.check("each listener once, in order", list(e.listeners) == want)
    g.unchanged()


@harness("C35", targets=MAPPING, params=(False, True), covers=["known", "new"])
def any_number_of_parameters(c, two):
    """any number of parameters known before: a known name gives the object known, another one a new object, which is known afterwards"""
    r = Registry(c)
    c.field_of(r.P, "_mappings")
    name = c.int("name", 1)
    def other():
        n = c.int("other name", 1)
        c.assume(n != name)
        return FakeMapping(n)
    A, B = c.seg("A", other), c.seg("B", other)
    x = FakeMapping(name)
    known = c.flag("known already")
    r.P._mappings = c.segs(*([A, x, B] if known else [A, B]))
    if known: r.known.append((name, x))
    r.get(name, two)
    again = r.get(name, not two)
    m = r.known[-1][1]
    c.check("the known parameters, and the new one", last(r.P._mappings) is m if not known else True)
    c.check_items("exactly these", r.P._mappings, c.segs(*([A, x, B] if known else [A, B, m])))


def last(l): return (l.items if hasattr(l, "items") else l)[-1]


@harness("C35", targets=EV, params=(False, True))
def any_number_of_listeners(c, known):
    """any number of listeners: a known one is not added again, a new one comes last"""
    e = c.get("pyswitch.misc:EventEmitter")()
    c.field(e, "listeners")
    A, B, l = c.seg("A", lambda: Listener("other")), c.seg("B", lambda: Listener("other")), Listener("l")
    e.listeners = c.segs(*([A, l, B] if known else [A, B]))
    c.check("tells if the listener is new", e.add_listener(l) is (not known))
    c.check("known now", e.add_listener(l) is False)
    c.check_items("each listener once, in order", e.listeners, c.segs(*([A, l, B] if known else [A, B, l])))


@harness("C35", targets=["controller.callbacks.Callback.init", "controller.callbacks.Callback.update", "controller.callbacks.Callback.request_terminated"], params=("init", "update", "terminated"))
def any_number_of_dependencies(c, what):
    """a callback depending on any number of parameters registers for each one, requests each one, and forgets exactly the value of one not answered"""
    cb = c.get("pyswitch.controller.callbacks:Callback")()
    class Client:
        def register(self, m, l): c.trace.append(("register", m.name, l is cb))
        def request(self, m, l): c.trace.append(("request", m.name, l is cb))
    class Ap(c.get("pyswitch.misc:Updater")):
        client = Client()
    appl = Ap()
    l = Listener("l") if c.flag("listener") else None
    if what == "terminated": cb.init(appl, l)
    word = {"init": "register", "update": "request"}.get(what)
    calls = lambda m: [(word, m.name, True)] if word else []
    kept = lambda m: c.check("other values are kept", m.value == 5)
    A, B = [c.seg(n, lambda n=n: FakeMapping(n, value=5), calls, inv=kept) for n in "AB"]
    x = FakeMapping("x", value=5)
    F = "_Callback__mappings"
    if what == "update": cb.init(appl, l)
    c.field(cb, F)
    cb.__dict__[F] = c.segs(A, x, B)
    if what == "init":
        cb.init(appl, l)
        cb.init(appl, Listener("other"))
        c.check("registered once", list(appl.updateables) == [cb])
    elif what == "update": cb.update()
    else:
        cb.request_terminated(x)
        c.check("the value is not known any more", x.value is None)
        c.check("passed on once", l is None or l.log == [("terminated", "l", "x")])
    c.check_trace("each parameter once, in order", c.trace, c.unroll([A, x, B], calls) if word else [])

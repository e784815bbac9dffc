"""Switch edges: every poll from every state, any override answers, up to three actions (one of them nested; bounded), all enabled
patterns; longer polling histories concretely."""
from vf.api import *
from .lib import *

T = ["controller.inputs.SwitchController.process", "controller.inputs.SwitchController.__init__", "controller.inputs._flatten_actions"]


class Override:
    def __init__(self, log):
        self.log = log
        self.ret = {}
    def push(self):
        self.log.append(("push", "override"))
        return self.ret["push"]
    def release(self):
        self.log.append(("release", "override"))
        return self.ret["release"]


class Spec:
    def __init__(self, c, shape):
        self.c = c
        self.log = []
        self.appl = Appl()
        acts = [FakeAction("a%d" % i, self.log) for i in range(sum(n if n else 1 for n in shape))]
        it = iter(acts)
        conf = [[next(it) for _ in range(n)] if n else next(it) for n in shape]
        self.acts = acts
        self.sw, self.m = switch(c, self.appl, conf)
        c.check("each action initialized once, in order", [e for e in self.log if e[0] == "init"] == [("init", a.name) for a in acts])
        c.check("each action is updated regularly", [x for x in self.appl.updateables if x in acts] == acts)
        c.check("the hardware is initialized once", self.m.inits == 1)
        self.log.clear()
        self.down = False

    def poll(self, pushed, vary=True):
        c = self.c
        self.log.clear()
        for a in self.acts:
            a.enabled = (c.choice("enabled " + a.name, (True, False)) if vary else True)
        self.m.pushed = pushed
        ov = self.sw.override_action
        if ov:
            r = c.choice("override answer", (None, False, True))
            ov.ret = {"push": r, "release": r}
        self.sw.process()
        kind = "push" if pushed and not self.down else "release" if self.down and not pushed else None
        self.down = pushed
        want = []
        if kind:
            if ov: want.append((kind, "override"))
            if not ov or ov.ret[kind]:
                want += [(kind, a.name) for a in self.acts if a.enabled]
        c.check("one edge: each enabled action exactly once in order, nothing else", self.log == want, lambda: "called %r, expected %r" % (self.log, want))
        if kind: c.cover(kind)


SHAPES = ((), (0,), (0, 2), (2, 0), (0, 0, 0))


@harness("C08", targets=T, params=SHAPES[1:], bounds="one to three actions")
def edges(c, shape):
    s = Spec(c, shape)
    if c.flag("was down"):
        s.poll(True, False)
    if c.flag("override set"):
        s.sw.override_action = Override(s.log)
    s.poll(c.flag("pushed"))
    if s.sw.override_action and c.flag("override removed"):
        s.sw.override_action = None
    s.poll(c.flag("pushed"))


class AnyAction(FakeAction):
    """arbitrary action writing to the ghost trace"""
    def __init__(self, c, tag, name=None):
        self.c = c
        FakeAction.__init__(self, c.int(tag) if name is None else name, c.trace)
        self.enabled = c.bool(tag + " enabled")
    def update_displays(self): self.log.append(("displays", self.name))


def any_actions(c, tag, calls=None):
    return c.seg(tag, lambda: AnyAction(c, tag), calls)


def initialized(a): return [("init", a.name), ("add", a.name), ("displays", a.name)]


class TraceAppl(Appl):
    def __init__(self, c):
        Appl.__init__(self)
        self.c = c
    def add_updateable(self, u): self.c.trace.append(("add", u.name))


@harness("C08", targets=T, params=("none", "override"), covers=["push", "release", "nothing"])
def any_number_of_actions(c, ov):
    """any number of actions, some of them in lists: every edge calls each enabled one exactly once, in order, every other poll none"""
    A, B = any_actions(c, "A"), any_actions(c, "B")
    w, x, y = AnyAction(c, "w", "w"), AnyAction(c, "x", "x"), AnyAction(c, "y", "y")
    items = [A, w, x, y, B]
    A.calls = B.calls = initialized
    m = Model()
    conf = {"assignment": {"model": m, "pixels": ()}, "actions": c.segs(A, w, [x, y], B)}
    sw = c.get("pyswitch.controller.inputs:SwitchController")(TraceAppl(c), conf)
    c.check_trace("each action initialized once, in order", c.trace, c.unroll(items, initialized))
    if c.flag("pressed before"):
        A.calls = B.calls = lambda a: [("push", a.name)] if c.is_true(a.enabled) else []
        m.pushed = True
        sw.process()
        down = True
    else: down = False
    del c.trace[:]
    m.pushed = c.flag("pushed")
    o = None
    if ov == "override":
        o = Override(c.trace)
        r = c.choice("override answer", (None, False, True))
        o.ret = {"push": r, "release": r}
        sw.override_action = o
    kind = "push" if m.pushed and not down else "release" if down and not m.pushed else None
    c.cover(kind or "nothing")
    calls = lambda a: [(kind, a.name)] if c.is_true(a.enabled) else []
    A.calls = B.calls = calls
    for k in range(2):
        sw.process()
        want = []
        if kind and k == 0:
            want = [(kind, "override")] if o else []
            if not o or o.ret[kind]: want += c.unroll(items, calls)
        c.check_trace("one edge: each enabled action exactly once in order, polling on: nothing", c.trace, want)
        del c.trace[:]


@harness("C08", targets=T, kind="history", params=SHAPES, bounds="symbolically three polls without override, concretely 60 polls with override changes")
def polling(c, shape):
    s = Spec(c, shape)
    for _ in range(3 if c.symbolic else 60):
        if not c.symbolic:
            k = c.choice("override", ("keep", "keep", "keep", "set", "remove"))
            if k == "set": s.sw.override_action = Override(s.log)
            if k == "remove": s.sw.override_action = None
        s.poll(c.flag("pushed"), not c.symbolic or len(s.acts) < 2)

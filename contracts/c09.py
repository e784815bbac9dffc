"""Hold logic of a switch: every poll from every internal state satisfying the coupling invariant (induction, all hold times and clocks),
plus public polling histories; two normal and two hold actions (bounded)."""
from vf.api import *
from .lib import *
from .c08 import Override

T = ["controller.inputs.SwitchController.process", "controller.inputs.SwitchController.__check_hold", "misc.PeriodCounter.exceeded", "controller.inputs.SwitchController.__init__", "controller.inputs._flatten_actions"]
P = "_SwitchController__"


class Spec:
    """held: None (up), else [tracked, start, fired]"""
    def __init__(self, c, repeat, life, na=2, nh=2):
        self.c, self.repeat, self.T = c, repeat, life
        self.log = []
        self.appl = Appl()
        self.A = [FakeAction("a%d" % i, self.log) for i in range(na)]
        self.H = [FakeAction("h%d" % i, self.log) for i in range(nh)]
        self.sw, self.m = switch(c, self.appl, [self.A[:1] + self.A[1:]] if na > 1 else self.A, self.H[:1] + [self.H[1:]] if nh > 1 else self.H,
                                 holdTimeMillis=life, holdRepeat=repeat)
        c.check("each action is initialized once, in order", [e for e in self.log if e[0] == "init"] == [("init", a.name) for a in self.A + self.H])
        c.check("each action is updated regularly", [u for u in self.appl.updateables if u in self.A + self.H] == self.A + self.H)
        self.log.clear()
        self.held = None

    def hold_calls(self):
        return [e for h in self.H if h.enabled for e in (("push", h.name), ("release", h.name))]

    def poll(self, pushed):
        c = self.c
        self.log.clear()
        for a in self.A + self.H:
            a.enabled = c.choice("enabled " + a.name, (True, False)) if not c.symbolic else self.en[a.name]
        self.m.pushed = pushed
        ov = self.sw.override_action
        if ov:
            ov.ret = {"push": c.choice("override push", (None, True)), "release": c.choice("override release", (None, True))}
        self.sw.process()
        want = []
        t = c.now()
        if pushed and self.held is None:
            tracked = True
            if ov:
                want.append(("push", "override"))
                tracked = bool(ov.ret["push"])
            self.held = [tracked, t, False]
        elif pushed:
            tracked, start, fired = self.held
            if tracked and (self.repeat or not fired) and c.is_true(t - start > self.T):
                c.cover("hold fired")
                want += self.hold_calls()
                self.held = [True, t, True]
        elif self.held is not None:
            tracked, start, fired = self.held
            ask = True
            if ov:
                want.append(("release", "override"))
                ask = bool(ov.ret["release"])
            if tracked and ask:
                if (self.repeat or not fired) and c.is_true(t - start > self.T):
                    c.cover("expired at the release")
                    want += self.hold_calls()
                elif not fired:
                    c.cover("short press")
                    want += [e for a in self.A if a.enabled for e in (("push", a.name), ("release", a.name))]
            self.held = None
        c.check("short and long presses never mix", self.log == want, lambda: "called %r, expected %r" % (self.log, want))

    def set_enabled(self):
        c = self.c
        self.en = {a.name: c.choice("enabled " + a.name, (True, False)) for a in self.A + self.H}


FIELDS = ["pixels", "override_action", "strobe_order"] + [P + x for x in ("switch", "appl", "colors", "brightnesses", "hold_repeat", "actions", "actions_hold", "period_hold")]


@harness("C09", targets=T, kind="induction", params=(False, True), covers=["hold fired", "expired at the release", "short press"])
def one_poll(c, repeat):
    life = c.int("hold time", 0)
    s = Spec(c, repeat, life, 1, 1)
    s.set_enabled()
    start = c.int("period start", 0)
    held = c.choice("state", ("up", "pressed", "fired"))
    # coupling invariant
    s.held = None if held == "up" else [True, start, held == "fired"]
    hold_active = held == "pressed" or (held == "fired" and repeat)
    was = held == "fired" and repeat
    c.set_now(start)
    per = c.field(s.sw, P + "period_hold")
    per.reset()
    c.inject(s.sw, {P + "pushed_state": held != "up", P + "hold_active": hold_active, P + "hold_was_active": was}, allow=FIELDS)
    c.advance(c.int("dt", 0))
    s.poll(c.flag("pushed"))
    # invariant afterwards
    h = s.held
    c.check("invariant: pushed state", bool(c.field(s.sw, P + "pushed_state")) == (h is not None))
    c.check("invariant: press pending", bool(c.field(s.sw, P + "hold_active")) == (h is not None and (repeat or not h[2])))
    c.check("invariant: hold fired", bool(c.field(s.sw, P + "hold_was_active")) == (h is not None and repeat and h[2]))
    if h is not None:
        c.check_eq("invariant: period", per.passed, c.now() - h[1])


@harness("C09", targets=T, kind="history", params=(False, True), bounds="symbolically six polls (two presses), concretely 60 polls; two normal and two hold actions",
         covers=["hold fired", "expired at the release", "short press"])
def presses(c, repeat):
    life = c.int("hold time", 0, None if c.symbolic else 1500)
    s = Spec(c, repeat, life)
    if c.symbolic:
        s.en = {"a0": True, "a1": True, "h0": True, "h1": c.choice("h1 enabled", (True, False))}
        for p in (True, True, False, True, c.flag("still pushed"), False):
            c.advance(c.int("dt", 0))
            s.poll(p)
    else:
        for _ in range(60):
            c.advance(c.int("dt", 0, 2000))
            s.poll(c.flag("pushed"))


@harness("C09", targets=T, kind="history", params=(False, True), bounds="one press under an override, one press after it")
def after_override(c, repeat):
    """a press during which an override came or went leaves nothing behind for the next press"""
    life = c.int("hold time", 0)
    s = Spec(c, repeat, life, 1, 1)
    s.set_enabled()
    when = c.choice("override set", ("before", "during"))
    if when == "before": s.sw.override_action = Override(s.log)
    s.poll(True)
    if when == "during": s.sw.override_action = Override(s.log)
    dt = c.int("dt", 0)
    c.assume(dt <= life)
    c.advance(dt)
    if when == "before" and c.flag("removed during"): s.sw.override_action = None
    s.poll(False)
    s.sw.override_action = None
    c.advance(c.int("pause", 0))
    s.poll(True)
    c.advance(c.int("dt2", 0))
    s.poll(c.flag("still pushed"))
    c.advance(c.int("dt3", 0))
    s.poll(False)


@harness("C09", targets=T)
def default_hold_time(c):
    """600 ms unless configured"""
    log = []
    sw, m = switch(c, Appl(), [FakeAction("a", log)], [FakeAction("h", log)])
    log.clear()
    m.pushed = True
    sw.process()
    dt = c.int("dt", 0)
    c.advance(dt)
    sw.process()
    c.check("long press after more than 600 ms", c.iff(dt > 600, log == [("push", "h"), ("release", "h")]))
    m.pushed = False
    sw.process()
    c.check("short press", c.implies(dt <= 600, log == [("push", "a"), ("release", "a")]))

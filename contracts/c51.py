"""Pedals and wheels: any number of actions on an input (loop rule), every position, every pattern of enabled actions; and the two real kinds of
actions, disabled and enabled by their callback, with any values."""
from vf.api import *
from .lib import *

CC, T = "pyswitch.controller.inputs:ContinuousController", ["controller.inputs.ContinuousController.__init__", "controller.inputs.ContinuousController.process", "controller.inputs._flatten_actions"]
AN, EN = "controller.actions.AnalogAction.AnalogAction.", "controller.actions.EncoderAction.EncoderAction."


class Pot:
    def __init__(self): self.value, self.inits = 0, 0
    def init(self): self.inits += 1
    def now(self, v): self.value = v


class Wheel:
    def __init__(self): self.position, self.inits = 0, 0
    def init(self): self.inits += 1
    def now(self, v): self.position = v


def recorder(c, tag, name=None, updated=True):
    """an action which records its calls"""
    base = c.get("pyswitch.misc:Updateable") if updated else object
    class A(base):
        def __init__(self):
            self.name = name or c.int("name of " + tag, 0)
            self.enabled = c.flag("enabled " + tag) if not name else True
            self.updated = updated
        def init(self, appl): c.trace.append(("init", self.name))
        def process(self, v): c.trace.append(("process", self.name, v))
    return A()


class TraceAppl(Appl):
    def __init__(self, c):
        Appl.__init__(self)
        self.c = c
    def add_updateable(self, u): self.c.trace.append(("add", u.name))


def initialized(a): return [("init", a.name)] + ([("add", a.name)] if a.updated else [])


@harness("C51", targets=T, params=("pedal", "wheel"))
def any_number_of_actions(c, kind):
    """each action is initialized once, in order, and updated regularly if it can be; every poll hands the current position to each enabled action,
    exactly once and in order, and to no other"""
    A, B = c.seg("A", lambda: recorder(c, "A"), initialized), c.seg("B", lambda: recorder(c, "B", updated=False), initialized)
    w, x, y = recorder(c, "w", "w"), recorder(c, "x", "x", False), recorder(c, "y", "y")
    hw = Pot() if kind == "pedal" else Wheel()
    items = [A, w, x, y, B]
    ctl = c.get(CC)(TraceAppl(c), {"assignment": {"model": hw}, "actions": c.segs(A, w, [x, y], B)})
    c.check_trace("initialized", c.trace, c.unroll(items, initialized))
    c.check_eq("the hardware is initialized once", hw.inits, 1)
    for k in range(2):
        del c.trace[:]
        w.enabled, x.enabled, y.enabled = c.flag("w"), c.flag("x"), c.flag("y")
        v = c.int("position", -100000, 100000)
        hw.now(v)
        calls = lambda a: [("process", a.name, v)] if c.is_true(a.enabled) else []
        A.calls = B.calls = calls
        ctl.process()
        c.check_trace("each enabled action gets the position, once, in order", c.trace, c.unroll(items, calls))


def label(c):
    class Shows:
        def update_label(self, label): label.text = "normal"
    lab = c.get("pyswitch.ui.elements:DisplayLabel")(layout={"font": "f", "textColor": (1, 2, 3)}, callback=Shows())
    lab.update_label()
    return lab


def action(c, kind, m, **kw):
    if kind == "pedal": return c.get("pyswitch.controller.actions.AnalogAction:AnalogAction")(m, max_frame_rate=1000, **kw)
    return c.get("pyswitch.controller.actions.EncoderAction:EncoderAction")(m, step_width=1, **kw)


@harness("C51", targets=T + [AN + n for n in ("__init__", "enabled", "init", "process", "update", "reset")] + [EN + n for n in ("__init__", "enabled", "init", "process", "update", "reset")], params=("pedal", "wheel"))
def disabled(c, kind):
    """an action disabled by its callback sends and shows nothing, wherever the input is moved; what was moved meanwhile has no effect when it is enabled
    again (wheel) or counts from then on (pedal); two actions on one input do not disturb each other"""
    appl = Appl()
    c.set_now(c.int("start", 10, 1000))
    ms = [FakeMapping("p%d" % i, set=cc(c, 1 + i, 0), value=50) for i in range(2)]
    cb, lab = EnableCb(), label(c)
    show = {("change_display" if kind == "pedal" else "preview_display"): lab}
    a, b = action(c, kind, ms[0], enable_callback=cb, **show), action(c, kind, ms[1])
    hw = Pot() if kind == "pedal" else Wheel()
    ctl = c.get(CC)(appl, {"assignment": {"model": hw}, "actions": [a, b]})
    c.check_eq("both are updated", appl.updateables, [a, b])
    def move(v):
        appl.client.take()
        c.advance(10)
        hw.now(v)
        ctl.process()
        return [e[1:] for e in appl.client.take() if e[0] == "set"]
    pos = (lambda i: c.int("position", 2000, 65535)) if kind == "pedal" else (lambda i: c.int("position", -40, 40))
    first = move(pos(0))
    cb.on = False
    shown = lab.text
    for i in range(2):
        c.check("only the other one sends", all([s[0] is ms[1] for s in move(pos(i))]))
        c.check_eq("nothing new is shown", lab.text, shown)
    a.reset(); b.reset()          # what the pager does when the page changes
    cb.on = True
    ms[0].value = 50
    last = hw.value if kind == "pedal" else hw.position
    move(last)
    sets = move(last)
    c.check_eq("no movement, nothing is sent", sets, [])
    if kind == "wheel":
        d = c.choice("turn", (1, -3))
        sets = move(last + d)
        c.check_eq("both follow the movement from here", [s for s in sets if s[0] is ms[0]], [(ms[0], 50 + d)])

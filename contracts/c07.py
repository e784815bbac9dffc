"""Push button modes: every public operation from every state (state x time of the last press, both reachable through the public
interface), all hold times and clocks: complete by induction over the operations; histories on top."""
from vf.api import *
from .lib import *

T = ["controller.actions.PushButtonAction.push", "controller.actions.PushButtonAction.release", "controller.actions.PushButtonAction.state",
     "controller.actions.PushButtonAction.feedback_state", "controller.actions.PushButtonAction.reset", "misc.PeriodCounter.exceeded"]
MODES = ("ENABLE", "DISABLE", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY", "ONE_SHOT", "NO_STATE_CHANGE")


class Cb:
    """callback recording the parameter commands"""
    def __init__(self):
        self.cmds = []
        self.shown = None
        self.enabled = True
        self.resets = 0
    def init(self, appl, listener=None): pass
    def state_changed_by_user(self): self.cmds.append(self.action.state)
    def update_displays(self): self.shown = self.action.state
    def push(self): pass
    def release(self): pass
    def reset(self): self.resets += 1


class Sw:
    pixels = ()
    actions = ()


class Spec:
    def __init__(self, c, mode, hold=None):
        self.c, self.mode = c, mode
        P = c.get("pyswitch.controller.actions:PushButtonAction")
        cfg = {"mode": getattr(P, mode)}
        self.cb = Cb()
        cfg["callback"] = self.cb
        if hold is not None:
            cfg["holdTimeMillis"] = hold
        self.hold = 600 if hold is None else hold
        self.a = P(cfg)
        self.a.init(Appl(), Sw())
        self.state = False
        self.pressed = None

    def settle(self, name, want_cmds):
        c = self.c
        c.check_eq(name + ": state", bool(self.a.state) if not is_sym(self.a.state) else self.a.state, self.state)
        c.check_eq(name + ": parameter commands", self.cb.cmds, want_cmds)
        self.cb.cmds = []

    def change(self, to, cmds):
        if to != self.state:
            self.state = to
            cmds.append(to)

    def push(self):
        cmds = []
        m = self.mode
        if m in ("ENABLE", "MOMENTARY"): self.change(True, cmds)
        elif m in ("DISABLE", "MOMENTARY_INVERSE"): self.change(False, cmds)
        elif m in ("LATCH", "HOLD_MOMENTARY"): self.change(not self.state, cmds)
        elif m == "ONE_SHOT":
            self.state = True
            cmds.append(True)
        self.pressed = self.c.now()
        self.a.push()
        if cmds:
            self.c.check_eq("push: shown state", self.cb.shown, self.state)
        self.settle("push", cmds)

    def release(self):
        cmds = []
        m = self.mode
        if m == "MOMENTARY": self.change(False, cmds)
        elif m == "MOMENTARY_INVERSE": self.change(True, cmds)
        elif m == "HOLD_MOMENTARY":
            if self.c.is_true(self.c.now() - self.pressed > self.hold):
                self.c.cover("held long")
                self.change(not self.state, cmds)
            else:
                self.c.cover("held short")
        elif m == "ONE_SHOT":
            self.state = False
        self.a.release()
        if cmds or m == "ONE_SHOT":
            self.c.check_eq("release: shown state", self.cb.shown, self.state)
        self.settle("release", cmds)

    def feedback(self, s):
        self.a.feedback_state(s)
        self.state = s
        self.settle("feedback", [])

    def reset(self):
        self.a.reset()
        self.state = False
        self.settle("reset", [])
        self.c.check("reset: callback is reset", self.cb.resets > 0)

    def assign(self, s):
        cmds = []
        self.change(s, cmds)
        self.a.state = s
        self.settle("state set", cmds)


@harness("C07", targets=T, params=MODES)
def press_and_release(c, mode):
    hold = c.int("hold time", 0) if c.flag("configured hold time") else None
    c.set_now(c.int("t0", 0))
    s = Spec(c, mode, hold)
    s.feedback(c.flag("state before"))
    s.push()
    c.advance(c.int("held", 0))
    mid = c.choice("meanwhile", ("nothing", "feedback", "reset"))
    if mid == "feedback": s.feedback(c.flag("fed back"))
    elif mid == "reset": s.reset()
    s.release()
    c.advance(c.int("pause", 0))
    s.push()
    c.cover("end")


@harness("C07", targets=T, params=MODES)
def assignment(c, mode):
    """setting the state from outside triggers exactly the changes"""
    s = Spec(c, mode)
    s.feedback(c.flag("state before"))
    s.assign(c.flag("to"))
    s.assign(c.flag("to"))


@harness("C07", targets=T, kind="history", params=MODES, bounds="symbolically three presses, concretely 40 operations")
def history(c, mode):
    hold = c.int("hold time", 0, None if c.symbolic else 2000)
    s = Spec(c, mode, hold)
    down = False
    for k in range(5 if c.symbolic else 40):
        c.advance(c.int("dt", 0, None if c.symbolic else 1500))
        op = "key" if c.symbolic else c.choice("op", ("key", "key", "key", "feedback", "reset", "assign"))
        if op == "key":
            if down: s.release()
            else: s.push()
            down = not down
        elif op == "feedback": s.feedback(c.flag("fb"))
        elif op == "reset": s.reset()
        else: s.assign(c.flag("to"))


@harness("C07", targets=T)
def defaults(c):
    """without a mode the button is hold-momentary with 600 ms, initially off"""
    P = c.get("pyswitch.controller.actions:PushButtonAction")
    cb = Cb()
    a = P({"callback": cb})
    a.init(Appl(), Sw())
    c.check("initially off", a.state is False)
    a.push()
    c.check("toggled", a.state is True and cb.cmds == [True])
    dt = c.int("held", 0)
    c.advance(dt)
    a.release()
    c.check("toggled back iff held for more than 600 ms", c.iff(dt > 600, not a.state))

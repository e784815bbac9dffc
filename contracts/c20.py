"""Rig up/down: every rig, both directions, with and without keeping the bank, any number of reports of the device before and during a press."""
from vf.api import *
from .kemper import *

T = ["clients.kemper.actions.rig_up_down.RIG_UP", "clients.kemper.actions.rig_up_down.RIG_DOWN", "clients.kemper.actions.rig_up_down._KemperRigChangeCallback.push",
     "clients.kemper.actions.rig_up_down._KemperRigChangeCallback.release", "clients.kemper.actions.rig_up_down._KemperRigChangeCallback.__get_next_rig",
     "clients.kemper.actions.rig_up_down._KemperRigChangeCallback.update_displays", "clients.kemper.mappings.select.MAPPING_RIG_SELECT",
     "clients.kemper.mappings.select.MAPPING_BANK_SELECT"] + TK
N = 625


def make(c, name, appl, **kw):
    m = c.mod(A + "rig_up_down")
    return Button(c, appl, getattr(m, name)(**kw))


class Spec:
    def __init__(self, c, name, keep, **kw):
        self.c, self.up, self.keep = c, name == "RIG_UP", keep
        self.appl = KApp(c)
        self.b = make(c, name, self.appl, keep_bank=keep, **kw)
        self.v = None
        self.pressed = None

    def target(self):
        c, v = self.c, self.v
        d = 1 if self.up else -1
        if self.keep:
            edge = 4 if self.up else 0
            return c.ite(v % 5 == edge, v, v + d)
        return (v + d) % N

    def report(self, v):
        self.appl.receive_rig(v)
        self.v = v
        self.c.check("a report sends nothing", self.appl.sent() == [])

    def lost(self):
        """the device does not answer any more"""
        self.b.actions[0].callback.request_terminated(self.c.get("pyswitch.clients.kemper:KemperMappings").RIG_ID())
        self.v = None

    def push(self):
        c = self.c
        got = self.b.push()
        want = []
        self.pressed = None
        if self.v is not None:
            t = self.target()
            if c.is_true(t != self.v):
                c.cover("moves")
                if c.is_true(t // 5 != self.v // 5):
                    c.cover("new bank")
                    want.append(bank(c, t // 5))
                self.pressed = t % 5
                want.append(rig(c, self.pressed, 1))
            else: c.cover("stays")
            c.check("the target is a rig", c.all([0 <= t, t < N]))
        c.check_eq("bank only if it changes, then the rig, nothing else", got, want)
        c.check("held: nothing more", self.b.idle() == [])

    def release(self):
        c = self.c
        want = [] if self.pressed is None else [rig(c, self.pressed, 0)]
        c.check_eq("release of exactly the rig pressed", self.b.release(), want)
        self.pressed = None
        c.check("released: nothing more", self.b.idle() == [])


MODES = [(n, k) for n in ("RIG_UP", "RIG_DOWN") for k in (True, False)]


@harness("C20", targets=T, params=MODES, covers=["moves"])
def one_press(c, p):
    M = c.mod(A + "rig_select")
    kw = {"display_mode": c.choice("display mode", (M.RIG_SELECT_DISPLAY_CURRENT_RIG, M.RIG_SELECT_DISPLAY_TARGET_RIG))}
    if c.flag("label"): kw["display"] = Label()
    s = Spec(c, *p, **kw)
    if c.flag("known"):
        s.report(c.int("rig", 0, N - 1))
    s.push()
    if c.flag("changed while pressed"):
        s.report(c.int("rig", 0, N - 1))
    s.release()


@harness("C20", targets=T, params=MODES, kind="history", bounds="symbolically two presses; concretely 30 operations", random_runs=400)
def history(c, p):
    s = Spec(c, *p)
    if c.symbolic:
        s.report(c.int("rig", 0, N - 1)); s.push(); s.report(c.int("rig", 0, N - 1)); s.release(); s.push(); s.release()
        return
    down = False
    for _ in range(30):
        op = c.choice("op", ("report", "press", "press", "lost"), (3, 3, 3, 1))
        if op == "report": s.report(c.choice("edge", (0, 4, 5, 619, 620, 624)) if c.flag("at an edge") else c.int("rig", 0, N - 1))
        elif op == "lost": s.lost()
        elif down:
            s.release(); down = False
        else:
            s.push(); down = True


@harness("C20", targets=["clients.kemper.actions.rig_up_down.RIG_UP"])
def defaults(c):
    """without a setting the bank is kept"""
    s = Spec.__new__(Spec)
    n = c.choice("direction", ("RIG_UP", "RIG_DOWN"))
    s.c, s.up, s.keep, s.appl, s.v, s.pressed = c, n == "RIG_UP", True, KApp(c), None, None
    s.b = make(c, n, s.appl)
    s.report(c.int("rig", 0, N - 1))
    s.push()
    s.release()

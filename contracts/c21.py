"""Bank up/down: every bank, every maximum bank, with and without a pending preselection of any other action."""
from vf.api import *
from .kemper import *

T = ["clients.kemper.actions.bank_up_down.BANK_UP", "clients.kemper.actions.bank_up_down.BANK_DOWN", "clients.kemper.actions.bank_up_down.KemperBankChangeCallback.__init__",
     "clients.kemper.actions.bank_up_down.KemperBankChangeCallback.init", "clients.kemper.actions.bank_up_down.KemperBankChangeCallback.push",
     "clients.kemper.actions.bank_up_down.KemperBankChangeCallback.update_displays",
     "clients.kemper.actions.bank_up_down.KemperBankChangeCallback.__get_next_bank", "clients.kemper.mappings.bank.MAPPING_NEXT_BANK",
     "clients.kemper.mappings.bank.MAPPING_PREVIOUS_BANK"] + TK


class Spec:
    def __init__(self, c, names, preselect, max_bank=None, **kw):
        self.c, self.preselect = c, preselect
        self.n = 125 if max_bank is None else max_bank
        self.appl = KApp(c)
        m = c.mod(A + "bank_up_down")
        self.names = names
        self.b = [Button(c, self.appl, getattr(m, n)(preselect=preselect, max_bank=max_bank, **kw)) for n in names]
        self.v = None
        self.pre = None

    def report(self, v):
        self.appl.receive_rig(v)
        self.v = v
        self.c.check("a report sends nothing", self.appl.sent() == [])

    def other_preselects(self, b):
        """another action preselects a bank"""
        self.appl.shared["preselectedBank"] = b
        self.appl.shared["preselectCallback"] = object()
        self.pre = b

    def preselection_ends(self):
        self.appl.shared.pop("preselectedBank", None)
        self.pre = None

    def shown(self):
        return self.appl.shared.get("preselectedBank", None)

    def press(self, k):
        c = self.c
        up = self.names[k] == "BANK_UP"
        got = self.b[k].push()
        if not self.preselect:
            c.check_eq("the step command exactly once", got, [(48 if up else 49, 0)])
        elif self.v is None:
            c.check("unknown bank: nothing is sent", got == [])
        else:
            base = self.v // 5 if self.pre is None else self.pre
            want = (base + (1 if up else -1)) % self.n
            self.pre = want
            c.check_eq("the neighbouring bank is sent, and only that", got, [bank(c, want)])
            c.check("it is a valid bank", c.all([0 <= want, want < self.n]))
        if self.pre is None: c.check("no preselection", self.shown() is None)
        else: c.check_eq("the preselected bank everybody sees is the one sent", self.shown(), self.pre)
        c.check("held: nothing more", self.b[k].idle() == [])
        c.check("releasing sends nothing", self.b[k].release() == [])


NAMES = ("BANK_UP", "BANK_DOWN")


@harness("C21", targets=T, params=[(n, p) for n in NAMES for p in (None, "max")])
def one_press(c, p):
    name, mx = p
    M = c.mod(A + "rig_select")
    kw = {"display": Label(), "display_mode": c.choice("display mode", (M.RIG_SELECT_DISPLAY_CURRENT_RIG, M.RIG_SELECT_DISPLAY_TARGET_RIG))} if c.flag("label") else {}
    mx = c.int("max bank", 1, 125) if mx else None
    s = Spec(c, [name], True, mx, **kw)
    if c.flag("known"): s.report(c.int("rig", 0, 624))
    if mx is not None and s.v is not None: c.assume(s.v // 5 < mx)      # the device has no more banks than configured
    if c.flag("preselected"): s.other_preselects(c.int("preselected", 0, 124))
    if mx is not None and s.pre is not None: c.assume(s.pre < mx)
    s.press(0)
    if c.flag("again"): s.press(0)


@harness("C21", targets=T, params=NAMES)
def step_command(c, name):
    s = Spec(c, [name], False, **({"display": Label()} if c.flag("label") else {}))
    if c.flag("known"): s.report(c.int("rig", 0, 624))
    if c.flag("preselected"): s.other_preselects(c.int("preselected", 0, 124))
    s.press(0)
    if c.flag("changed"): s.report(c.int("rig", 0, 624))
    s.press(0)


@harness("C21", targets=T, kind="history", bounds="symbolically three operations; concretely 30", random_runs=600)
def history(c):
    pre = True if c.symbolic else c.choice("preselect", (True, True, False))
    mx = c.choice("max", (None, 3)) if c.symbolic else (c.choice("max", (None, 1, 2, 3, 7, 125)))
    s = Spec(c, NAMES, pre, mx)
    n = s.n * 5
    if c.symbolic: s.report(c.int("rig", 0, n - 1))
    for _ in range(3 if c.symbolic else 30):
        op = c.choice("op", ("up", "down", "end") if c.symbolic else ("up", "down", "up", "down", "report", "end", "other", "update"))
        if op == "up": s.press(0)
        elif op == "down": s.press(1)
        elif op == "report": s.report(c.int("rig", 0, n - 1))
        elif op == "end": s.preselection_ends()
        elif op == "other": s.other_preselects(c.int("bank", 0, s.n - 1))
        else:
            c.advance(c.choice("dt", (0, 399, 400, 401, 1000)))
            s.appl.update()
            c.check("updates send nothing", s.appl.sent() == [])


@harness("C21", targets=["clients.kemper.actions.bank_up_down.KemperBankChangeCallback.init", "clients.kemper.actions.bank_up_down.KemperBankChangeCallback.update_displays"])
def looks(c):
    """every documented look setting works"""
    d, l = c.choice("dim factor", ("off", "on", 0.5)), c.choice("brightness", ("off", "on", 0.5))
    lab = Label()
    s = Spec(c, [c.choice("direction", NAMES)], c.flag("preselect"), dim_factor=d, led_brightness=l, display=lab, color=(200, 100, 0))
    if c.flag("known"): s.report(c.int("rig", 0, 624))
    s.b[0].actions[0].update_displays()
    dim = {"off": 0.2, "on": 1}.get(d, d)
    lb = {"off": 0.02, "on": 0.3}.get(l, l)
    color = (200, 100, 0) if s.v is not None else (255, 255, 255)
    c.check_eq("label dimmed as configured", lab.back_color, scale(color, dim))
    c.check_eq("LEDs dimmed as configured", s.appl.led_driver.leds[0], scale(color, lb))

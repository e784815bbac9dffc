"""Bank select: every bank and off bank, every current rig, preselect mode, pending preselections of any action."""
from vf.api import *
from .kemper import *

T = ["clients.kemper.actions.bank_select.BANK_SELECT", "clients.kemper.actions.bank_select.KemperBankSelectCallback.__init__",
     "clients.kemper.actions.bank_select.KemperBankSelectCallback.init",
     "clients.kemper.actions.bank_select.KemperBankSelectCallback.state", "clients.kemper.actions.bank_select.KemperBankSelectCallback.push",
     "clients.kemper.actions.bank_select.KemperBankSelectCallback.release", "clients.kemper.actions.bank_select.KemperBankSelectCallback.update_displays",
     "clients.kemper.mappings.select.MAPPING_RIG_SELECT", "clients.kemper.mappings.select.MAPPING_BANK_SELECT"] + TK


class Spec:
    def __init__(self, c, cfgs, appl=None, **kw):
        """cfgs: list of (bank, bank_off, preselect)"""
        self.c = c
        self.appl = KApp(c)
        self.cfgs = cfgs
        self.b = [Button(c, self.appl, c.get(A + "bank_select:BANK_SELECT")(bank=b, bank_off=o, preselect=p, **kw)) for b, o, p in cfgs]
        self.v = None
        self.pre = None
        self.pressed = [None] * len(cfgs)

    def report(self, v):
        self.appl.receive_rig(v)
        self.v = v
        self.c.check("a report sends nothing", self.appl.sent() == [])

    def preselect(self, b):
        """another action preselects a bank"""
        self.appl.shared["preselectedBank"] = b
        self.pre = b

    def end(self):
        self.appl.shared.pop("preselectedBank", None)
        self.pre = None

    def push(self, k):
        c = self.c
        b, off, preselect = self.cfgs[k]
        got = self.b[k].push()
        want = []
        if self.v is not None:
            on = c.is_true(self.v // 5 == b - 1)
            if preselect:
                want.append(bank(c, b - 1))
                if self.pre is not None or not on: self.pre = b - 1
                c.cover("preselect")
            else:
                want.append(bank(c, (off if on and off is not None else b) - 1))
                self.pressed[k] = self.v % 5
                want.append(rig(c, self.pressed[k], 1))
                self.pre = None
                c.cover("bank and rig")
        else: c.cover("unknown")
        c.check_eq("the right bank, then the rig with the same number, nothing else", got, want)
        self.shown()
        c.check("held: nothing more", self.b[k].idle() == [])

    def shown(self):
        c = self.c
        s = self.appl.shared.get("preselectedBank", None)
        if self.pre is None: c.check("no pending preselection", s is None)
        else: c.check("pending preselection", s is not None and c.eq(s, self.pre))

    def release(self, k):
        c = self.c
        want = [] if self.pressed[k] is None else [rig(c, self.pressed[k], 0)]
        c.check_eq("release of exactly the rig pressed", self.b[k].release(), want)
        self.pressed[k] = None
        self.shown()
        c.check("released: nothing more", self.b[k].idle() == [])


def config(c):
    return (c.int("bank", 1, 126), c.int("bank off", 1, 126) if c.flag("bank off set") else None, c.flag("preselect"))


@harness("C23", targets=T, covers=["preselect", "bank and rig", "unknown"])
def one_press(c):
    s = Spec(c, [config(c)], display_mode=c.choice("mode", (10, 20)), **({"display": Label()} if c.flag("label") else {}))
    if c.flag("known"): s.report(c.int("current", 0, 629))
    if c.flag("preselected"): s.preselect(c.int("preselected", 0, 125))
    s.push(0)
    if c.flag("changed while pressed"): s.report(c.int("current", 0, 629))
    s.release(0)


@harness("C23", targets=T, kind="history", bounds="symbolically two presses of two buttons; concretely 40 operations, three buttons", random_runs=800)
def history(c):
    s = Spec(c, [config(c) for _ in range(2 if c.symbolic else 3)])
    if c.symbolic:
        s.report(c.int("current", 0, 624))
        for _ in range(2):
            k = c.choice("button", (0, 1))
            s.push(k); s.release(k)
        return
    down = [False] * 3
    for _ in range(40):
        op = c.choice("op", ("press", "press", "press", "report", "preselect", "end", "update"))
        k = c.choice("button", (0, 1, 2))
        if op == "press":
            if c.flag("at the bank") and not down[k]: s.report(min(624, (s.cfgs[k][0] - 1) * 5 + c.int("r", 0, 4)))
            (s.release if down[k] else s.push)(k)
            down[k] = not down[k]
        elif op == "report": s.report(c.int("current", 0, 624))
        elif op == "preselect": s.preselect(c.int("preselected", 0, 124))
        elif op == "end": s.end()
        else:
            c.advance(c.choice("dt", (0, 399, 401)))
            s.appl.update()
            c.check("updates send nothing", s.appl.sent() == [])
            s.shown()

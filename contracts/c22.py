"""Rig select: every configured rig and bank, off rig and off bank (fixed or automatic), every current rig, with and without a pending
preselection."""
from vf.api import *
from .kemper import *

T = ["clients.kemper.actions.rig_select.RIG_SELECT", "clients.kemper.actions.rig_select._KemperRigSelectCallback.__init__",
     "clients.kemper.actions.rig_select._KemperRigSelectCallback.state", "clients.kemper.actions.rig_select._KemperRigSelectCallback.push",
     "clients.kemper.actions.rig_select._KemperRigSelectCallback.release", "clients.kemper.actions.rig_select._KemperRigSelectCallback.update_displays",
     "clients.kemper.mappings.select.MAPPING_RIG_SELECT", "clients.kemper.mappings.select.MAPPING_BANK_SELECT"] + TK


class Spec:
    def __init__(self, c, rig_, rig_off=None, bank_=None, bank_off=None, exclude=None, n=3, **kw):
        self.c = c
        self.rig, self.bank = rig_, bank_
        self.auto_rig, self.auto_bank = isinstance(rig_off, str), isinstance(bank_off, str) and bank_ is not None
        self.off_rig = 1 if isinstance(rig_off, str) else rig_off
        self.off_bank = 1 if isinstance(bank_off, str) else bank_off
        self.exclude = exclude
        self.appl = KApp(c)
        self.b = Button(c, self.appl, c.get(A + "rig_select:RIG_SELECT")(rig=rig_, rig_off=rig_off, bank=bank_, bank_off=bank_off, auto_exclude_rigs=exclude, **kw), n=n)
        self.v = None
        self.pressed = None

    def report(self, v):
        c = self.c
        self.appl.receive_rig(v)
        self.v = v
        r, b = v % 5 + 1, v // 5 + 1
        if self.auto_rig and self.rig is not None:
            skip = c.any([r == self.rig] + ([r == e for e in self.exclude] if self.exclude else []))
            self.off_rig = c.ite(skip, self.off_rig, r)
        if self.auto_bank:
            self.off_bank = c.ite(b == self.bank, self.off_bank, b)
        c.check("a report sends nothing", self.appl.sent() == [])

    def lost(self):
        self.b.actions[0].callback.request_terminated(self.c.get("pyswitch.clients.kemper:KemperMappings").RIG_ID())
        self.v = None
        self.c.check("a loss sends nothing", self.appl.sent() == [])

    def preselect(self, b):
        self.appl.shared["preselectedBank"] = b
        self.appl.shared.setdefault("preselectBlinkState", False)

    @property
    def pre(self): return "preselectedBank" in self.appl.shared

    def active(self):
        """the configured rig is the one the device reported"""
        c = self.c
        if self.v is None or self.rig is None: return False
        ok = [self.v % 5 + 1 == self.rig]
        if self.bank is not None: ok.append(self.v // 5 + 1 == self.bank)
        return c.is_true(c.all(ok))

    def push(self):
        c = self.c
        on, pre = self.active(), self.pre
        want = []
        if self.bank is not None and not pre:
            want.append(bank(c, (self.off_bank if on and self.off_bank is not None else self.bank) - 1))
        if on and self.off_rig is not None and not pre:
            self.pressed = self.off_rig - 1
            c.cover("off rig")
        elif self.rig is not None:
            self.pressed = self.rig - 1
            c.cover("configured rig")
        else:
            self.pressed = None if self.v is None else self.v % 5
        if self.pressed is not None: want.append(rig(c, self.pressed, 1))
        c.check_eq("the right bank, then the right rig, nothing else", self.b.push(), want)
        c.check("a preselection has ended, none begins", not self.pre)
        c.check("held: nothing more", self.b.idle() == [])

    def release(self):
        c = self.c
        want = [] if self.pressed is None else [rig(c, self.pressed, 0)]
        c.check_eq("release of exactly the rig pressed", self.b.release(), want)
        self.pressed = None
        c.check("released: nothing more", self.b.idle() == [])


SHAPES = [(r, o, b, bo) for r in (True, False) for o in (None, "number", "auto") for b in (True, False) for bo in (None, "number", "auto")
          if not (o is not None and b and bo is None)]          # the others are refused by the constructor


def config(c, shape=None):
    r, off, b, boff = shape or c.choice("shape", SHAPES)
    return dict(rig_=c.int("rig", 1, 5) if r else None, rig_off=c.int("rig off number", 1, 5) if off == "number" else off,
                bank_=c.int("bank", 1, 126) if b else None, bank_off=c.int("bank off number", 1, 126) if boff == "number" else boff)


@harness("C22", targets=T, params=[x for x in SHAPES if "auto" not in x])
def one_press(c, shape):
    """without automatic values the state is the current rig and the pending preselection: all of them, no bound"""
    press(c, shape)


@harness("C22", targets=T, params=[(x, n) for x in SHAPES if "auto" in x for n in (0, 1, 2)], bounds="two reports before the press (any number: auto_step)")
def one_press_auto(c, p):
    press(c, *p)


def press(c, shape, reports=None):
    s = Spec(c, **config(c, shape))
    for _ in range(c.choice("reports", (0, 1)) if reports is None else reports): s.report(c.int("current", 0, 629))
    if c.flag("preselected"): s.preselect(c.int("preselected", 0, 125))
    s.push()
    if reports != 2 and c.flag("changed while pressed"): s.report(c.int("current", 0, 629))
    s.release()


P = "_KemperRigSelectCallback__"
FIELDS = ["_Callback__initialized", "_Callback__mappings", "_Callback__appl", "_Callback__listener", "action"] + [P + x for x in (
    "current_value", "mapping", "bank", "rig", "color_callback", "color", "text_callback", "text", "display_mode", "auto_exclude_rigs", "rig_btn_morph", "momentary_morph", "last_blink_state",
    "sent_rig_mapping", "rig_off_auto", "bank_off_auto", "default_dim_factor_off", "default_led_brightness_off", "default_led_brightness_on", "appl")]


@harness("C22", targets=T, kind="induction", params=[(x, e) for x in SHAPES if "auto" in x for e in ((0, 2) if x[1] == "auto" else (0,))])
def auto_step(c, p):
    """any history before: whatever the automatic off values are, the last rig reported is any; after one more report and a press they are the specified ones again"""
    shape, n = p
    s = Spec(c, **config(c, shape), exclude=[c.int("excluded", 1, 5) for _ in range(n)] if n else None)
    if c.flag("known"): s.report(c.int("before", 0, 629))
    if s.auto_rig and s.rig is not None: s.off_rig = c.int("off rig remembered", 1, 5)
    if s.auto_bank: s.off_bank = c.int("off bank remembered", 1, 126)
    c.inject(s.b.actions[0].callback, {P + "rig_off": s.off_rig, P + "bank_off": s.off_bank}, FIELDS)
    if c.flag("reported"):
        old = s.v
        v = c.int("current", 0, 629)
        if old is not None: c.assume(v != old)           # the same value again is no news
        s.report(v)
    if c.flag("preselected"): s.preselect(c.int("preselected", 0, 125))
    s.push()
    s.release()
    c.check("remembered", c.eq([c.field(s.b.actions[0].callback, P + "rig_off"), c.field(s.b.actions[0].callback, P + "bank_off")], [s.off_rig, s.off_bank]))


@harness("C22", targets=T, bounds="two excluded rigs, two reports", params=((1, True), (2, True), (1, False), (2, False)))
def excluded_rigs(c, p):
    n, b = p
    s = Spec(c, c.int("rig", 1, 5), "auto", c.int("bank", 1, 125) if b else None, "auto", [c.int("excluded", 1, 5) for _ in range(n)])
    for _ in range(2): s.report(c.int("current", 0, 624))
    s.push()
    s.release()


@harness("C22", targets=T, params=[(m, x) for m in (10, 20) for x in SHAPES], bounds="two reports", random_runs=40)
def with_display_and_morphing(c, p):
    """display and internal morph toggling do not change what is sent"""
    mode, shape = p
    cfg = config(c, shape)
    s = Spec(c, **cfg, display=Label() if c.flag("label") else None, display_mode=mode, rig_btn_morph=c.flag("rig btn morph"), momentary_morph=c.flag("momentary"))
    if c.flag("preselected"): s.preselect(c.int("preselected", 0, 125))
    if c.flag("known"): s.report(c.int("current", 0, 624))
    s.push()
    if c.flag("changed while pressed"): s.report(c.int("current", 0, 624))
    s.release()


@harness("C22", targets=T, kind="history", bounds="symbolically not explored beyond the other harnesses; concretely 40 operations", random_runs=800)
def history(c):
    if c.symbolic:
        s = Spec(c, c.int("rig", 1, 5), "auto", c.int("bank", 1, 125), "auto")
        for _ in range(2):
            s.report(c.int("current", 0, 624))
            s.push(); s.release()
        return
    cfg = config(c)
    s = Spec(c, **cfg, display=Label() if c.flag("label") else None, display_mode=c.choice("mode", (10, 20)), exclude=c.choice("exclude", (None, (2,), [1, 3])))
    down = False
    for _ in range(40):
        op = c.choice("op", ("press", "press", "press", "report", "report", "preselect", "update", "lost"), (4, 4, 4, 4, 4, 2, 2, 1))
        if op == "press":
            s.release() if down else s.push()
            down = not down
        elif op == "report":
            v = c.int("current", 0, 624)
            if c.flag("at the target") and s.rig: v = (((s.bank or c.int("b", 1, 125)) - 1) * 5 + s.rig - 1) % 625
            s.report(v)
        elif op == "preselect": s.preselect(c.int("preselected", 0, 124))
        elif op == "update":
            s.appl.shared["preselectBlinkState"] = c.flag("blink")
            s.appl.update()
            c.check("updates send nothing", s.appl.sent() == [])
        elif s.v is not None: s.lost()

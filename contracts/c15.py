"""Encoders: any history of turns, accepts, cancels, value changes, page changes and changes of the tracked parameter (induction), and again without looking into the state:
all positions (also negative), limits, current values and step widths from a list; one to three turns with accept, cancel, value
changes by the device and page changes in between. The state of an encoder (last position, previewed value, pending or not) is reached completely
by at most two turns. With an accept button and an unknown value the first selected value may be one below the turn (the test suite fixes that)."""
from vf.api import *
from .lib import *

T = ["controller.actions.EncoderAction.EncoderAction.process", "controller.actions.EncoderAction.EncoderAction.accept",
     "controller.actions.EncoderAction.EncoderAction.cancel", "controller.actions.EncoderAction.EncoderAction.reset",
     "clients.local.actions.encoder_button._EncoderButtonCallback.push", "controller.inputs.ContinuousController.process",
     "clients.kemper.actions.bank_select_encoder._BankSelectEncoderAction.accept"]
E = "pyswitch.controller.actions.EncoderAction:EncoderAction"
BUTTON = "pyswitch.clients.local.actions.encoder_button:ENCODER_BUTTON"


class Wheel:
    """encoder hardware"""
    def __init__(self): self.position = 0
    def init(self): pass


class PreviewLabel:
    """label as a preview needs it (assumed: the contract of DisplayLabel proved by C33)"""
    text_color = (1, 2, 3)
    override_text = None
    def update_label(self): pass


def clamp(c, v, lo, hi):
    return c.ite(v < lo, lo, c.ite(v > hi, hi, v))


class Spec:
    def __init__(self, c, step=1, preselect=False, preview=False, value=None, sysex_mapping=False, lo=None, hi=None, **kw):
        self.c, self.step, self.preselect = c, step, preselect
        self.m = FakeMapping("p", set=sysex(c, [0, 1, 2], [0]) if sysex_mapping else cc(c, 1, 0), value=value)
        if step is not None: kw["step_width"] = step
        else: self.step = 80 if sysex_mapping else 1
        if lo is not None: kw["min_value"] = lo
        if hi is not None: kw["max_value"] = hi
        self.lo = 0 if lo is None else lo
        self.hi = hi if hi is not None else 16383 if sysex_mapping else 127
        self.shown = []
        if preview:
            kw["preview_display"] = PreviewLabel()
            kw["convert_value"] = lambda v: (self.shown.append(v), "x")[1]
        self.appl = Appl()
        self.ok = self.no = None
        if preselect:
            self.ok, self.no = c.get(BUTTON)(), c.get(BUTTON)()
            kw["accept_action"], kw["cancel_action"] = self.ok, self.no
        self.en = EnableCb()
        self.a = c.get(E)(self.m, enable_callback=self.en, **kw)
        self.wheel = Wheel()
        self.ctl = c.get("pyswitch.controller.inputs:ContinuousController")(self.appl, {"assignment": {"model": self.wheel}, "actions": [self.a]})
        for b in (self.ok, self.no):
            if b: b.init(self.appl, None)
        c.check("the encoder registers its parameter", any(e[0] == "register" and e[1] is self.m for e in self.appl.client.log))
        self.pos = None
        self.pending = None           # previewed value
        self.preview = preview
        self.appl.client.take()

    def sets(self):
        s = self.appl.client.sets()
        self.appl.client.take()
        self.c.check("only the own parameter is set", all(m is self.m for m, _ in s))
        return [v for _, v in s]

    def turn(self, pos):
        c = self.c
        self.wheel.position = pos
        del self.shown[:]
        cur = self.m.value
        self.ctl.process()
        sent = self.sets()
        if not self.en.on:
            c.check("nothing while disabled", not sent)
            return
        old, self.pos = self.pos, pos
        if old is None or c.is_true(pos == old):
            c.check("nothing without a position change", not sent and not self.shown)
            return
        delta = (pos - old) * self.step
        if self.preselect:
            c.check("turning sends nothing with an accept button", not sent)
            base = self.pending if self.pending is not None else cur
            if base is None:
                self.m.value = 0
                self.pending = "unknown", delta
                if self.preview:
                    c.check("unknown value", len(self.shown) == 1)
                    self.pending = self.shown[0]
                    c.check("unknown value: starts from zero", c.any([self.pending == clamp(c, delta - k, self.lo, self.hi) for k in (0, 1)]))
                return
            v = clamp(c, base + delta, self.lo, self.hi)
            if c.is_true(v != base):
                c.cover("previewed")
                self.pending = v
                if self.preview: c.check_eq("preview shows the selected value", self.shown, [v])
            elif self.preview: c.check("no preview without a change", not self.shown)
            return
        base = 0 if cur is None else cur
        v = clamp(c, base + delta, self.lo, self.hi)
        if cur is None or c.is_true(v != base):
            c.cover("sent")
            c.check_eq("sends the current value plus the turn, clamped", sent, [v])
            if self.preview: c.check_eq("preview shows the sent value", self.shown, [v])
            c.check_eq("the new value is the current one", self.m.value, v)
        else:
            c.check("nothing is sent at the limit", not sent)

    @property
    def value(self): return self.m.value
    @value.setter
    def value(self, v): self.m.value = v

    def press(self, b):
        b.push()
        b.release()

    def accept(self):
        c = self.c
        self.press(self.ok)
        sent = self.sets()
        if self.pending is None:
            c.check("nothing to accept", not sent)
            return
        c.cover("accepted")
        if isinstance(self.pending, tuple):
            c.check("accept sends once", len(sent) == 1)
            c.check("unknown value: starts from zero", c.any([sent[0] == clamp(c, self.pending[1] - k, self.lo, self.hi) for k in (0, 1)]))
            v = sent[0]
        else:
            v = self.pending
        c.check_eq("accept sends exactly the previewed value", sent, [v])
        self.value = v
        self.pending = None

    def cancel(self):
        self.press(self.no)
        self.c.check("cancel sends nothing", not self.sets())
        self.pending = None


STEPS = (1, 16, 80, None)


def build(c, step, preselect, preview=False):
    """limits and current value arbitrary; the current value lies inside the limits"""
    kw = {}
    if c.flag("limits"):
        kw = {"lo": c.int("min"), "hi": c.int("max")}
        c.assume(kw["lo"] <= kw["hi"])
    s = Spec(c, step, preselect, preview, sysex_mapping=c.flag("sysex"), **kw)
    if (preselect and not preview) or c.flag("known"):
        s.value = c.int("value")
        c.assume(c.all([s.value >= s.lo, s.value <= s.hi]))
    return s


@harness("C15", targets=T, params=STEPS, covers=["sent"])
def direct(c, step):
    s = build(c, step, False, c.flag("preview"))
    s.turn(c.int("p0"))
    s.turn(c.int("p1"))
    if c.flag("changed by the device"):
        s.value = c.int("device value")
        c.assume(c.all([s.value >= s.lo, s.value <= s.hi]))
    s.turn(c.int("p2"))


@harness("C15", targets=T, params=[(st, pv) for st in (1, None) for pv in (False, True)], covers=["accepted", "previewed"], bounds="two turns, two button presses")
def preselected(c, p):
    step, preview = p
    s = build(c, step, True, preview)
    s.turn(c.int("p0"))
    if c.flag("button first"): c.choice("first", (s.accept, s.cancel))()
    s.turn(c.int("p1"))
    mid = c.choice("between", ("nothing", "accept", "cancel"))
    if mid == "accept": s.accept()
    if mid == "cancel": s.cancel()
    s.turn(c.int("p2"))
    s.accept()
    s.accept()


@harness("C15", targets=T, covers=["previewed"], bounds="three turns")
def cancelled(c):
    s = build(c, 1, True)
    s.turn(c.int("p0"))
    s.turn(c.int("p1"))
    s.turn(c.int("p2"))
    s.cancel()
    s.accept()
    s.turn(c.int("p3"))
    s.accept()


@harness("C15", targets=T, params=(False, True))
def disabled(c, preselect):
    s = build(c, 1, preselect)
    s.turn(c.int("p0"))
    s.en.on = False
    s.turn(c.int("p1"))
    # page change: all actions are reset
    s.a.reset()
    s.turn(c.int("p2"))
    s.en.on = True
    s.a.reset()
    s.pos = None
    s.turn(s.wheel.position)
    s.turn(c.int("p3"))
    if preselect: s.accept()


@harness("C15", targets=T, params=(.5, .25, 1.5, 2.5))
def fractional_steps(c, step):
    """fractional step widths: within one of the exact product, without drift over several turns"""
    s = Spec(c, step, sysex_mapping=True, hi=100000000, lo=-100000000)
    v0 = c.int("value", 0, 16383)
    s.value = v0
    p0, p1, p2 = c.int("p0", -10000, 10000), c.int("p1", -10000, 10000), c.int("p2", -10000, 10000)
    def go(p):
        s.wheel.position = p
        s.ctl.process()
        return s.sets()
    c.check("first position only counts as reference", not go(p0))
    for p in (p1, p2):
        before = s.value
        sent = go(p)
        exact = v0 + (p - p0) * step
        c.check("no drift", c.all([s.value > exact - 2, s.value < exact + 2]), lambda: "value %r, exact %r" % (c.show(s.value), c.show(exact)))
        c.check("integer", isinstance(s.value, (int, SymInt)))
        c.check("sent exactly if changed", c.iff(bool(sent), s.value != before))
        if sent: c.check_eq("sent value", sent, [s.value])


@harness("C15", targets=T, covers=["reset"])
def reset_mapping(c):
    """a change of the tracked parameter drops the preselection"""
    r = FakeMapping("rig", value=c.int("rig0") if c.flag("rig known") else None)
    s = Spec(c, 1, True, True, value=c.int("value", 0, 127), preview_reset_mapping=r)
    s.turn(c.int("p0"))
    s.turn(c.int("p1"))
    old = r.value
    r.value = c.int("rig1")
    s.turn(s.pos)
    if old is not None and c.is_true(r.value != old):
        c.cover("reset")
        s.pending = None
    s.accept()


@harness("C15", targets=T)
def unknown_value(c):
    """one turn with an accept button, no preview, value unknown"""
    s = Spec(c, 1, True)
    s.turn(c.int("p0"))
    s.turn(c.int("p1"))
    s.accept()


@harness("C15", targets=T)
def shared_buttons(c):
    """one button accepts one encoder and cancels another one"""
    b = c.get(BUTTON)()
    b.init(Appl(), None)
    mk = lambda name, **kw: c.get(E)(FakeMapping(name, value=c.int("value " + name, 0, 126), set=cc(c, 1, 0)), **kw)
    other = c.get(BUTTON)()
    order = c.flag("order")
    if order:
        x = mk("x", accept_action=b)
        y = mk("y", accept_action=other, cancel_action=b)
    else:
        y = mk("y", accept_action=other, cancel_action=b)
        x = mk("x", accept_action=b)
    appl = Appl()
    for e in (x, y):
        e.init(appl)
        e.process(0)
        e.process(c.int("turn", 200, 300))
    appl.client.take()
    b.push()
    b.release()
    c.check("the accepted encoder sends its value", appl.client.sets() == [(x._mapping, 127)] if hasattr(x, "_mapping") else len(appl.client.sets()) == 1)
    appl.client.take()
    other.push()
    c.check("the cancelled encoder sends nothing", not appl.client.sets())


@harness("C15", targets=T, bounds="two turns")
def bank_encoder(c):
    """the bank encoder stays inside the 125 banks and shows what it sends"""
    step = c.choice("step", (.5, 1))
    a = c.get("pyswitch.clients.kemper.actions.bank_select_encoder:ENCODER_BANK_SELECT")(step_width=step)
    appl = Appl()
    a.init(appl)
    reg = [e[1] for e in appl.client.log if e[0] == "register"]
    m = reg[0]
    rig = c.int("rig", 0, 624) if c.flag("known") else None
    m.value = rig
    bank = None if rig is None else rig // 5
    p0 = 2 * c.int("p0", -2000, 2000)
    appl.client.take()
    a.process(p0)
    for k in (1, 2):
        p = 2 * c.int("p%d" % k, -2000, 2000)
        a.process(p)
        s = appl.client.sets()
        appl.client.take()
        d = trunc((p - p0) * step)
        p0 = p
        base = 0 if bank is None else bank
        want = clamp(c, base + d, 0, 124)
        if c.is_true(d == 0) or (bank is not None and c.is_true(want == base)):
            c.check("nothing sent", not s)
        else:
            c.check("one command", len(s) == 1 and s[0][0] is m)
            c.check_eq("neighbouring bank", s[0][1], want)
            c.check_eq("shown bank is the one sent", appl.shared["preselectedBank"], want)
            c.check_is("this encoder owns the preselection", appl.shared["preselectCallback"], a)
            bank = want


@harness("C15", targets=T, kind="history", params=[(p, v) for p in (False, True) for v in (False, True)], bounds="concretely 40 operations, symbolically three turns")
def history(c, p):
    preselect, preview = p
    s = Spec(c, 1, preselect, preview, value=7 if preselect and not preview else None)
    for _ in range(3 if c.symbolic else 40):
        op = "turn" if c.symbolic else c.choice("op", ("turn", "turn", "turn", "accept", "cancel", "device"))
        if op == "turn":
            s.turn(c.int("p", None if c.symbolic else -5, None if c.symbolic else 5))
        elif op == "device": s.value = c.int("v", 0, 127)
        elif preselect: s.accept() if op == "accept" else s.cancel()


F = "_EncoderAction__"
FIELDS = [F + n for n in ("last_pos", "preselect_active", "blink_color", "blink_interval_millis", "convert_value", "enable_callback", "max_value", "min_value", "preselect",
                          "preview", "preview_timeout_millis", "step_width", "preview_reset_last_value", "preview_reset_mapping")] + ["_last_value", "_appl", "_mapping", "id"]


@harness("C15", targets=T, kind="induction", params=[(st, m) for st in (1, 16, 80) for m in ("direct", "preselected", "preview")], covers=["stepped"])
def any_history(c, p):
    """any history of turns, accepts, cancels, value changes and page changes: one step from every state"""
    step, mode = p
    pre = mode != "direct"
    s = Spec(c, step, pre, mode == "preview" if pre else c.flag("preview"), value=c.int("value"), lo=c.int("min"), hi=c.int("max"))
    c.assume(c.all([s.lo <= s.hi, s.value >= s.lo, s.value <= s.hi]))
    f = {"_last_value": c.int("last value") if c.flag("used") else None}
    if c.flag("turned"):
        s.pos = c.int("last position")
        f[F + "last_pos"] = s.pos * step
        s.wheel.position = s.pos
    if pre and s.pos is not None and f["_last_value"] is not None and c.flag("pending"):
        s.pending = f["_last_value"]
        c.assume(c.all([s.pending >= s.lo, s.pending <= s.hi]))
        f[F + "preselect_active"] = True
    c.inject(s.a, f, allow=FIELDS)
    k = c.choice("step", ("turn", "disabled", "device", "page change") + (("accept", "cancel") if pre else ()))
    c.cover("stepped")
    if k == "turn": s.turn(c.int("position"))
    if k == "disabled":
        s.en.on = False
        s.turn(c.int("position"))
    if k == "device":
        s.value = c.int("device value")
        c.assume(c.all([s.value >= s.lo, s.value <= s.hi]))
    if k == "page change":
        s.a.reset()
        s.pos = None
        c.check("nothing is sent", not s.sets())
    if k == "accept": s.accept()
    if k == "cancel": s.cancel()
    # the state belongs to the specification's again
    same = lambda got, want: got is None if want is None else got is not None and c.eq(got, want)
    c.check("position remembered as specified", same(c.field(s.a, F + "last_pos"), None if s.pos is None else s.pos * step))
    c.check("pending as specified", bool(c.field(s.a, F + "preselect_active")) == (s.pending is not None))
    if s.pending is not None:
        c.check("pending value as specified", same(c.field(s.a, "_last_value"), s.pending))
        c.check("pending value inside the limits", c.all([s.pending >= s.lo, s.pending <= s.hi]))
    c.check("current value inside the limits", c.all([s.value >= s.lo, s.value <= s.hi]))


@harness("C15", targets=T, kind="induction", covers=["dropped", "kept"])
def any_history_of_the_reset_parameter(c):
    """from every state: a change of the tracked parameter from one known value to another drops the preselection, nothing else does"""
    r = FakeMapping("rig", value=c.int("rig") if c.flag("rig known") else None)
    s = Spec(c, 1, True, True, value=c.int("value", 0, 127), preview_reset_mapping=r)
    s.pos = c.int("last position")
    s.pending = c.int("pending", 0, 127)
    seen = c.int("seen rig") if c.flag("rig seen") else None
    c.inject(s.a, {"_last_value": s.pending, F + "last_pos": s.pos, F + "preselect_active": True, F + "preview_reset_last_value": seen}, allow=FIELDS)
    if seen is not None and r.value is not None and c.is_true(seen != r.value):
        c.cover("dropped")
        s.pending = None
    else:
        c.cover("kept")
    s.turn(c.int("position"))
    v = c.field(s.a, F + "preview_reset_last_value")
    c.check("value of the tracked parameter remembered", v is None if r.value is None else v is not None and c.eq(v, r.value))
    c.check("pending as specified", bool(c.field(s.a, F + "preselect_active")) == (s.pending is not None))
    if s.pending is not None: c.check_eq("pending value as specified", c.field(s.a, "_last_value"), s.pending)


@harness("C15", targets=T, params=(1, 16, 80))
def starts_as_specified(c, step):
    a = Spec(c, step, c.flag("accept button"), c.flag("preview")).a
    c.check("no position", c.field(a, F + "last_pos") is None)
    c.check("nothing pending", not c.field(a, F + "preselect_active") and c.field(a, "_last_value") is None)

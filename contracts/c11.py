"""Values sent by on/off parameters: all enable and disable values, single and per-message lists (up to three messages, bounded), separate disable
parameter, automatic disable values; every reception/press interleaving of three steps symbolically, longer ones concretely. Every step
from every state (induction, unbounded for single values; lists up to three messages, bounded), in all comparison modes."""
from vf.api import *
from .lib import *

T = ["controller.callbacks.BinaryParameterCallback.state_changed_by_user", "controller.callbacks.BinaryParameterCallback.evaluate_value",
     "controller.callbacks.Callback.update"]
CB = "pyswitch.controller.callbacks:BinaryParameterCallback"


MODES = {"EQUAL": lambda v, r: v == r, "GREATER": lambda v, r: v > r, "GREATER_EQUAL": lambda v, r: v >= r,
         "LESS": lambda v, r: v < r, "LESS_EQUAL": lambda v, r: v <= r}
B = "_BinaryParameterCallback__"


class Spec:
    """dis: expected disable value(s); None stands for 'automatic and not known yet'"""
    def __init__(self, c, en, dis, auto, separate=False, ref=None, mode=None):
        self.mode = mode or "GREATER_EQUAL"
        self.c, self.en, self.auto = c, en, auto
        self.dis = [None if a else d for d, a in zip(dis, auto)] if isinstance(dis, list) else (None if auto else dis)
        given = ["auto" if a else d for d, a in zip(dis, auto)] if isinstance(dis, list) else ("auto" if auto else dis)
        self.m, self.md = FakeMapping("p"), FakeMapping("q")
        self.ref = ref if ref is not None else (en[0] if isinstance(en, list) else en)
        kw = {} if ref is None else {"reference_value": ref}
        if mode: kw["comparison_mode"] = getattr(c.get(CB), mode)
        self.given = given
        self.cb = c.get(CB)(mapping=self.m, mapping_disable=self.md if separate else None, value_enable=list(en) if isinstance(en, list) else en,
                            value_disable=given, **kw)
        self.off_target = self.md if separate else self.m
        P = c.get("pyswitch.controller.actions:PushButtonAction")
        self.a = P({"callback": self.cb, "mode": P.LATCH})
        self.appl = Appl()
        self.sw, self.hw = switch(c, self.appl, [self.a], pixels=())
        self.L = listeners(self.appl, self.m)
        self.state = False
        self.last = None
        self.appl.client.take()

    def receive(self, v):
        c = self.c
        self.m.value = v
        self.L[0].parameter_changed(self.m)
        c.check("receiving sends nothing", not self.appl.client.sets())
        self.appl.client.take()
        if self.last is not None and not c.is_true(v != self.last): return
        self.last = v
        if self.mode in MODES: self.state = c.is_true(MODES[self.mode](v, self.ref))
        if not self.state:
            if isinstance(self.dis, list):
                self.dis = [v if a else d for d, a in zip(self.dis, self.auto)]
            elif self.auto:
                self.dis = v

    def press(self):
        c = self.c
        self.hw.pushed = True
        self.sw.process()
        self.hw.pushed = False
        self.sw.process()
        self.state = not self.state
        log = self.appl.client.take()
        sets = [e[1:] for e in log if e[0] == "set"]
        unknown = isinstance(self.dis, list) and any(d is None for d in self.dis)
        if self.state:
            want = [] if unknown else [(self.m, self.en)]
            c.cover("on")
        else:
            want = [] if unknown or self.dis is None else [(self.off_target, self.dis)]
            c.cover("off" if want else "off suppressed")
        c.check("number of commands", len(sets) == len(want), lambda: "sent %r" % (c.show(sets),))
        for (m, v), (wm, wv) in zip(sets, want):
            c.check_is("command goes to the right parameter", m, wm)
            c.check_eq("command carries the right value", v, wv)
        last_set = max([i for i, e in enumerate(log) if e[0] == "set"], default=-1)
        c.check("the value is requested again", any(e[0] == "request" and e[1] is self.m and e[2] is self.cb for e in log[last_set + 1:]))
        c.check("the button keeps the state set by the user", self.a.state == self.state)


def build(c, shape):
    n, autos, separate = shape
    if n == 0:
        return Spec(c, c.int("enable"), c.int("disable"), autos, separate, c.int("reference") if c.flag("reference set") else None)
    return Spec(c, [c.int("enable%d" % i) for i in range(n)], [c.int("disable%d" % i) for i in range(n)], list(autos), separate,
                c.int("reference") if c.flag("reference set") else None)


SHAPES = [(0, False, False), (0, False, True), (0, True, False), (0, True, True), (1, (False,), False), (2, (False, False), True),
          (2, (True, False), False), (3, (False, True, True), True), (3, (True, True, True), False)]


@harness("C11", targets=T, params=SHAPES, covers=["on", "off"], bounds="two presses around one reception, up to three messages")
def on_off(c, shape):
    s = build(c, shape)
    if c.flag("press first"): s.press()
    s.receive(c.int("v1"))
    s.press()
    s.press()


@harness("C11", targets=T, params=[x for x in SHAPES if x[1] is True or (x[0] and any(x[1]))], covers=["on", "off"], bounds="three receptions")
def restores_old_value(c, shape):
    """the value most recently received while off is restored, whatever came in while on"""
    s = build(c, shape)
    s.receive(c.int("v1"))
    s.receive(c.int("v2"))
    s.press()
    if c.flag("received in between"): s.receive(c.int("v3"))
    s.press()


@harness("C11", targets=T, kind="history", params=SHAPES, bounds="symbolically three steps, concretely 40")
def history(c, shape):
    s = build(c, shape)
    for _ in range(3 if c.symbolic else 40):
        if c.flag("press"): s.press()
        else: s.receive(c.int("v", None if c.symbolic else -1, None if c.symbolic else 2))


@harness("C11", targets=T)
def defaults(c):
    """1 and 0 are sent unless configured"""
    m = FakeMapping("p")
    P = c.get("pyswitch.controller.actions:PushButtonAction")
    a = P({"callback": c.get(CB)(mapping=m), "mode": P.LATCH})
    appl = Appl()
    sw, hw = switch(c, appl, [a], pixels=())
    for want in (1, 0):
        appl.client.take()
        for p in (True, False):
            hw.pushed = p
            sw.process()
        c.check("default value", appl.client.sets() == [(m, want)])


def any_state(c, p):
    """one button with any configuration, in any state it may be in: whatever has been received and pressed before"""
    n, auto, mode = p
    separate = c.flag("separate")
    if n == 0: s = Spec(c, c.int("enable"), c.int("disable"), auto, separate, c.int("reference") if c.flag("reference set") else None, mode)
    else: s = Spec(c, [c.int("enable%d" % i) for i in range(n)], [c.int("disable%d" % i) for i in range(n)], list(auto), separate,
                   c.int("reference") if c.flag("reference set") else None, mode)
    # the last value received while it was off, if any (for all automatic entries)
    if auto is True or n and any(auto):
        if c.flag("known"):
            d = c.int("old value")
            s.dis = d if n == 0 else [d if a else x for a, x in zip(auto, s.dis)]
    s.last = c.int("last received") if c.flag("received") else None
    s.state = c.flag("on")
    cb = s.cb
    c.inject(cb, {B + "current_value": s.last, "_value_disable": coded(s)}, allow=FIELDS)
    s.a.feedback_state(s.state)
    s.m.value = s.last
    return s


def coded(s):
    if not isinstance(s.dis, list): return "auto" if s.dis is None else s.dis
    return ["auto" if d is None else d for d in s.dis]


FIELDS = ["mapping", "mapping_disable", "action", "_value_enable", "_text", "_text_disabled", "_led_brightness_on", "_led_brightness_off", "_color", "_color_callback", "_current_display_state",
          "_current_color"] + [B + x for x in ("reference_value", "comparison_mode", "display_dim_factor_on", "display_dim_factor_off", "use_internal_state", "update_value_disabled", "appl")] + \
         ["_Callback__" + x for x in ("initialized", "mappings", "appl", "listener")]


def one_step(c, s):
    k = c.choice("step", ("press", "receive", "same", "terminated"))
    if k == "press": s.press()
    if k == "receive": s.receive(c.int("value"))
    if k == "same" and s.last is not None: s.receive(s.last)
    if k == "terminated":
        s.L[0].request_terminated(s.m)
        c.check("connection loss sends nothing", not s.appl.client.sets())
        if s.last is not None and s.mode in MODES: s.state = False
        s.last = None
    c.check("state as specified", c.eq(s.a.state, s.state))
    c.check("disable value as specified", c.eq(c.field(s.cb, "_value_disable"), coded(s)))
    c.check("remembered value as specified", s.last is None and c.field(s.cb, B + "current_value") is None or s.last is not None and c.eq(c.field(s.cb, B + "current_value"), s.last))


ALL = tuple(MODES) + ("NO_STATE_CHANGE",)


@harness("C11", targets=T, kind="induction", params=[(0, a, m) for a in (False, True) for m in ALL], covers=["on", "off"])
def any_history(c, p):
    """any history of receptions, connection losses and presses: one step from every state"""
    one_step(c, any_state(c, p))


@harness("C11", targets=T, kind="induction", params=[(len(a), a, m) for a in ((True,), (False, True), (True, False, True)) for m in ("GREATER_EQUAL", "EQUAL")], bounds="up to three messages")
def any_history_of_lists(c, p):
    one_step(c, any_state(c, p))


@harness("C11", targets=T, params=[(0, a, m) for a in (False, True) for m in ALL])
def starts_as_specified(c, p):
    """the state after the start is one of these"""
    s = Spec(c, c.int("enable"), c.int("disable"), p[1], c.flag("separate"), c.int("reference") if c.flag("reference set") else None, p[2])
    s.L[0].parameter_changed(s.m)
    c.check("nothing sent", not s.appl.client.sets())
    c.check("off", s.a.state is False)
    c.check("disable value as specified", c.eq(c.field(s.cb, "_value_disable"), coded(s)))
    c.check("nothing received yet", c.field(s.cb, B + "current_value") is None)

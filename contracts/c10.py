"""State and look of on/off parameters: all values, references, comparison modes, colours and look settings from every state of the button;
any step from any state (induction, unbounded), two receptions with an optional user change between them (bounded), longer histories concretely. Not decided: whether receiving the same value
again after the user switched the button brings the old state back (the code evaluates changed values only)."""
from vf.api import *
from .lib import *

T = ["controller.callbacks.BinaryParameterCallback.evaluate_value", "controller.callbacks.BinaryParameterCallback.update_displays",
     "controller.callbacks.BinaryParameterCallback.set_switch_color", "controller.callbacks.BinaryParameterCallback.set_label_color",
     "controller.callbacks.BinaryParameterCallback.init", "controller.callbacks.Callback.request_terminated", "controller.actions.Action.update"]
CB = "pyswitch.controller.callbacks:BinaryParameterCallback"
MODES = {"EQUAL": lambda v, r: v == r, "GREATER": lambda v, r: v > r, "GREATER_EQUAL": lambda v, r: v >= r,
         "LESS": lambda v, r: v < r, "LESS_EQUAL": lambda v, r: v <= r}


class Spec:
    def __init__(self, c, mode, **kw):
        self.c, self.mode = c, mode
        B = c.get(CB)
        self.m = FakeMapping(response=kw.pop("response", True))
        self.internal = kw.get("use_internal_state", False)
        self.label = Label() if kw.pop("label", True) else None
        self.config = kw.pop("config", {})
        self.ref = kw.pop("ref", None)
        self.kw = kw
        self.color = kw.get("color", (255, 255, 255))
        if mode is not None: kw["comparison_mode"] = getattr(B, mode)
        self.cb = B(mapping=self.m, **kw)
        self.en = EnableCb()
        self.a = c.get("pyswitch.controller.actions:PushButtonAction")({"callback": self.cb, "display": self.label, "useSwitchLeds": True, "enableCallback": self.en,
                                                                        "mode": c.get("pyswitch.controller.actions:PushButtonAction").LATCH})
        self.appl = Appl(self.config)
        self.sw, self.hw = switch(c, self.appl, [self.a], pixels=(0, 1))
        self.L = listeners(self.appl, self.m)
        c.check("the button listens to its parameter", len(self.L) == 1)
        self.state = False
        self.last = None

    def look(self):
        c, kw, cfg = self.c, self.kw, self.config
        disp = {"on": cfg.get("displayDimFactorOn", 1), "off": cfg.get("displayDimFactorOff", 0.2)}
        led = {"on": cfg.get("ledBrightnessOn", 0.3), "off": cfg.get("ledBrightnessOff", 0.02)}
        def val(key, default, table):
            v = kw.get(key)
            if v is None: v = default
            return table[v] if isinstance(v, str) else v
        reports = bool(self.m.response or self.internal)
        on = bool(self.state) and reports
        bright = val("led_brightness_on", "on", led) if on else val("led_brightness_off", "off", led)
        dim = val("display_dim_factor_on", "on", disp) if on else val("display_dim_factor_off", "off", disp)
        c.cover("on look" if on else "off look")
        for i in (0, 1):
            c.check_eq("LED look", self.appl.led_driver.leds[i], scale(self.color, bright))
        if self.label:
            c.check_eq("label look", self.label.back_color, scale(self.color, dim))
            text = kw.get("text")
            if text:
                off = not self.state and reports and kw.get("text_disabled")
                c.check_eq("label text", self.label.text, kw["text_disabled"] if off else text)
            else:
                c.check("label text is not touched", self.label.text is None)

    def receive(self, v):
        c = self.c
        changed = (v is not self.last) if v is None or self.last is None else c.is_true(v != self.last)
        self.last = v
        if v is None:
            self.L[0].request_terminated(self.m)
            if changed and not self.internal and self.mode in (*MODES, None): self.state = False       # a state which is not the client's is kept
        else:
            self.m.value = v
            self.L[0].parameter_changed(self.m)
            if changed and self.mode in MODES:
                self.state = c.is_true(MODES[self.mode](v, self.ref))
        if changed: c.check("state follows the comparison", self.a.state == self.state)
        self.state = self.a.state
        self.look()

    def user(self):
        self.state = not self.state
        self.hw.pushed = True
        self.sw.process()
        self.hw.pushed = False
        self.sw.process()
        self.c.check("state after a press", self.a.state == self.state)
        self.look()


@harness("C10", targets=T, params=tuple(MODES) + ("NO_STATE_CHANGE",), covers=["on look", "off look"], bounds="two received values")
def comparison(c, mode):
    ref = c.int("reference") if c.flag("reference set") else None
    en = c.int("value enable")
    kw = {} if ref is None else {"reference_value": ref}
    lst = c.flag("list of enable values")
    s = Spec(c, mode, ref=en if ref is None else ref, value_enable=[en, 3] if lst else en, value_disable=[0, 0] if lst else 0, **kw)
    if c.flag("user before"): s.user()
    v1 = c.int("v1") if c.flag("known") else None
    s.receive(v1)
    if c.flag("user between"): s.user()
    v2 = c.int("v2")
    s.receive(v2)
    s.receive(None)


@harness("C10", targets=T)
def default_mode(c):
    """greater or equal is the default, 1 the default reference"""
    s = Spec(c, None, ref=1)
    s.mode = "GREATER_EQUAL"
    s.receive(c.int("v1"))


LOOKS = [(None, None, None, None), (.7, .4, .9, .1), ("off", "on", "off", "on"), (1, 0, 0, 1)]


@harness("C10", targets=T, params=LOOKS, covers=["on look", "off look"])
def looks(c, look):
    """every colour, every configuration of the two looks, parameters with and without response"""
    color = tuple(c.int(n, 0, 255) for n in "rgb")
    kw = dict(zip(("display_dim_factor_on", "display_dim_factor_off", "led_brightness_on", "led_brightness_off"), look))
    cfg = {"displayDimFactorOn": .8, "displayDimFactorOff": .3, "ledBrightnessOn": .5, "ledBrightnessOff": .05} if c.flag("configured") else {}
    t = c.choice("texts", (0, 1, 2))
    if t: kw["text"] = "on"
    if t == 2: kw["text_disabled"] = "off"
    s = Spec(c, "GREATER_EQUAL", ref=1, color=color, config=cfg, response=c.choice("response", (None, True)), use_internal_state=c.flag("internal"), **kw)
    s.receive(c.int("v1"))
    s.user()


@harness("C10", targets=T, covers=["on look", "off look"])
def color_callback(c):
    """a colour callback replaces the colour, also when only the colour changes"""
    cols = [tuple(c.int("%s%d" % (n, i), 0, 255) for n in "rgb") for i in (0, 1)]
    holder = {"color": cols[0]}
    def cbk(action, value):
        holder["args"] = (action, value)
        return holder["color"]
    s = Spec(c, "GREATER_EQUAL", ref=1, color_callback=cbk)
    s.color = cols[0]
    s.receive(c.int("v1"))
    holder["color"] = s.color = cols[1]
    v = c.int("v2")
    s.receive(v)
    c.check("the colour callback gets action and value", holder["args"][0] is s.a)
    c.check_eq("the colour callback gets the value", holder["args"][1], v)


@harness("C10", targets=T)
def shown_after_enabling(c):
    """a disabled button shows nothing of what comes in; once enabled again it shows the current value"""
    s = Spec(c, "GREATER_EQUAL", ref=1)
    s.a.update()
    s.receive(c.int("v1"))
    s.en.on = False
    s.a.update()
    s.appl.led_driver.leds.writes.clear()
    s.label.log.clear()
    v = c.int("v2")
    s.m.value = v
    s.L[0].parameter_changed(s.m)
    c.check("nothing shown while disabled", not s.appl.led_driver.leds.writes and not s.label.log)
    s.en.on = True
    s.a.update()
    s.state = c.is_true(v >= 1)
    c.check("state after enabling", s.a.state == s.state)
    s.look()


@harness("C10", targets=T, kind="history", params=tuple(MODES), bounds="symbolically four, concretely 40 receptions and presses")
def history(c, mode):
    s = Spec(c, mode, ref=1)
    for i in range(3 if c.symbolic else 40):
        if c.flag("user"):
            s.user()
        else:
            v = c.int("v", None if c.symbolic else -1, None if c.symbolic else 3)
            if not c.symbolic and v == 3: v = None
            s.receive(v)


P = "_BinaryParameterCallback__"
FIELDS = ["mapping", "mapping_disable", "action", "_value_enable", "_value_disable", "_text", "_text_disabled", "_led_brightness_on", "_led_brightness_off", "_color", "_color_callback",
          "_current_display_state", "_current_color"] + [P + x for x in ("reference_value", "comparison_mode", "display_dim_factor_on", "display_dim_factor_off", "use_internal_state",
          "update_value_disabled", "appl")] + ["_Callback__" + x for x in ("initialized", "mappings", "appl", "listener")]


@harness("C10", targets=T, kind="induction", params=[(m, r) for m in tuple(MODES) + ("NO_STATE_CHANGE",) for r in ("response", "no response", "internal")], covers=["off look"])
def any_history(c, p):
    """any history of receptions, connection losses and presses: one step from every state, with the look shown belonging to it"""
    mode, r = p
    kw = {"reference_value": c.int("reference")} if c.flag("reference set") else {}
    en = c.int("value enable")
    color = tuple(c.int(n, 0, 255) for n in "rgb")
    s = Spec(c, mode, ref=kw.get("reference_value", en), value_enable=en, color=color, response=None if r == "no response" else True, use_internal_state=r == "internal",
             label=c.flag("label"), text="on", text_disabled="off", **kw)
    s.a.update()
    s.last = c.int("last received") if c.flag("received") else None
    s.state = c.flag("on")
    s.m.value = s.last
    c.inject(s.cb, {P + "current_value": s.last, "_current_display_state": -1}, allow=FIELDS)
    s.a.feedback_state(s.state)
    s.a.update_displays()
    s.look()
    k = c.choice("step", ("user", "receive", "same", "terminated", "shown again"))
    if k == "user": s.user()
    if k == "receive": s.receive(c.int("value"))
    if k == "same" and s.last is not None: s.receive(s.last)
    if k == "terminated": s.receive(None)
    if k == "shown again":
        # evaluates the last value received again
        s.en.on = False
        s.a.update()
        s.en.on = True
        s.a.update()
        if mode in MODES and (s.last is not None or r != "internal"): s.state = s.last is not None and c.is_true(MODES[mode](s.last, s.ref))
        s.look()
    v = c.field(s.cb, P + "current_value")
    c.check("state as specified", s.a.state == s.state)
    c.check("value remembered as specified", v is None if s.last is None else v is not None and c.eq(v, s.last))
    c.check("what is shown is remembered", c.all([c.field(s.cb, "_current_display_state") == s.state, c.eq(c.field(s.cb, "_current_color"), color)]))

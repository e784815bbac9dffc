"""Tuner mode on real switches with the real client: one step from any state; symbolic sequences (bounded); histories concretely."""
from vf.api import *
from .kemper import *
from .c24 import callback
from .lib import Model

K = "clients.kemper.TunerDisplayCallback."
T = [K + "__init__", K + "init", K + "parameter_changed", K + "push", K + "release", K + "get_root", "controller.inputs.SwitchController.process",
     "controller.actions.Action.reset"] + TK


class Mode:
    def __init__(self, c, process=False, n=2, disabled=(), leds=2):
        self.c = c
        self.appl = KApp(c)
        self.default = c.get("pyswitch.ui.ui:DisplayElement")()
        self.tuner = c.get("pyswitch.ui.ui:DisplayElement")()
        self.cb = c.get("pyswitch.clients.kemper:TunerDisplayCallback")(splash_default=self.default, splash_tuner=self.tuner, process_overridden_actions=process)
        self.process = process
        self.leds = leds
        self.log = []
        self.sw, self.hw = [], []
        Act = c.get("pyswitch.controller.actions:Action")
        for i in range(n):
            s = self
            class Cb(c.get("pyswitch.controller.callbacks:Callback")):
                def __init__(self, name):
                    super().__init__()
                    self.name = name
                def push(self): s.log.append(("push", self.name))
                def release(self): s.log.append(("release", self.name))
                def reset(self): s.log.append(("reset", self.name))
                def update_displays(self):
                    self.action.switch_color = (8, 8, 8)
                    self.action.switch_brightness = 0.5
            acts = [Act({"callback": Cb("%d.%d" % (i, k)), "useSwitchLeds": True, "enableCallback": EnableCb("%d.%d" % (i, k) not in disabled)}) for k in range(2 if i == 0 else 1)]
            sw, hw = switch(c, self.appl, acts, pixels=tuple(range(leds * i, leds * (i + 1))))
            self.sw.append(sw); self.hw.append(hw)
            self.appl.inputs.append(sw)
        class Pedal: pass                  # an input without LEDs is left alone
        self.appl.inputs.append(Pedal())
        self.cb.init(self.appl, None)
        self.appl.update()
        self.appl.sent()
        self.state = None
        self.pressed = [None] * n          # mode in which the switch was pressed
        self.log.clear()
        self.all = ["%d.%d" % (i, k) for i in range(n) for k in range(2 if i == 0 else 1)]
        self.names = [[x for x in self.all if x[0] == str(i) and x not in disabled] for i in range(n)]     # the enabled ones of each switch

    def report(self, v):
        """the device reports its tuner state"""
        c = self.c
        m = c.get("pyswitch.clients.kemper:KemperMappings").TUNER_MODE_STATE()
        d = list(m.response.data)[:6]
        self.log.clear()
        self.appl.update()
        self.appl.midi.take()
        self.appl.client.receive(sysex(c, list(m.response.manufacturer_id), d + [0, v]))
        c.check("a report sends nothing", self.appl.midi.take() == [])
        was, self.state = self.state, v
        if v == 1 and was != 1: self.pressed = [x and "normal" for x in self.pressed]      # presses made before this tuner mode
        want = []
        if v != 1 and was != v:
            want = [("reset", x) for x in self.all]
            for sw, ns in zip(self.sw, self.names):
                if ns: c.check_eq("LEDs are redrawn", [list(sw.brightnesses), [tuple(x) for x in sw.colors]], [[0.5] * self.leds, [(8, 8, 8)] * self.leds])
        if v == 1 and was != 1 and not self.process:
            for sw in self.sw: c.check_eq("LEDs are off in tuner mode", list(sw.brightnesses), [0] * self.leds)
        c.check("all actions are reset once when tuner mode ends, else not", self.log == want)
        self.taken()

    def taken(self):
        c = self.c
        for sw in self.sw:
            c.check("all switches are taken over exactly in tuner mode", (sw.override_action is self.cb) == (self.state == 1) and (self.state == 1 or sw.override_action is None))
        c.check("the display belonging to the state", self.cb.get_root() is (self.tuner if self.state == 1 else self.default))

    def expect_off(self, n):
        sets = [s for s in self.appl.midi.take()]
        m = self.c.get("pyswitch.clients.kemper:KemperMappings").TUNER_MODE_STATE()
        offs = [s for _, s in sets if s[0] == "ControlChange"]
        return offs, [(s[1], s[2]) for s in offs] == [(m.set.control, 0)] * n

    def press(self, i):
        c = self.c
        self.log.clear()
        self.appl.midi.take()
        self.hw[i].pushed = True
        self.sw[i].process()
        self.sw[i].process()
        self.pressed[i] = "tuner" if self.state == 1 else "normal"
        if self.state == 1:
            c.check("a press alone does not leave tuner mode", self.expect_off(0)[1])
            c.check("actions in tuner mode only if configured", self.log == ([("push", x) for x in self.names[i]] if self.process else []))
        else:
            c.check("normal press", self.log == [("push", x) for x in self.names[i]])
            c.check("a normal press does not touch the tuner", self.expect_off(0)[1])

    def release(self, i, name="a release of a press made before tuner mode does not leave it"):
        c = self.c
        self.log.clear()
        self.appl.midi.take()
        self.hw[i].pushed = False
        self.sw[i].process()
        self.sw[i].process()
        how, self.pressed[i] = self.pressed[i], None
        if self.state == 1:
            if how == "tuner":
                c.check("a full press leaves tuner mode, exactly once", self.expect_off(1)[1])
                c.check("release of actions in tuner mode only if configured", self.log == ([("release", x) for x in self.names[i]] if self.process else []))
            else:
                c.check(name, self.expect_off(0)[1])
        else:
            c.check("normal release", self.log == [("release", x) for x in self.names[i]])
            c.check("a normal release does not touch the tuner", self.expect_off(0)[1])

    def toggle(self, i):
        if self.pressed[i]: self.release(i)
        else: self.press(i)


OPS = ("on", "off", "toggle")


@harness("C31", targets=T, params=[(p, o) for p in (False, True) for o in OPS], kind="history", bounds="sequences of five reports, presses and releases, one switch pressed at a time")
def sequences(c, p):
    process, first = p
    m = Mode(c, process, disabled=c.choice("disabled", ((), ("0.0",), ("0.1", "1.0"))))
    for k in range(5):
        op = first if k == 0 else c.choice("op", OPS)
        if op == "toggle":
            down = [i for i, x in enumerate(m.pressed) if x]
            m.toggle(down[0] if down else c.choice("switch", (0, 1)))
        else: m.report(1 if op == "on" else 0)


@harness("C31", targets=T, params=(False, True))
def reports(c, process):
    """any two reported values, all patterns of enabled actions (e.g. of other pages)"""
    m = Mode(c, process, disabled=[x for x in ("0.0", "0.1", "1.0") if c.flag("disabled " + x)], leds=c.choice("LEDs", (2, 1, 0, 3)))
    m.report(c.int("value", 0, 127))
    m.report(c.int("value", 0, 127))
    if c.flag("full press"):
        m.press(1)
        m.release(1)


@harness("C31", targets=T, kind="induction", params=(False, True))
def any_state(c, process):
    """any state reachable by any history: the state kept is only the last reported one and the pending press; one event"""
    m = Mode(c, process)
    if c.flag("reported"): m.report(c.choice("value", (0, 1)))
    i = c.choice("switch", (0, 1))
    press = c.choice("pressed", (None, "normal", "tuner"))
    pending = c.flag("pending press flag")
    c.assume(press != "tuner" or pending)
    c.assume(press != "normal" or m.state != 1 or not pending)
    t = "_TunerDisplayCallback__"
    c.field(m.cb, t + "pushed_before")
    m.cb.__dict__[t + "pushed_before"] = pending
    if press:
        m.hw[i].pushed = True
        c.field(m.sw[i], "_SwitchController__pushed_state")
        m.sw[i].__dict__["_SwitchController__pushed_state"] = True
        m.pressed[i] = press if m.state == 1 else "normal"
    op = c.choice("op", OPS)
    if op == "toggle": m.toggle(i)
    else: m.report(1 if op == "on" else 0)


@harness("C31", targets=T, kind="history", bounds="two switches pressed at the same time, one of them before tuner mode")
def two_switches(c):
    """known finding: the press is not remembered per switch"""
    m = Mode(c)
    m.report(0)
    m.press(0)
    m.report(1)
    m.press(1)
    m.release(0, "with another switch pressed in tuner mode: a release of a press made before does not leave tuner mode")


@harness("C31", targets=T, params=(False, True), covers=["released later"])
def held_from_before(c, process):
    """switches held since before tuner mode do not leave it, neither before nor after a full press of another one"""
    m = Mode(c, process, 3)
    m.report(0)
    m.press(0)
    if c.flag("two held"): m.press(1)
    m.report(1)
    if c.flag("released first"): m.release(0)
    m.press(2)
    m.release(2)
    for i in (0, 1):
        if m.pressed[i]:
            c.cover("released later")
            m.release(i)
    if c.flag("off"): m.report(0)
    m.press(1)
    m.release(1)


@harness("C31", targets=T, kind="history", bounds="concretely: 60 events, one switch pressed in tuner mode at a time", random_runs=300)
def history(c):
    if c.symbolic: return c.check("concrete only", True)
    m = Mode(c, c.flag("process"), 3)
    for _ in range(60):
        op = c.choice("op", ("on", "off", "toggle", "toggle", "toggle"))
        if op == "toggle":
            # (with a press in tuner mode pending, no other switch: known finding C31-1)
            i = c.choice("switch", (0, 1, 2))
            down = [k for k, x in enumerate(m.pressed) if x == "tuner"]
            m.toggle(down[0] if down else i)
        else: m.report(1 if op == "on" else 0)

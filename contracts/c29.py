"""Effect slots: every type number 0..16383 and every state value, through the real client; all slots by enumeration, sequences concretely."""
from vf.api import *
from .kemper import *

EA = "clients.kemper.actions.effect_state."
T = [EA + "EFFECT_STATE", EA + "KemperEffectEnableCallback.__init__", EA + "KemperEffectEnableCallback.get_effect_category", EA + "KemperEffectEnableCallback.get_effect_category_color",
     EA + "KemperEffectEnableCallback.get_effect_category_text", "clients.kemper.actions.effect_state_extended_names.EFFECT_STATE_EXT",
     "controller.callbacks.effect_enable.EffectEnableCallback.update_displays", "controller.callbacks.effect_enable.EffectEnableCallback.reset",
     "controller.callbacks.effect_enable.EffectEnableCallback.evaluate_value", "controller.callbacks.BinaryParameterCallback.update_displays",
     "controller.callbacks.BinaryParameterCallback.evaluate_value"]

# documented type numbers (see the comments of get_effect_category and the Kemper MIDI documentation), name, color
FAMILIES = (
    ([(1, 10), (12, 13)], "Wah", "ORANGE"), ([(11, 11), (129, 132)], "Pitch", "WHITE"), ([(17, 42)], "Dist", "RED"), ([(49, 50)], "Comp", "CYAN"),
    ([(57, 58)], "Gate", "CYAN"), ([(64, 64)], "Space", "GREEN"), ([(65, 67), (71, 71)], "Chorus", "BLUE"), ([(68, 68)], "Vibrato", "BLUE"),
    ([(69, 69)], "Rotary", "BLUE"), ([(70, 70), (75, 76)], "Tremolo", "BLUE"), ([(77, 80)], "Slicer", "BLUE"), ([(81, 91)], "Phaser", "PURPLE"),
    ([(97, 104)], "EQ", "YELLOW"), ([(113, 116)], "Boost", "RED"), ([(121, 123)], "Looper", "PINK"), ([(137, 140)], "Dual", "LIGHT_GREEN"),
    ([(145, 166)], "Delay", "GREEN"), ([(177, 193)], "Reverb", "GREEN"))

SLOTS = ("A", "B", "C", "D", "X", "MOD", "DLY", "REV")


def family(c, t):
    """(name, color) of a type number"""
    for rs, n, col in FAMILIES:
        if c.is_true(c.any([c.all([a <= t, t <= b]) for a, b in rs])):
            c.cover(n)
            return n, getattr(c.get("pyswitch.colors:Colors"), col)
    return "-", c.get("pyswitch.colors:DEFAULT_LABEL_COLOR")


class Slot:
    def __init__(self, c, slot="C", ext=False, color=None, text=None, names=False, back=True):
        self.c = c
        self.K = c.get("pyswitch.clients.kemper:KemperEffectSlot")
        self.id = getattr(self.K, "EFFECT_SLOT_ID_" + slot)
        self.slot, self.ext, self.color, self.text, self.names = slot, ext, color, text, names
        self.appl = KApp(c)
        self.label = Label()
        self.label.back_color = (1, 1, 1)
        P = c.get("pyswitch.controller.actions:PushButtonAction")
        self.act = (c.get(A + "effect_state_extended_names:EFFECT_STATE_EXT") if ext else c.get(A + "effect_state:EFFECT_STATE"))(
            slot_id=self.id, display=self.label, mode=P.LATCH, show_slot_names=names, color=color, text=text)
        self.b = Button(c, self.appl, self.act)
        self.type = self.state = None
        self.m_type, self.m_state = self.act.callback.mapping_fxtype, self.act.callback.mapping

    def message(self, m, v):
        d = list(m.response.data)[:6]
        return sysex(self.c, list(m.response.manufacturer_id), d + [v // 128, v % 128])

    def report(self, what, v):
        self.appl.update()
        self.appl.sent()
        if what == "type": self.type = v
        else: self.state = v
        self.appl.client.receive(self.message(self.m_type if what == "type" else self.m_state, v))

    def shown(self):
        """the display for the last reports"""
        c = self.c
        fam, col = family(c, self.type) if self.type is not None else ("-", c.get("pyswitch.colors:DEFAULT_LABEL_COLOR"))
        on = fam != "-" and self.state is not None and c.is_true(self.state >= 1)
        c.check("on exactly if an effect is there and on", self.act.state is on)
        c.check_eq("LED brightness", list(self.b.sw.brightnesses), [0.3 if on else 0.02] * 3)
        want = self.color or col
        c.check_eq("LED color of the category", [tuple(x) for x in self.b.sw.colors], [want] * 3)
        c.check_eq("label color", self.label.back_color, want if on else tuple(int(x * 0.2) for x in want))
        if self.type is None: return
        names = c.get(A + "effect_state_extended_names:_EFFECT_TYPE_NAMES") if self.ext else {}
        name = fam
        for k, n in names.items():
            if c.is_true(self.type == k): name = n
        if self.text: c.check_eq("the configured text", self.label.text, self.text)
        else: c.check_eq("the name of the type", self.label.text, (self.slot + " " if self.names else "") + name)

    def off_if_none(self):
        if self.type is None: return
        if family(self.c, self.type)[0] == "-":
            self.c.check("an empty slot is off", self.act.state is False)
            self.c.check_eq("an empty slot is shown as off", list(self.b.sw.brightnesses), [0.02] * 3)


@harness("C29", targets=T, params=("type first", "state first"), covers=[f[1] for f in FAMILIES])
def any_type(c, order):
    s = Slot(c)
    t, v = c.int("type", 0, 16383), c.int("state", 0, 16383)
    for k in (("type", t), ("state", v)) if order == "type first" else (("state", v), ("type", t)): s.report(*k)
    s.shown()
    # reset (page change, tuner mode)
    s.act.reset()
    s.act.update_displays()
    s.shown()
    if c.flag("pushed"):
        s.b.push()
        s.off_if_none()
        s.b.release()
        s.off_if_none()


@harness("C29", targets=T, params=("none", "same", "other"))
def change(c, to):
    """another type is reported (rig change): the last reported state counts"""
    s = Slot(c)
    s.report("type", c.int("type", 0, 16383))
    s.report("state", c.int("state", 0, 16383))
    if to == "none": s.report("type", 0)
    elif to == "same": s.report("type", s.type)
    else: s.report("type", c.choice("other", (0, 1, 128, 178)))
    s.shown()
    s.report("state", c.int("state", 0, 1))
    s.shown()


@harness("C29", targets=T, kind="enumeration", params=(False, True), bounds="all type numbers 0..300 and 16383, one state, one slot", random_runs=1)
def names(c, ext):
    """a color and a name exist for every type number; every type with an own name has a category; configured texts and colors win"""
    s = Slot(c, ext=ext)
    o = Slot(c, "A", ext=ext, color=(7, 8, 9), text="own")
    n = Slot(c, "REV", ext=ext, names=True)
    for k in (s, o, n): k.report("state", 1)
    for t in list(range(301)) + [16383]:
        for k in (s, o, n):
            k.report("type", t)
            k.shown()
    if ext:
        for t in c.get(A + "effect_state_extended_names:_EFFECT_TYPE_NAMES"):
            c.check("a named type has a category", t == 0 or family(c, t)[0] != "-")


@harness("C29", targets=T, kind="history", bounds="concretely: 60 reports, pushes and resets", random_runs=200)
def history(c):
    if c.symbolic: return c.check("concrete only", True)
    s = Slot(c, c.choice("slot", SLOTS), c.flag("ext"), c.choice("color", (None, (7, 8, 9))), c.choice("text", (None, "x")), c.flag("names"))
    clean = True
    for _ in range(60):
        op = c.choice("op", ("type", "state", "reset", "push"))
        if op == "type":
            t = c.choice("t", (0, 0, 1, 11, 43, 64, 128, 137, 178, 200, 16383))
            if t != s.type: clean = True
            s.report("type", t)
        elif op == "state":
            v = c.choice("v", (0, 1, 2))
            if v != s.state: clean = True
            s.report("state", v)
        elif op == "reset":
            s.act.reset()
            s.act.update_displays()
            clean = True
        else:
            s.b.push()
            s.b.release()
            clean = False
        if clean: s.shown()
        s.off_if_none()

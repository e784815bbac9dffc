"""Morph color: every value and color pair; the internal morph state: any value, one event from any state; histories."""
from vf.api import *
from .kemper import *

M = "clients.kemper.actions.morph."
T = [M + "_get_color", M + "KemperMorphCallback.__init__", M + "KemperMorphCallback.init", M + "KemperMorphCallback.evaluate_value", M + "KemperMorphCallback.state_changed_by_user",
     M + "MORPH_BUTTON", M + "MORPH_DISPLAY", "controller.callbacks.BinaryParameterCallback.update_displays", "controller.callbacks.BinaryParameterCallback.state_changed_by_user"] + TK


def color(c, name): return tuple(c.int(name + x, 0, 255) for x in "rgb")


def between(c, x, a, b): return c.any([c.all([a <= x, x <= b]), c.all([b <= x, x <= a])])


class Morph:
    def __init__(self, c, base, top, kind="display", fixed=None, internal=True, appl=None, label=None):
        self.c, self.base, self.top, self.kind, self.fixed, self.internal = c, base, top, kind, fixed, internal
        self.appl = appl or KApp(c)
        P = c.get("pyswitch.controller.actions:PushButtonAction")
        if kind == "raw":
            N = c.get("pyswitch.controller.callbacks:BinaryParameterCallback").NO_STATE_CHANGE
            cb = c.get(A + "morph:KemperMorphCallback")(mapping=c.get("pyswitch.clients.kemper.mappings.morph:MAPPING_MORPH_PEDAL")(), comparison_mode=N, suppress_send=True,
                                                        set_internal_state=internal, color_base=base, color_morph=top, color=fixed or "kemper")
            act = P({"callback": cb, "useSwitchLeds": True, "display": label})
        elif kind == "button":
            act = c.get(A + "morph:MORPH_BUTTON")(morph_color_base=base, morph_color_morphed=top, color=fixed or "kemper", display=label)
        else:
            act = c.get(A + "morph:MORPH_DISPLAY")(morph_color_base=base, morph_color_morphed=top, display=label)
        self.act, self.cb, self.label = act, act.callback, label
        self.b = Button(c, self.appl, act)
        self.ignore = False
        self.last = None

    def receive(self, v):
        """the device reports a morph value"""
        c = self.c
        m = self.cb.mapping
        self.appl.update()
        self.appl.client.receive(sysex(c, list(m.response.manufacturer_id), list(m.response.data)[:6] + [v // 128, v % 128]))
        c.check("the value is taken", c.eq(m.value, v))

    def show(self):
        self.act.update_displays()
        got = [tuple(x) for x in self.b.sw.colors]
        self.c.check("all LEDs the same", len(got) == 3)
        for x in got[1:]: self.c.check_eq("all LEDs the same", x, got[0])
        return got[0]


@harness("C32", targets=T, params=[(k, e) for k in ("raw", "display", "button") for e in ("lowest", "highest", "inside")], covers=["falling", "rising"])
def color_of_value(c, p):
    """the color for any value; any colors"""
    kind, where = p
    x, y = c.int("base", 0, 255), c.int("morphed", 0, 255)
    c.cover("rising" if c.is_true(y >= x) else "falling")
    m = Morph(c, (x, 0, 7), (y, 255, 7), kind, internal=kind != "raw")
    if kind == "raw": c.check("white without any value", m.show() == (255, 255, 255))
    else: c.check("base color at start", c.eq(m.show(), m.base))
    v = {"lowest": 0, "highest": 16383}.get(where)
    if v is None: v = c.int("value", 0, 16383)
    m.receive(v)
    s = m.show()
    if where == "lowest": c.check("base color at 0", c.eq(s, m.base))
    if where == "highest": c.check("morphed color at the maximum", c.eq(s, m.top))
    for k in range(3): c.check("between the two colors", between(c, s[k], m.base[k], m.top[k]))


@harness("C32", targets=[M + "_get_color"], params=("rising", "falling"))
def monotonic(c, way):
    """a higher value is never further from the morphed color"""
    x, y = c.int("base", 0, 255), c.int("morphed", 0, 255)
    c.assume(x <= y if way == "rising" else x >= y)
    m = Morph(c, (x, 0, 255), (y, 0, 0), "raw", internal=False)
    a, b = c.int("a", 0, 16383), c.int("b", 0, 16383)
    c.assume(a <= b)
    m.receive(a)
    s = m.show()
    m.receive(b)
    t = m.show()
    c.check("monotonic", s[0] <= t[0] if way == "rising" else s[0] >= t[0])
    c.check("a constant component stays", t[1] == 0)
    c.check("monotonic", t[2] <= s[2])


@harness("C32", targets=T, params=("raw", "button", "display"))
def internal_state(c, kind):
    """what is shown is the shared internal state; values from the device change it, except the one to be ignored"""
    m = Morph(c, (0, 200, 30), (255, 0, 30), kind)
    sh = m.appl.shared
    c.check("unmorphed at start", sh["morphStateOverride"] == 0)
    o = c.int("state", 0, 16383)
    sh["morphStateOverride"] = o
    if c.flag("shown before"): m.show()
    m.cb.ignore_next_value = ig = c.flag("ignore")
    v = c.int("value", 0, 16383)
    m.receive(v)
    s = m.show()
    now = o if ig else v
    c.check("follows the device, except the ignored value", c.eq(sh["morphStateOverride"], now))
    c.check("shows the internal state", c.eq(s, spec_color(m, now)))
    c.check("only one value is ignored", m.cb.ignore_next_value is False)
    op = c.choice("then", ("same", "other", "set", "reset"))
    if op == "same":                           # the same value again, and the state changed by a button meanwhile
        sh["morphStateOverride"] = now = c.int("button", 0, 16383)
        m.receive(v)
    elif op == "other":
        now = c.int("next", 0, 16383)
        c.assume(now != v)
        m.receive(now)
    elif op == "set": sh["morphStateOverride"] = now = c.int("button", 0, 16383)
    else: m.act.reset()
    s = m.show()
    c.check("follows changes of the value received", c.eq(sh["morphStateOverride"], now))
    c.check("shows the internal state", c.eq(s, spec_color(m, now)))


def spec_color(m, v): return tuple(b + trunc((t - b) * (v / 16383)) for b, t in zip(m.base, m.top))


@harness("C32", targets=T, params=("raw", "button", "display"))
def push(c, kind):
    """the morph button sends and toggles the internal state; the displays never send"""
    m = Morph(c, (0, 200, 30), (255, 0, 30), kind)
    sh = m.appl.shared
    sh["morphStateOverride"] = o = c.int("state", 0, 16383)
    now = (0 if c.is_true(o > 0) else 16383) if kind == "button" else o
    m.appl.sent()
    sent = m.b.push()
    want = [(80, 1)] if kind == "button" else []
    c.check("sends exactly the button message", [x[:2] for x in sent if len(x) == 2 and type(x[0]) is int] == want)
    c.check("toggles exactly with the button", c.eq(sh["morphStateOverride"], now))
    c.check("shown", c.eq(m.show(), spec_color(m, now)))
    sent = m.b.release()
    want = [(80, 0)] if kind == "button" else []
    c.check("release message", [x[:2] for x in sent if len(x) == 2 and type(x[0]) is int] == want)
    c.check("no toggle on release", c.eq(sh["morphStateOverride"], now))
    c.check("shown", c.eq(m.show(), spec_color(m, now)))


@harness("C32", targets=T)
def fixed_color(c):
    k = color(c, "fixed")
    m = Morph(c, (1, 1, 1), (9, 9, 9), c.choice("kind", ("raw", "button")), fixed=k)
    c.check("fixed color", c.eq(m.show(), k))
    m.receive(c.int("value", 0, 16383))
    c.check("fixed color", c.eq(m.show(), k))


R = "clients.kemper.actions.rig_select_and_morph_state."


@harness("C32", targets=[R + "RIG_SELECT_AND_MORPH_STATE", R + "KemperMorphDisplayEnableCallback.enabled", M + "KemperMorphCallback.evaluate_value"], params=(True, False))
def after_rig_change(c, only):
    """the first value after the rig was switched is ignored (it belongs to the rig left)"""
    appl = KApp(c)
    acts = c.get(A + "rig_select_and_morph_state:RIG_SELECT_AND_MORPH_STATE")(rig=2, bank=3, morph_only_when_enabled=only, morph_color_base=(0, 0, 0), morph_color_morphed=(255, 0, 0))
    b = Button(c, appl, acts)
    morph = acts[1]
    rid = c.int("rig", 0, 624)
    appl.receive_rig(rid)
    for a in acts: a.update_displays()
    on = c.is_true(rid == 11)
    c.check("shown exactly while the rig is selected", bool(morph.enabled) == (on or not only))
    old = appl.shared["morphStateOverride"]
    # rig changes by the button
    nxt = c.choice("next", (11, 12))
    appl.receive_rig(nxt)
    for a in acts: a.update_displays()
    c.check("shown exactly while the rig is selected", bool(morph.enabled) == (nxt == 11 or not only))
    if nxt != 11 and only: return
    m = morph.callback.mapping
    v = c.int("value", 0, 16383)
    appl.update()
    appl.client.receive(sysex(c, list(m.response.manufacturer_id), list(m.response.data)[:6] + [v // 128, v % 128]))
    for a in acts: a.update_displays()
    want = old if only else v
    c.check("the first value after activation is ignored", c.eq(appl.shared["morphStateOverride"], want))
    w = c.int("second", 0, 16383)
    c.assume(w != v)
    appl.update()
    appl.client.receive(sysex(c, list(m.response.manufacturer_id), list(m.response.data)[:6] + [w // 128, w % 128]))
    for a in acts: a.update_displays()
    c.check("the next one counts", c.eq(appl.shared["morphStateOverride"], w))


@harness("C32", targets=T, kind="history", bounds="concretely: three morph actions sharing the state, 60 events", random_runs=300)
def history(c):
    if c.symbolic: return c.check("concrete only", True)
    ms = [Morph(c, color(c, "b"), color(c, "t"), "button")]
    for k in ("display", "raw"): ms.append(Morph(c, color(c, "b"), color(c, "t"), k, appl=ms[0].appl))
    sh = ms[0].appl.shared
    state, last = 0, None
    for _ in range(60):
        op = c.choice("op", ("value", "push", "rig", "reset", "same"))
        if op == "value":
            v = c.choice("v", (0, 1, 8000, 16382, 16383, 12))
            for m in ms: m.show()
            if v != last: state = last = v
            ms[0].receive(v)
            m1, m2 = ms[0].cb.mapping, ms[1].cb.mapping
            if m1 is not m2: ms[1].receive(v)
        elif op == "push":
            ms[0].b.push()
            state = 0 if state > 0 else 16383
            ms[0].b.release()
        elif op == "rig": sh["morphStateOverride"] = state = 0
        elif op == "reset":
            for m in ms: m.act.reset()
        for m in ms:
            s = m.show()
            for k in range(3):
                c.check("between the two colors", min(m.base[k], m.top[k]) <= s[k] <= max(m.base[k], m.top[k]))
                if state in (0, 16383): c.check("the end colors are exact", s[k] == (m.base if state == 0 else m.top)[k])
                else: c.check("shows the internal state", abs(s[k] - (m.base[k] + (m.top[k] - m.base[k]) * state / 16383)) <= 1)
        c.check("the state is shared", sh["morphStateOverride"] == state)


@harness("C32", targets=[R + "RIG_SELECT_AND_MORPH_STATE", R + "KemperMorphDisplayEnableCallback.enabled"], covers=["off", "shown"])
def with_rig_select(c):
    """the morph state of a rig select action: never shown while that action is disabled, whatever rig is selected; its id and colors are the
    ones configured, with or without LEDs"""
    appl, en, lab = KApp(c), EnableCb(), Label()
    only, leds, mid = c.flag("only when selected"), c.flag("leds"), c.choice("morph id", (None, 0, 7))
    acts = c.get(A + "rig_select_and_morph_state:RIG_SELECT_AND_MORPH_STATE")(rig=2, bank=3, id=5, morph_id=mid, morph_use_leds=leds, morph_display=lab,
        enable_callback=en, morph_only_when_enabled=only, morph_color_base=(0, 0, 0), morph_color_morphed=(255, 0, 0))
    b = Button(c, appl, acts)
    rig, morph = acts
    c.check_eq("id", (rig.id, morph.id), (5, 5 if mid is None else mid))
    appl.receive_rig(c.choice("rig", (11, 12)))
    appl.shared["morphStateOverride"] = 16383
    for a in acts: a.update_displays()
    en.on = False
    for a in acts: a.update_displays()
    c.check("not shown while the rig select action is off", not morph.enabled)
    c.cover("off")
    en.on = True
    appl.receive_rig(11)
    for a in acts: a.update_displays()
    c.check("shown while its rig is selected", bool(morph.enabled))
    m = morph.callback.mapping
    for v in (0, 0, 16383):
        appl.update()
        appl.client.receive(sysex(c, list(m.response.manufacturer_id), list(m.response.data)[:6] + [v // 128, v % 128]))
        for a in acts: a.update_displays()
    c.check_eq("the color configured", lab.back_color, (255, 0, 0))
    c.cover("shown")

"""Actions shown again: a twin experiment on the real client. Two equal actions get the same presses and the same reports of the device (any
values); one of them is hidden for a while (its page is left), another action paints over its LEDs and its label, the device may report another
value, and it is shown again: then both have to look the same. All predefined actions, any values. Second contract: reset (after the tuner)."""
from vf.api import *
from .kemper import *

L = "pyswitch.clients.local.actions."
T = ["controller.actions.Action.update", "controller.actions.Action.reset", "controller.actions.Action.update_displays", "controller.actions.PushButtonAction.reset",
     "controller.callbacks.BinaryParameterCallback.reset", "controller.callbacks.BinaryParameterCallback.update_displays", "controller.callbacks.Callback.update",
     "controller.callbacks.effect_enable.EffectEnableCallback.reset", "controller.callbacks.effect_enable.EffectEnableCallback.update_displays",
     "clients.kemper.actions.rig_select._KemperRigSelectCallback.reset", "clients.kemper.actions.rig_select._KemperRigSelectCallback.update_displays",
     "clients.kemper.actions.bank_select.KemperBankSelectCallback.reset", "clients.kemper.actions.bank_select.KemperBankSelectCallback.update_displays",
     "clients.kemper.actions.bank_up_down.KemperBankChangeCallback.reset", "clients.kemper.actions.bank_up_down.KemperBankChangeCallback.update_displays",
     "clients.kemper.actions.rig_up_down._KemperRigChangeCallback.update_displays", "clients.kemper.actions.tempo._KemperShowTempoCallback.update_displays",
     "clients.local.actions.custom._CustomMessageCallback.update_displays", "clients.local.actions.rotate._CustomMessagesCallback.update_displays",
     "clients.local.actions.param_change._ParameterChangeCallback.reset", "clients.local.actions.param_change._ParameterChangeCallback.update_displays",
     "clients.local.actions.hid.HidCallback.update_displays", "clients.local.actions.fixed_text._DisplayMessageCallback.update_displays",
     "clients.kemper.actions.morph.KemperMorphCallback.evaluate_value", "clients.local.actions.pager.PagerAction.update", "clients.local.actions.pager.PagerAction.update_displays",
     "clients.local.actions.pager.PagerAction.proxy", "clients.local.actions.pager_direct.DirectPagerProxy.update_displays"]

KM = "pyswitch.clients.kemper:KemperMappings"
PC, PB = (9, 8, 7), (7, 7, 7)


def kemper_mapping(c, name, *a): return getattr(c.get(KM), name)(*a)
def other_mapping(c, mod, name, *a): return c.get("pyswitch.clients.kemper.mappings.%s:%s" % (mod, name))(*a)


def pager(c, select, **d):
    return c.get(L + "pager:PagerAction")(pages=[{"id": 1, "color": PC, "text": "one"}, {"id": 2, "color": PB, "text": "two"}, {"id": 3}], select_page=select, **d)


def assigned(c, appl, action):
    """on a switch of its own"""
    Button(c, appl, action)
    return action


def kinds(c, appl):
    """name -> (factory taking display and enable_callback, reports: parameters the device reports, with their ranges)"""
    K = lambda mod, name, **kw: (lambda **d: c.get(A + mod + ":" + name)(**kw, **d))
    X = lambda mod, name, **kw: (lambda **d: c.get(L + mod + ":" + name)(**kw, **d))
    R = [("rig", 624)]
    m = lambda n=77: mapping(c, "shown parameter", set=nrpn(c, n), request=nrpn(c, n), response=nrpn(c, n))
    D = {"display_mode": c.get("pyswitch.clients.kemper.actions.rig_select:RIG_SELECT_DISPLAY_CURRENT_RIG")}
    return {
        "rig select": (K("rig_select", "RIG_SELECT", rig=2), R),
        "rig and bank select": (K("rig_select", "RIG_SELECT", rig=2, bank=3, rig_off="auto", bank_off="auto"), R),
        "rig select, current": (K("rig_select", "RIG_SELECT", rig=2, **D), R),
        "bank select": (K("bank_select", "BANK_SELECT", bank=3), R),
        "bank select with off bank": (K("bank_select", "BANK_SELECT", bank=3, bank_off=7), R),
        "bank select, preselecting": (K("bank_select", "BANK_SELECT", bank=3, preselect=True), R),
        "bank up, preselecting": (K("bank_up_down", "BANK_UP", preselect=True), R),
        "bank up": (K("bank_up_down", "BANK_UP"), R),
        "bank down": (K("bank_up_down", "BANK_DOWN", preselect=False), R),
        "rig up": (K("rig_up_down", "RIG_UP"), R),
        "rig down": (K("rig_up_down", "RIG_DOWN", keep_bank=False, **D), R),
        "switch": (lambda **d: c.get(L + "binary_switch:BINARY_SWITCH")(mapping=m(), text="on", color=PC, **d), [(m, 16383)]),
        "switch, internal": (lambda **d: c.get(L + "binary_switch:BINARY_SWITCH")(mapping=mapping(c, "set only", set=nrpn(c, 78)), text="on", color=PC, use_internal_state=True,
                                                                                 mode=c.get("pyswitch.controller.actions:PushButtonAction").LATCH, **d), []),
        **{"effect, %d before" % i: (K("effect_state", "EFFECT_STATE", slot_id=2), [("type", 16383), ("state", 1)]) for i in (0, 60, 161)},
        **{"effect, extended names, %d" % i: (K("effect_state_extended_names", "EFFECT_STATE_EXT", slot_id=2), [("type", (i, i + 15)), ("state", 1)]) for i in range(0, 256, 16)},
        "morph button": (K("morph", "MORPH_BUTTON"), [("morph", 16383)]),
        "morph display": (K("morph", "MORPH_DISPLAY"), [("morph", 16383)]),
        "tuner": (K("tuner", "TUNER_MODE"), [("tuner", 2)]),
        "tempo": (K("tempo", "SHOW_TEMPO"), [("bpm", 16383), ("pulse", 1)]),
        "effect button": (K("effect_button", "EFFECT_BUTTON", num=2), R),
        "looper": (K("looper", "LOOPER_STOP"), []),
        "fixed effect": (K("fixed_fx", "FIXED_EFFECT_STATE", slot=3), [("boost", 16383)]),
        "volume boost": (K("rig_volume_boost", "RIG_VOLUME_BOOST", boost_volume=0.75), [("volume", 16383)]),
        "rotating": (X("rotate", "ROTATING_MESSAGES", messages=[[176, 1, 0], [176, 2, 0], [176, 3, 0]], texts=["a", "b", "c"], led_colors=[PC, PB, (1, 2, 3)],
                       display_colors=[PB, PC, (3, 2, 1)]), []),
        "custom": (X("custom", "CUSTOM_MESSAGE", message=[176, 1, 0], text="x", color=PC, led_brightness=0.5), []),
        "keyboard": (X("hid", "HID_KEYBOARD", keycodes=[4, 5], text="k", color=PC), []),
        "fixed text": (lambda **d: c.get(L + "fixed_text:DISPLAY_FIXED_TEXT")(text="t", back_color=PC, **d), []),
        "pager": (lambda **d: pager(c, None, **d), []),
        "pager, selecting": (lambda **d: pager(c, 2, **d), []),
        "page selection": (lambda display, **d: assigned(c, appl, pager(c, None)).proxy(3, **d), []),
        "up": (lambda **d: c.get(L + "param_change:PARAMETER_UP_DOWN")(mapping=m(), offset=100, text="up {val}", color=(200, 100, 0), **d), [(m, 16383)]),
        "down": (lambda **d: c.get(L + "param_change:PARAMETER_UP_DOWN")(mapping=m(), offset=-100, text="down {val}", color=(200, 100, 0), **d), [(m, 16383)]),
    }


KINDS = ("rig select", "rig and bank select", "rig select, current", "bank select", "bank select with off bank", "bank select, preselecting", "bank up", "bank up, preselecting", "bank down", "rig up", "rig down",
         "switch", "switch, internal", *("effect, %d before" % i for i in (0, 60, 161)), *("effect, extended names, %d" % i for i in range(0, 256, 16)), "morph button", "morph display", "tuner", "tempo", "effect button", "looper", "fixed effect", "volume boost",
         "rotating", "custom", "keyboard", "fixed text", "pager", "pager, selecting", "page selection", "up", "down")
PRESSED = ("bank select, preselecting", "bank up, preselecting", "switch, internal", "rotating", "custom", "effect button", "looper", "morph button", "pager", "pager, selecting")


class Twins:
    def __init__(self, c, kind, bare=False):
        """two equal actions; bare: the second one has no display label"""
        self.c, self.kind = c, kind
        self.appl = KApp(c)
        self.appl.reset_actions = lambda: None
        factory, self.reports = kinds(c, self.appl)[kind]
        self.a, self.b, self.en, self.labels = [], [], [], []
        for k in range(2):
            en, lab = EnableCb(), Label()
            lab.text, lab.back_color = "nothing", (5, 5, 5)
            act = factory(display=None if bare and k else lab, enable_callback=en)
            self.a.append(act)
            self.b.append(Button(c, self.appl, act))
            self.paint(self.b[-1].sw, lab, "nothing", (5, 5, 5), 0.625)
            self.en.append(en)
            self.labels.append(lab)
        self.n = 0
        for a in self.a: a.update()
        for a in self.a: a.update_displays()

    def paint(self, sw, lab, text, color, bright):
        sw.colors = [color] * 3
        sw.brightnesses = [bright] * 3
        lab.text, lab.back_color = text, color

    def report(self, tag):
        """the device reports any values of the parameters the action shows"""
        c = self.c
        for i, (what, top) in enumerate(self.reports):
            self.n += 1
            if not c.flag("reported %s%d" % (tag, i)): continue
            if what == "type" and tag == "first": v = int(self.kind.split()[1]) if self.kind.endswith("before") else 60
            else: v = c.int("value", *(top if isinstance(top, tuple) else (0, top)))
            if what == "rig":
                self.appl.receive_rig(v)
                continue
            if callable(what): m = what()
            else: m = {"type": lambda: kemper_mapping(c, "EFFECT_TYPE", 2), "state": lambda: kemper_mapping(c, "EFFECT_STATE", 2), "tuner": lambda: kemper_mapping(c, "TUNER_MODE_STATE"),
                       "morph": lambda: other_mapping(c, "morph", "MAPPING_MORPH_PEDAL"), "bpm": lambda: other_mapping(c, "tempo_bpm", "MAPPING_TEMPO_BPM"),
                       "pulse": lambda: other_mapping(c, "tempo", "MAPPING_TEMPO_DISPLAY"), "boost": lambda: other_mapping(c, "fixed_fx", "MAPPING_FIXED_BOOST"),
                       "volume": lambda: other_mapping(c, "rig", "MAPPING_RIG_VOLUME")}[what]()
            for a in self.a:
                if a.enabled: a.callback.update()             # asks for the value, if that is needed
            if what == "pulse": msg = sysex(c, list(m.response.manufacturer_id), list(m.response.data)[:-1] + [v])
            else: msg = sysex(c, list(m.response.manufacturer_id), list(m.response.data)[:6] + [v // 128, v % 128])
            self.appl.client.receive(msg)
            if what == "pulse": m.value = v

    def press(self):
        for b in self.b: b.push()
        for b in self.b: b.release()

    def look(self, k):
        sw, lab = self.b[k].sw, self.labels[k]
        return [[tuple(x) for x in sw.colors], list(sw.brightnesses), lab.text, lab.back_color]

    def stays_away(self, c, k):
        x = self.look(k)
        c.check_eq("hidden: LED colors", x[0], [(1, 1, 1)] * 3)
        c.check_eq("hidden: LED brightness", x[1], [0.125] * 3)
        c.check_eq("hidden: text", x[2], "other page")
        c.check_eq("hidden: label color", x[3], (1, 1, 1))

    def same(self, name):
        x, y = self.look(0), self.look(1)
        for what, p, q, left in zip(("LED colors", "LED brightness", "text", "label color"), x, y, ([(5, 5, 5)] * 3, [0.625] * 3, "nothing", (5, 5, 5))):
            if isinstance(q, type(left)) and q == left: continue        # nothing to show yet: left as it is
            self.c.check_eq(name + ": " + what, p, q)


@harness("C41", targets=T, params=KINDS, random_runs=60)
def shown_again(c, kind):
    """hidden, painted over, shown again"""
    t = Twins(c, kind)
    t.report("first")
    if kind in PRESSED and c.flag("pressed"): t.press()
    t.same("before")
    t.en[0].on = False
    t.a[0].update()
    t.a[1].update()
    t.paint(t.b[0].sw, t.labels[0], "other page", (1, 1, 1), 0.125)
    t.report("while hidden")
    for a in t.a: a.update_displays()
    t.stays_away(c, 0)
    t.en[0].on = True
    t.a[0].update()
    t.a[1].update()
    t.same("shown again")


@harness("C41", targets=T, params=KINDS, random_runs=60)
def hidden(c, kind):
    """a hidden action leaves the LEDs and labels of the page shown alone, whatever the device reports, however much time passes, and when it is
    reset; its switch does not reach it either"""
    t = Twins(c, kind)
    t.report("first")
    if c.flag("pressed"): t.press()
    for en in t.en: en.on = False
    for a in t.a: a.update()
    for k in (0, 1): t.paint(t.b[k].sw, t.labels[k], "other page", (1, 1, 1), 0.125)
    for i in range(2):
        c.advance(c.int("time passing", 0, 5000))
        t.appl.update()
        for a in t.a: a.update()
    t.report("while hidden")
    for a in t.a: a.reset()
    for a in t.a: a.update_displays()
    t.appl.sent()
    t.press()
    c.check_eq("a hidden action sends nothing", t.appl.sent(), [])
    for k in (0, 1): t.stays_away(c, k)


@harness("C41", targets=T, params=KINDS, random_runs=60)
def after_reset(c, kind):
    """LEDs painted over (strobe tuner), then reset"""
    t = Twins(c, kind)
    t.report("first")
    if kind in PRESSED and c.flag("pressed"): t.press()
    t.same("before")
    t.paint(t.b[0].sw, t.labels[0], t.labels[0].text, (1, 1, 1), 0.125)
    t.labels[0].back_color = t.labels[1].back_color            # the tuner shows its own screen; the labels stay
    for a in t.a:
        a.reset()
        a.update_displays()
    t.same("after a reset")


@harness("C41", targets=T, params=KINDS, random_runs=60)
def without_label(c, kind):
    """an action without a display label works and its LEDs look just the same"""
    t = Twins(c, kind, bare=True)
    for k in ("first",):
        t.report(k)
        for a in t.a: a.update_displays()
        if kind in PRESSED and c.flag("pressed"): t.press()
        (p, q, _, _), (r, s, text, color) = t.look(0), t.look(1)
        c.check_eq("LED colors", p, r)
        c.check_eq("LED brightness", q, s)
        c.check_eq("no label is touched", (text, color), ("nothing", (5, 5, 5)))
        for a in t.a:
            a.reset()
            a.update_displays()
        c.check_eq("LED colors after a reset", t.look(0)[0], t.look(1)[0])

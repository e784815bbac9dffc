"""The ready-made actions obey the settings every action has (id, enabling, display label, LEDs, color, text, mode): every action of the three clients,
for all reported values, with and without each setting."""
from vf.api import *
from .lib import *

K, L, B = "pyswitch.clients.kemper.actions.", "pyswitch.clients.local.actions.", "pyswitch.clients.boomerang.actions.boomerang:"
X, Y = "clients.kemper.actions.", "clients.local.actions."
T = ["controller.actions.Action.__init__", "controller.actions.Action.enabled", "controller.actions.Action.update", "controller.actions.Action.init", "controller.actions.Action.push",
     "controller.actions.Action.release", "controller.actions.Action.switch_color", "controller.actions.Action.switch_brightness", "controller.actions.Action.__get_led_segments",
     "controller.actions.Action._CallbackListener.parameter_changed", "controller.callbacks.Callback.init", "controller.inputs.SwitchController.process", "controller.actions.PushButtonAction.__init__"]
MAN = [0, 0x20, 0x33]


def param(c):
    return mapping(c, "own", set=nrpn(c, 300), response=nrpn(c, 300), request=nrpn(c, 300))


LOOP = ("REC_PLAY_OVERDUB", "STOP", "ERASE", "CANCEL", "REVERSE", "TRIGGER", "HALF_SPEED")
BOOM = ("PLAY_STOP_ALL", "SYNC_SERIAL", "MUTE_THRU", "PANIC", "ERASE", "ERASE_ALL", "STACK", "COPY", "FADE", "OCTAVE", "ONCE", "REVERSE")
# name -> (function, arguments which are required, what it lets the user set beyond the common settings)
ALL = {}
for n in LOOP: ALL["LOOPER_" + n] = (K + "looper:LOOPER_" + n, lambda c: {}, "text color")
for n in BOOM: ALL["BOOMERANG_" + n] = (B + "BOOMERANG_" + n, lambda c: {}, "text color")
for n in (1, 2, 3, 4): ALL["EFFECT_BUTTON %d" % n] = (K + "effect_button:EFFECT_BUTTON", lambda c, n=n: {"num": n}, "text color")
for n in range(8): ALL["FIXED_EFFECT_STATE %d" % n] = (K + "fixed_fx:FIXED_EFFECT_STATE", lambda c, n=n: {"slot": n}, "text color mode")
for n in range(8):
    ALL["EFFECT_STATE %d" % n] = (K + "effect_state:EFFECT_STATE", lambda c, n=n: {"slot_id": n}, "text color mode")
    ALL["EFFECT_STATE_EXT %d" % n] = (K + "effect_state_extended_names:EFFECT_STATE_EXT", lambda c, n=n: {"slot_id": n}, "text color mode")
ALL["RIG_VOLUME_BOOST"] = (K + "rig_volume_boost:RIG_VOLUME_BOOST", lambda c: {"boost_volume": 0.75}, "text color mode")
ALL["TUNER_MODE"] = (K + "tuner:TUNER_MODE", lambda c: {}, "text color mode")
ALL["MORPH_BUTTON"] = (K + "morph:MORPH_BUTTON", lambda c: {}, "text color")
ALL["MORPH_DISPLAY"] = (K + "morph:MORPH_DISPLAY", lambda c: {}, "text")
ALL["RIG_SELECT"] = (K + "rig_select:RIG_SELECT", lambda c: {"rig": 2}, "text color")
ALL["RIG_SELECT_AND_MORPH_STATE"] = (K + "rig_select_and_morph_state:RIG_SELECT_AND_MORPH_STATE", lambda c: {"rig": 2, "morph_use_leds": False}, "text color")
ALL["BANK_SELECT"] = (K + "bank_select:BANK_SELECT", lambda c: {"bank": 2}, "text color")
for n in ("UP", "DOWN"):
    ALL["RIG_" + n] = (K + "rig_up_down:RIG_" + n, lambda c: {}, "text color")
    ALL["BANK_" + n] = (K + "bank_up_down:BANK_" + n, lambda c: {}, "text color")
ALL["TAP_TEMPO"] = (K + "tempo:TAP_TEMPO", lambda c: {}, "color")
ALL["SHOW_TEMPO"] = (K + "tempo:SHOW_TEMPO", lambda c: {}, "color")
ALL["BINARY_SWITCH"] = (L + "binary_switch:BINARY_SWITCH", lambda c: {"mapping": param(c)}, "text color mode")
ALL["CUSTOM_MESSAGE"] = (L + "custom:CUSTOM_MESSAGE", lambda c: {"message": [176, 1, 2]}, "text color")
ALL["HID_KEYBOARD"] = (L + "hid:HID_KEYBOARD", lambda c: {"keycodes": 4}, "text color")
ALL["PARAMETER_UP_DOWN"] = (L + "param_change:PARAMETER_UP_DOWN", lambda c: {"mapping": param(c), "offset": 3}, "text color")
ALL["ROTATING_MESSAGES"] = (L + "rotate:ROTATING_MESSAGES", lambda c: {"messages": [[176, 1, 2], [176, 1, 3]], "texts": ["a", "b"], "display_colors": [(9, 8, 7)]}, "")
ALL["PagerAction"] = (L + "pager:PagerAction", lambda c: {"pages": [{"id": 1, "color": (9, 8, 7), "text": "one"}, {"id": 2, "color": (1, 2, 3), "text": "two"}]}, "")
ENC = {n: (K + f + ":" + n, more) for n, f, more in (("AMP_GAIN", "amp", True), ("ENCODER_BANK_SELECT", "bank_select_encoder", False), ("ENCODER_RIG_TRANSPOSE", "rig_transpose", True), ("ENCODER_BPM", "tempo_bpm", True))}
TF = [f.replace("pyswitch.", "").replace(":", ".") for f, _, _ in ALL.values()]
TF = sorted({t + ".__init__" if t.endswith("PagerAction") else t for t in TF})


class Port:
    def __init__(self): self.log = []
    def send(self, m): self.log.append(list(m.__bytes__()))


class Rig:
    """the action on the only switch, other parts of the application recording"""
    def __init__(self, c, name, label=True, **settings):
        self.c = c
        f, need, _ = ALL[name]
        self.appl = Appl()
        self.appl.client.midi = self.port = Port()
        self.appl.reset_actions = lambda: None
        c.g["keyboard"] = []
        self.lab = Label() if label else None
        if label: settings["display"] = self.lab
        self.enable = EnableCb()
        if settings.pop("enabling", True): settings["enable_callback"] = self.enable
        kw = need(c)
        kw.update(settings)
        a = c.get(f)(**kw)
        self.all = a if isinstance(a, (list, tuple)) else [a]
        self.a = self.all[0]
        self.sw, self.hw = switch(c, self.appl, self.all, pixels=(0, 1, 2))
        self.appl.inputs.append(self.sw)
        self.log0 = list(self.appl.client.log)
        self.collect()
        self.mark()
    def mark(self):
        self.appl.client.take()
        self.port.log = []
        self.c.g["keyboard"] = []
        if self.lab: self.lab.log = []
        self.leds = self.look()
    def look(self):
        return ([tuple(x) for x in self.sw.colors], list(self.sw.brightnesses))
    def report(self):
        """the device reports all parameters the action knows"""
        c = self.c
        known = []
        for m in self.params:
            hi = 624 if "Rig" in str(m.name) else 16383
            m.value = c.int("reported " + str(m.name), 0, hi)
            for l in self.listen[id(m)]: l.parameter_changed(m)
    def collect(self):
        """parameters and their listeners, as registered at startup"""
        self.params, self.listen = [], {}
        for e in self.log0:
            if e[0] == "register":
                if id(e[1]) not in self.listen:
                    self.params.append(e[1])
                    self.listen[id(e[1])] = []
                if e[2] is not None and e[2] not in self.listen[id(e[1])]: self.listen[id(e[1])].append(e[2])
    def press(self):
        self.hw.pushed = True
        self.sw.process()
        self.hw.pushed = False
        self.sw.process()
    def update(self):
        for x in self.all: x.update()
        for u in list(self.appl.updateables): u.update()


NAMES = list(ALL)


def untouched(c, r, what):
    c.check_eq(what + ": nothing is sent", [e for e in r.appl.client.log if e[0] == "set"], [])
    c.check_eq(what + ": no message", r.port.log, [])
    c.check_eq(what + ": no key", list(c.g["keyboard"]), [])
    if r.lab: c.check_eq(what + ": the label stays", r.lab.log, [])
    c.check_eq(what + ": the LEDs stay", r.look(), r.leds)


@harness("C50", targets=T + TF, params=NAMES)
def enabling(c, name):
    """the id given is the id of the action; the enable callback alone decides whether it is enabled; a disabled action does nothing and shows nothing,
    whatever is reported and pressed; enabled again, it shows itself"""
    r = Rig(c, name, id="me", use_leds=c.flag("LEDs"))
    for a in r.all: c.check_eq("id", a.id, "me")
    r.enable.on = on = c.flag("enabled")
    c.check("enabled as the callback says", c.iff(bool(r.a.enabled), on))
    if not on: c.check("all of it is disabled", not any([a.enabled for a in r.all]))
    r.enable.on = False
    r.update()
    untouched(c, r, "started disabled")
    r.report()
    untouched(c, r, "values are reported")
    r.press()
    untouched(c, r, "pressed")
    r.update()
    untouched(c, r, "updated")
    r.enable.on = True
    r.update()
    tuner = [m.value for m in r.params if m.name == "Tuner Mode"] if name == "SHOW_TEMPO" else []   # the tempo is not shown while the tuner is (C44)
    c.check("enabled: it shows itself", c.any([len(r.lab.log) > 0] + [c.eq(v, 1) for v in tuner]))
    c.cover("done")


@harness("C50", targets=T + TF, params=NAMES)
def always_enabled(c, name):
    """without an enable callback the action is always enabled; its label may be missing; without use_leds the LEDs of the switch are left alone"""
    labelled = c.flag("has a label")
    r = Rig(c, name, label=labelled, enabling=False, use_leds=False)
    for step in (r.update, r.report, r.press, r.update):
        c.check("enabled", r.a.enabled)
        step()
        c.check_eq("the LEDs stay", r.look(), r.leds)
    if labelled: c.check("the label is used", len(r.lab.log) > 0)


LOOK = [n for n in NAMES if "color" in ALL[n][2]]


@harness("C50", targets=T + TF, params=LOOK)
def look(c, name):
    """color and text as given, on the own label and the own LEDs"""
    color = (c.int("red", 1, 255), c.int("green", 0, 255), c.int("blue", 0, 255))
    more = {"text": "my text"} if "text" in ALL[name][2].split() else {}
    r = Rig(c, name, color=color, use_leds=True, **more)
    r.update()
    r.report()
    r.update()
    if more: c.check_eq("the text given", r.lab.text, "my text")
    n = len(r.all)
    if name != "PARAMETER_UP_DOWN":   # dimmed with the value there (C25, C44)
        back = tuple(r.lab.back_color)
        c.check("the color given, dimmed or not", c.any([c.eq(back, color), c.eq(back, scale(color, .2))]), info=back)
    if name.startswith("BOOMERANG"):
        c.check("LEDs: the color given, in one of the brightnesses", c.any([c.eq(tuple(r.sw.colors[0]), scale(color, f)) for f in (.3, .02)]))
    else:
        c.check_eq("LEDs: the color given", [tuple(x) for x in r.sw.colors[:3 if n == 1 else 1]], [color] * (3 if n == 1 else 1))


MODE = [n for n in NAMES if "mode" in ALL[n][2]]
MODES = ("ENABLE", "DISABLE", "LATCH", "MOMENTARY", "HOLD_MOMENTARY", "ONE_SHOT")


@harness("C50", targets=T + TF + ["controller.actions.PushButtonAction.push", "controller.actions.PushButtonAction.release"], params=[(n, m) for n in MODE for m in MODES])
def mode(c, p):
    """the mode given: what a press and a release (short or long) switch"""
    name, m = p
    P = c.get("pyswitch.controller.actions:PushButtonAction")
    r = Rig(c, name, mode=getattr(P, m), use_leds=True)
    for x in r.params:
        if "Type" in str(x.name): x.value = c.choice("effect", (1, 57, 145))   # empty slots cannot be switched on (C10)
    r.update()
    log = []
    real = r.a.callback.state_changed_by_user
    r.a.callback.state_changed_by_user = lambda: log.append(r.a.state)
    t = c.int("held for", 0, 5000)
    on = False
    for i in range(2):
        r.hw.pushed = True
        r.sw.process()
        want = {"ENABLE": [] if on else [True], "DISABLE": [False] if on else [], "LATCH": [not on], "MOMENTARY": [] if on else [True], "HOLD_MOMENTARY": [not on], "ONE_SHOT": [True]}[m]
        c.check_eq("press", log, want)
        on = want[-1] if want else on
        log.clear()
        c.advance(t)
        r.hw.pushed = False
        r.sw.process()
        want = {"MOMENTARY": [False], "HOLD_MOMENTARY": [not on] if c.is_true(t > 600) else []}.get(m, [])
        c.check_eq("release", log, want)
        on = False if m == "ONE_SHOT" else want[-1] if want else on
        log.clear()


@harness("C50", targets=["controller.actions.EncoderAction.EncoderAction." + n for n in ("__init__", "enabled", "process", "init")] + sorted({f.replace("pyswitch.", "").replace(":", ".") for f, _ in ENC.values()}), params=list(ENC))
def encoders(c, name):
    """id and enable callback as given; without an accept action values are sent directly, with one only on acceptance"""
    f, more = ENC[name]
    cb = EnableCb()
    e = c.get(f)(id="me", enable_callback=cb)
    c.check_eq("id", e.id, "me")
    cb.on = on = c.flag("enabled")
    c.check("enabled as the callback says", c.iff(bool(e.enabled), on))
    c.check("without a callback: enabled", c.get(f)().enabled)


@harness("C50", targets=["controller.actions.EncoderAction.EncoderAction." + n for n in ("__init__", "process", "accept", "cancel", "update", "init")] +
         sorted({f.replace("pyswitch.", "").replace(":", ".") for f, more in ENC.values() if more}) + ["controller.preview.ValuePreview.preview", "clients.local.actions.encoder_button.ENCODER_BUTTON"],
         params=[n for n, (f, more) in ENC.items() if more])
def encoder_settings(c, name):
    """accept and cancel action, preview display, its color and timeout as given; another rig cancels a preselection"""
    f = ENC[name][0]
    V = c.get("pyswitch.ui.elements:DisplayLabel")
    class Shows:
        def update_label(self, label): label.text = "normal"
    lab = V(layout={"font": "f", "textColor": (1, 2, 3)}, callback=Shows())
    lab.update_label()
    EB = c.get(L + "encoder_button:ENCODER_BUTTON")
    pre = c.flag("accept action")
    ok, no = EB(), EB()
    kw = dict(accept_action=ok, cancel_action=no) if pre else {}
    timeout = c.int("timeout", 1)
    e = c.get(f)(preview_display=lab, preview_timeout_millis=timeout, preview_blink_color=(4, 5, 6), **kw)
    appl = Appl()
    c.set_now(c.int("start", 0))
    e.init(appl)
    for b in (ok, no): b.init(appl, None)
    m = [x[1] for x in appl.client.log if x[0] == "register"][0]
    rig = c.get("pyswitch.clients.kemper:KemperMappings").RIG_ID()
    m.value, rig.value = 8000, 5
    e.process(0)
    turn = c.choice("turn", (1, -2))
    e.process(turn)
    shown = lab.text
    sets = lambda: [x[1:] for x in appl.client.log if x[0] == "set"]
    c.check("the new value is previewed", shown != "normal")
    if not pre:
        c.check("sent directly", len(sets()) == 1 and sets()[0][0] is m and sets()[0][1] != 8000)
        c.check_eq("nothing to accept", (ok.push(), no.push(), len(sets()))[2], 1)
        t0 = c.now()
        c.advance(c.int("dt", 0))
        e.update()
        return c.check_eq("it disappears after the timeout given and not before", lab.text, "normal" if c.is_true(c.now() - t0 > timeout) else shown)
    c.check_eq("nothing is sent", sets(), [])
    colors = []
    for i in range(2):
        c.advance(401 + c.int("dt", 0))
        e.update()
        colors.append(tuple(lab.text_color))
    c.check_eq("it blinks in the color given", sorted(colors), [(1, 2, 3), (4, 5, 6)])
    end = c.choice("end", ("accept", "cancel", "rig"))
    if end == "accept":
        ok.push()
        c.check("sent when accepted", len(sets()) == 1 and sets()[0][0] is m and sets()[0][1] != 8000)
        t0 = c.now()
        c.advance(c.int("after", 0))
        e.update()
        return c.check_eq("it disappears after the timeout given and not before", lab.text, "normal" if c.is_true(c.now() - t0 > timeout) else shown)
    if end == "cancel": no.push()
    else:
        rig.value = c.int("another rig", 0, 624)
        c.assume(rig.value != 5)
        e.process(turn)
    c.check_eq("the preview is gone", lab.text, "normal")
    ok.push()
    c.check_eq("nothing is sent, nothing is left to accept", sets(), [])


@harness("C50", targets=["controller.actions.EncoderAction.EncoderAction.__init__", "controller.actions.EncoderAction.EncoderAction.process", "clients.kemper.actions.bank_select_encoder._BankSelectEncoderAction.__init__"] +
         sorted({ENC[n][0].replace("pyswitch.", "").replace(":", ".") for n in ("AMP_GAIN", "ENCODER_BPM", "ENCODER_BANK_SELECT")}), params=("AMP_GAIN", "ENCODER_BPM", "ENCODER_BANK_SELECT"))
def encoder_steps(c, name):
    """the step width given"""
    w = c.choice("step width", (1, 3, 0.5, 25))
    e = c.get(ENC[name][0])(step_width=w)
    appl = Appl()
    e.init(appl)
    m = [x[1] for x in appl.client.log if x[0] == "register"][0]
    per = 5 if name == "ENCODER_BANK_SELECT" else 1     # the bank encoder looks at the rig: five per bank
    top = 124 if per == 5 else 16383
    m.value = v = per * 60
    e.process(0)
    pos = c.choice("position", (1, 2, 4, -2))
    e.process(pos)
    want = 60 + int(pos * w)
    want = 0 if want < 0 else top if want > top else want
    if per == 5: got = appl.shared.get("preselectedBank", 60)
    else: got = m.value
    c.check_eq("value", got, want)

"""Predefined buttons: exactly the documented messages on press and release, from every state of the button, for all reported values and hold times."""
from vf.api import *
from .kemper import *

L = "pyswitch.clients.local.actions."
B = "pyswitch.clients.boomerang.actions.boomerang"
MAN = [0, 0x20, 0x33]
LOOPER = (("LOOPER_REC_PLAY_OVERDUB", 88, "Rec"), ("LOOPER_STOP", 89, "Stop"), ("LOOPER_TRIGGER", 90, "Trigger"), ("LOOPER_REVERSE", 91, "Reverse"), ("LOOPER_HALF_SPEED", 92, "1/2 Speed"),
          ("LOOPER_CANCEL", 93, "Undo"), ("LOOPER_ERASE", 94, "Erase"))
FIXED = (("transpose", 1, "Transpose"), ("gate", 6, "Gate"), ("compressor", 11, "Comp"), ("boost", 16, "Boost"), ("wah", 21, "Wah"), ("chorus", 26, "Chorus"), ("air chorus", 36, "Air"),
         ("double tracker", 41, "Doubler"))
BOOM = (("PLAY_STOP_ALL", 17, 25), ("SYNC_SERIAL", 43, 65), ("MUTE_THRU", 3, 8), ("PANIC", 11, 40), ("ERASE", 16, 61), ("ERASE_ALL", 28, 35), ("STACK", 15, 23), ("COPY", 1, 4),
        ("FADE", 21, 32), ("OCTAVE", 2, 49), ("ONCE", 10, 18), ("REVERSE", 47, 56))
COLOR = (200, 100, 40)
HOLD = 600

TK2 = ["controller.inputs.SwitchController.process", "controller.inputs.SwitchController.process.release", "controller.inputs.SwitchController.pushed", "controller.client.Client.set",
       "controller.callbacks.BinaryParameterCallback.__init__", "controller.callbacks.BinaryParameterCallback.init", "controller.callbacks.BinaryParameterCallback.state_changed_by_user",
       "controller.callbacks.BinaryParameterCallback.evaluate_value", "controller.callbacks.BinaryParameterCallback.__update_label_text", "controller.actions.PushButtonAction.__init__",
       "controller.actions.PushButtonAction.push", "controller.actions.PushButtonAction.release", "controller.actions.PushButtonAction.state", "controller.callbacks.Callback.__init__",
       "controller.callbacks.Callback.init", "controller.actions.Action.__init__", "controller.actions.Action.init"]
KA = "clients.kemper.actions."
KMM = "clients.kemper.mappings."


def sets(c, appl, page, number):
    """values set at the address since the last call; everything else may only be a request for the same address"""
    out = []
    for m in [s for _, s in appl.midi.take()]:
        d = m[2] if m[0] == "SystemExclusive" else None
        if d is not None and d[2] == 0x41:
            c.check_eq("only the own parameter is requested", (m[1], d), (MAN, [2, 0x7f, 0x41, 0, page, number]))
        elif d is not None:
            c.check_eq("set message", (m[1], d[:6]), (MAN, [2, 0x7f, 1, 0, page, number]))
            c.check("two value bytes", len(d) == 8 and c.all([0 <= d[6], d[6] <= 127, 0 <= d[7], d[7] <= 127]))
            out.append(d[6] * 128 + d[7])
        else:
            out.append(m)
    return out


def renew(c, appl, a, last, v):
    """the parameter is asked for (again); the value reported is a new one"""
    if last is not None: c.assume(v != last)
    appl.client.receive(None)
    a.callback.update()
    return v


def report(c, appl, page, number, v):
    appl.client.receive(sysex(c, MAN, [0, 0, 1, 0, page, number, v // 128, v % 128]))


@harness("C42", targets=TK2 + [KA + "looper." + n for n, _, _ in LOOPER] + [KMM + "looper.MAPPING_" + n for n, _, _ in LOOPER] + [KA + "tempo.TAP_TEMPO"], params=[x[0] for x in LOOPER] + ["TAP_TEMPO"])
def momentary(c, name):
    """looper buttons and tap tempo: on at press, off at release, every time, after holding any time"""
    appl = KApp(c)
    lab = Label()
    if name == "TAP_TEMPO":
        a = c.get(A + "tempo:TAP_TEMPO")(display=lab)
        on, off = [(30, 1)], [(30, 0)]
    else:
        a = c.get(A + "looper:" + name)(display=lab, color=COLOR)
        n = dict((x, y) for x, y, _ in LOOPER)[name]
        on, off = [[1]], [[0]]
    b = Button(c, appl, a)
    def sent():
        if name == "TAP_TEMPO": return appl.sent()
        return [sets(c, appl, 0x7d, n)]
    def press(x):
        b.hw.pushed = x
        b.sw.process()
        return sent()
    for i in range(3):
        c.check_eq("pressed", press(True), on)
        c.advance(c.int("held", 0, 5000))
        b.sw.process()
        c.check("held: nothing more", sent() in ([], [[]]))
        c.check("the button is on only while it is held", a.state is True)
        c.check_eq("released", press(False), off)
        c.check("off again, as before the press", a.state is False)           # the state is that before the press: so for any number of presses
        c.advance(c.int("pause", 0, 5000))
        appl.update()
        for x in b.actions: x.update()
        b.sw.process()
        c.check("nothing without a press", sent() in ([], [[]]))
    texts = {n: t for n, _, t in LOOPER}
    if name != "TAP_TEMPO": c.check("its text is shown", isinstance(lab.text, str) and len(lab.text) > 0)
    else: c.check_eq("its text is shown", lab.text, "Tap")


@harness("C42", targets=TK2 + [KA + "fixed_fx.FIXED_EFFECT_STATE", KA + "rig_volume_boost.RIG_VOLUME_BOOST", "clients.kemper.NRPN_VALUE", KMM + "rig.MAPPING_RIG_VOLUME"] +
         [KMM + "fixed_fx.MAPPING_FIXED_" + x for x in ("TRANSPOSE", "GATE", "COMP", "BOOST", "WAH", "CHORUS", "AIR", "DBL_TRACKER")], params=[x[0] for x in FIXED] + ["volume boost", "volume boost to 0 dB"])
def hold_or_latch(c, name):
    """switches showing the state of the device: a press inverts the state the device reported; released after the hold time it is inverted back"""
    appl = KApp(c)
    lab = Label()
    en = NRPN = None
    if name.startswith("volume"):
        page, number = 4, 1
        k = c.int("boost in 64ths", 1, 64)
        en = trunc(16383 * k / 64)
        auto = name == "volume boost"
        a = c.get(A + "rig_volume_boost:RIG_VOLUME_BOOST")(boost_volume=k / 64, display=lab, **({} if auto else {"remember_off_value": False}))
        dis = None if auto else 8191
        text = "RigBoost"
    else:
        i = [x[0] for x in FIXED].index(name)
        page, number, text = 5, FIXED[i][1], FIXED[i][2]
        a = c.get(A + "fixed_fx:FIXED_EFFECT_STATE")(i, display=lab, **({"text": "own", "color": COLOR} if c.flag("own text and color") else {}))
        en, dis, auto = 1, 0, False
    b = Button(c, appl, a)
    sets(c, appl, page, number)
    state, last = False, None
    for i in range(2):
        if c.flag("reported %d" % i):
            v = c.int("value", 0, 16383)
            last = renew(c, appl, a, last, v)
            sets(c, appl, page, number)
            report(c, appl, page, number, v)
            c.check("a report sends nothing", sets(c, appl, page, number) == [])
            state = v >= en
            if auto and not state: dis = v
        c.check_eq("shows the state of the device", a.state, state)
        b.hw.pushed = True
        b.sw.process()
        first = False if state else True
        def want(on):
            if on: return [en]
            return [] if dis is None else [dis]
        c.check_eq("pressed: the other state is set", sets(c, appl, page, number), want(first))
        c.check_eq("shows the new state", a.state, first)
        held = c.int("held", 0, 3000)
        c.assume(held != HOLD)
        c.advance(held)
        b.hw.pushed = False
        b.sw.process()
        got = sets(c, appl, page, number)
        if held > HOLD:
            c.check_eq("released after the hold time: back to the state before", got, want(not first))
            state = not first
        else:
            c.check_eq("released at once: nothing more", got, [])
            state = first
        c.check_eq("state", a.state, state)


@harness("C42", targets=TK2 + [KA + "fixed_fx.FIXED_EFFECT_STATE"], kind="enumeration", random_runs=1)
def labels(c):
    """names and colors of the fixed effect switches"""
    for i, (name, _, text) in enumerate(FIXED):
        for own in (False, True):
            appl = KApp(c)
            lab = Label()
            a = c.get(A + "fixed_fx:FIXED_EFFECT_STATE")(i, display=lab, **({"text": "own", "color": COLOR} if own else {}))
            Button(c, appl, a)
            a.update()
            c.check_eq("text", lab.text, "own" if own else text)
            if own: c.check_eq("color", tuple(lab.back_color), scale(COLOR, 0.2))


@harness("C42", targets=TK2 + [KA + "tuner." + x for x in ("TUNER_MODE", "_TunerModeCallback.__init__", "_TunerModeCallback.init", "_TunerModeCallback.state_changed_by_user")])
def tuner(c):
    """tuner switch: a press inverts the tuner state the device reported last"""
    appl = KApp(c)
    lab = Label()
    a = c.get(A + "tuner:TUNER_MODE")(display=lab)
    b = Button(c, appl, a)
    state, last = False, None
    for i in range(2):
        if c.flag("reported %d" % i):
            v = c.int("state", 0, 16383)
            last = renew(c, appl, a, last, v)
            report(c, appl, 0x7f, 0x7e, v)
            state = v == 1
            appl.sent()
        b.hw.pushed = True
        b.sw.process()
        first = False if state else True
        c.check_eq("pressed: the other state is set", [m for m in tuner_sent(c, appl)], [(31, 1 if first else 0)])
        held = c.int("held", 0, 3000)
        c.assume(held != HOLD)
        c.advance(held)
        b.hw.pushed = False
        b.sw.process()
        got = tuner_sent(c, appl)
        if held > HOLD:
            c.check_eq("released after the hold time: back to the state before", got, [(31, 0 if first else 1)])
            state = not first
        else:
            c.check_eq("released at once: nothing more", got, [])
            state = first
        c.check_eq("state", a.state, state)


def tuner_sent(c, appl):
    out = []
    for m in [s for _, s in appl.midi.take()]:
        if m[0] == "SystemExclusive": c.check_eq("only the tuner state is requested", (m[1], m[2]), (MAN, [2, 0x7f, 0x41, 0, 0x7f, 0x7e]))
        else: out.append(m[1:])
    return out


@harness("C42", targets=TK2 + [KA + "effect_button." + x for x in ("EFFECT_BUTTON", "_KemperEffectButtonCallback.__init__", "_KemperEffectButtonCallback.parameter_changed")] + [KMM + "effects.MAPPING_EFFECT_BUTTON"],
         params=range(1, 5))
def effect_button(c, num):
    """effect buttons toggle; a rig change switches them off (as in the device) without sending"""
    appl = KApp(c)
    lab = Label()
    own = c.flag("own text")
    a = c.get(A + "effect_button:EFFECT_BUTTON")(num, display=lab, color=COLOR, **({"text": "own"} if own else {}))
    b = Button(c, appl, a)
    a.update()
    text = "own" if own else ("FX I", "FX II", "FX III", "FX IIII")[num - 1]
    state, rid = False, None
    for i in range(3):
        if c.flag("rig reported %d" % i):
            r = c.int("rig", 0, 624)
            if rid is not None: c.assume(r != rid)
            appl.receive_rig(r)
            c.check("a report sends nothing", appl.sent() == [])
            state, rid = False, r
            c.check_eq("a new rig: switched off", a.state, state)
        c.advance(c.int("pause", 0, 5000))
        c.check_eq("a press toggles", b.push(), [(74 + num, 0 if state else 1)])
        state = not state
        c.check_eq("shown", a.state, state)
        c.check_eq("label", (lab.text, tuple(lab.back_color)), (text, COLOR if state else scale(COLOR, 0.2)))
        c.check_eq("LEDs", (list(b.sw.brightnesses), [tuple(x) for x in b.sw.colors]), ([0.3 if state else 0.02] * 3, [COLOR] * 3))
        c.advance(c.int("held", 0, 5000))
        c.check("released: nothing", b.release() == [])


@harness("C42", targets=["clients.boomerang.actions.boomerang._BOOMERANG_ACTION", "clients.local.actions.rotate.ROTATING_MESSAGES", "clients.local.actions.rotate._CustomMessagesCallback.push",
                         "clients.local.actions.rotate._CustomMessagesCallback._RawMessage.__init__", "clients.local.actions.rotate._CustomMessagesCallback.init", "colors.dim_color",
                         "clients.local.actions.rotate._CustomMessagesCallback.release", "clients.local.actions.rotate._CustomMessagesCallback.update_displays"] +
         ["clients.boomerang.actions.boomerang.BOOMERANG_" + n for n, _, _ in BOOM], params=[x[0] for x in BOOM])
def boomerang(c, name):
    """alternating program changes; the LEDs show which one comes next. After two presses the button is as before: so for any number of presses"""
    p1, p2 = [(x, y) for n, x, y in BOOM if n == name][0]
    leds = c.choice("LEDs", (1, 2, 3))
    appl = Appl()
    class Port:
        log = []
        def send(self, m): self.log.append(list(m.__bytes__()))
    appl.client.midi = port = Port()
    port.log = []
    lab = Label()
    a = c.get(B + ":BOOMERANG_" + name)(display=lab, color=COLOR, text="T", led_brightness_1=0.5, led_brightness_2=0.1, num_leds=leds)
    acts = a if isinstance(a, list) else [a]
    c.check("one action per LED", len(acts) == leds)
    b = ButtonA(c, appl, acts, leds)
    for x in acts: x.update()
    for i in range(2 * leds):
        bright = [0.5 if (leds - 1 - k) == i % leds else 0.1 for k in range(leds)] if leds > 1 else [(0.5, 0.1)[i % 2]]
        c.check_eq("LEDs", [tuple(x) for x in b.sw.colors], [scale(COLOR, f) for f in bright])
        c.check_eq("label", (lab.text, tuple(lab.back_color)), ("T", COLOR))
        c.advance(c.int("pause", 0, 5000))
        b.hw.pushed = True
        b.sw.process()
        c.check_eq("program changes in turns", port.log, [[207, (p1, p2)[i % 2]]])
        port.log = []
        b.hw.pushed = False
        b.sw.process()
        c.check_eq("released: nothing", port.log, [])


class ButtonA:
    def __init__(self, c, appl, acts, n):
        self.sw, self.hw = switch(c, appl, acts, pixels=tuple(range(n)))
        appl.inputs.append(self.sw)


@harness("C42", targets=["clients.local.actions.hid." + x for x in ("HID_KEYBOARD", "HidCallback.__init__", "HidCallback.push", "HidCallback.release", "HidCallback.update_displays", "HidCallback._get_keyboard")])
def keyboard(c):
    """all key codes in order at every press, nothing at release; no keyboard connected: nothing happens"""
    appl = Appl()
    n = c.choice("key codes", (0, 1, 2, 3))
    codes = [c.int("code", 0, 255) for _ in range(n)]
    form = c.choice("given as", ("list", "tuple", "single") if n == 1 else ("list", "tuple"))
    lab = Label()
    a = c.get(L + "hid:HID_KEYBOARD")(codes[0] if form == "single" else tuple(codes) if form == "tuple" else list(codes), display=lab, text="page", color=COLOR, led_brightness=0.25)
    b = ButtonA(c, appl, [a], 3)
    c.g["keyboard"] = []
    a.update()
    c.check_eq("label", (lab.text, tuple(lab.back_color)), ("page", COLOR))
    c.check_eq("LEDs", (list(b.sw.brightnesses), [tuple(x) for x in b.sw.colors]), ([0.25] * 3, [COLOR] * 3))
    for i in range(2):
        gone = c.flag("no keyboard connection %d" % i)
        c.g["keyboard_gone"] = gone
        b.hw.pushed = True
        b.sw.process()
        want = [] if gone else [("send", (k,)) for k in codes]
        c.check_eq("key codes", list(c.g["keyboard"]), want)
        b.sw.process()
        b.hw.pushed = False
        b.sw.process()
        c.check_eq("released: nothing more", list(c.g["keyboard"]), want)
        c.g["keyboard"] = []


@harness("C42", targets=TK2 + ["clients.local.actions.binary_switch.BINARY_SWITCH"], params=("reported", "internal", "lists"))
def binary(c, kind):
    """the generic switch sends exactly the values configured, to exactly the parameter configured, and compares with the reference value given"""
    appl = KApp(c)
    lab = Label()
    on, off, ref = c.int("on", 0, 16383), c.int("off", 0, 16383), c.int("reference", 0, 16383)
    P = c.get("pyswitch.controller.actions:PushButtonAction")
    if kind == "lists":
        m = mapping(c, "two", set=[nrpn(c, 300), nrpn(c, 301)], response=nrpn(c, 300), request=nrpn(c, 300))
        on2, off2 = c.int("on", 0, 16383), c.int("off", 0, 16383)
        a = c.get(L + "binary_switch:BINARY_SWITCH")(mapping=m, value_on=[on, on2], value_off=[off, off2], mode=P.LATCH, text="x", color=COLOR, display=lab)
    elif kind == "internal":
        m = mapping(c, "set only", set=nrpn(c, 300))
        a = c.get(L + "binary_switch:BINARY_SWITCH")(mapping=m, value_on=on, value_off=off, mode=P.LATCH, text="x", color=COLOR, display=lab, use_internal_state=True)
    else:
        m = mapping(c, "reported", set=nrpn(c, 300), response=nrpn(c, 300), request=nrpn(c, 300))
        a = c.get(L + "binary_switch:BINARY_SWITCH")(mapping=m, value_on=on, value_off=off, mode=P.LATCH, text="x", color=COLOR, display=lab, reference_value=ref)
    b = Button(c, appl, a)
    appl.midi.take()
    def sent():
        out = []
        for s in [s for _, s in appl.midi.take()]:
            d = s[2]
            v = d[-2] * 128 + d[-1]
            if len(d) == 8: out.append((d[4] * 128 + d[5], v))
            else: c.check("a request", kind != "internal" and list(d) == [2, 0x7f, 1, 0, 300 // 128, 300 % 128])
        return out
    state, last = False, None
    for i in range(2):
        if kind != "internal" and c.flag("reported %d" % i):
            v = c.int("value", 0, 16383)
            last = renew(c, appl, a, last, v)
            sent()
            appl.client.receive(answer(c, 300, v))
            state = v >= (ref if kind == "reported" else on)
        b.hw.pushed = True
        b.sw.process()
        first = False if state else True
        want = [(300, on if first else off)] + ([(301, on2 if first else off2)] if kind == "lists" else [])
        c.check_eq("pressed", sent(), want)
        state = first
        c.check_eq("shown", (lab.text, tuple(lab.back_color), list(b.sw.brightnesses)), ("x", COLOR if state else scale(COLOR, 0.2), [0.3 if state else 0.02] * 3))
        b.hw.pushed = False
        b.sw.process()
        c.check_eq("released", sent(), [])

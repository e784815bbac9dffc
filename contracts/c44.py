"""Labels and LEDs of the rig, bank and parameter actions, and the display labels: what they show is a function of what the device reported (any
values), the configuration (any rigs and banks) and a pending preselection (any bank, any blink state)."""
from vf.api import *
from .kemper import *
from .c22 import Spec, SHAPES, config

RS, BS, BC, RC = A + "rig_select:", A + "bank_select:", A + "bank_up_down:", A + "rig_up_down:"
CURRENT, TARGET = 10, 20
DIM, LOW, HIGH = .2, .02, .3
X = "clients.kemper.actions."
T_RIG = [X + "rig_select.RIG_SELECT", X + "rig_select._KemperRigSelectCallback.update_displays", X + "rig_select._KemperRigSelectCallback.__get_color",
         X + "rig_select._KemperRigSelectCallback.__get_text", X + "rig_select._KemperRigSelectCallback.init", X + "rig_select._KemperRigSelectCallback.update", "colors.dim_color"]
T_BANK = [X + "bank_select.BANK_SELECT"] + [X + "bank_select.KemperBankSelectCallback." + n for n in ("update_displays", "_get_text", "_get_bank_color", "init", "update", "reset", "state")]
T_CHG = [X + "bank_up_down." + n for n in ("BANK_UP", "BANK_DOWN")] + [X + "bank_up_down.KemperBankChangeCallback." + n for n in ("__init__", "init", "update", "update_displays", "__get_next_bank")]
T_STEP = [X + "rig_up_down." + n for n in ("RIG_UP", "RIG_DOWN")] + [X + "rig_up_down._KemperRigChangeCallback." + n for n in ("__init__", "init", "update_displays", "_get_color", "__get_text", "__get_next_rig")]
WHITE = (255, 255, 255)


def bank_color(c, b):
    """the five bank colors, in turn"""
    cols = c.get("pyswitch.clients.kemper:BANK_COLORS")
    k = b % 5
    return tuple(c.ite(k == 0, p, c.ite(k == 1, q, c.ite(k == 2, r, c.ite(k == 3, s, t)))) for p, q, r, s, t in zip(*cols))


class Look:
    """labels and LEDs of one button"""
    def __init__(self, c, b, lab):
        self.c, self.b, self.lab = c, b, lab
    def check(self, name, text, back, color, bright):
        c = self.c
        if self.lab is not None:
            c.check_eq(name + ": text", self.lab.text, text)
            c.check_eq(name + ": label color", self.lab.back_color, back)
        c.check_eq(name + ": LED color", self.b.sw.colors, [color])
        c.check_eq(name + ": LED brightness", self.b.sw.brightnesses, [bright])


OVER = ("nothing", "fixed", "callbacks")


def overrides(c, kind):
    if kind == "fixed": return dict(text="my text", color=(200, 100, 50))
    if kind == "callbacks": return dict(text_callback=lambda action, b, r: f"<{b}:{r}>", color_callback=lambda action, b, r: (b, r, 7))
    return {}


def shown_text(kind, b, r, default):
    if kind == "fixed": return "my text"
    if kind == "callbacks": return f"<{b}:{r}>"
    return default


def shown_color(kind, b, r, default):
    if kind == "fixed": return (200, 100, 50)
    if kind == "callbacks": return (b, r, 7)
    return default


# rig select

def rig_look(c, s, mode, over, pre, blink):
    """what a rig select button has to show: (text, label color, LED color, LED brightness)"""
    if s.v is None: return ("", scale(WHITE, DIM), WHITE, LOW)
    cb, cr = s.v // 5, s.v % 5
    on = s.active()
    if mode == TARGET and pre is not None: color = bank_color(c, pre)
    elif s.bank is None or mode == CURRENT: color = bank_color(c, cb)
    elif on and s.off_bank is not None: color = bank_color(c, s.off_bank - 1)
    else: color = bank_color(c, s.bank - 1)
    color = shown_color(over, cb, cr, color)
    if mode == CURRENT: b, r = cb, cr
    elif pre is not None: b, r = pre, (cr if s.rig is None else s.rig - 1)
    elif s.bank is not None:
        if on and s.off_rig is not None and s.off_bank is not None: b, r = s.off_bank - 1, s.off_rig - 1
        else: b, r = s.bank - 1, (cr if s.rig is None else s.rig - 1)
    else: b, r = cb, (s.off_rig - 1 if on and s.off_rig is not None else cr if s.rig is None else s.rig - 1)
    text = shown_text(over, b, r, f"Rig {b + 1}-{r + 1}")
    back = color if mode == TARGET and pre is None and on else scale(color, DIM)
    if pre is not None: bright = LOW if blink else HIGH
    else: bright = HIGH if mode == TARGET and on else LOW
    return (text, back, color, bright)


@harness("C44", targets=T_RIG, params=[(m, x, o) for m in (CURRENT, TARGET) for x in SHAPES for o in (*OVER, "no label") if o == "nothing" or x == SHAPES[0]], covers=["reported"])
def rig_select(c, p):
    mode, shape, over = p
    lab = Label() if over != "no label" else None
    s = Spec(c, **config(c, shape), display=lab, display_mode=mode, n=1, **overrides(c, over))
    look = Look(c, s.b, lab)
    cb = s.b.actions[0].callback
    s.b.actions[0].update_displays()
    look.check("nothing reported", *rig_look(c, s, mode, over, None, False))
    s.report(c.int("current", 0, 629))
    c.cover("reported")
    look.check("reported", *rig_look(c, s, mode, over, None, False))
    if c.flag("preselected"):
        pre, blink = c.int("preselected", 0, 125), c.flag("blink")
        s.appl.shared["preselectedBank"] = pre
        s.appl.shared["preselectBlinkState"] = blink
        s.appl.update()
        look.check("preselected", *rig_look(c, s, mode, over, pre, blink))
        s.appl.shared["preselectBlinkState"] = not blink
        s.appl.update()
        look.check("blinking", *rig_look(c, s, mode, over, pre, not blink))
    else:
        s.lost()
        look.check("lost", *rig_look(c, s, mode, over, None, False))


P = "_KemperRigSelectCallback__"


@harness("C44", targets=T_RIG, kind="induction", params=[(m, x) for m in (CURRENT, TARGET) for x in SHAPES if "auto" in x])
def auto_looks(c, p):
    """any history before: whatever the automatic off rig and off bank are, after one more report the button shows the right ones"""
    from .c22 import FIELDS
    mode, shape = p
    lab = Label()
    s = Spec(c, **config(c, shape), display=lab, display_mode=mode, n=1)
    if c.flag("known"): s.report(c.int("before", 0, 629))
    if s.auto_rig and s.rig is not None: s.off_rig = c.int("off rig remembered", 1, 5)
    if s.auto_bank: s.off_bank = c.int("off bank remembered", 1, 126)
    c.inject(s.b.actions[0].callback, {P + "rig_off": s.off_rig, P + "bank_off": s.off_bank}, FIELDS)
    v = c.int("current", 0, 629)
    if s.v is not None: c.assume(v != s.v)
    s.report(v)
    Look(c, s.b, lab).check("reported", *rig_look(c, s, mode, "nothing", None, False))


# bank select

@harness("C44", targets=T_BANK, params=[(m, o, k) for m in (CURRENT, TARGET) for o in OVER for k in ("plain", "toggle", "preselect", "no label") if k != "no label" or o == OVER[0]], covers=["reported"])
def bank_select(c, p):
    mode, over, kind = p
    lab = Label() if kind != "no label" else None
    appl = KApp(c)
    own = c.int("bank", 1, 126)
    off = c.int("bank off", 1, 126) if kind == "toggle" else None
    b = Button(c, appl, c.get(BS + "BANK_SELECT")(bank=own, bank_off=off, preselect=kind == "preselect", display_mode=mode, display=lab, **overrides(c, over)), n=1)
    a = b.actions[0]
    look = Look(c, b, lab)
    a.update_displays()
    look.check("nothing reported", "", scale(WHITE, DIM), WHITE, LOW)

    def want(v, on):
        cb, cr = v // 5, v % 5
        here = c.is_true(cb == own - 1)
        if mode == CURRENT: color = bank_color(c, cb)
        else: color = bank_color(c, (off if off is not None and here else own) - 1)
        color = shown_color(over, cb, cr, color)
        shown = cb if mode == CURRENT else off - 1 if off is not None and on else own - 1
        full = mode == TARGET and on
        return (shown_text(over, shown, cr, f"Bank {shown + 1}"), color if full else scale(color, DIM), color, HIGH if full else LOW)
    v = None
    for i in range(2):
        v = c.int("current", 0, 629)
        appl.receive_rig(v)
        c.cover("reported")
        look.check("reported", *want(v, c.is_true(v // 5 == own - 1)))
    if kind == "preselect":
        pre, blink = c.int("preselected", 0, 125), c.flag("blink")
        appl.shared["preselectedBank"], appl.shared["preselectBlinkState"] = pre, blink
        a.reset()
        a.update_displays()
        mine = c.is_true(pre == own - 1)
        look.check("preselected", *want(v, blink if mine else c.is_true(v // 5 == own - 1)))
        if mine:
            c.advance(c.int("time passing", 401, 5000))
            appl.update()
            appl.update()
            c.check("blinks", appl.shared["preselectBlinkState"] == (not blink))
            look.check("blinking", *want(v, not blink))


# bank up and down

@harness("C44", targets=T_CHG, params=[(n, m, o, d) for n in ("BANK_UP", "BANK_DOWN") for m in (CURRENT, TARGET) for o in OVER for d in ("off", "on", .5) if d == "off" or o == OVER[0]], covers=["reported"])
def bank_up_down(c, p):
    name, mode, over, level = p
    lab = Label() if c.flag("label") else None
    appl = KApp(c)
    top = c.int("highest bank", 1, 125) if c.flag("highest bank given") else None
    n = 125 if top is None else top
    pres = c.flag("preselecting")
    over_ = overrides(c, over)
    b = Button(c, appl, c.get(BC + name)(display=lab, dim_factor=level, led_brightness=level, display_mode=mode, preselect=pres, max_bank=top, **over_), n=1)
    a = b.actions[0]
    look = Look(c, b, lab)
    default = "my text" if over == "fixed" else "Bank up" if name == "BANK_UP" else "Bank dn"
    dim = {"off": DIM, "on": 1, .5: .5}[level]
    bright = {"off": LOW, "on": HIGH, .5: .5}[level]
    other = {"off": HIGH, "on": LOW, .5: .05}[level]
    a.update_displays()
    look.check("nothing reported", default, scale(WHITE, dim), WHITE, bright)
    d = 1 if name == "BANK_UP" else -1

    def want(v, pre, level):
        cb, cr = v // 5, v % 5
        base = cb if pre is None else pre
        target = (base + d) % n
        shown = cb if mode == CURRENT else target
        color = shown_color(over, cb, cr, bank_color(c, shown))
        return (f"<{shown}:{cr}>" if over == "callbacks" else default, scale(color, dim), color, level)
    v = c.int("current", 0, 624)
    c.assume(v // 5 < n)
    appl.receive_rig(v)
    c.cover("reported")
    look.check("reported", *want(v, None, bright))
    if pres:
        b.push()
        b.release()
        pre = appl.shared["preselectedBank"]
        c.check_eq("preselected", pre, (v // 5 + d) % n)
        a.update_displays()
        look.check("preselected", *want(v, pre, bright))
        for i in range(2):
            c.advance(c.int("time passing", 401, 5000))
            appl.update()
            look.check("blinking", *want(v, pre, other if i == 0 else bright))


# rig up and down

@harness("C44", targets=T_STEP, params=[(n, m, o, k) for n in ("RIG_UP", "RIG_DOWN") for m in (CURRENT, TARGET) for o in OVER for k in (True, False)], covers=["reported"])
def rig_up_down(c, p):
    name, mode, over, keep = p
    lab = Label() if c.flag("label") else None
    appl = KApp(c)
    b = Button(c, appl, c.get(RC + name)(display=lab, display_mode=mode, keep_bank=keep, **overrides(c, over)), n=1)
    look = Look(c, b, lab)
    b.actions[0].update_displays()
    look.check("nothing reported", "", (50, 50, 50), WHITE, HIGH)
    v = c.int("current", 0, 624)
    appl.receive_rig(v)
    c.cover("reported")
    d = 1 if name == "RIG_UP" else -1
    if mode == CURRENT: w = v
    elif keep: w = c.ite(v % 5 == (4 if d == 1 else 0), v, v + d)
    else: w = (v + d) % 625
    color = shown_color(over, v // 5, v % 5, bank_color(c, w // 5))
    look.check("reported", shown_text(over, w // 5, w % 5, f"Rig {w // 5 + 1}-{w % 5 + 1}"), color, color, HIGH)


# rig name label

N = "clients.kemper.KemperRigNameCallback."


def report_name(c, appl, cb, name, n):
    """rig date (any new one), then, as requested, the rig name"""
    K = c.get("pyswitch.clients.kemper:KemperMappings")
    cb.update()
    for m, text in ((K.RIG_DATE(), "2024-01-%02d" % n), (K.RIG_NAME(), name)):
        appl.client.receive(sysex(c, list(m.response.manufacturer_id), list(m.response.data)[:6] + [ord(x) for x in text] + [0]))


@harness("C44", targets=[N + x for x in ("__init__", "init", "update", "update_label")], params=[(n, i) for n in (True, False) for i in (False, "rig", "bank", True) if n or i])
def rig_name(c, p):
    """name and number of the rig, or the bank being preselected"""
    show, num = p
    appl = KApp(c)
    lab = Label()
    kw = {k: v for k, v, default in (("show_name", show, True), ("show_rig_id", num, False)) if v is not default or c.flag("explicitly")}
    cb = c.get("pyswitch.clients.kemper:KemperRigNameCallback")(**kw)

    class L:
        def parameter_changed(self, m): cb.update_label(lab)
        def request_terminated(self, m): cb.update_label(lab)
    cb.init(appl, L())
    name, v = None, None

    def want():
        n = name if name else c.get("pyswitch.clients.kemper:KemperRigNameCallback").DEFAULT_TEXT
        if v is None or not num: return n if show else None
        b, r = v // 5 + 1, v % 5 + 1
        i = f"{r}" if num == "rig" else f"{b}" if num == "bank" else f"{b}-{r}"
        return f"{i} {n}" if show else i
    cb.update_label(lab)
    c.check_eq("nothing reported", lab.text, want())
    cb.update()
    if c.flag("rig reported"):
        v = c.int("current", 0, 629)
        appl.receive_rig(v)
        if not num: v = None
    if show and c.flag("name reported"):
        name = c.choice("name", ("My Rig", "x", "A rig with a long name 12"))
        report_name(c, appl, cb, name, 1)
    c.check_eq("reported", lab.text, want())
    if c.flag("preselected"):
        for i in range(2):
            b = c.int("preselected", 0, 125)
            appl.shared["preselectedBank"] = b
            cb.update()
            c.check_eq("preselected", lab.text, f"Bank {b + 1}")
            cb.update()
            c.check_eq("still preselected", lab.text, f"Bank {b + 1}")
        del appl.shared["preselectedBank"]
        cb.update()
    if num:
        v = c.int("then", 0, 629)
        appl.receive_rig(v)
    cb.update()
    if show:
        name = "Next"
        report_name(c, appl, cb, name, 2)
    c.check_eq("the next rig", lab.text, want())
    if show and c.flag("lost"):
        cb.request_terminated(c.get("pyswitch.clients.kemper:KemperMappings").RIG_NAME())
        name = None
        c.check_eq("name lost", lab.text, want())


# parameter values

PD = "controller.callbacks.parameter_display.ParameterDisplayCallback."


@harness("C44", targets=[PD + "__init__", PD + "update_label", "clients.kemper.callbacks.tempo_bpm.KemperTempoDisplayCallback.__init__", "clients.kemper.mappings.tempo_bpm.convert_bpm"],
         params=("plain", "converted", "partly", "tempo"))
def parameter_label(c, kind):
    """the value of a parameter, converted if a conversion is given, or the default text"""
    appl = KApp(c)
    lab = Label()
    cls = c.get("pyswitch.controller.callbacks.parameter_display:ParameterDisplayCallback")
    m = mapping(c, "shown", set=nrpn(c, 77), request=nrpn(c, 77), response=nrpn(c, 77))
    if kind == "plain": cb = cls(mapping=m, default_text="none")
    elif kind == "converted": cb = cls(mapping=m, convert_value=lambda v: "?" if v is None else f"[{v}]", default_text="none")
    elif kind == "partly": cb = cls(mapping=m, convert_value=lambda v: "big" if v is not None and v > 100 else None, default_text="none")
    else:
        cb = c.get("pyswitch.clients.kemper.callbacks.tempo_bpm:KemperTempoDisplayCallback")()
        m = other(c, "tempo_bpm", "MAPPING_TEMPO_BPM")

    class L:
        def parameter_changed(self, m): cb.update_label(lab)
        def request_terminated(self, m): cb.update_label(lab)
    cb.init(appl, L())
    cb.update_label(lab)
    c.check_eq("nothing reported", lab.text, {"plain": "none", "converted": "?", "partly": "none", "tempo": ""}[kind])
    for _ in range(2):
        cb.update()
        v = c.int("value", 0, 16383)
        appl.client.receive(sysex(c, list(m.response.manufacturer_id), list(m.response.data)[:6] + [v // 128, v % 128]))
        if kind == "plain": c.check_eq("value", lab.text, f"{v}")
        elif kind == "converted": c.check_eq("converted", lab.text, f"[{v}]")
        elif kind == "partly": c.check_eq("converted if possible", lab.text, "big" if c.is_true(v > 100) else f"{v}")
        else: c.check_eq("tempo in bpm, to the nearest", lab.text, f"{nearest(c, v, 64)} bpm")


def other(c, mod, name): return c.get("pyswitch.clients.kemper.mappings.%s:%s" % (mod, name))()


def nearest(c, v, n):
    """v / n to the nearest whole number, halves to the even one (Python's round)"""
    q, r = v // n, 2 * (v % n)
    return c.ite(c.any([r > n, c.all([r == n, q % 2 == 1])]), q + 1, q)


@harness("C44", targets=["clients.kemper.actions.rig_transpose._convert_transpose", "clients.kemper.actions.bank_select_encoder._convert_value", "clients.kemper.actions.tempo_bpm._convert_value"])
def conversions(c):
    v = c.int("transpose", 0, 127)
    d = v - 64
    c.check_eq("transpose: half steps with sign", c.get(A + "rig_transpose:_convert_transpose")(v), f"Transpose: {'+' if c.is_true(d > 0) else ''}{d}")
    b = c.int("bank", 0, 125)
    c.check_eq("bank from one", c.get(A + "bank_select_encoder:_convert_value")(b), f"Bank {b + 1}")
    t = c.int("tempo", 0, 16383)
    c.check_eq("tempo", c.get(A + "tempo_bpm:_convert_value")(t), f"{nearest(c, t, 64)} bpm")


@harness("C44", targets=["clients.kemper.actions.amp._convert_gain", "clients.kemper.callbacks.convert_volume.convert_volume"], kind="enumeration", random_runs=1)
def decimals(c):
    """texts with a decimal: all values"""
    gain, vol = c.get(A + "amp:_convert_gain"), c.get("pyswitch.clients.kemper.callbacks.convert_volume:convert_volume")
    for v in range(16384):
        t = gain(v)
        x = float(t[len("Gain: "):])
        if not (t.startswith("Gain: ") and abs(x - v * 10 / 16383) <= .0501 and t == "Gain: %.1f" % x): return c.check("gain 0 to 10, one decimal", False, info="%r: %r" % (v, t))
    c.check("gain 0 to 10, one decimal", True)
    last = None
    for off in (0, 6, -3.5):
        last = None
        for v in range(0, 128):
            t = vol(v, off)
            ok = t.endswith("dB") and (t[0] == "+") == (float(t[:-2]) > 0)
            x = float(t[:-2])
            if not ok or (last is not None and x < last): return c.check("volume in dB: rising, with sign", False, info="%r: %r" % (v, t))
            if v == 100 and abs(x - off) > .051: return c.check("volume in dB: the offset at 100", False, info=t)
            last = x
    c.check("volume in dB: rising, with sign", True)
    c.check("volume in dB: the offset at 100", True)


# tempo action

TE = "clients.kemper.actions.tempo."


@harness("C44", targets=[TE + "SHOW_TEMPO"] + [TE + "_KemperShowTempoCallback." + x for x in ("__init__", "update_displays", "update", "reset")], params=("label", "preview", "both", "neither"))
def tempo(c, kind):
    """LED on every beat, the tempo in the label; a changed tempo (not the first one, not the one of a new rig) in the preview label"""
    tempo_history(c, kind, 3, ("beat", "tempo", "rig"))


@harness("C44", targets=[TE + "SHOW_TEMPO"] + [TE + "_KemperShowTempoCallback." + x for x in ("__init__", "update_displays", "update", "reset")], bounds="5 changes of tempo and rig")
def tempo_and_rigs(c):
    """the preview of a changed tempo over several rigs"""
    tempo_history(c, "preview", 5, ("tempo", "rig"))


def tempo_history(c, kind, n, ops):
    appl = KApp(c)
    lab = Label() if kind in ("label", "both") else None
    pre = PreviewLabel() if kind in ("preview", "both") else None
    bright = .02
    b = Button(c, appl, c.get(A + "tempo:SHOW_TEMPO")(display=lab, change_display=pre, text="T {bpm}", color=(9, 8, 7)), n=1)
    a = b.actions[0]
    m = other(c, "tempo_bpm", "MAPPING_TEMPO_BPM")
    beat = other(c, "tempo", "MAPPING_TEMPO_DISPLAY")
    shown, last, at, rig_ = None, None, None, None
    if pre is not None: pre.text = "before"
    for i in range(n):
        op = c.choice("op", ops)
        if op == "beat":
            v = c.flag("on the beat")
            appl.client.receive(sysex(c, list(beat.response.manufacturer_id), list(beat.response.data)[:6] + [0, 1 if v else 0]))
            c.check_eq("LED on the beat", b.sw.brightnesses, [bright if v else 0])
            c.check_eq("LED color", b.sw.colors, [(9, 8, 7)])
        elif op == "rig":
            rig_ = c.int("rig", 0, 624)
            appl.receive_rig(rig_)
        else:
            appl.update()
            t = c.int("tempo", 0, 16383)
            if last is not None: c.assume(t != last)
            appl.client.receive(sysex(c, list(m.response.manufacturer_id), list(m.response.data)[:6] + [t // 128, t % 128]))
            text = f"T {nearest(c, t, 64)}"
            if lab is not None:
                c.check_eq("tempo in the label", lab.text, text)
                c.check_eq("color of the label", lab.back_color, (9, 8, 7))
            if pre is not None:
                same = last is not None and ((rig_ is None and at is None) or (rig_ is not None and at is not None and c.is_true(rig_ == at)))
                if same:
                    shown = text
                c.check_eq("preview of a changed tempo only", pre.text, "before" if shown is None else shown)
            last, at = t, rig_
    c.check("nothing is sent", all(s[0] != "cc" for s in appl.midi.take()))


class PreviewLabel(Label):
    """label used for previews (previews: C27)"""
    def __init__(self):
        super().__init__()
        self.override_text = None
        self.text_color = (1, 2, 3)
    def update_label(self): self.text = self.override_text if self.override_text else "restored"


# parameter up / down

PU = "clients.local.actions.param_change."


@harness("C44", targets=[PU + "PARAMETER_UP_DOWN"] + [PU + "_ParameterChangeCallback." + x for x in ("__init__", "reset", "update_displays")], params=[(k, d, l) for k in ("sysex", "cc", "max") for d in (1, -1) for l in ("label", "dark label", "no label")])
def up_down(c, p):
    """percentage of the maximum; color and LED get brighter towards the end the button moves to"""
    kind, d, l = p
    appl = KApp(c)
    lab = Label() if l != "no label" else None
    if l == "label": lab.back_color = (1, 1, 1)
    m = mapping(c, "moved", set=cc(c, 20, 0) if kind == "cc" else nrpn(c, 77), request=None, response=cc(c, 20, 0) if kind == "cc" else nrpn(c, 77))
    kw = dict(max_value=1000) if kind == "max" else {}
    top = {"cc": 127, "sysex": 16383, "max": 1000}[kind]
    b = Button(c, appl, c.get("pyswitch.clients.local.actions.param_change:PARAMETER_UP_DOWN")(mapping=m, offset=d * 5, display=lab, text="at {val}%", color=(200, 100, 0), led_brightness=.4, **kw), n=1)
    a = b.actions[0]

    def check(name, v):
        f = 0 if v is None else v / top
        if d < 0: f = 1 - f
        if lab is not None:
            c.check_eq(name + ": text", lab.text, "at ?%" if v is None else f"at {nearest(c, v * 200, 2 * top)}%")
            c.check_eq(name + ": label color", lab.back_color, None if l == "dark label" else tuple(trunc(x * f) for x in (200, 100, 0)))
        c.check_eq(name + ": LED color", b.sw.colors, [(200, 100, 0)])
        c.check_eq(name + ": LED brightness", b.sw.brightnesses, [f * .4])
    a.update()
    for i in range(2):
        v = c.int("value", 0, top)
        appl.client.receive(cc(c, 20, v) if kind == "cc" else answer(c, 77, v))
        check("reported", v)
    a.callback.request_terminated(m)
    check("lost", None)


@harness("C44", targets=["ui.elements.BidirectionalProtocolState." + x for x in ("__init__", "init", "update")] + ["clients.kemper.KemperBidirectionalProtocol.get_color"], params=(True, False))
def session_dot(c, bidirectional):
    """a dot in the upper right corner: green while the session is established, red otherwise"""
    from .c18 import Spec as Session, PMidi, CL, MAN
    ses = Session(c, 30, False)
    from .c19 import bidi
    appl = Appl()
    appl.client = bidi(c, Midi(c), ses.p) if bidirectional else client(c, Midi(c))
    ses.p.init(PMidi(ses.log), CL(ses.log))
    B = c.get("pyswitch.ui.ui:DisplayBounds")
    x, y, w = c.int("x", 0, 500), c.int("y", 0, 500), c.int("width", 10, 500)
    dot = c.get("pyswitch.ui.elements:BidirectionalProtocolState")(bounds=B(x, y, w, 100))
    drawn = []
    class Ui:
        class splash:
            append = staticmethod(drawn.append)
    dot.init(Ui, appl)
    dot.update()
    if not bidirectional:
        c.check("without a session there is no dot", drawn == [])
        return
    c.check("one dot", len(drawn) == 1)
    r = drawn[0]
    c.check("inside the area", c.all([r.x >= x, r.y >= y, r.x + r.width <= x + w, r.y + r.height <= y + 100]))
    green, red = (0, 255, 0), (255, 0, 0)
    c.check_eq("red at the start", r.fill, red)
    c.advance(c.int("t0", 5001, 6000))
    ses.update()
    dot.update()
    c.check_eq("red until the device answers", r.fill, red)
    for i in range(2):
        for what in c.choice("what", (("answer",), ("silence",), ("init", "answer"))):
            if what == "answer":
                ses.sense(sysex(c, MAN, [0, 0, 0x7e, 0, 0x7f]), True)
            else:
                c.advance(c.int("dt", 0, 6000))
                ses.update()
            dot.update()
            c.check_eq("green exactly while established", r.fill, green if ses.running else red)

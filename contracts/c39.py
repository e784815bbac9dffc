"""The table of predefined Kemper parameters: all of them (discovered in the mapping modules), all slots, rigs and buttons; any values."""
from vf.api import *
from .lib import *

K = "pyswitch.clients.kemper"
MODS = ("amp", "bank", "cabinet", "effects", "fixed_fx", "freeze", "looper", "morph", "pedals", "rig", "rotary", "select", "system", "tempo", "tempo_bpm")
T = ["clients.kemper.KemperMappings." + x for x in ("EFFECT_STATE", "EFFECT_TYPE", "RIG_DATE", "RIG_NAME", "TUNER_MODE_STATE", "TUNER_NOTE", "TUNER_DEVIANCE", "BIDIRECTIONAL_SENSING", "RIG_ID")] + \
    ["clients.kemper.KemperNRPNMessage.__init__", "clients.kemper.KemperNRPNExtendedMessage.__init__", "controller.client.ClientParameterMapping.parse_against",
     "controller.client.ClientParameterMapping.set_value"] + ["clients.kemper.mappings." + x for x in (
        "amp.MAPPING_AMP_NAME", "amp.MAPPING_AMP_STATE", "amp.MAPPING_AMP_GAIN", "bank.MAPPING_NEXT_BANK", "bank.MAPPING_PREVIOUS_BANK", "cabinet.MAPPING_CABINET_NAME",
        "cabinet.MAPPING_CABINET_STATE", "effects.MAPPING_EFFECT_BUTTON", "effects.MAPPING_DLY_REV_MIX", "fixed_fx._MAPPING_FIXED", "freeze.MAPPING_FREEZE",
        "morph.MAPPING_MORPH_BUTTON", "morph.MAPPING_MORPH_PEDAL", "rig.MAPPING_RIG_COMMENT", "rig.MAPPING_RIG_VOLUME", "rig.MAPPING_RIG_TRANSPOSE", "rotary.MAPPING_ROTARY_SPEED",
        "select.MAPPING_RIG_SELECT", "select.MAPPING_BANK_SELECT", "system.MAPPING_MAIN_VOLUME", "system.MAPPING_MONITOR_VOLUME", "system.MAPPING_LOOPER_VOLUME",
        "system.MAPPING_SPACE_INTENSITY", "tempo.MAPPING_TAP_TEMPO", "tempo_bpm.MAPPING_TEMPO_BPM")]

MAN = [0, 0x20, 0x33]
ARGS = {"slot_id": range(10), "num": range(1, 5), "rig": range(5)}
SLOTS = ("A", "B", "C", "D", "X", "MOD", "DLY", "REV", "DLYns", "REVns")
PAGE = (0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d, 0x3c, 0x3d)
STATE_CC = (17, 18, 19, 20, 22, 24, 27, 29, 26, 28)
FREEZE = (0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x71, 0x72, 0x73, 0x72, 0x73)

# Kemper MIDI documentation: (page, number) of parameters, controller numbers of set messages
ADDRESS = {"MAPPING_AMP_NAME": (0, 0x10), "MAPPING_AMP_STATE": (0x0a, 2), "MAPPING_AMP_GAIN": (0x0a, 4), "MAPPING_CABINET_NAME": (0, 0x20), "MAPPING_CABINET_STATE": (0x0c, 2),
           "MAPPING_FIXED_TRANSPOSE": (5, 1), "MAPPING_FIXED_GATE": (5, 6), "MAPPING_FIXED_COMP": (5, 11), "MAPPING_FIXED_BOOST": (5, 16), "MAPPING_FIXED_WAH": (5, 21),
           "MAPPING_FIXED_CHORUS": (5, 26), "MAPPING_FIXED_AIR": (5, 36), "MAPPING_FIXED_DBL_TRACKER": (5, 41), "MAPPING_MORPH_BUTTON": (0, 0x0b), "MAPPING_MORPH_PEDAL": (0, 0x0b),
           "MAPPING_RIG_COMMENT": (0, 4), "MAPPING_RIG_VOLUME": (4, 1), "MAPPING_RIG_TRANSPOSE": (4, 4), "MAPPING_MAIN_VOLUME": (0x7f, 0), "MAPPING_MONITOR_VOLUME": (0x7f, 2),
           "MAPPING_LOOPER_VOLUME": (0x7f, 52), "MAPPING_SPACE_INTENSITY": (0x7f, 36), "MAPPING_TEMPO_BPM": (4, 0), "RIG_DATE": (0, 3), "RIG_NAME": (0, 1),
           "TUNER_MODE_STATE": (0x7f, 0x7e), "TUNER_NOTE": (0x7d, 0x54), "TUNER_DEVIANCE": (0x7c, 0x0f), "MAPPING_TEMPO_DISPLAY": (0x7c, 0)}
SET_CC = {"MAPPING_NEXT_BANK": 48, "MAPPING_PREVIOUS_BANK": 49, "MAPPING_BANK_SELECT": 47, "MAPPING_MORPH_BUTTON": 80, "MAPPING_MORPH_PEDAL": 11, "MAPPING_WAH_PEDAL": 1,
          "MAPPING_VOLUME_PEDAL": 7, "MAPPING_PITCH_PEDAL": 4, "MAPPING_DELAY_MIX_PEDAL": 68, "MAPPING_DELAY_FEEDBACK_PEDAL": 69, "MAPPING_REVERB_MIX_PEDAL": 70,
          "MAPPING_REVERB_TIME_PEDAL": 71, "MAPPING_VOLUME_OUTPUT_PEDAL": 73, "MAPPING_TAP_TEMPO": 30, "TUNER_MODE_STATE": 31, "MAPPING_FREEZE_ALL_GLOBAL": 35}
LOOPER = {"MAPPING_LOOPER_REC_PLAY_OVERDUB": 88, "MAPPING_LOOPER_STOP": 89, "MAPPING_LOOPER_TRIGGER": 90, "MAPPING_LOOPER_REVERSE": 91, "MAPPING_LOOPER_HALF_SPEED": 92,
          "MAPPING_LOOPER_CANCEL": 93, "MAPPING_LOOPER_ERASE": 94}

# what there has to be at least: parameters which can only be received, only be set, be set but not be asked for, be asked for but not be set; all others can be set and asked for
RECEIVED = ("BIDIRECTIONAL_SENSING", "TUNER_DEVIANCE", "TUNER_NOTE", "MAPPING_TEMPO_DISPLAY", "RIG_ID")
ONLY_SET = ("MAPPING_EFFECT_BUTTON", "MAPPING_TAP_TEMPO") + tuple(n for n in SET_CC if n.endswith("_PEDAL") and n != "MAPPING_MORPH_PEDAL") + tuple(LOOPER)
NOT_ASKED = ("TUNER_MODE_STATE", "MAPPING_NEXT_BANK", "MAPPING_PREVIOUS_BANK", "MAPPING_BANK_SELECT", "MAPPING_RIG_SELECT", "MAPPING_FREEZE_ALL_GLOBAL")
NOT_SET = ("EFFECT_TYPE", "RIG_DATE", "RIG_NAME", "MAPPING_AMP_NAME", "MAPPING_CABINET_NAME", "MAPPING_RIG_COMMENT")
KNOWN = set(ADDRESS) | set(SET_CC) | set(LOOPER) | {"EFFECT_STATE", "EFFECT_TYPE", "RIG_ID", "BIDIRECTIONAL_SENSING", "MAPPING_DLY_REV_MIX", "MAPPING_FREEZE", "MAPPING_ROTARY_SPEED", "MAPPING_RIG_SELECT",
                                                    "MAPPING_EFFECT_BUTTON"}


def needs(name):
    return (name not in RECEIVED + NOT_SET, name not in RECEIVED + ONLY_SET + NOT_ASKED, name not in ONLY_SET)


def factories(c):
    """[(name, argument or None, function)] of all predefined parameters"""
    out = []
    def add(name, f):
        args = f.__code__.co_varnames[:f.__code__.co_argcount]
        if not args: out.append((name, None, f))
        elif len(args) == 1 and args[0] in ARGS: out.extend((name, a, f) for a in ARGS[args[0]])
        else: raise ShapeMismatch("unknown parameter factory " + name)
    KM = c.get(K + ":KemperMappings")
    for n in sorted(vars(KM)):
        if n.isupper() and not n.startswith("_"): add(n, getattr(KM, n))
    for mod in MODS:
        m = c.mod(K + ".mappings." + mod)
        for n in sorted(vars(m)):
            if n.startswith("MAPPING_") and callable(getattr(m, n)) and not isinstance(getattr(m, n), type): add(n, getattr(m, n))
    return out


def device_parameter(name, arg):
    """what the device sees: names of different ways to the same device parameter are equal"""
    if name == "MAPPING_MORPH_BUTTON": name = "MAPPING_MORPH_PEDAL"
    if arg is not None and "BUTTON" not in name and "SELECT" not in name and arg >= 8: arg -= 2      # without spillover
    return (name, arg)


def is_sysex(m): return hasattr(m, "manufacturer_id")


@harness("C39", targets=T, kind="enumeration", random_runs=1)
def table(c):
    """all parameters"""
    P = c.get("pyswitch.controller.client:ClientParameterMapping")
    seen, req = {}, {}
    fs = factories(c)
    for n in list(ADDRESS) + list(SET_CC) + list(LOOPER) + ["EFFECT_STATE", "EFFECT_TYPE", "MAPPING_DLY_REV_MIX", "MAPPING_ROTARY_SPEED", "MAPPING_FREEZE"]:
        if n not in [f[0] for f in fs]: raise ShapeMismatch("parameter missing: " + n)
    for name, arg, f in fs:
        m = f() if arg is None else f(arg)
        tag = name if arg is None else "%s(%d)" % (name, arg)
        c.check("asking again returns the same parameter", (f() if arg is None else f(arg)) is m, lambda: tag)
        c.check("different parameters are different objects", id(m) not in seen, lambda: "%s and %s" % (tag, seen[id(m)]))
        seen[id(m)] = tag
        r, q, s = m.response, m.request, m.set
        if name in KNOWN:
            ok = [x is not None or not n for x, n in zip((s, q, r), needs(name))]
            c.check("it can be set, asked for and answered", ok == [True] * 3, lambda: "%s: %r" % (tag, ok))
            if ok != [True] * 3: continue
        for x in (r, q, s):
            if is_sysex(x): c.check("manufacturer", list(x.manufacturer_id) == MAN)
        if q is not None:
            d, e = list(q.data), list(r.data)
            c.check("answer from the address asked for", d[3:6] == e[3:6] and len(d) == 6 and len(e) == 6, lambda: "%s: %r, %r" % (tag, d, e))
            c.check("function code of the answer", (d[2], e[2]) in ((0x41, 0x01), (0x43, 0x03)), lambda: "%s: %r, %r" % (tag, d, e))
            c.check("text parameters have text codes", (m.type == P.PARAMETER_TYPE_STRING) == (d[2] == 0x43), lambda: tag)
            key = tuple(d[2:6])
            c.check("no other parameter has the address", req.setdefault(key, device_parameter(name, arg)) == device_parameter(name, arg), lambda: "%s and %r" % (tag, req[key]))
            c.check("product and device", d[:2] == [2, 0x7f], lambda: tag)
        if name in NOT_SET and name not in ("EFFECT_TYPE", "RIG_DATE"): c.check("texts are only asked for when the rig has changed", m.depends is c.get(K + ":KemperMappings").RIG_DATE(), lambda: tag)
        if is_sysex(s):
            d = list(s.data)
            c.check("set message", d[:4] == [2, 0x7f, 1, 0], lambda: tag)
            if r is not None: c.check("set at the address of the answer", d[4:6] == list(r.data)[4:6], lambda: tag)
        if name in ADDRESS: c.check("documented address", tuple(list(r.data)[4:6]) == ADDRESS[name] or (name == "MAPPING_TEMPO_DISPLAY" and list(r.data)[4:7] == [0x7c, 0, 0]) , lambda: tag)
        if name in SET_CC: c.check("documented controller number", not is_sysex(s) and s.control == SET_CC[name], lambda: tag)
        if name in LOOPER: c.check("documented address", list(s.data)[4:6] == [0x7d, LOOPER[name]], lambda: tag)
        # parameters of slots, rigs and buttons
        if name == "EFFECT_STATE": c.check("slot state", s.control == STATE_CC[arg] and list(q.data)[4:6] == [PAGE[arg], 3], lambda: tag)
        if name == "EFFECT_TYPE": c.check("slot type", s is None and list(q.data)[4:6] == [PAGE[arg], 0], lambda: tag)
        if name == "MAPPING_DLY_REV_MIX": c.check("slot mix", list(q.data)[4:6] == [PAGE[arg], 0x45], lambda: tag)
        if name == "MAPPING_ROTARY_SPEED": c.check("slot rotary speed", list(q.data)[4:6] == [PAGE[arg], 0x1e], lambda: tag)
        if name == "MAPPING_FREEZE": c.check("slot freeze", list(q.data)[4:6] == [0x7d, FREEZE[arg]], lambda: tag)
        if name == "MAPPING_EFFECT_BUTTON": c.check("effect button", s.control == 74 + arg, lambda: tag)
        if name == "MAPPING_RIG_SELECT": c.check("rig button", s.control == 50 + arg, lambda: tag)
        two = name in ("RIG_ID", "MAPPING_RIG_SELECT", "MAPPING_BANK_SELECT", "MAPPING_NEXT_BANK", "MAPPING_PREVIOUS_BANK")
        if two: c.check("current rig", [type(x).__name__ for x in r] == ["ControlChange", "ProgramChange"] and r[0].control == 32, lambda: tag)


@harness("C39", targets=T, params=range(8))
def answers(c, part):
    """any value in the answer to a parameter reaches exactly this parameter (and the other ways to it); any value set has the right address"""
    fs = factories(c)
    ms = [(n, a, (f() if a is None else f(a))) for n, a, f in fs]
    P = c.get("pyswitch.controller.client:ClientParameterMapping")
    ms = [x for x in ms if is_sysex(x[2].response)]
    v = c.int("value", 0, 16383)
    own = [x for x in ms if len(list(x[2].response.data)) >= 6][part::8]        # the sensing message has no value
    n, a, m = own[c.choice("parameter", range(len(own)))]
    d = list(m.response.data)
    same = tuple(d[2:6])
    msg = sysex(c, MAN, [0, 0] + d[2:] + ([v // 128, v % 128] if m.type != P.PARAMETER_TYPE_STRING else [65, 66, 0]))
    for n2, a2, m2 in ms:
        m2.value = None
        hit = m2.parse(msg)
        if tuple(list(m2.response.data)[2:6]) == same:
            c.check("taken by the parameter", hit is True)
            if m.type == P.PARAMETER_TYPE_STRING: c.check("the text", m2.value == "AB")
            else: c.check("the value", c.eq(m2.value, v))
            c.check("only one device parameter", device_parameter(n, a) == device_parameter(n2, a2), lambda: "%s %s" % (n, n2))
        else: c.check("not taken by others", hit is not True and m2.value is None)
    if m.set is not None:
        midi = Midi(c)
        client(c, midi).set(m, v if is_sysex(m.set) else v % 128)
        got = [x for _, x in midi.take()]
        want = ("SystemExclusive", MAN, [2, 0x7f, 1, 0] + d[4:6] + [v // 128, v % 128]) if is_sysex(m.set) else ("ControlChange", m.set.control, v % 128)
        c.check_eq("set message sent", got, [want])

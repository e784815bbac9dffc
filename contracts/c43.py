"""Internal morph state: any state before, any current rig, every kind of button which selects rigs or banks; press and release."""
from vf.api import *
from .kemper import *
from .c22 import SHAPES, config

RS = "clients.kemper.actions.rig_select._KemperRigSelectCallback."
T = [RS + "__init__", RS + "push", RS + "release", RS + "init", RS + "state", "clients.kemper.actions.rig_select.RIG_SELECT", "clients.kemper.actions.bank_select.KemperBankSelectCallback.push",
     "clients.kemper.actions.bank_up_down.KemperBankChangeCallback.push", "clients.kemper.actions.rig_up_down._KemperRigChangeCallback.push",
     "clients.kemper.actions.rig_select_and_morph_state.RIG_SELECT_AND_MORPH_STATE"] + TK
KEY = "morphStateOverride"


def state(c, appl, name="morph state"):
    """any state before, or none set yet"""
    if c.flag("never set"): return None
    v = c.int(name, 0, 16383)
    appl.shared[KEY] = v
    return v


@harness("C43", targets=T, params=[(x, False) for x in SHAPES if "auto" not in x] + [((True, None, False, None), True), ((True, None, True, None), True), ((True, "auto", True, "auto"), False)])
def rig_select(c, p):
    """every rig select button: a press on the rig already selected toggles (or morphs while held), every other press resets"""
    shape, both = p
    cfg = config(c, shape)
    r, b, off, boff = cfg["rig_"], cfg["bank_"], cfg["rig_off"], cfg["bank_off"]
    morph, momentary = c.flag("rig button morphs"), c.flag("momentary")
    appl = KApp(c)
    kw = dict(rig=r, bank=b, rig_off=off, bank_off=boff, rig_btn_morph=morph, momentary_morph=momentary)
    acts = c.get(A + "rig_select_and_morph_state:RIG_SELECT_AND_MORPH_STATE")(**kw) if both else [c.get(A + "rig_select:RIG_SELECT")(**kw)]
    btn = Button(c, appl, acts)
    v = None
    if c.flag("known"):
        v = c.int("current", 0, 624)
        appl.receive_rig(v)
    old = state(c, appl)
    pre = c.flag("preselected")
    if pre: appl.shared.update(preselectedBank=c.int("preselected", 0, 124), preselectBlinkState=False, preselectCallback=None)

    def on():
        return v is not None and r is not None and c.is_true(c.all([v % 5 + 1 == r] + ([v // 5 + 1 == b] if b is not None else [])))
    plain = off is None and boff is None
    btn.push()
    if pre or not (morph and plain and on()): want = 0
    elif momentary: want = 16383
    else: want = 16383 if old is None or not c.is_true(old > 0) else 0
    c.check_eq("after the press", appl.shared.get(KEY), want)
    if v is not None and c.flag("changed while pressed"):
        v = c.int("current", 0, 624)
        appl.receive_rig(v)
    if c.flag("morph changed while pressed"):
        want = c.int("state meanwhile", 0, 16383)
        appl.shared[KEY] = want
    btn.release()
    if morph and momentary and plain and on(): want = 0
    c.check_eq("after the release", appl.shared.get(KEY), want)


OTHERS = {"bank select": ("bank_select", "BANK_SELECT", dict(bank=3)), "bank select with off bank": ("bank_select", "BANK_SELECT", dict(bank=3, bank_off=5)),
          "bank select, preselecting": ("bank_select", "BANK_SELECT", dict(bank=3, preselect=True)),
          "bank up": ("bank_up_down", "BANK_UP", {}), "bank down": ("bank_up_down", "BANK_DOWN", {}), "bank up, preselecting": ("bank_up_down", "BANK_UP", dict(preselect=True)),
          "bank down, preselecting": ("bank_up_down", "BANK_DOWN", dict(preselect=True)),
          "rig up": ("rig_up_down", "RIG_UP", {}), "rig down": ("rig_up_down", "RIG_DOWN", {}), "rig up over banks": ("rig_up_down", "RIG_UP", dict(keep_bank=False)),
          "rig down over banks": ("rig_up_down", "RIG_DOWN", dict(keep_bank=False))}


@harness("C43", targets=T, params=list(OTHERS))
def others(c, kind):
    """every other button which changes the rig resets the state; one which does nothing leaves it alone"""
    mod, name, kw = OTHERS[kind]
    appl = KApp(c)
    btn = Button(c, appl, c.get(A + mod + ":" + name)(**kw))
    v = None
    if c.flag("known"):
        v = c.int("current", 0, 624)
        appl.receive_rig(v)
    old = state(c, appl)
    if c.flag("preselected"): appl.shared.update(preselectedBank=c.int("preselected", 0, 124), preselectBlinkState=False, preselectCallback=None)
    sent = btn.push()
    if kind == "bank select, preselecting" or not sent: want = old
    else: want = 0
    c.check_eq("after the press", appl.shared.get(KEY), want)
    btn.release()
    c.check_eq("after the release", appl.shared.get(KEY), want)

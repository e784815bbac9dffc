"""Shared building blocks of the contracts: recording environment objects and symbolic MIDI messages."""
from vf.api import *
from vf.rt import _int as trunc, floor

CL = "pyswitch.controller.client"


class Midi:
    """recording MIDI port (assumed contract: send() transmits the message as it is at that moment)"""
    def __init__(self, c):
        self.c = c
        self.log = []          # (message object, snapshot)
    def send(self, m):
        self.log.append((m, snap(m)))
    def receive(self): return None
    def take(self):
        l = self.log
        self.log = []
        return l


def snap(m):
    """content of a MIDI message at this moment"""
    n = type(m).__name__
    if hasattr(m, "manufacturer_id"): n = "SystemExclusive"          # and its subclasses
    if n == "SystemExclusive": return (n, list(m.manufacturer_id), list(m.data))
    if n == "ControlChange": return (n, m.control, m.value)
    if n == "ProgramChange": return (n, m.patch)
    return (n, id(m))


class Listener:
    def __init__(self, name="L", log=None):
        self.name = name
        self.log = log if log is not None else []
        self.hook = None
    def parameter_changed(self, mapping):
        self.log.append(("changed", self.name, mapping.name, mapping.value))
        if self.hook: self.hook(self, mapping)
    def request_terminated(self, mapping):
        self.log.append(("terminated", self.name, mapping.name))


def byte(c, name, hi=127): return c.int(name, 0, hi)


def sysex(c, man, data):
    return c.get("adafruit_midi.system_exclusive:SystemExclusive")(man, data)
def cc(c, control, value):
    return c.get("adafruit_midi.control_change:ControlChange")(control, value)
def pc(c, patch):
    return c.get("adafruit_midi.program_change:ProgramChange")(patch)


def client(c, midi, config=None):
    return c.get(CL + ":Client")(midi, config if config is not None else {})


def mapping(c, name, **kw):
    return c.get(CL + ":ClientParameterMapping").get(name, **kw)


def two_part(c, name, **kw):
    return c.get(CL + ":ClientTwoPartParameterMapping").get(name, **kw)


def nrpn(c, n, man=(0, 0x20, 0x33), extra=0):
    """NRPN style message of the n-th address (concrete, distinct addresses)"""
    return sysex(c, list(man), [0x02, 0x7f, 0x01, 0x00, n // 128, n % 128] + [0] * extra)


def answer(c, n, v, man=(0, 0x20, 0x33)):
    return sysex(c, list(man), [0, 0, 0x01, 0x00, n // 128, n % 128, v // 128, v % 128])


# -- inputs and actions ---------------------------------------------------------------------------------------------------

class Leds(dict):
    """recording LED driver"""
    def __init__(self):
        super().__init__()
        self.writes = []
    def __setitem__(self, k, v):
        self.writes.append((k, v))
        dict.__setitem__(self, k, v)


class Driver:
    def __init__(self): self.leds = Leds()


class FakeClient:
    """recording client (assumed: the contract of Client proved by C04..C06)"""
    def __init__(self): self.log = []
    def register(self, mapping, listener=None): self.log.append(("register", mapping, listener))
    def request(self, mapping, listener=None): self.log.append(("request", mapping, listener))
    def set(self, mapping, value): self.log.append(("set", mapping, list(value) if isinstance(value, list) else value))
    def sets(self): return [e[1:] for e in self.log if e[0] == "set"]
    def take(self):
        l, self.log = self.log, []
        return l


class Appl:
    def __init__(self, config=None):
        self.client = FakeClient()
        self.config = config if config is not None else {}
        self.led_driver = Driver()
        self.updateables = []
        self.shared = {}
        self.inputs = []
        self.midi = None
    def add_updateable(self, u):
        self.updateables.append(u)


class Model:
    """switch hardware"""
    def __init__(self):
        self.pushed = False
        self.inits = 0
    def init(self): self.inits += 1


class FakeAction:
    def __init__(self, name, log):
        self.name, self.log = name, log
        self.enabled = True
        self.uses_switch_leds = False
    def init(self, appl, switch=None): self.log.append(("init", self.name))
    def update_displays(self): pass
    def push(self): self.log.append(("push", self.name))
    def release(self): self.log.append(("release", self.name))
    def update(self): pass
    def reset(self): pass
    def process(self, value): self.log.append(("process", self.name, value))


def switch(c, appl, actions=(), hold=(), pixels=(0, 1, 2), model=None, **cfg):
    model = model or Model()
    conf = {"assignment": {"model": model, "pixels": pixels}, "actions": list(actions)}
    if hold:
        conf["actionsHold"] = list(hold)
    conf.update(cfg)
    return c.get("pyswitch.controller.inputs:SwitchController")(appl, conf), model


class Label:
    """display label (assumed: the contract of DisplayLabel proved by C33)"""
    def __init__(self):
        self.log = []
        self._text = None
        self._back = None
    @property
    def text(self): return self._text
    @text.setter
    def text(self, t):
        self._text = t
        self.log.append(("text", t))
    @property
    def back_color(self): return self._back
    @back_color.setter
    def back_color(self, b):
        self._back = b
        self.log.append(("back", b))


class FakeMapping:
    """parameter as seen by callbacks"""
    def __init__(self, name="p", value=None, response=True, set=True, type=0):
        self.name, self.value, self.response, self.set, self.type = name, value, response, set, type


class EnableCb:
    """enable callback whose answer the harness decides"""
    def __init__(self, on=True):
        self.on = on
    def init(self, appl): self.appl = appl
    def enabled(self, action): return self.on


def listeners(appl, m):
    """listeners registered for a parameter, each once"""
    out = []
    for e in appl.client.log:
        if e[0] in ("register", "request") and e[1] is m and e[2] is not None and e[2] not in out:
            out.append(e[2])
    return out


def scale(color, f):
    """color (or list of colors) times factor, each component rounded down"""
    if isinstance(color[0], (tuple, list)):
        return [scale(x, f) for x in color]
    return tuple(trunc(x * f) for x in color)

"""Environment for the Kemper actions: the real client, a recording MIDI port, and the messages of the device."""
from vf.api import *
from .lib import *

A = "pyswitch.clients.kemper.actions."
TK = ["controller.inputs.SwitchController.process", "controller.client.Client.set", "controller.client.Client.receive",
      "controller.client.ClientTwoPartParameterMapping.parse", "controller.callbacks.Callback.init", "controller.actions.Action.push", "controller.actions.Action.release"]


class KApp(Appl):
    def __init__(self, c, config=None):
        super().__init__(config)
        self.c = c
        self.midi = Midi(c)
        self.client = client(c, self.midi)
        self.config.setdefault("maxConsecutiveMidiMessages", 10)
    def receive_rig(self, rig_id):
        """the device reports its rig (0..624)"""
        c = self.c
        self.client.receive(cc(c, 32, rig_id // 128))
        self.client.receive(pc(c, rig_id % 128))
    def sent(self):
        """control changes sent since the last call"""
        return [s[1:] for _, s in self.midi.take()]
    def update(self):
        for u in list(self.updateables): u.update()


class Button:
    """one action on one switch"""
    def __init__(self, c, appl, actions, n=3, **cfg):
        self.c, self.appl = c, appl
        self.actions = actions if isinstance(actions, (list, tuple)) else [actions]
        self.sw, self.hw = switch(c, appl, self.actions, pixels=tuple(range(n)), **cfg)
        appl.inputs.append(self.sw)
        appl.sent()
    def push(self):
        self.hw.pushed = True
        self.sw.process()
        return self.appl.sent()
    def release(self):
        self.hw.pushed = False
        self.sw.process()
        return self.appl.sent()
    def idle(self):
        """pressed or not, nothing more happens without a change"""
        self.sw.process()
        return self.appl.sent()


def bank(c, x): return (47, x)
def rig(c, x, v): return (50 + x, v)

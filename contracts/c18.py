"""Bidirectional session: one step of the protocol from every state (any lease time, any clock readings), and histories through the public
interface only."""
from vf.api import *
from .lib import *

K = "pyswitch.clients.kemper"
T = ["clients.kemper.KemperBidirectionalProtocol.__init__", "clients.kemper.KemperBidirectionalProtocol.update", "clients.kemper.KemperBidirectionalProtocol.receive",
     "clients.kemper.KemperBidirectionalProtocol.__send_beacon", "clients.kemper.KemperBidirectionalProtocol.__get_flags",
     "clients.kemper.KemperBidirectionalProtocol.__encode_time_lease", "clients.kemper.KemperBidirectionalProtocol.get_color",
     "clients.kemper.KemperNRPNExtendedMessage.__init__", "misc.PeriodCounter.exceeded", "misc.PeriodCounter.reset"]
PRE = "_KemperBidirectionalProtocol__"
MAN = [0x00, 0x20, 0x33]


class CL:
    def __init__(self, log): self.log = log
    def notify_connection_lost(self): self.log.append("lost")


class PMidi:
    def __init__(self, log): self.log = log
    def send(self, m): self.log.append(snap(m))


class Spec:
    def __init__(self, c, lease, tuner):
        self.c, self.lease, self.tuner = c, lease, tuner
        self.log = []
        self.p = c.get(K + ":KemperBidirectionalProtocol")(lease, tuner_mode=tuner)
        self.p.init(PMidi(self.log), CL(self.log))
        self.running = self.inited = self.ever = False
        self.t_init = 0            # the init period starts with the clock
        self.t_sense = c.now()
        self.t_beacon = 0

    def beacon(self, init):
        return ("SystemExclusive", MAN, [0x02, 0x7f, 0x7e, 0x00, 0x40, 0x02, (1 if init else 0) + 2 + (32 if self.tuner else 0), self.lease // 2])

    def update(self):
        c = self.c
        self.log.clear()
        self.p.update()
        now = c.now()
        want = []
        if not self.running:
            if c.is_true(now - self.t_init > 5000):
                c.cover("initialization")
                if self.ever:
                    want.append("lost")
                want.append(self.beacon(True))
                self.t_init = now
                self.inited = True
        else:
            if c.is_true(now - self.t_sense > 1500):
                c.cover("loss")
                self.running = False
            elif c.is_true(2 * (now - self.t_beacon) > self.lease * 1000):
                c.cover("keep-alive")
                want.append(self.beacon(False))
                self.t_beacon = now
        c.check_eq("exactly the due beacon and the due loss signal", self.log, want)
        self.state()

    def state(self):
        C = self.c.get("pyswitch.colors:Colors")
        self.c.check_eq("session state", self.p.get_color(), C.GREEN if self.running else C.RED)

    def sense(self, m, matching):
        c = self.c
        self.log.clear()
        r = self.p.receive(m)
        c.check("receiving sends nothing and signals nothing", self.log == [])
        used = matching and self.inited
        c.check("exactly the sensing messages are taken", bool(r) == used)
        if used:
            if not self.running:
                c.cover("established")
                self.running = True
                self.t_beacon = c.now()
            self.ever = True
            self.t_sense = c.now()
        self.state()


def message(c):
    """-> (message, is a sensing message)"""
    kind = c.choice("kind", ("sense", "sysex", "cc", "pc"))
    if kind == "cc": return cc(c, byte(c, "control"), byte(c, "value")), False
    if kind == "pc": return pc(c, byte(c, "patch")), False
    if kind == "sense":
        return sysex(c, MAN, [byte(c, "product"), byte(c, "device"), 0x7e, 0x00, 0x7f] + [byte(c, "d") for _ in range(c.choice("extra", (0, 1, 3)))]), True
    man = [byte(c, "man") for _ in range(3)]
    data = [byte(c, "b") for _ in range(c.choice("length", (0, 2, 4, 5, 7)))]
    ok = c.all([c.eq(man, MAN), len(data) >= 5]) if len(data) < 5 else c.all([c.eq(man, MAN), c.eq(data[2:5], [0x7e, 0x00, 0x7f])])
    return sysex(c, man, data), c.is_true(ok)


def arbitrary(c, s):
    """any state of the session"""
    p = s.p
    s.running, s.inited, s.ever = c.flag("running"), c.flag("inited"), c.flag("ever")
    c.assume((not s.running) or (s.inited and s.ever))
    c.assume((not s.ever) or s.inited)
    c.inject(p, {"state": 20 if s.running else 10, PRE + "has_been_running": s.ever, PRE + "init_sent": s.inited},
             allow=[k for k in p.__dict__])
    for f, g in (("init_period", "t_init"), ("resend_period", "t_beacon"), ("sensing_period", "t_sense")):
        t = c.int(g, 0)
        c.set_now(t)
        c.field(p, f).reset()
        setattr(s, g, t)
    t = c.int("now", 0)
    for g in ("t_init", "t_beacon", "t_sense"): c.assume(t >= getattr(s, g))
    c.set_now(t)


@harness("C18", targets=T, kind="induction", params=("update", "receive"))
def one_step(c, op):
    s = Spec(c, c.int("lease", 1, 255), c.flag("tuner"))
    arbitrary(c, s)
    if op == "update":
        s.update()
    else:
        s.sense(*message(c))
    # the step preserves the coupling: the next step behaves as specified, too
    c.advance(c.int("dt", 0))
    s.update()


@harness("C18", targets=T, covers=["initialization"])
def start(c):
    """initial state, then the first sensing message and the loss"""
    c.set_now(c.int("t0", 0))
    s = Spec(c, c.int("lease", 1, 255), c.flag("tuner"))
    s.state()
    if c.flag("early message"):
        s.sense(*message(c))
    c.advance(c.int("dt", 0))
    s.update()
    c.advance(c.int("dt", 0))
    s.sense(*message(c))
    c.advance(c.int("dt", 0))
    s.update()


@harness("C18", targets=T, kind="history", bounds="symbolically seven operations; concretely 80", random_runs=500, covers=["initialization", "established", "loss"])
def history(c):
    c.set_now(c.int("t0", 0, 8000))
    s = Spec(c, c.choice("lease", (1, 2, 30)) if c.symbolic else c.int("lease", 1, 60), True if c.symbolic else c.flag("tuner"))
    if c.symbolic:
        sense = sysex(c, MAN, [0, 0, 0x7e, 0, 0x7f])
        for op in "usuusuu":
            c.advance(c.int("dt", 0))
            s.update() if op == "u" else s.sense(sense, True)
        return
    mode = "silent"
    for _ in range(80):
        if c.choice("switch mode", (0, 0, 0, 0, 0, 0, 0, 1)): mode = c.choice("mode", ("silent", "live"))
        c.advance(c.choice("dt", (0, 1, 100, 499, 500, 700, 1499, 1500, 1501, 4999, 5000, 5001)) if mode == "silent" else c.int("dt", 0, 900))
        if mode == "live" and c.flag("sense"):
            s.sense(sysex(c, MAN, [0, 0, 0x7e, 0, 0x7f]), True)
        elif c.choice("message", (0, 0, 0, 1)):
            s.sense(*message(c))
        s.update()

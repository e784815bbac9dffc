"""Hanging requests: for any lifetime, any ages and any clock readings, with up to three pending parameters (bounded), a cleanup
terminates exactly the overdue ones, once."""
from vf.api import *
from .lib import *
from .pending import *

T = ["controller.client.Client.__cleanup_hanging_requests", "controller.client.ClientRequest.terminate", "controller.client.ClientRequest.__init_lifetime",
     "controller.client.Client.receive", "misc.PeriodCounter.exceeded"]


class TSpec:
    def __init__(self, c, kinds, nl, life):
        self.c = c
        self.midi = Midi(c)
        self.life = life
        self.cl = client(c, self.midi, {"maxRequestLifetimeMillis": life})
        self.log = []
        self.L = [Listener("L%d" % i, self.log) for i in range(nl)]
        self.kinds = kinds
        self.p = []
        self.pending = [None] * len(kinds)
        self.born = [None] * len(kinds)
        self.value = []
        self.cleaned = 0
        for i, k in enumerate(kinds):
            v = c.int("old%d" % i)
            self.value.append(v)
            self.p.append(mapping(c, "p%d" % i, request=nrpn(c, 100 + i) if k == "req" else None, response=nrpn(c, i), value=v))

    def ask(self, i, l):
        self.log.clear()
        (self.cl.request if self.kinds[i] == "req" else self.cl.register)(self.p[i], self.L[l])
        sent = self.midi.take()
        if self.pending[i] is None:
            self.pending[i] = [l]
            self.born[i] = self.c.now()
            self.c.check("can be requested (again)", len(sent) == (1 if self.kinds[i] == "req" else 0))
        else:
            if l not in self.pending[i]: self.pending[i].append(l)
            self.c.check("still pending, not sent again", sent == [])
        self.c.check("asking notifies nobody", self.log == [])

    def recv(self, i, v):
        """receive: nothing (i None), or the answer to parameter i"""
        c = self.c
        self.log.clear()
        self.cl.receive(None if i is None else answer(c, i, v))
        want = []
        if c.is_true((c.now() - self.cleaned) > self.life // 2):
            self.cleaned = c.now()
            c.cover("cleanup")
            for j, k in enumerate(self.kinds):
                if self.pending[j] is not None and k == "req" and c.is_true(c.now() - self.born[j] > self.life):
                    want += [("terminated", "L%d" % l, "p%d" % j) for l in self.pending[j]]
                    self.pending[j] = None
                    c.cover("terminated")
                elif self.pending[j] is not None:
                    c.cover("spared")
        if i is not None and self.pending[i] is not None:
            want += [("changed", "L%d" % l, "p%d" % i) for l in self.pending[i]]
            self.value[i] = v
            if self.kinds[i] == "req":
                self.pending[i] = None
        got = [e[:3] for e in self.log]
        c.check("exactly the overdue requests are terminated, each listener signalled once", sorted(got) == sorted(want), lambda: "got %r, expected %r" % (got, want))
        for j, p in enumerate(self.p):
            c.check_eq("no value changed by a termination", p.value, self.value[j])
        c.check("sends nothing", self.midi.take() == [])


@harness("C05", targets=T, params=[("req", "req"), ("req", "perm"), ("perm", "req")], bounds="two pending parameters, two listeners", covers=["cleanup", "terminated", "spared"])
def one_cleanup(c, kinds):
    life = c.int("lifetime", 1)
    c.set_now(c.int("start", 0))
    s = TSpec(c, list(kinds), 2, life)
    for i in (0, 1):
        for l in c.choice("listeners", ((0,), (0, 1))):
            s.ask(i, l)
        c.advance(c.int("dt", 0))
    s.recv(c.choice("message", (None, 0, 1)), c.int("v", 0, 16383))
    # later answers: terminated requests never notify again, others do
    for j in (0, 1):
        s.recv(j, c.int("late", 0, 16383))
    s.ask(0, 0)


@harness("C05", targets=T + ["controller.client.Client.__cleanup_requests", "controller.client.ClientRequest.notify_terminated"],
         params=[(k, m) for k in ("req", "perm") for m in (None, 0, 1)], covers=["cleanup", "terminated", "spared"])
def any_number_pending(c, param):
    """any number of pending requests of any age, with any number of listeners each, for any lifetime: a cleanup terminates exactly
    the overdue ones; each of their listeners gets exactly one signal, nobody else anything"""
    kind, msg = param
    life = c.int("lifetime", 1)
    c.set_now(c.int("start", 0))
    P = Pending(c, life)
    cl = P.cl
    w = mapping(c, "w", request=nrpn(c, 50) if kind == "req" else None, response=nrpn(c, 0), value=c.int("old"))
    old = w.value
    A = P.others("A", False, aged=True)
    c.advance(c.int("dt0", 0))
    r, items = P.known(w, cl.request if kind == "req" else cl.register)
    born = c.now()
    c.advance(c.int("dt", 0))
    B = P.others("B", False, aged=True)
    c.advance(c.int("dt2", 0))
    P.install(A, r, B)
    P.on_cleanup(A, B)
    due = c.is_true(c.now() > life // 2)          # no cleanup before
    over = due and kind == "req" and c.is_true(c.now() - born > life)
    if due: c.cover("cleanup")
    if not due: A.calls = B.calls = None
    c.cover("terminated" if over else "spared")
    if kind == "perm": c.cover("terminated")
    ended = lambda l: [("terminated", l.name, "w")]
    v = c.int("v", 0, 16383)
    hit = msg == 0 and not over
    calls = ended if over else lambda l: [("changed", l.name, "w", v)]
    P.expect(items, calls)
    cl.receive(None if msg is None else answer(c, msg, v))
    mine = P.expect(items, calls) if over or hit else []
    if hit:
        # the cleanup comes first
        c.check_trace("exactly the overdue requests are terminated, then the message is handled", c.trace, c.unroll([A], None) + c.unroll([B], None) + mine)
    else:
        c.check_trace("exactly the overdue requests are terminated, once", c.trace, c.unroll([A], None) + mine + c.unroll([B], None))
    c.check_eq("value", w.value, v if hit else old)
    c.check("sends nothing", P.midi.take() == [])
    c.check("pending exactly if not terminated or answered", cl.get_matching_request(w) is (None if over or (hit and kind == "req") else r))
    # afterwards: no further signal without further time, and the parameter can be requested again
    for s in (A, B): s.calls = s.inv = None
    del c.trace[:]
    cl.receive(None)
    c.check_trace("only once", c.trace, [])
    if over:
        cl.receive(answer(c, 0, v))
        c.check_trace("never notified again", c.trace, [])
        cl.request(w, Lis(c, "again"))
        c.check("can be requested again", [m for m, _ in P.midi.take()] == [w.request])


@harness("C05", targets=T, kind="history", bounds="symbolically three receptions with one parameter; concretely 40 operations, four parameters", random_runs=300)
def history(c):
    life = c.int("lifetime", 1, 5000)
    n = 1 if c.symbolic else 4
    s = TSpec(c, [c.choice("kind", ("req", "perm")) for _ in range(n)], 3, life)
    for k in range(4 if c.symbolic else 40):
        c.advance(c.int("dt", 0, None if c.symbolic else 4000))
        i = c.choice("i", range(n))
        if (k == 0 if c.symbolic else c.flag("ask")):
            s.ask(i, c.choice("l", (0, 1, 2)) if not c.symbolic else 0)
        else:
            s.recv(c.choice("message", (None, i)), c.int("v", 0, 16383))


@harness("C05", targets=T)
def default_lifetime(c):
    """without a setting the lifetime is two seconds"""
    midi = Midi(c)
    cl = client(c, midi)
    L = Listener()
    c.set_now(c.int("t0", 0))
    p = mapping(c, "p", request=nrpn(c, 9), response=nrpn(c, 0), value=None)
    cl.request(p, L)
    cl.receive(None)
    c.check("nothing at once", L.log == [])
    c.advance(c.int("dt", 3001))
    cl.receive(None)
    c.check("terminated once the lifetime and the cleanup period are over", L.log == [("terminated", "L", "p")])
    cl.receive(answer(c, 0, 5))
    c.check("never notified again", len(L.log) == 1)


@harness("C05", targets=T + ["controller.controller.Controller.tick", "controller.controller.Controller.__receive_midi_messages"], covers=["idle", "busy"], bounds="seven ticks of the real main loop")
def main_loop(c):
    """in the running application, with and without messages arriving"""
    midi = Midi(c)
    busy = c.flag("messages arriving")
    c.cover("busy" if busy else "idle")
    got = []
    def receive():
        if not busy or len(got) % 2: got.append(None)
        else: got.append(cc(c, 1, 2))
        return got[-1]
    midi.receive = receive
    class Drv(Driver):
        def init(self, n): pass
    c.set_now(c.int("t0", 0))
    life = c.choice("lifetime", (2000, 500))
    ctl = c.get("pyswitch.controller.controller:Controller")(Drv(), midi, config={"maxRequestLifetimeMillis": life})
    L = Listener()
    p = mapping(c, "p", request=nrpn(c, 9), response=nrpn(c, 0), value=7)
    ctl.client.request(p, L)
    born, ended = c.now(), False
    for _ in range(7):
        again = c.flag("asked again")
        if again: ctl.client.request(p, L)
        c.advance(life // 4 + 1)
        ctl.tick()
        if L.log:
            c.check("only overdue requests", c.now() - born > life)
            ended = True
            break
    c.check("terminated at the next cleanup", ended and L.log == [("terminated", "L", "p")])
    c.check("value untouched", p.value == 7)

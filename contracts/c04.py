"""Request lifecycle: every state of up to three parameters and three listeners is built through the public interface, then every
operation is checked against the specification automaton, for all values; longer histories concretely."""
from vf.api import *
from .lib import *
from .pending import *

T = ["controller.client.Client.request", "controller.client.Client.register", "controller.client.Client._register_mapping",
     "controller.client.Client.get_matching_request", "controller.client.Client.receive", "controller.client.Client.__cleanup_requests",
     "controller.client.ClientRequest.send", "controller.client.ClientRequest.parse", "misc.EventEmitter.add_listener"]


class Spec:
    """n parameters; pending[i] = None | list of listeners"""
    def __init__(self, c, kinds, nl, msgs=None):
        self.c = c
        self.midi = Midi(c)
        self.cl = client(c, self.midi)
        self.log = []
        self.L = [Listener("L%d" % i, self.log) for i in range(nl)]
        self.kinds = kinds
        self.p, self.req, self.pending, self.value = [], [], [], []
        for i, k in enumerate(kinds):
            n = (msgs or {}).get(i, 1)
            ms = [nrpn(c, 100 * i + j, extra=0) for j in range(n)] if k == "req" else []
            rq = None if k != "req" else (ms[0] if n == 1 else ms[:1] + [None] + ms[1:])
            v = c.int("old%d" % i)
            self.p.append(mapping(c, "p%d" % i, request=rq, response=nrpn(c, i), value=v))
            self.req.append(ms)
            self.pending.append(None)
            self.value.append(v)

    def sent(self, want, name):
        got = [m for m, _ in self.midi.take()]
        self.c.check(name, len(got) == len(want) and all(a is b for a, b in zip(got, want)), lambda: "sent %r" % (got,))

    def ask(self, i, l):
        self.log.clear()
        L = None if l is None else self.L[l]
        if self.kinds[i] == "req":
            self.cl.request(self.p[i], L)
        else:
            self.cl.register(self.p[i], L)
        if self.pending[i] is None:
            self.pending[i] = []
            self.sent(self.req[i], "a new request sends each request message exactly once")
        else:
            self.sent([], "a pending request is not sent again")
        if l is not None and l not in self.pending[i]:
            self.pending[i].append(l)
        self.c.check("requesting notifies nobody", self.log == [])

    def recv(self, i, v):
        self.log.clear()
        r = self.cl.receive(answer(self.c, i, v))
        self.sent([], "receiving sends nothing")
        if self.pending[i] is None:
            want = []
            self.c.check("unasked answer is not used", not r)
        else:
            want = [("changed", "L%d" % l, "p%d" % i) for l in self.pending[i]]
            self.value[i] = v
            self.c.check("the answer is used", r is True)
            if self.kinds[i] == "req":
                self.pending[i] = None
        got = [e[:3] for e in self.log]
        self.c.check("every listener that asked is notified exactly once, nobody else", sorted(got) == sorted(want), lambda: "notified %r, expected %r" % (got, want))
        for e in self.log:
            self.c.check("notified with the new value", self.c.eq(e[3], v))
        for j, p in enumerate(self.p):
            self.c.check("values", self.c.eq(p.value, self.value[j]))


@harness("C04", targets=T, params=[(a, b) for a in ("req", "perm") for b in ("req", "perm")], bounds="two parameters and two listeners, any state",
         covers=["asked", "received"])
def any_state_any_operation(c, kinds):
    s = Spec(c, list(kinds), 2, {0: c.choice("messages", (1, 2))})
    for i in c.choice("order of registration", ((0, 1), (1, 0))):
        if c.flag("pending%d" % i):
            for l in c.choice("listeners%d" % i, ((0,), (1,), (0, 1), (1, 0), (None,))):
                s.ask(i, l)
    i = c.choice("parameter", (0, 1))
    if c.flag("receive"):
        c.cover("received")
        s.recv(i, c.int("v", 0, 16383))
    else:
        c.cover("asked")
        s.ask(i, c.choice("by", (0, 1, None)))
    # observe the complete state afterwards
    for j in (0, 1):
        s.recv(j, c.int("probe", 0, 16383))
    for j in (0, 1):
        s.ask(j, 0)


@harness("C04", targets=T, kind="history", bounds="symbolically one step; concretely histories of 60 operations on five parameters and four listeners", random_runs=300)
def long_history(c):
    n = 1 if c.symbolic else 5
    s = Spec(c, [c.choice("kind", ("req", "perm")) for _ in range(n)], 4)
    for _ in range(2 if c.symbolic else 60):
        i = c.choice("i", range(n))
        if c.flag("receive"):
            s.recv(i, c.int("v", 0, 16383))
        else:
            s.ask(i, c.choice("l", (0, 1, 2, 3)))


@harness("C04", targets=T + ["controller.client.ClientRequest.finished"], params=[(k, o) for k in ("req", "perm") for o in ("any", "none")], covers=["answered", "other message"])
def any_number_pending(c, param):
    """any number of pending requests with any number of listeners: the answer to one of them notifies each of its listeners exactly
    once, leaves the others alone (unless it answers them, too), and the request is gone"""
    kind, o = param
    P = Pending(c)
    cl, midi = P.cl, P.midi
    takes = None if o == "any" else False
    w = mapping(c, "w", request=nrpn(c, 50) if kind == "req" else None, response=nrpn(c, 0), value=c.int("old"))
    old = w.value
    A = P.others("A", takes)
    r, items = P.known(w, cl.request if kind == "req" else cl.register)
    B = P.others("B", takes)
    P.install(A, r, B)
    P.on_receive(A, B)
    if takes is False: A.calls = B.calls = None
    hit = c.flag("answer")
    c.cover("answered" if hit else "other message")
    v = c.int("v", 0, 16383)
    changed = lambda l: [("changed", l.name, "w", v)]
    P.expect(items, changed)
    got = cl.receive(answer(c, 0 if hit else 1, v))
    c.check_trace("each listener of the answered requests exactly once", c.trace, c.unroll([A], None) + (P.expect(items, changed) if hit else [])
                  + c.unroll([B], None))
    c.check("sends nothing", midi.take() == [])
    c.check_eq("value", w.value, v if hit else old)
    if hit: c.check("used", got)
    elif o == "none": c.check("not used", not got)
    gone = hit and kind == "req"
    c.check("pending exactly if not answered or registered permanently", cl.get_matching_request(w) is (None if gone else r))
    for s in (A, B): s.calls = s.inv = None
    del c.trace[:]
    L2 = Lis(c, "L2")
    (cl.request if kind == "req" else cl.register)(w, L2)
    c.check("asking again sends exactly if it is not pending", [m for m, _ in midi.take()] == ([w.request] if gone else []))
    c.check_trace("asking notifies nobody", c.trace, [])


@harness("C04", targets=T, params=("req", "perm"), covers=["known", "new", "pending", "not pending"])
def any_number_asking(c, kind):
    """asking with any number of requests pending: sends exactly if the parameter is not pending; each listener counts once"""
    P = Pending(c)
    cl, midi = P.cl, P.midi
    ask = cl.request if kind == "req" else cl.register
    ms = [nrpn(c, 50), nrpn(c, 51)]
    w = mapping(c, "w", request=None if kind == "perm" else ms[0] if c.flag("single message") else [ms[0], None, ms[1]], response=nrpn(c, 0))
    A = P.others("A")
    pending = c.flag("pending")
    if pending:
        r, items = P.known(w, ask)
        L = items[1] if c.flag("known listener") else Lis(c, "new")
        c.cover("known" if L is items[1] else "new")
    else:
        items, L = [], Lis(c, "new")
    c.cover("pending" if pending else "not pending")
    B = P.others("B")
    P.install(A, *([r] if pending else []), B)
    ask(w, L)
    msgs = [] if pending or kind == "perm" else [m for m in (w.request if isinstance(w.request, list) else [w.request]) if m is not None]
    sent = [m for m, _ in midi.take()]
    c.check("sends each request message once if not pending", len(sent) == len(msgs) and all(a is b for a, b in zip(sent, msgs)), lambda: repr(sent))
    c.check_trace("notifies nobody", c.trace, [])
    # observe who would be notified
    if L not in items: items = items + [L]
    for x in items:
        if hasattr(x, "make"): x.calls = lambda l: [("changed", l.name, "w", 7)]
    w.value = 7
    cl.get_matching_request(w).notify_listeners()
    c.check_trace("every listener counts once", c.trace, P.expect(items, lambda l: [("changed", l.name, "w", 7)]))


@harness("C04", targets=T, bounds="1 to 4 listeners asking again from within the notification")
def ask_again_later(c):
    """the answered request is gone: asking again after the notification sends again, for every listener"""
    n = c.choice("listeners", (1, 2, 3, 4))
    s = Spec(c, ["req"], n)
    for l in range(n):
        s.ask(0, l)
    s.recv(0, c.int("v", 0, 16383))
    for l in range(n):
        s.ask(0, l)
    s.recv(0, c.int("v2", 0, 16383))


@harness("C04", targets=T)
def incomplete_parameters(c):
    """no request message: request() does nothing; no response: neither; register() only for those without request and with response"""
    midi = Midi(c)
    cl = client(c, midi)
    L = Listener()
    kind = c.choice("kind", ("no request", "no response", "neither", "register requestable"))
    v = c.int("old")
    p = mapping(c, "p", request=nrpn(c, 50) if kind in ("no response", "register requestable") else None,
                response=nrpn(c, 0) if kind in ("no request", "register requestable") else None, value=v)
    if kind == "register requestable":
        cl.register(p, L)
    else:
        cl.request(p, L)
    c.check("sends nothing", midi.log == [])
    r = cl.receive(answer(c, 0, c.int("v", 0, 16383)))
    c.check("nobody notified", L.log == [])
    c.check_eq("value untouched", p.value, v)
    c.check("not used", not r)


@harness("C04", targets=T, bounds="two parameters with the same answer, up to two listeners each")
def ask_from_notification(c):
    """a listener which asks for another parameter, answered by the same message just before, sends that request again"""
    midi = Midi(c)
    cl = client(c, midi)
    reqs = [nrpn(c, 50), nrpn(c, 51)]
    P = [mapping(c, "p%d" % i, request=reqs[i], response=nrpn(c, 0)) for i in (0, 1)]
    log = []
    A, B = Listener("A", log), Listener("B", log)
    B.hook = lambda l, m: cl.request(P[0], A)
    cl.request(P[0], A)
    cl.request(P[1], B)
    midi.take()
    v = c.int("v", 0, 16383)
    cl.receive(answer(c, 0, v))
    c.check("both parameters answered", [e[:3] for e in log][:2] == [("changed", "A", "p0"), ("changed", "B", "p1")])
    c.check("asking again sends again", [m for m, _ in midi.take()] == [reqs[0]])
    B.hook = None
    log.clear()
    w = c.int("w", 0, 16383)
    cl.request(P[0], A)
    cl.receive(answer(c, 0, w))
    c.check_eq("value", P[0].value, w)
    c.check("gone after its answer", len(log) <= 1 and not cl.receive(answer(c, 0, w)))


@harness("C04", targets=T + ["controller.client.Client._DependencyListener." + x for x in ("__init__", "add_listener", "parameter_changed")], params=(1, 2, 3), covers=["changed", "same"],
         bounds="one to three listeners, two reports of the parameter it depends on")
def dependent(c, n):
    """a parameter depending on another one: each time the other one has changed it is requested once, and every listener which asked is answered"""
    midi = Midi(c)
    cl = client(c, midi)
    dep = mapping(c, "dep", request=nrpn(c, 60), response=nrpn(c, 10))
    p = mapping(c, "p", request=nrpn(c, 50), response=nrpn(c, 0), depends=dep)
    log = []
    L = [Listener("L%d" % i, log) for i in range(n)]
    k = c.choice("asking at the start", range(1, n + 1))
    last, pending, told = None, False, []
    for cycle in range(2):
        asking = L[:k] if cycle == 0 else L
        for _ in range(2):
            for l in asking: cl.request(p, l)
        c.check_eq("the other parameter is requested once", [id(m) for m, _ in midi.take()], [id(dep.request)])
        fresh = cycle == 1 and k < n
        d = c.int("dependency", 0, 16383)
        cl.receive(answer(c, 10, d))
        changed = last is None or fresh or c.is_true(d != last)
        last = d
        c.cover("changed" if changed else "same")
        c.check_eq("requested exactly if it has changed (or somebody new asks)", [id(m) for m, _ in midi.take()], [id(p.request)] if changed else [])
        c.check_eq("nobody is notified before the answer", log, [])
        v = c.int("value", 0, 16383)
        r = cl.receive(answer(c, 0, v))
        c.check_eq("every listener which asked is answered once", sorted(log, key=lambda e: e[1]), [("changed", l.name, "p", v) for l in asking] if changed else [])
        del log[:]
        cl.receive(answer(c, 0, c.int("later", 0, 16383)))
        c.check_eq("answered only once", log, [])
        c.check("nothing more is sent", midi.take() == [])

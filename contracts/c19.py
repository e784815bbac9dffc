"""Parameters covered by a bidirectional protocol: every combination of covered/uncovered, requestable, dependent parameters."""
from vf.api import *
from .lib import *
from .c06 import Protocol
from .pending import *

T = ["controller.client.BidirectionalClient.register", "controller.client.BidirectionalClient.receive", "controller.client.BidirectionalClient.update",
     "controller.client.BidirectionalClient.notify_connection_lost", "controller.client.Client.request", "controller.client.Client.register",
     "controller.client.ClientRequest.notify_terminated"]


def bidi(c, midi, prot, config=None):
    return c.get("pyswitch.controller.client:BidirectionalClient")(midi, config if config is not None else {}, prot)


@harness("C19", targets=T)
def never_polled(c):
    """one parameter, covered or not, with or without dependency; the callbacks register, then ask again and again"""
    covered = c.flag("covered")
    midi, prot = Midi(c), Protocol(["p"] if covered else [])
    cl = bidi(c, midi, prot)
    L = Listener("L")
    dep = mapping(c, "dep", request=nrpn(c, 300), response=nrpn(c, 3)) if c.flag("depends") else None
    can = c.flag("requestable")
    rq = nrpn(c, 200) if can else None
    p = mapping(c, "p", request=rq, response=nrpn(c, 2), depends=dep, value=c.int("old"))
    cl.register(p, L)
    asked = False
    for k in range(3):
        c.advance(c.int("dt", 0))
        cl.request(p, L)
        sent = [m for m, _ in midi.take()]
        if covered or not can:
            c.check("never polled", sent == [])
        elif not asked:
            c.check("requested as usual", len(sent) == 1 and sent[0] is (dep.request if dep else rq))
            asked = True
        else:
            c.check("one request in flight", sent == [])
    if covered:
        n = 2
        for k in range(n):
            L.log.clear()
            v = c.int("v", 0, 16383)
            r = cl.receive(answer(c, 2, v))
            c.check_eq("every received value is notified", L.log, [("changed", "L", "p", v)])
            c.check("taken by the parameter", prot.log == [] )
            c.advance(c.int("dt", 0))
            cl.receive(None)
            c.check("nothing else is sent or notified", midi.take() == [] and len(L.log) == 1)


@harness("C19", targets=T, params=[(i, j) for i in range(3) for j in range(3)], bounds="three parameters, two listeners each, all kinds")
def connection_lost(c, p):
    kinds = list(p) + [c.choice("third", (0, 1, 2))]          # 0: covered, 1: permanent without request, 2: requested
    midi, prot = Midi(c), Protocol(["p%d" % i for i, k in enumerate(kinds) if k == 0])
    cl = bidi(c, midi, prot, {"maxRequestLifetimeMillis": 1000000})
    log = []
    L = [Listener("L%d" % i, log) for i in range(4)]
    ps, used = [], []
    for i, k in enumerate(kinds):
        q = mapping(c, "p%d" % i, request=None if k == 1 else nrpn(c, 200 + i), response=nrpn(c, i), value=c.int("old"))
        ps.append(q)
        u = c.choice("listeners", ((0,), (0, 1), (2, 1)) if c.symbolic else ((), (0,), (3, 0, 1), (2, 1)))
        used.append(u)
        for l in u:
            cl.register(q, L[l])
            cl.request(q, L[l])
        if not u: cl.register(q)
    midi.take()
    values = [q.value for q in ps]
    for _ in range(2):
        log.clear()
        cl.notify_connection_lost()
        want = sorted(("terminated", "L%d" % l, "p%d" % i) for i, k in enumerate(kinds) if k == 0 for l in used[i])
        c.check("exactly the listeners of covered parameters get one termination signal each", sorted(log) == want, lambda: "got %r, want %r" % (log, want))
        c.check("nothing is sent", midi.take() == [])
        c.check("values stay", all(q.value is v for q, v in zip(ps, values)))
    for i, k in enumerate(kinds):
        log.clear()
        v = c.int("v", 0, 16383)
        cl.receive(answer(c, i, v))
        want = sorted(("changed", "L%d" % l, "p%d" % i) for l in used[i])
        c.check("registrations stay", sorted(e[:3] for e in log) == want, lambda: "got %r, want %r" % (log, want))
        c.check("values", c.eq(ps[i].value, v) if used[i] or k != 2 else True)


class AnyProtocol(Protocol):
    """covers the known parameter or not, and any of the others"""
    def is_bidirectional(self, m): return m.covered if hasattr(m, "covered") else m.name in self.covered
    def feedback_value(self, m): return self.is_bidirectional(m)


@harness("C19", targets=T, params=[(k, a) for k in ("covered", "permanent", "requested") for a in ("lost", "receive")], covers=["twice"])
def any_number_registered(c, param):
    """any number of parameters of all kinds, with any number of listeners: the loss reaches exactly the listeners of the covered
    ones, once each; a message reaches the protocol exactly if no parameter takes it"""
    kind, act = param
    midi = Midi(c)
    proto = AnyProtocol(["w"] if kind == "covered" else [])
    proto.result = c.flag("protocol takes it")
    cl = bidi(c, midi, proto, {"maxRequestLifetimeMillis": 1000000})
    P = Pending(c, 1000000, cl=cl, midi=midi)
    w = mapping(c, "w", request=nrpn(c, 50) if kind == "requested" else None, response=nrpn(c, 0), value=c.int("old"))
    old = w.value
    takes = False if act == "lost" or c.flag("only the known one") else None
    A = P.others("A", takes, finished=False)
    def ask(m, l):
        cl.register(m, l)
        if kind == "requested": cl.request(m, l)
    r, items = P.known(w, ask)
    B = P.others("B", takes, finished=False)
    P.install(A, r, B)
    if act == "lost":
        lost = lambda l: [("terminated", l.name, "w")]
        for s in (A, B):
            s.calls = lambda q: P.expect([q.ls], lambda l: [("terminated", l.name, q.mapping.name)]) if c.is_true(q.mapping.covered) else []
        for k in range(2):
            if k: c.cover("twice")
            del c.trace[:]
            P.expect(items, lost)
            cl.notify_connection_lost()
            c.check_trace("exactly the listeners of covered parameters, once each", c.trace,
                          c.unroll([A], None) + (P.expect(items, lost) if kind == "covered" else []) + c.unroll([B], None))
        c.check_eq("value kept", w.value, old)
        c.check("registrations stay", cl.get_matching_request(w) is r)
    else:
        c.cover("twice")
        P.on_receive(A, B)
        if takes is False: A.calls = B.calls = None
        hit = c.flag("for the known one")
        v = c.int("v", 0, 16383)
        m = answer(c, 0 if hit else 1, v)
        changed = lambda l: [("changed", l.name, "w", v)]
        P.expect(items, changed)
        got = cl.receive(m)
        c.check_trace("listeners of the parameters taking it", c.trace, c.unroll([A], None) + (P.expect(items, changed) if hit else []) + c.unroll([B], None))
        if hit: c.check("not offered to the protocol", proto.log == [] and not got)
        elif takes is False: c.check("offered to the protocol once", len(proto.log) == 1 and proto.log[0] is m and bool(got) == proto.result)
        else: c.check("offered at most once", len(proto.log) <= 1)
    c.check("sends nothing", midi.take() == [])


@harness("C19", targets=T, bounds="one covered and one requested parameter")
def order_of_reception(c):
    midi, prot = Midi(c), Protocol(["a"])
    prot.result = c.flag("protocol takes it")
    cl = bidi(c, midi, prot, {"maxRequestLifetimeMillis": 1000000})
    log = []
    A, B = Listener("A", log), Listener("B", log)
    a = mapping(c, "a", request=nrpn(c, 200), response=nrpn(c, 0))
    b = mapping(c, "b", request=nrpn(c, 201), response=nrpn(c, 1))
    cl.register(a, A)
    wait = c.flag("waiting")
    if wait: cl.request(b, B)
    seen = []
    A.hook = lambda l, m: seen.append(len(prot.log))
    B.hook = A.hook
    kind = c.choice("kind", ("a", "b", "other", "cc", None))
    m = {"a": lambda: answer(c, 0, c.int("v", 0, 16383)), "b": lambda: answer(c, 1, c.int("v", 0, 16383)), "other": lambda: answer(c, 2, 5),
         "cc": lambda: cc(c, byte(c, "ctl"), byte(c, "val"))}.get(kind, lambda: None)()
    r = cl.receive(m)
    taken = kind == "a" or (kind == "b" and wait)
    c.check("the parameters get it first", seen == ([0] if taken else []))
    want = [] if taken or m is None else [m]
    c.check("the protocol gets exactly what no parameter took", len(prot.log) == len(want) and all(x is y for x, y in zip(prot.log, want)))
    c.check("sends nothing besides requests", [x for x, _ in midi.take()] == ([b.request] if wait else []))
    n = len(prot.log)
    cl.update()
    c.check("an update reaches the protocol once", prot.log[n:] == ["update"])


@harness("C19", targets=["clients.kemper.KemperBidirectionalProtocol.is_bidirectional", "clients.kemper.KemperBidirectionalProtocol.feedback_value"], kind="enumeration")
def kemper_set(c):
    """the parameter set of the Kemper protocol: exactly the documented parameters, whatever object or value"""
    K = "pyswitch.clients.kemper"
    P = c.get(K + ":KemperBidirectionalProtocol")(30)
    M, S = c.get(K + ":KemperMappings"), c.get(K + ":KemperEffectSlot")
    m = c.choice("parameter", [lambda s=s, n=n: getattr(M, n)(s) for n in ("EFFECT_TYPE", "EFFECT_STATE")
                               for s in (S.EFFECT_SLOT_ID_A, S.EFFECT_SLOT_ID_B, S.EFFECT_SLOT_ID_C, S.EFFECT_SLOT_ID_D, S.EFFECT_SLOT_ID_X, S.EFFECT_SLOT_ID_MOD)]
                 + [M.RIG_NAME, M.TUNER_MODE_STATE, M.TUNER_NOTE, M.TUNER_DEVIANCE])()
    m.value = c.int("value")
    c.check("covered", P.is_bidirectional(m) and P.feedback_value(m))
    other = c.choice("other", (M.RIG_ID, M.BIDIRECTIONAL_SENSING, lambda: mapping(c, "Foreign", response=nrpn(c, 5))))()
    c.check("not covered", not P.is_bidirectional(other) and not P.feedback_value(other))

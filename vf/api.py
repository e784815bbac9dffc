"""Registration of contracts (harnesses)."""
from .sym import conj, disj, neg, implies, iff, ite, SymInt, SymReal, SymBool, Sym, SymBytes, is_sym
from .ctx import ShapeMismatch
from .sym import PathEnd, Unsupported

REGISTRY = {}      # property -> [Harness]


class Harness:
    def __init__(self, prop, name, fn, targets, kind, params, covers, bounds, assumes, random_runs, quick, thorough):
        self.prop, self.name, self.fn = prop, name, fn
        self.targets = targets
        self.kind = kind            # "contract" | "induction" | "history" | "enumeration"
        self.params = params
        self.covers = covers
        self.bounds = bounds        # None: no bound;  else text
        self.assumes = assumes
        self.random_runs = random_runs
        self.quick = quick
        self.thorough = thorough    # extra parameters for the thorough tier


def harness(prop, targets, kind="contract", params=(None,), covers=(), bounds=None, assumes=(), random_runs=200,
            name=None, quick=True, thorough_params=None):
    """kind:
      contract     pre/postcondition of public operations; every input is a legal public input: a replayed failure is a failing input
      induction    one step from an arbitrary state satisfying a coupling invariant over private fields (state injection)
      history      public operations only, symbolic operands, history length bounded (stated in bounds)
    """
    def deco(fn):
        h = Harness(prop, name or fn.__name__, fn, list(targets), kind, list(params), list(covers), bounds, list(assumes),
                    random_runs, quick, list(thorough_params) if thorough_params is not None else None)
        REGISTRY.setdefault(prop, []).append(h)
        return fn
    return deco

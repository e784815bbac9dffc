"""Loads the real modules of /repo into a fresh namespace ("world") per execution path.

 * concrete worlds execute the unmodified source;
 * symbolic worlds execute the same source after a mechanical instrumentation (see Instrument): nothing is dropped or
   reordered; element access, containment, equality and loops are routed through vf.rt so that they understand symbolic
   operands.  For concrete operands every hook does exactly what python does.

The modules of the runtime environment (CircuitPython) are replaced by recording stand-ins (see stubs()).
"""
import ast, collections, json, os, re, sys, types, builtins, math, traceback
from fractions import Fraction
from . import sym as S
from . import rt

REPO = os.environ.get("VF_REPO", "/repo")
LIB = os.path.join(REPO, "content/lib")
DEPS = os.path.join(REPO, "web/htdocs/python")
WEB = os.path.join(REPO, "web/htdocs")
# modules for which a source exists in the repository (real code)
ROOTS = {"pyswitch": LIB, "adafruit_midi": DEPS, "wrappers": DEPS, "mocks": DEPS, "PySwitchRunner": DEPS, "parser": DEPS}
INSTRUMENTED = ("pyswitch", "wrappers", "PySwitchRunner")

_code = {}       # (name, symbolic) -> (code, path, is_pkg)


def source_path(name):
    root = ROOTS.get(name.split(".")[0])
    if root is None:
        return None
    p = os.path.join(root, *name.split("."))
    if os.path.isfile(p + ".py"):
        return p + ".py", False
    if os.path.isfile(os.path.join(p, "__init__.py")):
        return os.path.join(p, "__init__.py"), True
    if os.path.isdir(p):
        return None, True
    return None


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname

    def call(self, name, args, node):
        n = ast.Call(func=ast.Attribute(value=ast.Name(id="__vf__", ctx=ast.Load()), attr=name, ctx=ast.Load()), args=args, keywords=[])
        return ast.copy_location(n, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        if isinstance(node.slice, ast.Constant):
            return node
        if isinstance(node.slice, ast.Slice):
            parts = [p if p is not None else ast.Constant(value=None) for p in (node.slice.lower, node.slice.upper, node.slice.step)]
            if all(isinstance(p, ast.Constant) or (isinstance(p, ast.UnaryOp) and isinstance(p.operand, ast.Constant)) for p in parts):
                return node
            return self.call("getslice", [node.value] + parts, node)
        return self.call("getitem", [node.value, node.slice], node)

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) != 1 or not isinstance(t, ast.Subscript) or isinstance(t.slice, (ast.Slice, ast.Constant)):
            return node
        # same order of evaluation as the statement: value, container, index
        tmp = ast.copy_location(ast.Assign(targets=[ast.Name(id="__vf_v__", ctx=ast.Store())], value=node.value), node)
        call = self.call("setitem", [t.value, t.slice, ast.Name(id="__vf_v__", ctx=ast.Load())], node)
        return [tmp, ast.copy_location(ast.Expr(value=call), node)]

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if not isinstance(node.target, ast.Name) or not isinstance(node.op, ast.Add) or isinstance(node.value, ast.Constant):
            return node
        val = self.call("iadd", [ast.Name(id=node.target.id, ctx=ast.Load()), node.value], node)
        return ast.copy_location(ast.Assign(targets=[node.target], value=val), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        l, r = node.left, node.comparators[0]
        if isinstance(op, ast.In):
            return self.call("contains", [l, r], node)
        if isinstance(op, ast.NotIn):
            return self.call("not_contains", [l, r], node)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(r, ast.Constant) and (r.value is None or isinstance(r.value, bool)):
                return node
            return self.call("eq" if isinstance(op, ast.Eq) else "ne", [l, r], node)
        return node


    def visit_ClassDef(self, node):
        self.generic_visit(node)
        # the builtin types themselves as base classes (the names are replaced by functions which understand symbolic operands)
        node.bases = [ast.copy_location(ast.Attribute(value=ast.Attribute(value=ast.Name(id="__vf__", ctx=ast.Load()), attr="builtins", ctx=ast.Load()), attr=b.id, ctx=ast.Load()), b)
                      if isinstance(b, ast.Name) and b.id in rt.BUILTINS else b for b in node.bases]
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self.call("iterate", [node.iter], node.iter)
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        body = node.body
        if not (isinstance(node.test, ast.Constant) and node.test.value):
            body = [ast.copy_location(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=[ast.copy_location(ast.Break(), node)], orelse=[]), node)] + body
        return ast.copy_location(ast.For(target=ast.Name(id="__vf_w__", ctx=ast.Store()), iter=self.call("loop", [], node), body=body, orelse=[]), node)

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async or not isinstance(node.generators[0].target, ast.Name):
            return node
        g = node.generators[0]

        def lam(args, body):
            a = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in args], kwonlyargs=[], kw_defaults=[], defaults=[])
            return ast.copy_location(ast.Lambda(args=a, body=body), node)
        cond = ast.Constant(value=None)
        if g.ifs:
            cond = lam([g.target.id], g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs))
        comp = ast.ListComp(elt=node.elt, generators=[ast.comprehension(target=g.target, iter=ast.Name(id="__vf_it__", ctx=ast.Load()), ifs=g.ifs, is_async=0)])
        return self.call("listcomp", [lam(["__vf_it__"], comp), g.iter, cond, lam([g.target.id], node.elt)], node)


def compile_module(name, symbolic):
    k = (name, symbolic)
    if k in _code:
        return _code[k]
    sp = source_path(name)
    if sp is None:
        raise ModuleNotFoundError("No module named %r" % name, name=name)
    path, pkg = sp
    if path is None:
        code = None
    else:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        if symbolic and name.split(".")[0] in INSTRUMENTED:
            tree = ast.fix_missing_locations(Instrument(name).visit(tree))
        code = compile(tree, path, "exec", dont_inherit=True)
    _code[k] = (code, path, pkg)
    return _code[k]


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.symbolic = ctx.symbolic
        self.modules = {}
        self.stubs = stubs(ctx, self)
        self.builtins = make_builtins(self)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.stubs:
            return self.stubs[name]
        if name.split(".")[0] == "libcst":
            import importlib
            return importlib.import_module(name)
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            if name.split(".")[0] in ROOTS:
                self.load(parent)
                if name in self.modules:
                    return self.modules[name]
        code, path, pkg = compile_module(name, self.symbolic)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = []
        m.__dict__["__builtins__"] = self.builtins
        if self.symbolic:
            m.__dict__["__vf__"] = rt
        self.modules[name] = m
        if code is not None:
            try:
                exec(code, m.__dict__)
            except BaseException:
                del self.modules[name]
                raise
        if "." in name:
            setattr(self.modules[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        top = name.split(".")[0]
        if top not in ROOTS and top not in self.stubs and name not in self.stubs:
            if top in ("libcst", "typing", "functools", "warnings", "__future__"):
                return builtins.__import__(name, globals, locals, fromlist, 0)
            raise ImportError("No module named %r" % name, name=name)
        m = self.load(name)
        if not fromlist:
            return self.load(top)
        for f in fromlist:
            if f != "*" and not hasattr(m, f):
                full = name + "." + f
                if full in self.stubs or source_path(full):
                    setattr(m, f, self.load(full))
        return m


# -- environment stand-ins -------------------------------------------------------------------------------------------

class Array(list):
    """array.array of floats: values kept as given (single precision rounding is not modelled)"""
    def __init__(self, typecode, init=()):
        super().__init__(init)
        self.typecode = typecode
    def __new__(cls, typecode, init=()):
        if isinstance(init, S.Twin): return S.Twin(init.base, init.fn)
        return list.__new__(cls)


def stubs(ctx, world):
    st = {}

    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        st[name] = m
        return m

    module("micropython", const=lambda x: x)

    class Group(list):
        def __init__(self, scale=1, x=0, y=0):
            super().__init__()
            self.scale, self.x, self.y = scale, x, y
        __hash__ = object.__hash__
        def __eq__(self, o): return self is o
        def __bool__(self): return True
    module("displayio", Group=Group, release_displays=lambda: None)

    class Label:
        def __init__(self, font=None, **kw):
            self.font = font
            for k in ("anchor_point", "anchored_position", "text", "color", "line_spacing", "scale"):
                setattr(self, k, kw.get(k))
    label = module("adafruit_display_text.label", Label=Label)
    module("adafruit_display_text", label=label, wrap_text_to_pixels=lambda text, width=None, font=None, *a, **k: [text, "(wrapped)"])

    class Rect:
        def __init__(self, x=0, y=0, width=0, height=0, *, fill=None, outline=None, stroke=1):
            self.x, self.y, self.width, self.height, self.fill = x, y, width, height, fill
    rect = module("adafruit_display_shapes.rect", Rect=Rect)
    module("adafruit_display_shapes", rect=rect)

    module("gc", collect=lambda: None, mem_free=lambda: world.ctx.g.get("mem_free", 1 << 20), mem_alloc=lambda: world.ctx.g.get("mem_alloc", 1 << 10))
    module("time", monotonic=lambda: world.ctx.monotonic(), localtime=lambda s=None: ("localtime", s))
    module("array", array=Array)
    module("math", floor=rt.floor if world.symbolic else math.floor, pow=math.pow)

    class Keyboard:
        def __init__(self, devices):
            if world.ctx.g.get("keyboard_gone"): raise OSError("no HID device")
            self.log = []
        def send(self, *codes): world.ctx.g.setdefault("keyboard", []).append(("send", codes))
        def press(self, *codes): world.ctx.g.setdefault("keyboard", []).append(("press", codes))
        def release(self, *codes): world.ctx.g.setdefault("keyboard", []).append(("release", codes))
        def release_all(self): world.ctx.g.setdefault("keyboard", []).append(("release_all",))
    kb = module("adafruit_hid.keyboard", Keyboard=Keyboard)
    module("adafruit_hid", keyboard=kb)
    module("usb_hid", devices=[])
    module("usb_midi", ports=[object(), object()])

    class Board(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith("GP"):
                return "board." + name
            raise AttributeError(name)
    st["board"] = Board("board")

    class DigitalInOut:
        def __init__(self, port): self.port, self.value, self.direction, self.pull = port, True, "in", None
    class Direction: INPUT, OUTPUT = "in", "out"
    class Pull: UP, DOWN = "up", "down"
    module("digitalio", DigitalInOut=DigitalInOut, Direction=Direction, Pull=Pull)
    class AnalogIn:
        def __init__(self, port): self.port, self.value = port, 0
    module("analogio", AnalogIn=AnalogIn)
    class IncrementalEncoder:
        def __init__(self, a, b, divisor=4): self.position = 0
    module("rotaryio", IncrementalEncoder=IncrementalEncoder)
    # the browser (C47)
    class Refs:
        def to_py(self): return dict(self.__dict__)
        def hasOwnProperty(self, name): return name in self.__dict__
    class Document:
        def __init__(self): self.elements = {}
        def getElementById(self, id): return self.elements.get(id)
    module("js", externalRefs=Refs(), document=Document())
    module("pyodide", ffi=module("pyodide.ffi", wrappers=module("pyodide.ffi.wrappers", set_timeout=lambda fn, ms: world.ctx.g.setdefault("timeouts", []).append((fn, ms)))))
    class patched:
        """patch.dict(sys.modules, ...): replaces modules, restores all of them afterwards"""
        def __init__(self, container, values): self.values = values
        def __enter__(self):
            self.saved = dict(world.stubs), dict(world.modules)
            world.stubs.update(self.values)
        def __exit__(self, *exc):
            world.stubs, world.modules = self.saved
            return False
    module("unittest", mock=module("unittest.mock", patch=types.SimpleNamespace(dict=patched)))
    module("sys", modules={})
    st["traceback"], st["re"] = traceback, re
    # the parser of the web editor (C48) uses the real libraries
    st["json"], st["collections"] = json, collections
    module("importlib", import_module=lambda name: world.load(name))
    # ports of the hardware adapters: the contracts put recorders there (C45)
    module("busio", UART=None, SPI=None)
    module("fourwire", FourWire=None)
    module("adafruit_misc", adafruit_st7789=module("adafruit_misc.adafruit_st7789", ST7789=None), neopixel=module("adafruit_misc.neopixel", NeoPixel=None))
    module("adafruit_bitmap_font", bitmap_font=module("adafruit_bitmap_font.bitmap_font", load_font=None))
    return st


def make_builtins(world):
    d = dict(builtins.__dict__)
    d["__import__"] = world.imp
    d["print"] = lambda *a, **k: None
    d["open"] = lambda path, *a, **k: builtins.open(os.path.join(LIB if path.startswith("pyswitch/") else WEB, path), "r", encoding="utf-8")
    if world.symbolic:
        d.update(rt.BUILTINS)
    return d

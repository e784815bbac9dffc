"""Whatever the web editor offers exists in the firmware, and works: the definitions the editor is shipped with (actions, mappings, callbacks, their
parameters, defaults and the values it proposes) are data; they are checked completely, each against the function or class which they describe."""
import inspect, json, os, ast
from vf.api import *
from vf import world
from .lib import *
from .c48 import parser, Js, DISPLAY, T_READ, T_WRITE, T_FILE
from .kemper import KApp, Button

A, D, MAP, CB = "actions", "display", "mappings", "callbacks"
CLIENTS = ("kemper", "local", "boomerang")
MAX = {"NUM_RIGS_PER_BANK": 5, "NUM_BANKS": 125}
REQUIRED = {"pages": '[{"id": 1, "color": Colors.RED, "text": "a"}]', "page_id": "1", "splash_default": "None", "splashes": "None", "slot": None}


def definitions(kind, client=None):
    with open(os.path.join(world.WEB, "definitions", kind + ".json"), encoding="utf-8") as f: d = json.load(f)
    return [x for e in d if client is None or e["client"] == client for x in e[kind]] if kind != "meta" else d


def names(c):
    """the names a definition or a default value may use"""
    ns = {}
    for x in definitions(A) + definitions(MAP) + definitions(CB): ns[x.get("importName", x["name"])] = c.get("%s:%s" % (x["importPath"], x.get("importName", x["name"])))
    return ns


def resolve(c, d):
    """what the definition describes"""
    o = c.get("%s:%s" % (d["importPath"], d.get("importName", d["name"])))
    for part in d["name"].split(".")[1:]: o = getattr(o, part)
    return o


@harness("C49", targets=[], params=[(k, cl) for k in (A, MAP, CB) for cl in CLIENTS], kind="enumeration")
def signatures(c, what):
    """each definition: there is such a function (class), with these parameters and these defaults"""
    kind, client = what
    c.check("read", True)
    for d in definitions(kind, client):
        n = d["name"]
        try: o = resolve(c, d)
        except Exception as e:
            c.check("defined", False, info=(n, repr(e)))
            continue
        c.check("defined", callable(o), info=n)
        f = o.__init__ if inspect.isclass(o) else o
        s = [p for p in inspect.signature(f).parameters.values() if p.name != "self"]
        if not any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in s):
            c.check("no parameter which must be given is missing", all(p.name in [q["name"] for q in d["parameters"]] for p in s if p.default is p.empty), info=n)
        for q in d["parameters"]:
            p = [p for p in s if p.name == q["name"]]
            c.check("the parameter exists", bool(p), info=(n, q["name"]))
            if not p: continue
            c.check("required or not", (q["default"] is None) == (p[0].default is p[0].empty), info=(n, q["name"]))
            if q["default"] is None: continue
            ns = dict(vars(inspect.getmodule(f)) if inspect.getmodule(f) else getattr(f, "__globals__", {}))
            ns.update(getattr(f, "__globals__", {}))
            if inspect.isclass(o): ns.update(vars(o))
            elif "." in n: ns.update(vars(c.get("%s:%s" % (d["importPath"], d["importName"]))))
            try: v = eval(q["default"], ns)
            except Exception as e: v = e
            c.check("the default", c.is_true(c.eq(v, p[0].default)) if not isinstance(v, Exception) else False, info=(n, q["name"], q["default"], repr(p[0].default)))


def meta(client, d, p):
    m = definitions("meta")
    for cl in (client, "local"):
        for en in (d["name"], "default"):
            for e in m:
                if e["client"] != cl: continue
                for x in e["entities"]:
                    if x["entityName"] == en:
                        for q in x["parameters"]:
                            if q["name"] == p["name"]: return q
    return {}


def proposals(client, d, p):
    """the values which the editor proposes for a parameter"""
    m = meta(client, d, p)
    out = [v["value"] for v in m.get("values", [])]
    r = m.get("range")
    if r:
        out += [str(MAX.get(r[k], r[k])) for k in ("min", "max")] + [v["value"] for v in r.get("additionalValues", [])]
    if m.get("type") == "bool": out += ["True", "False"]
    if p["default"] is not None: out.append(p["default"])
    if "default" in m and m["default"] is not None: out.append(str(m["default"]))
    return out


def required(client, d):
    out = []
    for p in d["parameters"]:
        if p["default"] is None:
            v = proposals(client, d, p)
            out.append((p["name"], REQUIRED.get(p["name"]) or (v[0] if v else '"x"')))
    return out


def calls(client, kind):
    """-> [(definition, [(argument, value)])]: with what is required, and each proposed value of each parameter"""
    for d in definitions(kind, client):
        if d.get("type") == "attribute" or "." in d["name"] and kind == A: continue
        base = required(client, d)
        yield d, base
        for p in d["parameters"]:
            for v in proposals(client, d, p):
                yield d, [x for x in base if x[0] != p["name"]] + [(p["name"], v)]


def keycodes(c):
    with open(os.path.join(world.WEB, "definitions", "keycodes.json"), encoding="utf-8") as f:
        c.stub("adafruit_hid.keycode", Keycode=type("Keycode", (), {x["name"].split(".")[1]: i for i, x in enumerate(json.load(f))}))


def load(c, source, extra):
    """runs a generated configuration file"""
    ns = dict(extra)
    tree = ast.parse(source)
    body = []
    for s in tree.body:
        if isinstance(s, ast.ImportFrom):
            for a in s.names: ns[a.asname or a.name] = extra[a.name] if s.module == "display" else c.get("%s:%s" % (s.module, a.name))
        else: body.append(s)
    exec(compile(ast.Module(body=body, type_ignores=[]), "inputs.py", "exec"), ns)
    return ns


@harness("C49", targets=T_WRITE + T_FILE, params=[(cl, i) for cl, n in (("kemper", 6), ("local", 2), ("boomerang", 2)) for i in range(n)], kind="enumeration")
def offered_actions(c, what):
    """each action the editor can add, with each value it proposes: the file it writes loads, and the action can be attached to a switch"""
    client, part = what
    n = {"kemper": 6, "local": 2, "boomerang": 2}[client]
    todo = list(calls(client, A))[part::n]
    keycodes(c)
    p = parser(c)
    p.from_source("Inputs = []\n", DISPLAY)
    p.set_inputs(Js([{"arguments": [{"name": "actions", "value": [{"name": d["name"], "client": client, "arguments": [{"name": k, "value": v} for k, v in args]}]}]} for d, args in todo]))
    src = p.to_source()["inputs_py"]
    try: ns = load(c, src, {})
    except Exception as e:
        c.check("the file loads", False, info=(repr(e), src[-1500:]))
        return
    c.check("all of them", len(ns["Inputs"]) == len(todo))
    for (d, args), e in zip(todo, ns["Inputs"]):
        a = e["actions"][0]
        both = a if isinstance(a, list) else [a]
        for x in both:
            c.check("an action", hasattr(x, "init") and hasattr(x, "reset") and (hasattr(x, "push") or hasattr(x, "process")), info=(d["name"], args))
        appl = KApp(c)
        appl.reset_actions = lambda *a: None
        try:
            if hasattr(both[0], "push"):
                b = Button(c, appl, both)
                b.push()
                b.release()
            else:
                both[0].init(appl)
                for v in (0, 32768, 65535): both[0].process(v)
            c.advance(6000)
            appl.update()
        except Exception as e:
            c.check("it works", False, info=(d["name"], args, repr(e)))


@harness("C49", targets=[], params=["kemper", "local"], kind="enumeration")
def offered_mappings(c, client):
    """each mapping the editor proposes can be created"""
    todo = list(calls(client, MAP))
    ns = names(c)
    ns["KemperEffectSlot"] = c.get("pyswitch.clients.kemper:KemperEffectSlot")
    for d, args in todo:
        f = resolve(c, d)
        r = f(**{k: eval(v, dict(ns)) for k, v in args}) 
        c.check("a mapping", hasattr(r, "request") and hasattr(r, "response"), info=(d["name"], args))


PKG = "parser.misc."
FILES = sorted(os.path.relpath(os.path.join(r, f), world.LIB) for r, _, fs in os.walk(os.path.join(world.LIB, "pyswitch", "clients")) for f in fs if f.endswith(".py"))


def params_of(f, skip=()):
    a = f.args.args
    d = [None] * (len(a) - len(f.args.defaults)) + f.args.defaults
    return [(x.arg, ast.dump(y) if y is not None else None) for x, y in zip(a, d) if x.arg not in skip]


def found(x):
    return [(p["name"], None if p["default"] is None else ast.dump(ast.parse(p["default"], mode="eval").body)) for p in x["parameters"]]


@harness("C49", targets=[PKG + "FunctionExtractor.FunctionExtractor.get", PKG + "ClassItemExtractor.ClassItemExtractor.get", PKG + "ClassNamesExtractor.ClassNamesExtractor.get", PKG + "ClassNameExtractor.ClassNameExtractor.get"],
         params=[FILES[i::4] for i in range(4)], kind="enumeration", bounds="all files of the clients")
def extracted(c, files):
    """the tools which write the definitions report exactly the public functions and classes of a file, with their parameters and defaults"""
    for f in files:
        with open(os.path.join(world.LIB, f), encoding="utf-8") as h: tree = ast.parse(h.read())
        path = f[:-3].replace("/", ".")
        got = c.get(PKG + "FunctionExtractor:FunctionExtractor")([f]).get()
        want = [s for s in tree.body if isinstance(s, ast.FunctionDef) and not s.name.startswith("_")]
        c.check("the functions", [(x["name"], x["importPath"], found(x)) for x in got] == [(s.name, path, params_of(s)) for s in want], info=f)
        got = c.get(PKG + "ClassNamesExtractor:ClassNamesExtractor")([f]).get()
        classes = [s for s in ast.walk(tree) if isinstance(s, ast.ClassDef)]
        c.check("the classes", sorted((x["name"], x["importPath"]) for x in got) == sorted((s.name, path) for s in classes), info=f)
        for k in [s for s in tree.body if isinstance(s, ast.ClassDef)]:
            X = c.get(PKG + "ClassItemExtractor:ClassItemExtractor")
            got = X(f, k.name, path).get(functions=True)
            want = [s for s in k.body if isinstance(s, ast.FunctionDef) and not s.name.startswith("_")]
            c.check("the methods", [(x["name"], x["importName"], found(x)) for x in got if x["name"].startswith(k.name + ".")] == [(k.name + "." + s.name, k.name, params_of(s, ("self",))) for s in want], info=(f, k.name))
            got = X(f, k.name, path, include_underscore=True).get(functions=True)
            want = [s for s in k.body if isinstance(s, ast.FunctionDef) and s.name == "__init__"]
            c.check("the constructor", [found(x) for x in got if x["name"] == k.name] == [params_of(s, ("self",)) for s in want], info=(f, k.name))
            got = X(f, k.name, path).get(attributes=True)
            want = [s for s in k.body if isinstance(s, ast.Assign) and not s.targets[0].id.startswith("_")]
            c.check("the attributes", [(x["name"], ast.dump(ast.parse(x["value"], mode="eval").body)) for x in got] == [(k.name + "." + s.targets[0].id, ast.dump(s.value)) for s in want], info=(f, k.name))

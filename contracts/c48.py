"""The web editor: reading a configuration and writing it back keeps its meaning.

Induction over the structure of the data: each kind of node is read and generated correctly if its children are (they are replaced by opaque
expressions), with a bounded number of children; the syntax tree library is used as it is (assumed contract: code_for_node and parse_expression are
inverse).  Whole configurations are enumerated, including all which come with the repository."""
import ast, builtins, glob, json, os
from vf.api import *
from vf import world
from .lib import *

P = "parser."
M = P + "misc."
T_READ = [M + "CodeExtractor.CodeExtractor." + f for f in ("get", "_parse_node", "_parse_call", "_parse_dict", "_parse_list", "_parse_assigned", "_get_assignment")] + \
         [P + "InputsExtractor.InputsExtractor.postprocess_call", P + "SplashesExtractor.SplashesExtractor.postprocess_call", P + "SplashesExtractor.SplashesExtractor.get_arg_names",
          M + "AssignmentExtractor.AssignmentExtractor.get", P + "PySwitchParser.PySwitchParser.determine_client"]
T_WRITE = [M + "CodeGenerator.CodeGenerator." + f for f in ("generate", "_generate", "_generate_list_node", "_generate_dict_node", "_generate_call_node", "_resolve_assign",
           "_resolve_assign_level", "_element_value", "_generate_whitespaced_node", "_generate_parenthesized_whitespace", "_get_indent")]
T_FILE = [P + "PySwitchParser.PySwitchParser." + f for f in ("from_source", "to_source", "inputs", "set_inputs", "splashes", "set_splashes", "set_assignment", "get_assignment",
          "code_for_data_node", "_remove_unused_imports", "_add_all_possible_imports", "_generate_display_imports", "_generate_action_imports", "_generate_mapping_imports")] + \
         [M + "ReplaceAssignmentTransformer.ReplaceAssignmentTransformer.leave_Assign", M + "AddAssignmentTransformer.AddAssignmentTransformer.leave_SimpleStatementLine",
          M + "AddImportsTransformer.AddImportsTransformer.leave_SimpleStatementLine", M + "RemoveUnusedImportTransformer.RemoveUnusedImportTransformer._leave_import_alike",
          M + "AssignmentNameExtractor.AssignmentNameExtractor.get", M + "ImportExtractor.ImportExtractor._visit_import_alike"]
T_DEFS = [M + "FunctionExtractor.FunctionExtractor.get", M + "ClassItemExtractor.ClassItemExtractor.get", M + "ClassNamesExtractor.ClassNamesExtractor.get", M + "ClassNameExtractor.ClassNameExtractor.get"]
CLIENTS = ["kemper", "boomerang", "local"]


class Js:
    """an object of the page"""
    def __init__(self, data): self.data = data
    def to_py(self): return json.loads(json.dumps(self.data))


def parser(c): return c.get("parser.PySwitchParser:PySwitchParser")("pyswitch.hardware.devices.x", json.dumps(CLIENTS))
def libcst(c): return c.mod("libcst")
def code(c, node): return libcst(c).parse_module("").code_for_node(node)
def dump(src): return ast.dump(ast.parse(src.strip(), mode="eval"))


# -- induction over the nodes ------------------------------------------------------------------------------------------

def opaque(text):
    """what a child is read as; the generator makes the same of it, whether it is intercepted or not"""
    return {"value": "opaque(%s)" % text}


def pair(c, kind):
    """extractor and generator, with opaque children"""
    L = libcst(c)
    E = c.get("parser.InputsExtractor:InputsExtractor" if kind == "inputs" else "parser.SplashesExtractor:SplashesExtractor")
    clients = []
    class Parser:
        def determine_client(self, name, file_id=None, cst=None):
            clients.append(name)
            return "local"
    class X(E):
        depth = 0
        read = 0
        def _parse_node(self, node):
            if self.depth:
                self.read += 1
                return {"value": "opaque(%s)" % code(c, node)}
            self.depth = 1
            r = super()._parse_node(node)
            self.depth = 0
            return r
    class G(c.get("parser.misc.CodeGenerator:CodeGenerator")):
        depth = 0
        written = 0
        def _generate(self, data, level):
            if self.depth:
                self.written += 1
                return L.parse_expression(data["value"] if isinstance(data, dict) else data)
            self.depth = 1
            r = super()._generate(data, level)
            self.depth = 0
            return r
    return X(Parser(), L.parse_module("")), G(format=c.flag("format")), L


class Unwrap(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        return node.args[0] if isinstance(node.func, ast.Name) and node.func.id == "opaque" else node


def there_and_back(c, x, g, L, src, want=None, children=None):
    """children: how many have to pass the opaque methods; otherwise the recursion is a different one, and this induction does not apply"""
    data = json.loads(json.dumps(x._parse_node(L.parse_expression(src))))
    if children is not None and x.read != children[0]: raise ShapeMismatch("children are not read with _parse_node: %d of %d" % (x.read, children[0]))
    out = code(c, g.generate(data))
    if children is not None and g.written != children[1]: raise ShapeMismatch("children are not generated with _generate: %d of %d" % (g.written, children[1]))
    c.check("the same expression", ast.dump(Unwrap().visit(ast.parse(out.strip(), mode="eval"))) == dump(want or src), info=(src, out))
    return data


@harness("C48", targets=T_READ + T_WRITE, params=["inputs", "splashes"], kind="enumeration", bounds="up to 4 arguments (their nesting is arbitrary: induction)")
def call(c, kind):
    """a call: the function, all arguments with their names, in order; unnamed arguments of DisplayBounds get their names"""
    x, g, L = pair(c, kind)
    name = c.choice("function", ("F", "a.b.F", "DisplayBounds"))
    n = c.choice("arguments", (0, 1, 2, 3, 4))
    named = c.choice("first named argument", tuple(range(n + 1)))
    star = c.flag("unpacked") if n > 1 else False
    args = ["*rest" if star and i == named - 1 else "**options" if star and i == n - 1 else "(1 + 2) * k%d" % i if i == 1 else "v%d" % i for i in range(n)]
    src = "%s(%s)" % (name, ", ".join(("%s = " % "pqrs"[i] if i >= named and a[0] != "*" else "") + a for i, a in enumerate(args)))
    want = None
    if name == "DisplayBounds" and kind == "splashes" and not star:
        want = "%s(%s)" % (name, ", ".join(("%s = " % ("pqrs"[i] if i >= named else "xywh"[i])) + a for i, a in enumerate(args)))
    d = there_and_back(c, x, g, L, src, want, (sum(a[0] != "*" for a in args), n))
    c.check("the name", d["name"] == name)
    c.check("the arguments", [a["value"] for a in d["arguments"]] == [a if a[0] == "*" else opaque(a) for a in args])
    c.check("the client", d["client"] == "local")


@harness("C48", targets=T_READ + T_WRITE, params=["inputs", "splashes"], kind="enumeration", bounds="up to 4 elements (their nesting is arbitrary: induction)")
def containers(c, kind):
    """lists and dicts: all elements and keys, in order, whatever quotes the keys have"""
    x, g, L = pair(c, kind)
    n = c.choice("elements", (0, 1, 2, 4))
    if c.flag("list"):
        d = there_and_back(c, x, g, L, "[%s]" % ", ".join("v%d" % i for i in range(n)), None, (n, n))
        c.check("the elements", d == [opaque("v%d" % i) for i in range(n)])
    else:
        q = c.choice("quotes", ('"', "'"))
        keys = ["key%d" % i if i != 2 else c.choice("key", ("a b", "displayDimFactorOn", "1")) for i in range(n)]
        d = there_and_back(c, x, g, L, "{%s}" % ", ".join(q + k + q + ": v%d" % i for i, k in enumerate(keys)), None, (n, n))
        c.check("the keys", [a["name"] for a in d["arguments"]] == keys)
        c.check("the values", [a["value"] for a in d["arguments"]] == [opaque("v%d" % i) for i in range(n)])


EXPRESSIONS = ("1", "-1.5", '"text"', "'te\"xt'", "None", "True", "Colors.RED", "(1, 2, 3)", "lambda action, value: value + 1", "f(x)[0]", "a if b else c", "0x1f", "x.y", "not a", "(F(1), 2)", 'f"{x}"')


@harness("C48", targets=T_READ + T_WRITE, kind="enumeration", bounds="%d kinds of expressions" % len(EXPRESSIONS))
def leaves(c):
    """everything else is kept as it is written"""
    L = libcst(c)
    x = c.get("parser.InputsExtractor:InputsExtractor")(parser(c), L.parse_module(""))
    g = c.get("parser.misc.CodeGenerator:CodeGenerator")(format=c.flag("format"))
    src = c.choice("expression", EXPRESSIONS)
    there_and_back(c, x, g, L, src)


# -- files -------------------------------------------------------------------------------------------------------------

class Norm(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "DisplayBounds":
            node.keywords = [ast.keyword(arg="xywh"[i], value=a) for i, a in enumerate(node.args)] + node.keywords
            node.args = []
        return node


def meaning(src):
    """-> (imports {name: module}, everything else in order)"""
    imports, rest = {}, []
    for s in Norm().visit(ast.parse(src)).body:
        if isinstance(s, ast.ImportFrom):
            for a in s.names: imports.setdefault(a.asname or a.name, []).append((s.module, a.name))
        elif isinstance(s, ast.Import):
            for a in s.names: imports.setdefault(a.asname or a.name, []).append((a.name, None))
        else: rest.append(s)
    return imports, rest


def used(rest):
    return {n.id for s in rest for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def defined(rest):
    out = set()
    for s in rest:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)): out.add(n.name)
            if isinstance(n, ast.arg): out.add(n.arg)
    return out


def check_file(c, what, before, after, displays=(), replaced={}):
    """the same statements in the same order, apart from the assignments which were replaced; the imports which are needed, and no others"""
    bi, br = meaning(before)
    ai, ar = meaning(after)
    def key(s):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in replaced:
            s = ast.Assign(targets=s.targets, value=ast.parse(replaced[s.targets[0].id], mode="eval").body, lineno=1)
        return ast.dump(s)
    b, a = [key(s) for s in br], [ast.dump(s) for s in ar]
    new = [s for s in a if s not in b]
    c.check(what + ": the same statements", a == b, info=[s[:300] for s in new] + [s[:300] for s in b if s not in a])
    need = used(ar) - defined(ar)
    for n in sorted(need):
        if n in bi: c.check(what + ": imports which are used stay as they are", set(ai.get(n, [])) == set(bi[n]), info=(n, ai.get(n), bi[n]))
    c.check(what + ": no other import of names", all(n in need or n == "*" for n in ai), info=[n for n in ai if n not in need])
    c.check(what + ": each name is imported once", all(len(v) <= max(1, len(bi.get(n, []))) for n, v in ai.items() if n != "*"), info={n: v for n, v in ai.items() if len(v) > 1})
    c.check(what + ": star imports stay", ai.get("*") == bi.get("*"))
    known = set(dir(builtins)) | defined(ar)
    star = "*" in ai
    c.check(what + ": all names are known", all(n in ai or n in known or (star and n.isupper()) for n in need), info=[n for n in need if n not in ai and n not in known])


CONFIGS = sorted(os.path.relpath(os.path.dirname(f), world.REPO) for d in ("examples", "content", "test/test-examples", "web/htdocs/templates")
                 for f in glob.glob(os.path.join(world.REPO, d, "**", "inputs.py"), recursive=True) if os.path.exists(os.path.join(os.path.dirname(f), "display.py")))
GROUPS = [CONFIGS[i::8] for i in range(8)]


def load(path):
    return tuple(open(os.path.join(world.REPO, path, f), encoding="utf-8").read() for f in ("inputs.py", "display.py"))


@harness("C48", targets=T_READ + T_WRITE + T_FILE, params=list(range(8)), kind="enumeration", bounds="all configurations which come with the repository")
def examples(c, group):
    """read and written back, with and without passing through the editor: the same meaning; again: the same text"""
    for path in GROUPS[group]:
        inputs, display = load(path)
        p = parser(c)
        p.from_source(inputs, display)
        src = p.to_source()
        check_file(c, path + "/inputs.py", inputs, src["inputs_py"])
        check_file(c, path + "/display.py", display, src["display_py"])
        p = parser(c)
        p.from_source(inputs, display)
        a, b = json.loads(p.inputs()), json.loads(p.splashes())
        c.check("reading changes nothing", (json.loads(p.inputs()), json.loads(p.splashes())) == (a, b))
        p.set_inputs(Js(a))
        p.set_splashes(Js(b))
        c.check("what was set is read again", (json.loads(p.inputs()), json.loads(p.splashes())) == (a, b), info=path)
        src = p.to_source()
        check_file(c, path + "/inputs.py edited", inputs, src["inputs_py"])
        check_file(c, path + "/display.py edited", display, src["display_py"])
        p2 = parser(c)
        p2.from_source(src["inputs_py"], src["display_py"])
        p2.set_inputs(Js(json.loads(p2.inputs())))
        p2.set_splashes(Js(json.loads(p2.splashes())))
        c.check("the same text from then on", p2.to_source() == src, info=path)


DISPLAY = '''# my display
from pyswitch.ui.elements import DisplayLabel
from pyswitch.ui.ui import DisplayBounds, DisplayElement
from micropython import const
from pyswitch.colors import Colors

_H = const(40)

LAYOUT = {
    "font": "/fonts/H20.pcf",   # a font
    "backColor": Colors.RED
}

LABEL_1 = DisplayLabel(layout = LAYOUT, bounds = DisplayBounds(0, 0, 120, _H))
LABEL_2 = DisplayLabel(layout = LAYOUT, bounds = DisplayBounds(120, 0, w = 120, h = _H))

Splashes = DisplayElement(
    bounds = DisplayBounds(0, 0, 240, 240),
    children = [
        LABEL_1,
        LABEL_2
    ]
)

LATE = LABEL_2
'''


FEATURES = ("function", "shared", "unused", "display", "both", "quotes", "hold", "after")
SETS = [(), FEATURES, ("function", "display", "quotes"), ("shared", "unused", "hold"), ("display", "both", "hold", "after"), ("shared", "display", "unused", "quotes", "after"), ("function", "shared", "both", "hold")]


def build(c, i):
    """a configuration file of the user, from its parts -> (text, actions per switch, hold actions)"""
    f = SETS[i] if c.symbolic else [n for n in FEATURES if c.flag(n)]
    imports = ["from pyswitch.hardware.devices.pa_midicaptain_10 import *"]
    own, acts = [], []
    if "function" in f: own.append("def helper(action):\n    # comment\n    return action.state\n")
    if "shared" in f:
        imports.append("from pyswitch.clients.kemper.actions.tuner import TUNER_MODE")
        own.append("TUNER = TUNER_MODE(\n    text = 'Tune',\n    color = (1, 2, 3)\n)\n")
        acts.append("TUNER")
    imports.append("from pyswitch.clients.local.actions.hid import HID_KEYBOARD")
    imports.append("from adafruit_hid.keycode import Keycode")
    if "unused" in f: imports.append("from pyswitch.clients.kemper.actions.amp import AMP_GAIN")
    acts.append("HID_KEYBOARD(keycodes = [Keycode.A, Keycode.B], text = \"x\")")
    if "display" in f:
        imports.append("from display import LABEL_1" + (", LABEL_2" if "both" in f else ""))
        acts.append("HID_KEYBOARD(Keycode.C, display = LABEL_1)")
    q = "'" if "quotes" in f else '"'
    hold = "hold" in f
    if hold: imports.append("from pyswitch.clients.local.actions.custom import CUSTOM_MESSAGE as MY")
    entries = []
    for i, a in enumerate(acts):
        entries.append("    # Switch\n    {\n        %sassignment%s: PA_MIDICAPTAIN_10_SWITCH_%d,\n        %sactions%s: [%s]%s\n    }" % (q, q, i + 1, q, q, a,
            ",\n        %sactionsHold%s: [MY(message = [0xb0, 1, 2])]" % (q, q) if hold and not i else ""))
    text = "# my inputs\n" + "\n".join(imports) + "\n\n" + "\n\n".join(own) + "\n\nInputs = [\n" + ",\n".join(entries) + "\n]\n"
    if "after" in f: text += "\nOTHER = 5\n"
    return text, acts, hold


@harness("C48", targets=T_READ + T_WRITE + T_FILE, params=list(range(len(SETS))), kind="enumeration", bounds="configurations of up to 3 switches, combinations of the features of build()", random_runs=4)
def unchanged(c, i):
    """a configuration which is read and written back has the same meaning"""
    text, acts, hold = build(c, i)
    p = parser(c)
    p.from_source(text, DISPLAY)
    if c.flag("edit"):
        p.set_inputs(Js(json.loads(p.inputs())))
        p.set_splashes(Js(json.loads(p.splashes())))
    src = p.to_source()
    check_file(c, "inputs.py", text, src["inputs_py"])
    check_file(c, "display.py", DISPLAY, src["display_py"])
    c.check("comments at the head stay", "# my inputs" in src["inputs_py"] and "# my display" in src["display_py"])


CHANGES = ("argument", "new argument", "remove", "add", "reassign")


@harness("C48", targets=T_READ + T_WRITE + T_FILE, params=[(i, what) for i in range(len(SETS)) for what in CHANGES], kind="enumeration", bounds="configurations of up to 3 switches, one change", random_runs=2)
def changed(c, param):
    """one change of one action changes exactly that, and the imports it needs"""
    i, what = param
    text, acts, hold = build(c, i)
    p = parser(c)
    p.from_source(text, DISPLAY)
    data = json.loads(p.inputs())
    k = c.choice("switch", tuple(range(len(acts))))
    slot = data[k]["arguments"]
    c.check("the parts of a switch", [a["name"] for a in slot] == ["assignment", "actions"] + (["actionsHold"] if hold and not k else []))
    actions = slot[1]["value"]
    L = lambda t: ast.parse(t, mode="eval").body
    tree = ast.parse(text)
    node = next(s for s in tree.body if isinstance(s, ast.Assign) and s.targets[0].id == "Inputs").value.elts[k]
    shared = acts[k] == "TUNER"
    target = next(s for s in tree.body if isinstance(s, ast.Assign) and s.targets[0].id == "TUNER").value if shared else node.values[1].elts[0]
    if what == "argument":
        actions[0]["arguments"][0]["value"] = "Keycode.D"
        if target.args: target.args[0] = L("Keycode.D")
        else: target.keywords[0].value = L("Keycode.D")
    elif what == "new argument":
        actions[0]["arguments"].append({"name": "color", "value": "Colors.GREEN"})
        target.keywords.append(ast.keyword(arg="color2" if shared else "color", value=L("Colors.GREEN")))
        if shared: actions[0]["arguments"][-1]["name"] = "color2"
    elif what == "remove":
        actions.pop(0)
        node.values[1].elts.pop(0)
    elif what == "add":
        actions.append({"name": "AMP_GAIN", "arguments": [{"name": "display", "value": "LABEL_2"}, {"name": "x", "value": [{"name": "F2", "arguments": []}, "1"]}]})
        node.values[1].elts.append(L("AMP_GAIN(display = LABEL_2, x = [F2(), 1])"))
    else:
        slot[0]["value"] = "PA_MIDICAPTAIN_10_SWITCH_A"
        node.values[0] = L("PA_MIDICAPTAIN_10_SWITCH_A")
    p.set_inputs(Js(data))
    src = p.to_source()
    ai, ar = meaning(src["inputs_py"])
    bi, br = meaning(text)
    want = [s for s in tree.body if not isinstance(s, (ast.Import, ast.ImportFrom))]
    c.check("exactly this change", [ast.dump(s) for s in ar] == [ast.dump(s) for s in want], info=src["inputs_py"])
    need = used(ar) - defined(ar)
    c.check("no import which is not needed", all(n in need for n in ai if n != "*"), info=[n for n in ai if n not in need])
    where = {"AMP_GAIN": "pyswitch.clients.kemper.actions.amp", "LABEL_1": "display", "LABEL_2": "display", "Colors": "pyswitch.colors", "Keycode": "adafruit_hid.keycode",
             "HID_KEYBOARD": "pyswitch.clients.local.actions.hid", "TUNER_MODE": "pyswitch.clients.kemper.actions.tuner"}
    for n in need & set(where): c.check("what is needed is imported, once and from its place", ai.get(n) == [(where[n], n)], info=(n, ai.get(n)))
    if "MY" in need: c.check("other names stay", ai["MY"] == bi["MY"])
    check_file(c, "display.py", DISPLAY, src["display_py"])


@harness("C48", targets=T_READ + T_WRITE + T_FILE, kind="enumeration", bounds="3 assignments")
def assignments(c):
    """named parts: read with their content, written back to their own assignment, new ones before their use"""
    p = parser(c)
    has = c.flag("already there")
    src = "from pyswitch.clients.local.actions.hid import HID_KEYBOARD\n" + ("K = HID_KEYBOARD(1, text = \"a\")\nJ = [K]\n" if has else "") + "Inputs = [%s]\n" % ("K, J" if has else "")
    p.from_source(src, DISPLAY)
    if has: d = json.loads(p.inputs())
    else:
        k = {"name": "HID_KEYBOARD", "arguments": [{"value": "1"}, {"name": "text", "value": "\"a\""}], "client": "local", "assign": "K"}
        d = [k, {"value": [k], "assign": "J"}]
    if has: c.check("the content and the names", (d[0]["assign"], d[0]["name"], d[1]["assign"], d[1]["value"][0]["assign"]) == ("K", "HID_KEYBOARD", "J", "K"))
    t = c.choice("text", ('"a"', '"new"'))
    for n in (d[0], d[1]["value"][0]): n["arguments"][1]["value"] = t
    p.set_inputs(Js(d))
    _, rest = meaning(p.to_source()["inputs_py"])
    c.check("one assignment each, before its use", [ast.dump(s) for s in rest] == [ast.dump(s) for s in ast.parse("K = HID_KEYBOARD(1, text = %s)\nJ = [K]\nInputs = [K, J]" % t).body])
    c.check("an unknown name has no assignment", p.get_assignment("none", "inputs_py") is None and p.get_assignment("K", "inputs_py") is not None)
    c.check("code of a single part", dump(p.code_for_data_node(Js(d[0]))) == dump("K") and p.code_for_data_node("abc") == "abc")


@harness("C48", targets=T_READ + T_WRITE + T_FILE, params=["inputs", "display"], kind="enumeration", bounds="chains of 4 assignments")
def used_after(c, which):
    """a chain of named parts, the first of them new: all of them are defined before they are used"""
    old = c.choice("how many exist", (0, 1, 2, 3))
    names = ["A", "B", "C"]
    kind = c.choice("kind", ("call", "dict", "list"))
    def content(i):
        inner = names[i + 1] if i < 2 else "1"
        return {"call": "F(x = %s)", "dict": "{'x': %s}", "list": "[%s]"}[kind] % inner
    def data(i):
        inner = data(i + 1) if i < 2 else "1"
        if kind == "list": return {"value": [inner], "assign": names[i]}
        d = {"arguments": [{"name": "x", "value": inner}], "assign": names[i]}
        if kind == "call": d["name"] = "F"
        return d
    top = "Inputs" if which == "inputs" else "Splashes"
    def old_content(i): return content(i) if i + 1 < old else content(i).replace(names[i + 1], "0") if i < 2 else content(i)
    src = "from x import F\nX, Y = 1, 2\n" + "".join("%s = %s\n" % (names[i], old_content(i)) for i in reversed(range(old))) + ("%s = [A]\n" % top if old else "%s = []\n" % top)
    p = parser(c)
    p.from_source(src if which == "inputs" else "Inputs = []\n", src if which == "display" else "Splashes = []\n")
    (p.set_inputs if which == "inputs" else p.set_splashes)(Js([data(0)]))
    _, rest = meaning(p.to_source()["inputs_py" if which == "inputs" else "display_py"])
    want = "X, Y = 1, 2\n" + "".join("%s = %s\n" % (n, content(i)) for i, n in reversed(list(enumerate(names)))) + "%s = [A]\n" % top
    c.check("defined before their use", [ast.dump(s) for s in rest] == [ast.dump(s) for s in ast.parse(want).body], info=[ast.unparse(s) for s in rest])


OWN = {
    "its own action of a known name": "from mine import AMP_GAIN\nInputs = [{'actions': [AMP_GAIN(1)]}]\n",
    "a renamed action": "from pyswitch.clients.kemper.actions.amp import AMP_GAIN as G\nInputs = [{'actions': [G(1)]}]\n",
    "a known name for something else": "from pyswitch.clients.kemper.actions.tuner import TUNER_MODE as AMP_GAIN\nInputs = [{'actions': [AMP_GAIN()]}]\n",
    "a function first": "def f(x):\n    y = 1\n    return y\n\nInputs = [{'actions': [AMP_GAIN(f(1))]}]\n",
    "imports in functions": "def f(x):\n    from mine import AMP_GAIN\n    return AMP_GAIN()\n\ndef g(x):\n    from other import AMP_GAIN\n    return AMP_GAIN()\n\nInputs = [{'actions': [f(1)]}]\n",
    "a condition": "if True:\n    from mine import AMP_GAIN\nelse:\n    from other import AMP_GAIN\n\nInputs = [{'actions': [f(1)]}]\n\ndef f(x):\n    return AMP_GAIN(x)\n",
    "an empty list with a name": "NONE = []\nInputs = [{'actions': NONE}]\n",
    "a docstring": '"""my configuration"""\nInputs = [{"actions": [AMP_GAIN()]}]\n',
    "other assignments": "A, B = 1, 2\nd = {}\nd['x'] = A\nd.y = B\n(E) = F = 4\nInputs = [{'actions': [AMP_GAIN(d)]}]\n",
    "unpacked arguments": "ARGS = (1, 2)\nInputs = [{'actions': [AMP_GAIN(*ARGS, x = 1, **{'y': 2})]}]\n",
    "modules": "import mine\nimport mine.sub\nInputs = [{'actions': [mine.AMP_GAIN(), mine.sub.X()]}]\n",
    "star imports": "from display import *\nfrom mine import *\nInputs = [{'actions': [AMP_GAIN(display = LABEL_1)]}]\n",
    "nothing": "Inputs = []\n",
    "local names": "def f(x):\n    K = 1\n    Inputs = K\n    return Inputs\n\nclass X:\n    K = 2\n\nif f(1):\n    K = 3\n\nK = AMP_GAIN(1)\nInputs = [{'actions': [K]}]\n",
    "a late label": "Inputs = [{'actions': [AMP_GAIN(display = LATE)]}]\n",
}
ADDED = {"local names": {"AMP_GAIN"}, "a late label": {"AMP_GAIN", "LATE"}, "a function first": {"AMP_GAIN"}, "a docstring": {"AMP_GAIN"}, "other assignments": {"AMP_GAIN"}, "unpacked arguments": {"AMP_GAIN"}, "star imports": {"AMP_GAIN", "LABEL_1"}}


@harness("C48", targets=T_READ + T_WRITE + T_FILE, params=sorted(OWN), kind="enumeration", bounds="%d kinds of code" % len(OWN))
def own_code(c, name):
    """what the user wrote himself is not touched: all statements stay, his imports keep their place and module, missing ones are added on module level"""
    src = OWN[name]
    p = parser(c)
    p.from_source(src, DISPLAY)
    if c.flag("edit"): p.set_inputs(Js(json.loads(p.inputs())))
    out = p.to_source()["inputs_py"]
    added = []
    def stripped(t):
        r = []
        for s in ast.parse(t).body:
            if isinstance(s, ast.ImportFrom) and s.module and s.module != "mine" and not any(ast.dump(s) == ast.dump(x) for x in ast.parse(src).body):
                added.extend(a.name for a in s.names)
                c.check("from its place", s.module in ("display", "pyswitch.clients.kemper.actions.amp"), info=s.module)
            elif not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)): r.append(ast.dump(s))
        return r
    c.check("the code of the user", stripped(out) == stripped(src), info=out)
    if name != "a condition": c.check("the imports which are needed", set(added) == ADDED.get(name, set()) and len(added) == len(set(added)), info=(out, added))


@harness("C48", targets=T_FILE, kind="enumeration")
def not_loaded(c):
    """nothing can be read or written before a configuration is loaded"""
    p = parser(c)
    for f in (p.inputs, p.splashes, p.displays, p.to_source, lambda: p.set_inputs(Js([])), lambda: p.set_splashes(Js([]))):
        c.check("refused", c.raises(f, Exception))

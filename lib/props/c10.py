"""C10: packages and package collections as a tree of names (stateful model)"""
import re
import random
import argen as g
import arschema as s
import doc
from doc import CLASSES, ar_document, ar_reader, ar_writer
import autosar.xml.element as ar_element
import autosar.xml.exception as ar_except
import autosar.xml.workspace as ar_workspace

ID = "C10"
QUICK, THOROUGH = 30000, 500000
RULE = """A case is a history of up to 40 append, create_package, make_packages (one or several paths), find, filter,
filter_regex, ref operations and elements moved between packages, on the packages of a Document, a Workspace or a package without root, with few names so that
names collide. After each operation the result or error is the one of a model that is a tree of ordered names, and the
lists, parents, references, found objects and the written XML are those of the model; failed operations change nothing.
Non-trivial: at least two levels of packages, one element and one rejected operation."""
LONG = "PackageOfTheDriverAssistance_1" * 4
NAMES = ["A", "B", "AB", "a", "Platform", "A_", "A_B", "B1", "DataTypes", LONG, LONG + "B"]
MORE = NAMES + [f"Name{k}" for k in range(30)]
ELEMENTS = [c for c in sorted(CLASSES) if CLASSES[c].collectable and c not in ("Package", "DataFilter")]
KWARGS = {"category": "CATEGORY", "desc": "Description", "long_name": None}


def path(rng, deep, names):
    """Random path"""
    names = names if rng.random() < 0.9 else names[:2]
    return "/".join(rng.choice(names) for _ in range(rng.choice([1, 1, 2, 2, 3, deep] * 6 + [12])))


def generate(rng, i, _tier):
    """Case number i"""
    ops = []
    names = NAMES if i % 50 != 49 or rng.random() < 0.3 else MORE
    for _ in range(rng.randrange(4, 40) if i % 50 != 49 else 120):
        where = path(rng, 3, names) if rng.random() < 0.75 else ""
        kind = rng.choice(["element", "element", "element", "package", "create", "create", "make", "make", "make",
                           "find", "filter", "regex", "wrong", "tree", "move"])
        if kind == "element":
            ops.append([kind, where, rng.choice(names), rng.choice(ELEMENTS)])
        elif kind == "create":
            ops.append([kind, where, rng.choice(names), rng.choice([None, None, "category", "desc"])])
        elif kind == "package":
            ops.append([kind, where, rng.choice(names)])
        elif kind == "make":
            ops.append([kind, where, [("/" if rng.random() < 0.5 else "") + path(rng, 5, names)
                                      for _ in range(rng.choice([1, 1, 1, 2, 3]))]])
        elif kind == "find":
            ops.append([kind, where, path(rng, 4, names)])
        elif kind == "filter":
            ops.append([kind, where, [rng.choice(names) if rng.random() < 0.9 else rng.choice(["/", "/X/", "", "^"]) + rng.choice(names) +
                                      rng.choice(["", "*", ".*", "/", "$"]) for _ in range(rng.choice([0, 1, 2, 3, 4, 8]))]])
        elif kind == "regex":
            ops.append([kind, where, rng.choice(["A.*", "B.*", "(B|Types).*", ".*B$", "^(A|B1)$", "[A-C].*", "^.$", ".*_.*", "Data[A-Z].*",
                                                 "^$", "(?i)a.*", "Name.*", "a.*", "b.?"]),
                        rng.choice([False, 0, re.IGNORECASE.value])])
        elif kind == "wrong":
            ops.append([kind, where, rng.choice(["int", "str", "none", "port", "document", "unit"])])
        elif kind == "move":
            ops.append([kind, where, rng.randrange(100)])
        elif kind == "tree":  # a package that already has content
            ops.append([kind, where, rng.choice(names), rng.choice(names), rng.choice(names)])
    return {"root": rng.choice(["document", "document", "workspace", "package", "list"]), "ops": ops}


class Model:
    """A package or root"""

    def __init__(self, name, obj=None):
        self.name, self.obj, self.packages, self.elements = name, obj, [], []

    def get(self, name):
        """Package or element"""
        for x in self.packages + self.elements:
            if x.name == name:
                return x
        return None

    def find(self, names):
        """By path; only packages have parts"""
        x = self
        for n in names.split("/"):
            x = x.get(n) if isinstance(x, Model) else None
        return x


class Elem:
    """An element"""

    def __init__(self, name, obj):
        self.name, self.obj = name, obj
        self.home = None  # another package to which it has been appended later


def make(model, names):
    """make_packages of the model: the package or an error; new packages have no object yet"""
    for n in names.strip("/").split("/"):
        x = model.get(n)
        if x is None:
            x = Model(n)
            model.packages.append(x)
        elif isinstance(x, Elem):
            raise KeyError(n)
        model = x
    return model


def adopt(model, obj):
    """Takes over the objects of packages that were created; they are recognized by their place in the list"""
    if len(model.packages) == len(obj.packages):
        for m, o in zip(model.packages, obj.packages):
            if m.obj is None:
                m.obj = o
            adopt(m, m.obj)


def elements_of(model):
    """All elements with the packages they are in"""
    out = [(e, model) for e in model.elements]
    for m in model.packages:
        out += elements_of(m)
    return out


def compare(model, obj, root, where):
    """The lists, names, parents, references and found objects are those of the model"""
    if [p.name for p in obj.packages] != [m.name for m in model.packages]:
        return f"packages of {where or 'the root'} are {[p.name for p in obj.packages]}, " \
               f"expected {[m.name for m in model.packages]}"
    if len({id(p) for p in obj.packages}) != len(obj.packages):
        return f"packages of {where or 'the root'} contains the same object twice"
    for m, p in zip(model.packages, obj.packages):
        if m.obj is not p:
            return f"package {where}/{m.name} is another object"
        if p.parent is not obj:
            return f"parent of {where}/{m.name} is {p.parent}"
        if obj.find(m.name) is not p:
            return f"find({m.name!r}) in {where or 'the root'} is {obj.find(m.name)}"
        d = compare(m, p, root, f"{where}/{m.name}")
        if d:
            return d
        if not isinstance(root, ar_element.Package) and str(p.ref()) != f"{where}/{m.name}":
            return f"ref() of {where}/{m.name} is {p.ref()}"
    if isinstance(model, Model) and isinstance(obj, ar_element.Package):
        if [e.name for e in obj.elements] != [m.name for m in model.elements]:
            return f"elements of {where} are {[e.name for e in obj.elements]}, " \
                   f"expected {[m.name for m in model.elements]}"
        for m, e in zip(model.elements, obj.elements):
            if m.obj is not e or e.parent is not (obj if m.home is None else m.home.obj) or obj.find(m.name) is not e:
                return f"element {where}/{m.name}: wrong object, parent or find()"
    for n in NAMES + MORE[-2:]:
        if model.get(n) is None and obj.find(n) is not None:
            return f"find({n!r}) in {where or 'the root'} is {obj.find(n)}, expected None"
    return None


def outline(model):
    """Names as written: elements before packages"""
    return [model.name, [e.name for e in model.elements], [outline(p) for p in model.packages]]


def outline_of(obj):
    """The same for objects"""
    return [obj.name, [e.name for e in obj.elements], [outline_of(p) for p in obj.packages]]


def attempt(func):
    """(result, error)"""
    try:
        return func(), None
    except Exception as exc:  # pylint: disable=broad-except
        return None, exc


def failed(result, error, want, what):
    """Whether the expected error or none was raised"""
    if want is None and error is not None:
        return f"{what} raises {type(error).__name__}: {error}"
    if want is not None and error is None:
        return f"{what} is accepted (result {result}), expected {want}"
    if want is not None and not isinstance(error, want):
        return f"{what} raises {type(error).__name__}: {error}, expected {want}"
    return None


def element(cls, name):
    """A new element"""
    gen = g.Gen(random.Random(7), 51)
    return CLASSES[cls].build({**gen.cls(cls, 0, 0.0, set()), "name": name})


WRONG = {"int": lambda: 1, "str": lambda: "Name", "none": lambda: None,
         "port": lambda: ar_element.ProvidePortPrototype("A"), "document": ar_document.Document,
         "unit": lambda: ar_element.Unit("A")}  # documents and workspaces only have packages


def history(case, stats):
    """Runs the operations, returns the first difference"""
    kind = case["root"]
    model = Model("")
    if kind == "workspace":
        root = ar_workspace.Workspace()
    elif kind == "package":
        root = ar_element.Package("Root")
        model.name = "Root"
    elif kind == "list":
        root = ar_document.Document([ar_element.Package(n) for n in NAMES[:2]], 51)
        model.packages = [Model(p.name, p) for p in root.packages]
    else:
        root = ar_document.Document(schema_version=51)
    model.obj = root
    top = ValueError if kind != "package" else ar_except.DuplicateElement
    for number, op in enumerate(case["ops"]):
        m = model if not op[1] else model.find(op[1])
        if not isinstance(m, Model):
            m, op = model, [op[0], ""] + op[2:]
        obj, name = m.obj, op[2]
        what = f"operation {number} ({op})"
        error = None
        if op[0] in ("element", "package", "tree"):
            if op[0] == "element" and m is model and kind != "package":
                continue  # only packages have elements
            content = []
            if op[0] == "element":
                item = element(op[3], name)
            else:
                item = ar_element.Package(name)
                if op[0] == "tree":
                    sub = item.create_package(op[3])
                    inner = element("Unit", op[4])
                    sub.append(inner)
                    content = [(sub, inner)]
            clash = m.get(name) is not None
            result, error = attempt(lambda: obj.append(item))  # pylint: disable=cell-var-from-loop
            d = failed(result, error, (top if m is model else ar_except.DuplicateElement) if clash else None, what)
            if d:
                return d
            if clash and item.parent is not None:
                return f"{what} is rejected but the parent is {item.parent}"
            if not clash and op[0] == "element":
                m.elements.append(Elem(name, item))
            elif not clash:
                new = Model(name, item)
                m.packages.append(new)
                for sub, inner in content:
                    new.packages.append(Model(sub.name, sub))
                    new.packages[0].elements.append(Elem(inner.name, inner))
        elif op[0] == "move" and isinstance(obj, ar_element.Package):  # an element is appended to another package
            there = elements_of(model)
            if not there:
                continue
            moved = there[op[2] % len(there)][0]
            clash = m.get(moved.name) is not None
            before = moved.obj.parent
            result, error = attempt(lambda: obj.append(moved.obj))  # pylint: disable=cell-var-from-loop
            d = failed(result, error, ar_except.DuplicateElement if clash else None, what)
            if d:
                return d
            if clash and moved.obj.parent is not before:
                return f"{what} is rejected but the parent is {moved.obj.parent}"
            if not clash:
                m.elements.append(Elem(moved.name, moved.obj))
                for other, _ in elements_of(model):
                    if other.obj is moved.obj:
                        other.home = m
        elif op[0] == "create":
            clash = m.get(name) is not None
            kwargs = {op[3]: "TEXT"} if op[3] else {}
            result, error = attempt(lambda: obj.create_package(name, **kwargs))  # pylint: disable=cell-var-from-loop
            d = failed(result, error, ValueError if clash else None, what)
            if d:
                return d
            if not clash:
                if not isinstance(result, ar_element.Package) or result.name != name:
                    return f"{what} returns {result}"
                if op[3] == "category" and result.category != "TEXT":
                    return f"{what}: category is {result.category}"
                if op[3] == "desc" and result.desc.elements[0].parts != ["TEXT"]:
                    return f"{what}: desc is {result.desc.elements[0].parts}"
                m.packages.append(Model(name, result))
        elif op[0] == "make":
            paths = op[2]
            if m is not model or kind == "package":  # packages take one relative path
                paths = [paths[0].lstrip("/")]
            want, made = None, []
            for p in paths:
                try:
                    made.append(make(m, p))
                except KeyError:
                    want = KeyError
                    break
            result, error = attempt(lambda: obj.make_packages(*paths))  # pylint: disable=cell-var-from-loop
            d = failed(result, error, want, what)
            if d:
                return d
            adopt(model, root)
            if not error:
                results = result if len(paths) > 1 else [result]
                if len(results) != len(made) or any(a is not b.obj for a, b in zip(results, made)):
                    return f"{what} returns {result}"
        elif op[0] == "find":
            found = m.find(op[2])
            for form in (op[2], "/" + op[2]):
                result = obj.find(form)
                if result is not (found.obj if found else None):
                    return f"{what}: find({form!r}) is {result}"
        elif op[0] == "filter" and isinstance(obj, ar_element.Package):
            result = list(obj.filter(*op[2]))
            want = [e.obj for e in m.elements if e.name in op[2]]
            if len(result) != len(want) or any(a is not b for a, b in zip(result, want)):
                return f"{what}: filter is {[x.name for x in result]}, expected {[x.name for x in want]}"
        elif op[0] == "regex" and isinstance(obj, ar_element.Package):
            pattern = op[2] if op[3] is False else re.compile(op[2], op[3])
            result = list(obj.filter_regex(pattern))
            want = [e.obj for e in m.elements if re.match(pattern, e.name)]
            if len(result) != len(want) or any(a is not b for a, b in zip(result, want)):
                return f"{what}: filter_regex is {[x.name for x in result]}, expected {[x.name for x in want]}"
        elif op[0] == "wrong" and (op[2] != "unit" or not isinstance(obj, ar_element.Package)):
            result, error = attempt(lambda: obj.append(WRONG[op[2]]()))  # pylint: disable=cell-var-from-loop
            d = failed(result, error, TypeError, what)
            if d:
                return d
        if error is not None:
            stats["rejected"] = stats.get("rejected", 0) + 1
        d = compare(model, root, root, "" if kind != "package" else "Root")
        if d:
            return f"after {what}: {d}"
    stats["model"] = model
    if kind in ("document", "list"):
        text = ar_writer.Writer().write_str(root)
        with doc.captured():
            again = ar_reader.Reader().read_str(text)
        want = [outline(p) for p in model.packages]
        got = [outline_of(p) for p in again.packages]
        if got != want:
            return f"the written document has the packages {got}, expected {want}"
    return None


LAST = [None, {}]


def stats_of(case):
    """Statistics of a run: depth of packages, number of elements, rejected operations"""
    if LAST[0] is not case:
        run(case)
    return LAST[1]


def depth(model):
    """Levels of packages"""
    return 1 + max([depth(p) for p in model.packages], default=0)


def count(model):
    """Number of elements"""
    return len(model.elements) + sum(count(p) for p in model.packages)


def nontrivial(case):
    """See RULE"""
    stats = stats_of(case)
    return "model" in stats and "rejected" in stats and depth(stats["model"]) > 2 and count(stats["model"]) > 0


def labels(case):
    """Distribution"""
    yield "root " + case["root"]
    stats = stats_of(case)
    if "model" in stats:
        yield f"levels {min(depth(stats['model']) - 1, 6)}"
    if "rejected" in stats:
        yield "history with rejected operations"
    for op in case["ops"]:
        yield "operation " + op[0]


def run(case):
    """Oracle"""
    s.schema_version[0] = 51
    LAST[:] = [case, {}]
    return history(case, LAST[1])


def shrink(case):
    """Simpler cases"""
    ops = case["ops"]
    for n in (8, 4, 2, 1):
        for i in range(0, len(ops), n):
            yield {**case, "ops": ops[:i] + ops[i + n:]}
    for i, op in enumerate(ops):
        if op[1]:
            yield {**case, "ops": ops[:i] + [[op[0], ""] + op[2:]] + ops[i + 1:]}
        if op[0] == "make" and len(op[2]) > 1:
            yield {**case, "ops": ops[:i] + [[op[0], op[1], op[2][:1]]] + ops[i + 1:]}

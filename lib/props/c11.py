"""C11: namespaces, package maps and templates of the workspace (stateful model)"""
import posixpath
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.exception as ar_except
import autosar.xml.template as ar_template
import autosar.xml.workspace as ar_workspace

ID = "C11"
QUICK, THOROUGH = 120000, 800000
RULE = """A case is a workspace with generated namespaces (all package roles, own roles, relative and absolute paths,
base paths) or package maps, a generated acyclic graph of element and generic templates over them, and a history of
lookups, additions, redefinitions and template applications (with arguments, with create methods that fail or return
something wrong). A model predicts paths, errors, which create methods run in which order with which package,
dependencies and arguments, the returned objects and all elements of the workspace after each step. Non-trivial: an
element is created through a dependency, or two elements are added through a package map."""
ROLES = {"ApplicationDataType": "APPLICATION_DATA_TYPE", "BaseType": "BASE_TYPE", "ComponentType": "COMPONENT_TYPE",
         "CompuMethod": "COMPU_METHOD", "DataConstraint": "DATA_CONSTRAINT",
         "ImplementationDataType": "IMPLEMENTATION_DATA_TYPE", "ModeDeclaration": "MODE_DECLARATION",
         "PortInterface": "PORT_INTERFACE", "Unit": "UNIT", "Constant": "CONSTANT", "!Custom": None, "!My": None,
         "!Unit": None, "!!Odd": None, "!End!": None, "! Od d ": None, "!base_ref": None, "!my_base_ref": None}
COMMON = sorted(r for r, v in ROLES.items() if v)[:5]
SAME = {v: k for k, v in ROLES.items() if v}
PACKAGES = ["P", "Types", "./Types", "Types/Base", "../Other", "/Abs/Types", "/Abs", ".", "Types/../P", "P/./Q", "Q/"]
NAMESPACES = ["Platform", "Default", "NS3", "A.B", "Na me"]
KEYS = ["types", "units", "interfaces", "BaseType"]
ELEMENTS = {"Unit": ar_element.Unit, "CompuMethod": ar_element.CompuMethod, "SwBaseType": ar_element.SwBaseType,
            "ImplementationDataType": ar_element.ImplementationDataType,
            "SenderReceiverInterface": ar_element.SenderReceiverInterface,
            "ApplicationSoftwareComponentType": ar_element.ApplicationSoftwareComponentType}
BEHAVIOR = ["new"] * 14 + ["own", "own", "inner", "inner", "apart", "other", "none", "wrong",
                             "raise"]


def generate(rng, i, _tier):
    """Case number i"""
    big = i % 50 == 49
    ops = []
    namespaces = []
    for name in rng.sample(NAMESPACES, rng.choice([1, 1, 2, 3])):
        ops.append(namespace(rng, name))
        namespaces.append(name)
    templates = []
    for n in range(rng.randrange(1, 7) if not big else 20):
        depends = None if rng.random() < 0.3 else [rng.randrange(n) for _ in range(rng.choice([0, 1, 2] * 6 + [7]))] if n else []
        templates.append({"name": rng.choice(["E1", "E2", "E3", "_E1", "E1_", f"T{n}", f"T{n}"]),
                          "ns": rng.choice(namespaces if rng.random() < 0.95 else NAMESPACES + ["Unknown"]),
                          "role": rng.choice(COMMON if rng.random() < 0.8 else sorted(ROLES)),
                          "class": rng.choice(sorted(ELEMENTS)), "does": rng.choice(BEHAVIOR),
                          "kind": "generic" if rng.random() < 0.12 else "element",
                          "inner": rng.randrange(n) if n else None, "depends": depends})
    for _ in range(rng.randrange(2, 14) if not big else 40):
        kind = rng.choice(["apply"] * 6 + ["role", "role", "ref", "map", "add", "add", "add", "find", "find", "get",
                                           "namespace", "make"])
        if kind == "apply":
            ops.append([kind, max(rng.randrange(len(templates)), rng.randrange(len(templates))),
                        {k: rng.choice([*range(9), None, "", False])
                         for k in rng.sample(["a", "b", "size", "name", "workspace_", "ref"], rng.choice([0, 0, 1, 2]))}])
        elif kind == "role":
            ops.append([kind, rng.choice(NAMESPACES + ["Unknown"]), rng.choice(sorted(ROLES) + ["None"])])
        elif kind == "ref":
            ops.append([kind, rng.randrange(len(templates))])
        elif kind == "map":
            ops.append([kind, {k: rng.choice(["/Abs", "Platform", "/Platform/Types", "/Platform/P", "Map/A/B"])
                               for k in rng.sample(KEYS, rng.choice([0, 1, 2, 3]))}])
        elif kind == "add":
            ops.append([kind, rng.choice(KEYS), rng.choice(["E1", "E2", "E3", "E4", "_E1", "E1_"]), rng.choice(sorted(ELEMENTS))])
        elif kind == "find":
            ops.append([kind, rng.choice(KEYS), rng.choice(["E1", "E2", "E3", "E4", "_E1", "E1_", "T1"])])
        elif kind == "get":
            ops.append([kind, rng.choice(KEYS)])
        elif kind == "make":
            ops.append([kind, rng.choice(["/Abs", "Platform/Types", "/Abs/Types/E1"])])
        else:
            ops.append(namespace(rng, rng.choice(NAMESPACES)))
    return {"templates": templates, "ops": ops}


def namespace(rng, name):
    """Operation that defines a namespace; roles have two names"""
    base = rng.choice([None, None, "", "Base/Sub", "/", "/Base", "/Base/Sub", "/Platform", "/Abs/", "/" + random_path(rng)])
    return ["namespace", name, {(ROLES[r] if ROLES[r] and rng.random() < 0.2 else r): role_path(rng, name, base)
                                for r in rng.sample(sorted(ROLES), len(ROLES)) if rng.random() < 0.9}, base]


def random_path(rng):
    """Relative path of names, some of which begin with others"""
    return "/".join(rng.choice(["A", "AB", "A_B", "B", "Base", "BaseTypes", "P"]) for _ in range(rng.choice([1, 1, 2, 3])))


def role_path(rng, name, base):
    """Path of a role: from a list, random, or similar to the base path"""
    kind = rng.randrange(6)
    if kind < 3:
        return rng.choice(PACKAGES)
    if kind == 3:
        return rng.choice(["", "/", "../", "./"]) + random_path(rng)
    base = (base or "/" + name).rstrip("/")
    if kind == 4:  # absolute path that begins with the base path, as text or as path
        return base + rng.choice(["Types", "/Types", "_2/P", "/../P", "/" + random_path(rng)])
    return base[1:] + rng.choice(["", "Types", "/Types"]) or "P"


class Stop(Exception):
    """Raised by create methods"""


class Element(ar_template.ElementTemplate):
    """Template under test"""

    def __init__(self, spec, log, depends, templates):
        role = spec["role"]
        role = role[1:] if role.startswith("!") else getattr(ar_enum.PackageRole, ROLES[role])
        super().__init__(spec["name"], spec["ns"], role, depends, spec["does"] not in ("own", "apart", "other"))
        self.spec, self.log, self.templates = spec, log, templates

    def create(self, package, workspace, dependencies, **kwargs):
        """Logs its arguments"""
        self.log.append((self, package, workspace, dependencies, kwargs))
        does = self.spec["does"]
        if does == "raise":
            raise Stop(self.element_name)
        if does == "none":
            return None
        if does == "wrong":
            return "not an element"
        if does == "inner" and self.spec["inner"] is not None:
            workspace.apply(self.templates[self.spec["inner"]])
        elem = ELEMENTS[self.spec["class"]](self.element_name)
        if does == "own":
            package.append(elem)
        if does == "other":
            workspace.make_packages("/Elsewhere").append(elem)
        return elem


class Generic(ar_template.GenericTemplate):
    """Template under test"""

    def __init__(self, spec, log, templates):
        self.spec, self.log, self.templates = spec, log, templates

    def apply(self, workspace, **kwargs):
        """Logs its arguments"""
        self.log.append((self, None, workspace, None, kwargs))
        if self.spec["does"] == "raise":
            raise Stop(self.spec["name"])
        if self.spec["does"] in ("none", "wrong"):
            return None if self.spec["does"] == "none" else 7
        if self.spec["inner"] is None:
            return 7
        return workspace.apply(self.templates[self.spec["inner"]])


class Model:
    """Expected state; elements by path are the classes of the expected elements, then the objects"""

    def __init__(self, case):
        self.case = case
        self.namespaces = {}
        self.elements = {}  # path -> class name
        self.packages = set()
        self.map = {}
        self.by_dependency = 0

    def role(self, name, role):
        """Path of a role"""
        if name not in self.namespaces:
            raise KeyError(name)
        roles, base = self.namespaces[name]
        base = base if base is not None else "/" + name
        if role not in roles:
            raise ValueError(role)
        return posixpath.normpath(posixpath.join(base, roles[role]))

    def make(self, path):
        """New packages"""
        names = path.strip("/").split("/")
        if names == [""]:
            raise LookupError("the root")  # not generated: elements in the root
        for n in range(1, len(names) + 1):
            part = "/" + "/".join(names[:n])
            if part in self.elements:
                raise KeyError(part)
            self.packages.add(part)
        return "/" + "/".join(names)

    def apply(self, number, kwargs, log):
        """Returns the path of the element (or a value); logs the create calls"""
        spec = self.case["templates"][number]
        if spec["kind"] == "generic":
            log.append((number, None, None, kwargs))
            if spec["does"] == "raise":
                raise Stop
            if spec["does"] in ("none", "wrong"):
                return None if spec["does"] == "none" else 7
            return 7 if spec["inner"] is None else self.apply(spec["inner"], {}, log)
        deps = None
        if spec["depends"] is not None:
            deps = {}
            for d in spec["depends"]:
                result = self.apply(d, {}, log)
                if isinstance(result, tuple):
                    raise LookupError("apart")  # not generated: dependencies that belong to no package
                if not isinstance(result, str):
                    raise TypeError
                deps[result] = result
        package = self.make(self.role(spec["ns"], spec["role"]))
        path = f"{package}/{spec['name']}"
        if path in self.packages:
            raise LookupError("package")  # not generated: a package has the name of the element
        if path in self.elements:
            return path
        log.append((number, package, deps, kwargs))
        if spec["does"] == "raise":
            raise Stop
        if spec["does"] in ("none", "wrong"):
            raise TypeError
        if spec["does"] == "inner" and spec["inner"] is not None:
            self.apply(spec["inner"], {}, log)
            if path in self.elements:  # the inner template already made it
                raise ar_except.DuplicateElement
        if deps:
            self.by_dependency += 1
        if spec["does"] == "apart":
            return (spec["class"], spec["name"])
        if spec["does"] == "other":
            path = f"{self.make('/Elsewhere')}/{spec['name']}"
            if path in self.elements:
                raise ar_except.DuplicateElement
        self.elements[path] = spec["class"]
        return path


STATS = [None, {}]


def tree(packages, path, out_packages, out_elements):
    """All packages and elements"""
    for p in packages:
        sub = f"{path}/{p.name}"
        out_packages.add(sub)
        for e in p.elements:
            out_elements[f"{sub}/{e.name}"] = e
        tree(p.packages, sub, out_packages, out_elements)


def attempt(func, *args):
    """(result, error)"""
    try:
        return func(*args), None
    except Exception as exc:  # pylint: disable=broad-except
        return None, exc


def run(case):
    """Oracle"""
    ws = ar_workspace.Workspace()
    model = Model(case)
    calls: list = []
    objects = []
    for spec in case["templates"]:
        depends = None if spec["depends"] is None else [objects[d] for d in spec["depends"]]
        objects.append(Generic(spec, calls, objects) if spec["kind"] == "generic"
                       else Element(spec, calls, depends, objects))
    known: dict = {}  # path -> element
    added = 0
    STATS[:] = [case, {"errors": 0}]
    for number, op in enumerate(case["ops"]):
        what = f"operation {number} ({op})"
        want = None
        expected = None
        if op[0] == "namespace":
            model.namespaces[op[1]] = ({SAME.get(k, k): v for k, v in op[2].items()}, op[3])
            ws.create_namespace(op[1], op[2], op[3])
            ns = ws.get_namespace(op[1])
            if ns.name != op[1]:
                return f"{what}: name is {ns.name}"
            continue
        if op[0] == "role":
            if op[1] in NAMESPACES and op[2] == "None":
                role = 5
                want = TypeError()
            elif op[2] == "None":
                continue
            else:
                role = op[2][1:] if op[2].startswith("!") else getattr(ar_enum.PackageRole, ROLES[op[2]])
                expected, want = attempt(model.role, op[1], op[2])
            result, error = attempt(ws.get_package_ref_by_role, op[1], role)
        elif op[0] == "ref":
            spec = case["templates"][op[1]]
            if spec["kind"] == "generic":
                continue
            expected, want = attempt(model.role, spec["ns"], spec["role"])
            expected = f"{expected}/{spec['name']}" if expected != "/" else "/" + "/" + spec["name"]
            result, error = attempt(objects[op[1]].ref, ws)
        elif op[0] == "map":
            bad = any("/" + v.strip("/") in model.elements for v in op[1].values())
            if bad:
                continue
            model.map = {k: model.make(v) for k, v in op[1].items()}
            result, error = attempt(ws.create_package_map, op[1])
        elif op[0] in ("add", "find", "get"):
            want = RuntimeError() if not model.map else KeyError() if op[1] not in model.map else None
            if op[0] == "add":
                elem = ELEMENTS[op[3]](op[2])
                if want is None:
                    path = f"{model.map[op[1]]}/{op[2]}"
                    if path in model.elements or path in model.packages:
                        want = ar_except.DuplicateElement()
                    else:
                        model.elements[path] = op[3]
                        known[path] = elem
                        added += 1
                result, error = attempt(ws.add_element, op[1], elem)
                if error and elem.parent is not None:
                    return f"{what} failed but the parent of the element is {elem.parent}"
            elif op[0] == "find":
                if want is None:
                    expected = known.get(f"{model.map[op[1]]}/{op[2]}")
                result, error = attempt(ws.find_element, op[1], op[2])
            else:
                result, error = attempt(ws.get_package, op[1])
                if want is None:
                    expected = ws.find(model.map[op[1]])
                    if not isinstance(expected, ar_element.Package):
                        return f"{what}: {model.map[op[1]]} is {expected}"
        elif op[0] == "make":
            expected, want = attempt(model.make, op[1])
            result, error = attempt(ws.make_packages, op[1])
            result = str(result.ref()) if result is not None else None
        elif op[0] == "apply":
            log: list = []
            expected, want = attempt(model.apply, op[1], op[2], log)
            if type(want) is LookupError:  # pylint: disable=unidiomatic-typecheck
                return None  # not generated: a package with the name of the element
            del calls[:]
            template = objects[op[1]]
            result, error = attempt(lambda t, k: ws.apply(t, **k), template, op[2])
            d = compare_calls(calls, log, objects, ws, what)
            if d:
                return d
            if isinstance(expected, str) and error is None:
                if not isinstance(result, ar_element.ARElement) or str(result.ref()) != expected:
                    return f"{what} returns {result}, expected the element {expected}"
                expected = known.setdefault(expected, result)
            if isinstance(expected, tuple) and error is None:
                if (type(result).__name__, getattr(result, "name", None)) != expected or result.parent is not None:
                    return f"{what} returns {result} with parent {getattr(result, 'parent', None)}, expected {expected}"
                expected = result
        if type(error) is not type(want):
            if want is None or error is None or not isinstance(error, type(want)):
                return f"{what}: {type(error).__name__ if error else result}{': ' + str(error) if error else ''}, " \
                       f"expected {type(want).__name__ if want else expected}"
        STATS[1]["errors"] += error is not None
        if error is None and result is not expected and (
                isinstance(expected, (ar_element.ARObject, type(None))) or result != expected):
            return f"{what}: {result}, expected {expected}"
        packages, elements = set(), {}
        tree(ws.packages, "", packages, elements)
        if error is None and packages != model.packages:
            return f"after {what}: packages {sorted(packages)}, expected {sorted(model.packages)}"
        model.packages |= packages  # after errors some packages may have been created or not
        if error is not None:
            model.packages = packages
        if {k: type(v).__name__ for k, v in elements.items()} != model.elements:
            return f"after {what}: elements {sorted(elements)}, expected {sorted(model.elements)}"
        for k, v in elements.items():
            if known.setdefault(k, v) is not v or ws.find(k) is not v:
                return f"after {what}: element {k} was replaced"
    STATS[1].update({"dependency": model.by_dependency, "added": added, "elements": len(model.elements)})
    return None


def compare_calls(calls, log, objects, ws, what):
    """The create methods that ran and their arguments"""
    got = [objects.index(c[0]) for c in calls]
    if got != [x[0] for x in log]:
        return f"{what} runs the create methods of the templates {got}, expected {[x[0] for x in log]}"
    for (_, package, workspace, deps, kwargs), (number, path, keys, want) in zip(calls, log):
        if workspace is not ws or kwargs != want:
            return f"{what}: template {number} gets arguments {kwargs}, expected {want}"
        if path is None:
            continue
        if not isinstance(package, ar_element.Package) or str(package.ref()) != path:
            return f"{what}: template {number} gets package {package}, expected {path}"
        if (keys is None) != (deps is None) or keys is not None and (
                list(deps) != list(keys) or any(str(v.ref()) != k or ws.find(k) is not v for k, v in deps.items())):
            return f"{what}: template {number} gets dependencies {deps}, expected {keys}"
    return None


def nontrivial(case):
    """See RULE"""
    if STATS[0] is not case:
        run(case)
    return STATS[1].get("dependency", 0) > 0 or STATS[1].get("added", 0) > 1


def labels(case):
    """Distribution"""
    for op in case["ops"]:
        yield "operation " + op[0]
    for k, v in STATS[1].items():
        if v:
            yield f"with {k}"


def shrink(case):
    """Simpler cases"""
    ops = case["ops"]
    for n in (4, 2, 1):
        for i in range(0, len(ops), n):
            yield {**case, "ops": ops[:i] + ops[i + n:]}
    for i, op in enumerate(ops):
        if op[0] == "namespace":
            for k in op[2]:
                yield {**case, "ops": ops[:i] + [[op[0], op[1], {a: b for a, b in op[2].items() if a != k}, op[3]]] +
                       ops[i + 1:]}
        if op[0] == "apply" and op[2]:
            yield {**case, "ops": ops[:i] + [[op[0], op[1], {}]] + ops[i + 1:]}
    for i, t in enumerate(case["templates"]):
        for simple in ({"depends": None}, {"does": "new"}):
            if any(t[k] != v for k, v in simple.items()):
                yield {**case, "templates": case["templates"][:i] + [{**t, **simple}] + case["templates"][i + 1:]}

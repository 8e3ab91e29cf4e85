"""C27: work can go on after saving and reading as if the workspace had been kept"""
import os
import altbuild
import argen as g
import arschema as s
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.workspace as ar_workspace
import ctypes_of
import doc
import swc as world_of
from autosar.generator.type_generator import TypeGenerator
from autosar.model.implementation import ImplementationModel
from doc import CLASSES, ar_document, ar_reader, ar_writer
from props import c07, c16, c19, c20

ID = "C27"
QUICK, THOROUGH = 12000, 200000
SCRATCH = None  # set by the runner
RULE = """A case is a history of building steps in two workspaces, one of which is written and read again at generated
points (all packages in one document or one per document, as text or files, with the same or new readers and writers, by
write_documents) and goes on with what was read: packages, generated elements, port interfaces and additions to them,
components, ports with com-specs, behaviors, exclusive areas, runnables, port access, events, port API options, component
prototypes, connectors, constants, data types and their header, searches; some steps contain mistakes. Each step must have
the same outcome in both workspaces (result or type of the exception), after each reading and at the end both must give
the same documents, the same objects and references for all paths and the same type header. Non-trivial: something is
done after a reading."""
TOPS = ["Pkg", "Other", "Types", "Plain"]
ELEMENTS = [c for c in sorted(CLASSES) if CLASSES[c].collectable and c not in ("Package", "DataFilter", "ImplementationDataType",
                                                                           "SwBaseType")]
STATS = {"steps": 0, "rejected": 0}


def generate(rng, i, _tier):
    """Case number i"""
    big = i % 50 == 49
    world = world_of.generate(rng, big=big)
    swcs = ["Swc", "Swc2"]
    steps = [["interface", k] for k in range(len(world["interfaces"]))]
    steps += [["component", n, None] for n in swcs[:rng.choice([1, 1, 2])]]
    made = [x[1] for x in steps if x[0] == "component"]
    rng.shuffle(steps)
    ports = []
    for p in world["ports"]:
        for comp in made:
            if rng.random() < 0.8:
                ports.append(["port", comp, p["side"], p["name"], p["if"], gen_com(rng, world["interfaces"][p["if"]], p["side"])])
    rng.shuffle(ports)
    steps += ports
    steps += [["behavior", comp, rng.choice([None, None, "IB"])] for comp in made if rng.random() < 0.98]
    runnables = {comp: rng.sample(["Run", "Run2", "Init"], rng.choice([1, 2, 3])) for comp in made}
    areas = {comp: rng.sample(["EA", "EB", "EC"], rng.choice([0, 1, 2, 3])) for comp in made}
    rest = [["area", comp, a] for comp in made for a in areas[comp]]
    rest += [["runnable", comp, r, gen_areas(rng, areas[comp])] for comp in made for r in runnables[comp]]
    prototypes = rng.sample(["Left", "Right", "P1", None], rng.choice([0, 0, 2, 2, 3]))
    if prototypes:
        rest += [["component", "Top", "composition"]] + [["proto", rng.choice(made), name] for name in prototypes]
        rest += [["port", "Top", p["side"], p["name"], p["if"], None] for p in world["ports"] if rng.random() < 0.6]
    steps += rest
    have = {comp: [p for p in world["ports"] if any(x[0] == "port" and x[1] == comp and x[3] == p["name"] for x in steps)]
            for comp in made + ["Top"]}
    inner = {name or comp: comp for what, comp, name in (x for x in rest if x[0] == "proto")}
    more = []
    for _ in range(rng.choice([3, 5, 8]) if not big else 30):
        comp = rng.choice(made)
        run = rng.choice(runnables[comp]) if rng.random() < 0.95 else "Run"
        own = {**world, "ports": have[comp] if rng.random() < 0.95 else world["ports"]}
        possible = c19.options(own)
        what = rng.choice(["runnable", "area", "access", "access", "access", "event", "event", "event", "options",
                           "proto", "connector", "connector", "constant", "tree", "tree", "extend", "extend", "types",
                           "find", "package", "top"])
        if what == "runnable":
            more.append([what, comp, rng.choice(["Run", "Run2", "Run3", "Other"]), gen_areas(rng, areas[comp])])
        elif what == "area":
            more.append([what, comp, rng.choice(["EA", "EB", "EC", "New"])])
        elif what == "access" and possible:
            texts = []
            for port, element, prefix, _ in rng.sample(possible, min(len(possible), rng.choice([1, 1, 2, 4]))):
                texts.append((prefix + ":" if prefix else "") + rng.choice([f"{port}/{element}"] * 4 + [port]))
            more.append([what, comp, run, texts])
        elif what == "event":
            kind = rng.choice(sorted(c20.EVENTS))
            where = c20.target(rng, own, kind) if kind in c20.NEEDS else None
            if kind in c20.NEEDS and where is None:
                continue
            args = [f"{where[0]}/{where[1]}" if kind != "swc_mode_manager_error" and not where[2] else where[0]] if where else []
            more.append([what, comp, kind, run, args, rng.choice([None, None, "Event"])])
        elif what == "options":
            more.append([what, comp, rng.choice(["*", "*", [p["name"] for p in own["ports"]][:2], "Nothing"])])
        elif what == "proto":
            more.append([what, rng.choice(made), rng.choice([None, "Left", "Right", "P1"])])
        elif what == "connector":
            ends = [(f"{name}/", p) for name, comp in inner.items() for p in have[comp]] + [("", p) for p in have["Top"]]
            if not ends:
                continue
            first = rng.choice(ends)
            fits = [e for e in ends if e != first and e[1]["if"] == first[1]["if"] and
                    (e[1]["side"] == first[1]["side"]) == (not e[0] or not first[0]) and "PR" not in (e[1]["side"], first[1]["side"])]
            second = rng.choice(fits or ends)
            sides = [e[0] + e[1]["name"] for e in (first, second)]
            rng.shuffle(sides)
            more.append([what] + sides)
        elif what == "constant":
            more.append([what, g.gen_name(rng), c16.gen_value(rng, rng.choice([0, 1, 2]))])
        elif what == "tree":
            gen = g.Gen(rng, 51)
            tree = gen.cls(rng.choice(ELEMENTS), 1, rng.choice([0.1, 0.4]), set())
            more.append([what, rng.choice(["Plain", "Plain/Sub", world["path"]]), c07._plain(g.uniquify({"e": [tree]}))["e"][0]])
        elif what == "extend":
            more.append([what, rng.randrange(len(world["interfaces"])), rng.choice(["element", "argument", "error", "mode", "policy"]),
                         rng.choice(["New", "Speed", "A"])])
        elif what == "types":
            more.append([what, rng.randrange(10**6)])
        elif what == "find":
            more.append([what, rng.choice([f"/{world['path']}/{n}" for n in ["Swc", "Swc/Port", "Swc/IB/Run", "If0", "ModesIf0/On", "Top/Left"]] +
                                          ["Plain/Sub", "/Nothing", "Swc"])])
        elif what == "package":
            more.append([what, rng.choice(["Plain", "Plain/Sub", "Pkg/New", "/Other/A/B"])])
        else:
            more.append(["behavior", comp, "Again"] if rng.random() < 0.1 else ["component", "Top", "x"])
    steps += more
    seen, count = [], rng.choice([1, 1, 2, 3])
    for _ in range(count):
        at = rng.randrange(1, len(steps) + 1) if rng.random() < 0.5 else rng.randrange(len(steps) - len(more), len(steps) + 1)
        steps.insert(at, ["reload", rng.choice(["text", "text", "file", "packages", "documents"]), rng.random() < 0.5])
        seen.append(at)
    return {"world": world, "steps": c07._plain(steps)}


def gen_areas(rng, areas):
    """Argument can_enter_leave"""
    if rng.random() < 0.05:
        return ["Nothing"]
    if not areas or rng.random() < 0.3:
        return None
    return rng.choice(areas) if rng.random() < 0.3 else rng.sample(areas, rng.randrange(1, len(areas) + 1))


def gen_com(rng, interface, side):
    """Arguments of com-specs"""
    if rng.random() < 0.5 or side == "PR" or interface["kind"] not in ("SR", "CS", "MS"):
        return None
    def args():
        if interface["kind"] == "SR":
            value = c16.gen_value(rng, 1)
            return {"init_value": value} if rng.random() < 0.8 and c16.raw(value) is not None else {}
        if interface["kind"] == "CS":
            return {"queue_length": rng.randrange(1, 9)} if side == "P" else {}
        return {"queue_length": rng.randrange(1, 9)} if side == "P" else {"supports_async": rng.random() < 0.5}
    names = interface["elements"]
    if len(names) < 2 or interface["kind"] == "MS":
        return args()
    return {n: args() for n in rng.sample(names, rng.randrange(1, len(names) + 1))}


def com_args(v):
    """Keyword arguments"""
    if not isinstance(v, dict):
        return v
    return {k: c16.raw(x) if k == "init_value" and isinstance(x, list) else com_args(x) for k, x in v.items()}


class Session:
    """A workspace in which steps are done"""

    def __init__(self, world, reloads):
        self.world, self.reloads = world, reloads
        self.writer, self.reader = ar_writer.Writer(), ar_reader.Reader()
        self.types = {}
        self.set_up(ar_workspace.Workspace())

    def set_up(self, workspace):
        """Use a workspace"""
        self.ws = workspace
        workspace.behavior_settings.update(self.world["prefixes"])

    def reload(self, how, fresh):
        """Write and read"""
        if not self.reloads:
            return None
        writer, reader = (ar_writer.Writer(), ar_reader.Reader()) if fresh else (self.writer, self.reader)
        packages = list(self.ws.packages)
        new = ar_workspace.Workspace()
        with doc.captured() as buf:
            if how == "documents":
                self.ws.set_document_root(SCRATCH)
                for k, p in enumerate(packages):
                    self.ws.create_document(f"{k}.arxml", "/" + p.name)
                self.ws.write_documents()
                documents = [reader.read_file(os.path.join(SCRATCH, f"{k}.arxml")) for k in range(len(packages))]
            else:
                parts = [[p] for p in packages] if how == "packages" else [packages]
                texts = [writer.write_str(ar_document.Document(part)) for part in parts]
                if how == "file":
                    path = os.path.join(SCRATCH, "all.arxml")
                    writer.write_file(ar_document.Document(packages), path)
                    documents = [reader.read_file(path)]
                else:
                    documents = [reader.read_str(t) for t in texts]
        for document in documents:
            for p in document.packages:
                new.append(p)
        self.set_up(new)
        return f"reading prints {buf.getvalue()[:200]!r}" if buf.getvalue() else None

    def at(self, *path):
        """Object in the package of the components"""
        return self.ws.find("/".join(["", self.world["path"], *path]))

    def step(self, op):  # pylint: disable=too-many-return-statements, too-many-branches
        """Does a step"""
        what = op[0]
        package = self.ws.make_packages(self.world["path"])
        if what == "interface":
            return world_of.build_interface(package, self.world["interfaces"][op[1]])
        if what == "component":
            cls = ar_element.CompositionSwComponentType if op[2] else ar_element.ApplicationSoftwareComponentType
            return package.append(cls(op[1]))
        if what == "port":
            create = {"P": "create_p_port", "R": "create_r_port", "PR": "create_pr_port"}[op[2]]
            args = [] if op[5] is None else [com_args(op[5])]
            return getattr(self.at(op[1]), create)(op[3], self.at(self.world["interfaces"][op[4]]["name"]), *args)
        if what == "behavior":
            return self.at(op[1]).create_internal_behavior(*([op[2]] if op[2] else []))
        if what in ("runnable", "area", "access", "event", "options"):
            behavior = self.at(op[1]).internal_behavior
            if what == "area":
                return behavior.create_exclusive_area(op[2])
            if what == "options":
                return behavior.create_port_api_options(op[2], enable_take_address=True)
            if what == "event":
                kwargs = {"period": 0.01} if op[2] == "timing" else {}
                if op[2] == "swc_mode_mode_switch":
                    kwargs["activation"] = ar_enum.ModeActivationKind.ON_ENTRY
                if op[5]:
                    kwargs["event_name"] = op[5]
                return getattr(behavior, f"create_{op[2]}_event")(op[3], *op[4], **kwargs)
            if what == "runnable":
                return behavior.create_runnable(op[2], can_enter_leave=op[3])
            return behavior.find_runnable(op[2]).create_port_access(op[3])
        if what == "proto":
            if self.at("Top") is None:
                package.append(ar_element.CompositionSwComponentType("Top"))
            return self.at("Top").create_component_prototype(self.at(op[1]), *([op[2]] if op[2] else []))
        if what == "connector":
            return self.at("Top").create_connector(op[1], op[2], self.ws)
        if what == "constant":
            return package.append(ar_element.ConstantSpecification.make_constant(op[1], c16.raw(op[2])))
        if what == "tree":
            return self.ws.make_packages(op[1]).append(CLASSES[op[2]["$"]].build(op[2]))
        if what == "extend":
            return self.extend(*op[1:])
        if what == "types":
            return self.add_types(op[1])
        if what == "find":
            return self.ws.find(op[1])
        if what == "package":
            return self.ws.make_packages(op[1])
        raise AssertionError(what)

    def extend(self, k, what, name):
        """Adds something to an interface"""
        interface = self.world["interfaces"][k]
        obj = self.at(interface["name"])
        kind = interface["kind"]
        if what == "mode" and kind == "MS":
            return self.at("Modes" + interface["name"]).create_mode_declaration(name, 7)
        if kind in ("SR", "NV"):
            if what == "policy" and kind == "SR":
                return obj.create_invalidation_policy(obj.data_elements[-1].ref(), ar_enum.HandleInvalid.KEEP)
            return obj.create_data_element(name)
        if kind == "CS":
            if what == "argument":
                return obj.operations[-1].create_in_argument(name)
            if what == "error":
                error = obj.create_possible_error(name, 1)
                return obj.operations[0].create_possible_error_ref(str(error.ref()))
            return obj.create_operation(name)
        return obj.create_parameter(name) if kind == "PARAM" else None

    def add_types(self, seed):
        """Data types"""
        if seed not in self.types:
            import random  # pylint: disable=import-outside-toplevel
            self.types[seed] = ctypes_of.generate(random.Random(seed), True)
        types, objs = self.types[seed], []
        packages = {p: self.ws.make_packages(p) for p in ctypes_of.PACKAGES}
        for k in range(len(types)):
            objs.append(ctypes_of.build_one(types, objs, k, packages, ()))
        return objs[-1]

    def header(self):
        """Type header of all data types"""
        model = ImplementationModel(self.ws)
        for types in self.types.values():
            for t in types:
                elem = self.ws.find(ctypes_of.path(t))
                if elem is not None:
                    model.create_from_element(elem)
        return TypeGenerator(model).write_type_header_str()


def outcome(fn):
    """Result or exception"""
    try:
        return fn(), None
    except Exception as exc:  # pylint: disable=broad-except
        return None, exc


def told(result):
    """What can be compared of a result"""
    if isinstance(result, list):
        return [told(x) for x in result]
    ref = result.ref() if hasattr(result, "ref") else None
    return type(result).__name__, getattr(result, "name", None), str(ref), getattr(ref, "dest", None)


def paths(objects, prefix):
    """Paths of all packages and elements"""
    for obj in objects:
        path = f"{prefix}/{obj.name}"
        yield path
        if isinstance(obj, ar_element.Package):
            yield from paths(obj.packages, path)
            yield from paths(obj.elements, path)
        for attr in ("ports", "components", "connectors", "mode_declarations"):
            yield from paths(getattr(obj, attr, []), path)
        behavior = getattr(obj, "internal_behavior", None)
        if behavior is not None:
            for attr in ("runnables", "events", "exclusive_areas"):
                yield from paths(getattr(behavior, attr), f"{path}/{behavior.name}")


def compare(kept, read):
    """Difference of the workspaces"""
    owners = [(p, p.parent) for x in (kept, read) for p in x.ws.packages]
    texts = [ar_writer.Writer().write_str(ar_document.Document(list(x.ws.packages), schema_version=51)) for x in (kept, read)]
    for p, owner in owners:
        p.parent = owner  # they were appended to a document
    if texts[0] != texts[1]:
        return f"different documents: {c07._diff(*texts)}"
    for path in paths(kept.ws.packages, ""):
        a, b = kept.ws.find(path), read.ws.find(path)
        if told(a) != told(b):
            return f"{path} leads to {told(b)}, without saving and reading to {told(a)}"
    d = doc.shared(kept.ws.packages) or doc.shared(read.ws.packages)
    if d:
        return d
    a, b = outcome(kept.header), outcome(read.header)
    if a[0] != b[0] or type(a[1]) is not type(b[1]):
        return f"the type header is {b}, without saving and reading {a}"
    return None


def run(case):
    """Oracle"""
    s.schema_version[0] = 51
    kept, read = Session(case["world"], False), Session(case["world"], True)
    for number, op in enumerate(case["steps"]):
        what = f"step {number} {str(op)[:200]}"
        if op[0] == "reload":
            d = read.reload(*op[1:]) or compare(kept, read)
            if d:
                return f"{what}: {d}"
            continue
        (a, e1), (b, e2) = outcome(lambda: kept.step(op)), outcome(lambda: read.step(op))
        STATS["steps"] += 1
        STATS["rejected"] += e1 is not None
        if type(e1) is not type(e2):
            return f"{what}: raises {e2!r}, without saving and reading {e1!r}"
        if told(a) != told(b):
            return f"{what}: gives {told(b)}, without saving and reading {told(a)}"
    return compare(kept, read)


def nontrivial(case):
    """See RULE"""
    names = [op[0] for op in case["steps"]]
    return "reload" in names and names.index("reload") < len(names) - 1 and len(names) > 3


def labels(case):
    """Distribution"""
    after = False
    for op in case["steps"]:
        if op[0] == "reload":
            after = True
            yield "reload " + op[1]
        else:
            yield ("after reading: " if after else "before: ") + op[0]


def shrink(case):
    """Simpler cases"""
    steps = case["steps"]
    for n in (8, 4, 2, 1):
        for i in range(0, len(steps), n):
            yield {**case, "steps": steps[:i] + steps[i + n:]}
    for i, op in enumerate(steps):
        if op[0] == "tree":
            for tree in g.shrink_steps(op[2]):
                yield {**case, "steps": steps[:i] + [[op[0], op[1], tree]] + steps[i + 1:]}
        if op[0] == "port" and op[5] is not None:
            yield {**case, "steps": steps[:i] + [op[:5] + [None]] + steps[i + 1:]}
        if op[0] == "access" and len(op[3]) > 1:
            for k in range(len(op[3])):
                yield {**case, "steps": steps[:i] + [op[:3] + [op[3][:k] + op[3][k + 1:]]] + steps[i + 1:]}

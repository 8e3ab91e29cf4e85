"""C17: ports and communication specifications"""
import altbuild
import argen as g
import arschema as s
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.exception as ar_except
import autosar.xml.workspace as ar_workspace
import doc
from doc import CLASSES, ar_document, ar_reader, ar_writer
from props import c16

ID = "C17"
QUICK, THOROUGH = 24000, 400000
RULE = """A case is a document or workspace with generated port interfaces (sender-receiver with 0 to 5 queued and other
elements, client-server with 0 to 4 operations, mode switch with and without mode group, parameter, NV data) and a
component on which ports are created with create_p_port, create_r_port, their aliases and create_pr_port; com-specs
are given as keyword dictionaries (one, or one per element in any order), lists of pairs, objects, lists of objects or
mixtures, with every attribute of the com-spec classes; some calls contain a mistake. The component is compared with the
one that the arguments describe, as built and after writing and reading; then all queries for ports and for the elements,
operations and mode groups of their interfaces are compared with the model. Non-trivial: at least two ports, or a
com-spec, or a mistake."""
ELEMENT_NAMES = ["Speed", "Speed2", "Spee", "speed", "Value", "Err", "Mode", "A", "B_1", "name", "data_element_ref", "Elem"]
KINDS = ["SR", "SR", "SR", "CS", "CS", "MS", "MS0", "PARAM", "NV"]
SPEC = {("P", "SR", True): "QueuedSenderComSpec", ("P", "SR", False): "NonqueuedSenderComSpec",
        ("P", "CS", False): "ServerComSpec", ("P", "MS", False): "ModeSwitchSenderComSpec",
        ("R", "SR", True): "QueuedReceiverComSpec", ("R", "SR", False): "NonqueuedReceiverComSpec",
        ("R", "CS", False): "ClientComSpec", ("R", "MS", False): "ModeSwitchReceiverComSpec"}
REF = {"SR": ("data_element_ref", "VARIABLE_DATA_PROTOTYPE"), "CS": ("operation_ref", "CLIENT_SERVER_OPERATION"),
       "MS": ("mode_group_ref", "MODE_DECLARATION_GROUP_PROTOTYPE")}
INTERFACE = {"SR": "SenderReceiverInterface", "CS": "ClientServerInterface", "MS": "ModeSwitchInterface",
             "MS0": "ModeSwitchInterface", "PARAM": "ParameterInterface", "NV": "NvDataInterface"}
PORT = {"p": "ProvidePortPrototype", "provide": "ProvidePortPrototype", "r": "RequirePortPrototype",
        "require": "RequirePortPrototype", "pr": "PRPortPrototype"}
NUMBERS = {"transmission_acknowledge": "TransmissionAcknowledgementRequest", "mode_switched_ack": "ModeSwitchedAckRequest"}
PROVIDED = SPEC[("P", "SR", False)], "NvProvideComSpec", "ParameterProvideComSpec", "ServerComSpec"
REQUIRED = SPEC[("R", "SR", False)], "NvRequireComSpec", "ParameterRequireComSpec", "ClientComSpec"


def gen_interface(rng, i):
    """Port interface"""
    kind = rng.choice(KINDS)
    out = {"kind": kind, "name": f"If{i}", "elements": []}
    if kind in ("SR", "CS"):
        names = rng.sample(ELEMENT_NAMES, rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 5, 5, 12]))
        out["elements"] = [{"name": n, "policy": rng.choice([None, "QUEUED", "QUEUED", "STANDARD", "CONST", "FIXED"])
                            if kind == "SR" else None} for n in names]
    elif kind == "MS":
        out["elements"] = [{"name": rng.choice(ELEMENT_NAMES), "policy": None}]
    return out


def gen_spec(rng, side, kind, queued):
    """Attributes of a com-spec: ordinary ones, and ones that are given in a shorter way"""
    cls = SPEC[(side, kind, queued)]
    gen = g.Gen(rng, 51)
    tree = gen.cls(cls, rng.choice([0, 1, 1, 2]), rng.choice([0, 0.2, 0.5, 0.9]), set())
    tree.pop(REF[kind][0], None)
    short = {}
    if "init_value" in CLASSES[cls].by_attr and cls.startswith("Nonqueued") and rng.random() < 0.5:
        tree.pop("init_value", None)
        value = c16.gen_value(rng, rng.choice([0, 0, 1, 2]))
        if c16.raw(value) is None:
            value = ["num", None, 7]
        short["init_value"] = value if rng.random() < 0.85 else ["ref", None, g.gen_path(rng)]
    for attr in NUMBERS:
        if attr in CLASSES[cls].by_attr and rng.random() < 0.3:
            tree.pop(attr, None)
            short[attr] = rng.choice([0, 1, 0.5, 0.02, 10])
    return {"tree": tree, "short": short}


def spec_args(spec):
    """Keyword arguments"""
    kwargs, after = altbuild.kwargs_of(spec["tree"], {})
    assert not after
    for attr, v in spec["short"].items():
        if attr == "init_value":
            kwargs[attr] = ar_element.ConstantRef(v[2]) if v[0] == "ref" else c16.raw(v)
        else:
            kwargs[attr] = v
    return kwargs


def spec_tree(spec, ref):
    """Expected com-spec"""
    tree = dict(spec["tree"])
    for attr, v in spec["short"].items():
        if attr == "init_value":
            tree[attr] = {"$": "ConstantReference", "constant_ref": [v[2], "CONSTANT_SPECIFICATION"]} if v[0] == "ref" \
                else c16.tree_of(v)
        else:
            tree[attr] = {"$": NUMBERS[attr], "timeout": v}
    cls = CLASSES[tree["$"]]
    attr = next(a for a, _ in REF.values() if a in cls.by_attr)
    if ref is not None:
        tree[attr] = ref
    return tree


def gen_com(rng, side, interface):
    """Description of the argument com_spec"""
    kind, elements = interface["kind"], interface["elements"]
    form = rng.choice(["none", "dict", "dict", "dict", "pairs", "object", "objects", "mixed", "mistake"])
    out = {"form": form}
    gen = g.Gen(rng, 51)
    if form in ("object", "objects", "mixed"):
        n = 1 if form == "object" else rng.choice([0, 1, 2, 3]) if form == "objects" else 1
        out["objects"] = [gen.cls(rng.choice(PROVIDED if side == "P" else REQUIRED), 1, rng.choice([0.2, 0.5]), set())
                          for _ in range(n)]
    if form in ("dict", "pairs", "mixed", "mistake"):
        if kind not in REF or not elements:
            if form == "dict":
                out["args"] = []
                return out
            return {"form": "none"} if form != "mistake" else {"form": "mistake", "what": rng.choice(["type", "triple"])}
        if form in ("pairs", "mixed") and len(elements) < 2:
            return {"form": "none"}
        chosen = elements[:1] if len(elements) == 1 else rng.sample(
            elements, rng.randrange(1 if form != "dict" else 0, len(elements) + 1))
        out["args"] = [[e["name"], gen_spec(rng, side, kind, e["policy"] == "QUEUED")] for e in chosen]
    if form == "mistake":
        out["what"] = rng.choice(["type", "triple", "unknown", "unknown", "unknown pair", "no dict"])
        if len(elements) < 2 and out["what"].startswith(("unknown", "no dict")):
            out["what"] = "attribute"
        if out["what"] == "no dict" and kind != "SR":
            out["what"] = "unknown"
        wrong = [(k, a) for k, e in enumerate(elements) if kind == "SR" for a in
                 (["init_value", "alive_timeout", "enable_update"] if e["policy"] == "QUEUED" else ["queue_length"])
                 if side == "R" or a == "init_value"]
        if wrong and rng.random() < 0.4:
            which, attr = rng.choice(wrong)
            out.update(what="other kind", attr=attr)
            out["args"] = [x for x in out["args"] if x[0] != elements[which]["name"]]
            out["args"].insert(0, [elements[which]["name"],
                                   gen_spec(rng, side, kind, elements[which]["policy"] == "QUEUED")])
        out["unknown"] = rng.choice([n for n in ELEMENT_NAMES if all(n != e["name"] for e in elements)] or ["Unknown"])
    return out


def generate(rng, i, _tier):
    """Case number i"""
    big = i % 50 == 49
    interfaces = [gen_interface(rng, k) for k in range(rng.choice([1, 2, 3] if not big else [3, 6, 10]))]
    ops = []
    for k in range(rng.choice([1, 1, 2, 3, 4] if not big else [8, 12, 25])):
        which = rng.randrange(len(interfaces))
        op = rng.choice(["p", "p", "r", "r", "provide", "require", "pr"])
        port = g.Gen(rng, 51).cls(PORT[op], 1, rng.choice([0, 0, 0.3, 0.8]), set())
        for attr in ("com_spec", "provided_com_spec", "required_com_spec", "port_interface_ref"):
            port.pop(attr, None)
        port["name"] = f"Port{k}"
        entry = {"op": op, "if": which, "port": port}
        if op == "pr":
            for side in "PR":
                com = gen_com(rng, side, interfaces[which])
                if com["form"] in ("pairs", "mixed", "mistake"):
                    com = {"form": "none"}
                entry[side] = com
        else:
            entry["P" if op[0] == "p" else "R"] = gen_com(rng, "P" if op[0] == "p" else "R", interfaces[which])
        if op[0] == "p" and rng.random() < 0.05:
            entry["if"] = None
            for side in "PR":
                if side in entry and entry[side]["form"] not in ("object", "objects"):
                    entry[side] = {"form": "none"}
        ops.append(entry)
    return {"interfaces": interfaces, "ops": ops, "root": rng.choice(["document", "workspace"]),
            "component": rng.choice(["ApplicationSoftwareComponentType", "CompositionSwComponentType"]),
            "path": rng.choice(["Pkg", "Pkg/Sub"]), "dangling": rng.random() < 0.2}


def build_interface(interface):
    """Port interface object"""
    kind, name = interface["kind"], interface["name"]
    obj = getattr(ar_element, INTERFACE[kind])(name)
    for e in interface["elements"]:
        if kind == "SR":
            policy = {}
            if e["policy"]:
                policy["sw_data_def_props"] = ar_element.SwDataDefPropsConditional(
                    impl_policy=ar_enum.SwImplPolicy[e["policy"]])
            obj.create_data_element(e["name"], **policy)
        elif kind == "CS":
            obj.create_operation(e["name"])
        else:
            obj.create_mode_group(e["name"])
    return obj


def argument(com):
    """The value of the argument com_spec"""
    form = com["form"]
    if form == "none":
        return None
    objects = [CLASSES[t["$"]].build(t) for t in com.get("objects", [])]
    if form == "object":
        return objects[0]
    if form == "objects":
        return objects
    pairs = [(name, spec_args(spec)) for name, spec in com.get("args", [])]
    if form in ("pairs", "mixed"):
        return pairs[:1] + objects + pairs[1:] if form == "mixed" else pairs
    if form == "mistake":
        return {"type": lambda: objects + [5], "triple": lambda: [("a", {}, 1)],
                "unknown": lambda: {**dict(pairs), com["unknown"]: {}},
                "unknown pair": lambda: pairs + [(com["unknown"], {})],
                "no dict": lambda: {**dict(pairs), pairs[0][0]: 5},
                "other kind": lambda: {n: {**v, com["attr"]: 1} if k == 0 else v for k, (n, v) in enumerate(pairs)}
                if com["multi"] else {**pairs[0][1], com["attr"]: 1},
                "attribute": lambda: {"no_such_argument": 1}}[com["what"]]()
    return dict(pairs) if com["multi"] else pairs[0][1] if pairs else {}


def specs(com, interface, path):
    """Expected com-specs, or the exception"""
    form = com["form"]
    if form == "none":
        return []
    if form in ("object", "objects"):
        return com["objects"]
    if form == "mistake":
        return {"type": TypeError, "triple": NotImplementedError, "unknown": ValueError, "unknown pair": ValueError,
                "no dict": TypeError, "other kind": TypeError, "attribute": TypeError}[com["what"]]
    kind = interface["kind"]
    if kind in ("PARAM", "NV"):
        return NotImplementedError
    if not interface["elements"]:
        return ValueError
    args = dict(com["args"])
    out = list(com.get("objects", []))
    for e in interface["elements"]:
        if e["name"] in args:
            out.append(spec_tree(args[e["name"]], [f"{path}/{interface['name']}/{e['name']}", REF[kind][1]]))
    return out


def same(actual, trees, what, objects):
    """Compare com-specs; given objects may be anywhere"""
    if len(actual) != len(trees):
        return f"{what}: {len(actual)} com-specs, expected {len(trees)}"
    actual = list(actual)
    if objects:
        actual.sort(key=lambda x: [x is y for y in objects].index(True) if any(x is y for y in objects) else len(objects))
    for x, t in zip(actual, trees):
        d = CLASSES[t["$"]].check(x, t)
        if d:
            return f"{what}: {t['$']}{d}"
    return None


def attr_of(op, side):
    """Name of the argument and attribute"""
    return "com_spec" if op != "pr" else "provided_com_spec" if side == "P" else "required_com_spec"


def create(comp, entry, interface, obj, path):
    """One call; returns (difference, expected tree)"""
    op = entry["op"]
    kwargs, _ = altbuild.kwargs_of(entry["port"], {})
    name = kwargs.pop("name")
    tree = dict(entry["port"])
    if interface is not None:
        kind = INTERFACE[interface["kind"]]
        dest = "".join("_" + c if c.isupper() and k else c for k, c in enumerate(kind)).upper()
        tree["port_interface_ref"] = [f"{path}/{interface['name']}", dest]
    error, given = None, []
    for side in "PR":
        if side not in entry:
            continue
        com = dict(entry[side])
        com["multi"] = interface is not None and len(interface["elements"]) > 1
        value = argument(com)
        want = specs(com, interface, path)
        if isinstance(want, type):
            error = error or want
        elif want:
            tree[attr_of(op, side)] = want
        if value is not None:
            kwargs[attr_of(op, side)] = value
        if isinstance(value, list):
            given += [x for x in value if isinstance(x, ar_element.ARObject)]
    if interface is not None or op[0] == "r":
        kwargs["port_interface"] = obj
    before = len(comp.ports)
    shown = f"create_{op}_port({name!r}, {interface and interface['kind']}, " + \
        ", ".join(f"{k}={v!r}"[:300] for k, v in kwargs.items() if "com_spec" in k) + ")"
    copies = {k: list(v) for k, v in kwargs.items() if isinstance(v, (list, dict))}
    try:
        port = getattr(comp, f"create_{op}_port")(name, **kwargs)
    except (TypeError, ValueError, NotImplementedError) as exc:
        if error is None:
            raise
        if not isinstance(exc, error):
            return f"{shown} raises {exc!r}, expected {error.__name__}", None
        return f"{shown} fails but leaves a port" if len(comp.ports) != before else None, None
    if error is not None:
        return f"{shown} is accepted, expected {error.__name__}", None
    for k, v in copies.items():
        if list(kwargs[k]) != v:
            return f"{shown} changes its argument {k}", None
    if len(comp.ports) != before + 1 or comp.ports[-1] is not port or port.parent is not comp:
        return f"{shown}: the result is not the last port of the component", None
    for side in "PR":
        attr = attr_of(op, side)
        if side in entry and attr in tree and entry[side]["form"] == "mixed":
            d = same(getattr(port, attr), tree[attr], shown, given)
            if d:
                return d, None
            objs = getattr(port, attr)
            objs.sort(key=lambda x: 0 if any(x is y for y in given) else 1)
    d = CLASSES[tree["$"]].check(port, tree)
    return f"{shown}: {tree['$']}{d}" if d else None, tree


def run(case):
    """Oracle"""
    s.schema_version[0] = 51
    root = ar_workspace.Workspace() if case["root"] == "workspace" else ar_document.Document(schema_version=51)
    package = root.make_packages(case["path"])
    path = "/" + case["path"]
    objs = [build_interface(x) for x in case["interfaces"]]
    for x in objs:
        package.append(x)
    comp = getattr(ar_element, case["component"])("Comp")
    package.append(comp)
    tree = {"$": case["component"], "name": "Comp"}
    ports = []
    for entry in case["ops"]:
        which = entry["if"]
        interface = None if which is None else case["interfaces"][which]
        d, port = create(comp, entry, interface, None if which is None else objs[which], path)
        if d:
            return d
        if port is not None:
            ports.append((port, interface))
            tree["ports"] = [p for p, _ in ports]
    if case["dangling"]:
        comp.create_p_port("Dangling")
        comp.ports[-1].port_interface_ref = ar_element.PortInterfaceRef(
            "/Pkg/Nothing", ar_enum.IdentifiableSubTypes.SENDER_RECEIVER_INTERFACE)
        ports.append(({"$": "ProvidePortPrototype", "name": "Dangling", "port_interface_ref":
                       ["/Pkg/Nothing", "SENDER_RECEIVER_INTERFACE"]}, "dangling"))
        tree["ports"] = [p for p, _ in ports]
    cls = CLASSES[case["component"]]
    d = cls.check(comp, tree) or queries(comp, ports, path) or doc.shared(package)
    if d:
        return f"{case['component']}{d}"
    if case["root"] == "workspace":
        document = ar_document.Document(packages=list(root.packages), schema_version=51)
    else:
        document = root
    with doc.captured() as buf:
        again = ar_reader.Reader().read_str(ar_writer.Writer().write_str(document))
    if buf.getvalue():
        return f"read again: {buf.getvalue()[:200]}"
    read = again.find(path + "/Comp")
    d = cls.check(read, tree) or queries(read, ports, path)
    return f"read again: {case['component']}{d}" if d else None


def attempt(function, *args):
    """Result or class of the exception"""
    try:
        return function(*args)
    except (ar_except.InvalidReferenceError, ValueError, TypeError) as exc:
        return type(exc)


def queries(comp, ports, path):
    """All queries"""
    for attr, cls in (("provide_ports", "Provide"), ("require_ports", "Require"), ("pr_ports", "PR")):
        got = [p.name for p in getattr(comp, attr)]
        want = [p["name"] for p, _ in ports if p["$"] == cls + "PortPrototype"]
        if got != want:
            return f".{attr} is {got}, expected {want}"
    objs = {p.name: p for p in comp.ports}
    for name in [p["name"] for p, _ in ports] + ["Port", "port0", "Nothing"]:
        kind = next((p["$"] for p, _ in ports if p["name"] == name), None)
        for method, allowed in (("find", ("P", "R", "PR")), ("find_p_port", ("P", "PR")), ("find_r_port", ("R", "PR"))):
            want = objs.get(name) if kind in [{"P": "ProvidePortPrototype", "R": "RequirePortPrototype",
                                               "PR": "PRPortPrototype"}[x] for x in allowed] else None
            got = getattr(comp, method)(name)
            if got is not want:
                return f".{method}({name!r}) is {got}, expected {want and name}"
            for other in (path, f"{path}/Comp/{name}", f"Comp/{name}", f"/{name}", f"{name}/{name}", name + " "):
                if (got := getattr(comp, method)(other)) is not None:
                    return f".{method}({other!r}) is {got}, expected None"
    for tree, interface in ports:
        port = objs[tree["name"]]
        if interface is None:
            continue
        if interface == "dangling":
            for method, args in (("get_data_element_in_port", ["A"]), ("get_operation_in_port", ["A"]),
                                 ("get_mode_declaration_group_in_port", [])):
                got = attempt(getattr(comp, method), port, *args)
                if got is not ar_except.InvalidReferenceError:
                    return f".{method}() gives {got} for a port without port interface, expected InvalidReferenceError"
            continue
        target = comp.root_collection().find(port.port_interface_ref)
        kind, names = interface["kind"], [e["name"] for e in interface["elements"]]
        items = {"SR": "data_elements", "CS": "operations"}
        have = list(getattr(target, items[kind])) if kind in items else []
        if [x.name for x in have] != (names if kind in items else []):
            return f": wrong interface {target}"
        for method, mine in (("get_data_element_in_port", "SR"), ("get_operation_in_port", "CS")):
            for name in [None, ""] + names + ["Nothing", "Spe", "SPEED", tree["name"], target.name]:
                if kind != mine:
                    want = TypeError
                elif not name:
                    want = have[0] if len(have) == 1 else ValueError
                else:
                    want = have[names.index(name)] if name in names else None
                got = attempt(getattr(comp, method), port, name)
                if got is not want:
                    return f".{method}({port.name}, {name!r}) gives {got}, expected {want} ({kind} {names})"
        want = TypeError if kind not in ("MS", "MS0") else target.mode_group
        got = attempt(comp.get_mode_declaration_group_in_port, port)
        if got is not want or kind == "MS" and got.name != names[0]:
            return f".get_mode_declaration_group_in_port({port.name}) gives {got}, expected {want} ({kind})"
    return None


def nontrivial(case):
    """See RULE"""
    return len(case["ops"]) > 1 or any(e[x]["form"] != "none" for e in case["ops"] for x in "PR" if x in e)


def labels(case):
    """Distribution"""
    for e in case["ops"]:
        yield "op create_" + e["op"] + "_port"
        kind = "none" if e["if"] is None else case["interfaces"][e["if"]]["kind"]
        for side in "PR":
            if side in e:
                yield f"com-spec {kind} {e[side]['form']}"
                if "what" in e[side]:
                    yield "mistake " + e[side]["what"]
                for _, spec in e[side].get("args", []):
                    yield "class " + spec["tree"]["$"]
                    for attr in spec["short"]:
                        yield "short " + attr


def shrink(case):
    """Simpler cases"""
    for i in range(len(case["ops"])):
        yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1:]}
    if case["dangling"]:
        yield {**case, "dangling": False}
    for i, e in enumerate(case["ops"]):
        for side in "PR":
            for k in range(len(e.get(side, {}).get("args", []))):
                name, spec = e[side]["args"][k]
                if len(e[side]["args"]) > 1:
                    yield {**case, "ops": case["ops"][:i] + [{**e, side: {**e[side], "args":
                           e[side]["args"][:k] + e[side]["args"][k + 1:]}}] + case["ops"][i + 1:]}
                for attr in [a for a in spec["tree"] if a != "$"]:
                    tree = {a: v for a, v in spec["tree"].items() if a != attr}
                    args = e[side]["args"][:k] + [[name, {**spec, "tree": tree}]] + e[side]["args"][k + 1:]
                    yield {**case, "ops": case["ops"][:i] + [{**e, side: {**e[side], "args": args}}] +
                           case["ops"][i + 1:]}

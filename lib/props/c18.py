"""C18: compositions, component prototypes and connectors"""
import altbuild
import argen as g
import arschema as s
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.workspace as ar_workspace
import doc
import swc as world_of
from doc import CLASSES, ar_document, ar_reader, ar_writer

ID = "C18"
QUICK, THOROUGH = 40000, 600000
RULE = """A case is a history on a composition: components with P-, R- and PR-ports in several packages (partly nested
compositions, partly of the same names), ports of the composition, component prototypes with default and own names, then
calls of create_connector for generated pairs of ports in both orders (assembly, delegation and pass-through), repeated
pairs, unknown components and ports, malformed references, prototypes of missing types or of types that are no
components; ports and prototypes are also added between connectors. Oracle: model of the composition with each connector,
compared after every call, found by path, and again after writing and reading, where each port reference of a connector
must lead to the port meant. Non-trivial: a connector or a rejected call."""
NAMES = ["A", "B", "a", "A_B", "Comp", "Sensor", "B_1", "A_"]
LONG = "PortOfTheDriverAssistance_1" * 4
PORTS = ["P", "p", "Q", "B_P", "Out", "In", "P_Q", "P_", "Q__", LONG + "A", LONG + "B"]
KINDS = {"p": ("ProvidePortPrototype", "P_PORT_PROTOTYPE"), "r": ("RequirePortPrototype", "R_PORT_PROTOTYPE"),
         "pr": ("PRPortPrototype", "PR_PORT_PROTOTYPE")}


def gen_ports(rng):
    """Ports of a component"""
    return [[n, rng.choice(["p", "p", "r", "r", "pr"])] for n in rng.sample(PORTS, rng.choice([0, 1, 2, 3, 4, 4, 5]))]


def gen_side(rng, case, inner):
    """Reference to a port"""
    if inner and case["protos"]:
        proto = rng.choice(case["protos"])
        typ = proto["type"]
        ports = case["types"][typ]["ports"] if typ is not None and typ >= 0 else []
        return [proto["name"], rng.choice(ports)[0] if ports and rng.random() < 0.93 else rng.choice(PORTS)]
    ports = case["ports"]
    return [None, rng.choice(ports)[0] if ports and rng.random() < 0.93 else rng.choice(PORTS)]


def generate(rng, i, _tier):
    """Case number i"""
    big = i % 50 == 49
    case = {"types": [], "ports": [["X" + n, k] for n, k in gen_ports(rng)], "protos": [], "ops": [],
            "root": rng.choice(["document", "workspace"])}
    for k in range(rng.choice([1, 2, 3] if not big else [4, 8, 12])):
        case["types"].append({"name": rng.choice(NAMES), "package": rng.choice(["Pkg", "Pkg/Sub", "Other"]) + str(k),
                              "cls": rng.choice(["ApplicationSoftwareComponentType"] * 3 +
                                                ["CompositionSwComponentType"]), "ports": gen_ports(rng)})
    for k in range(rng.choice([0, 1, 2, 2, 3, 4] if not big else [8, 12, 20])):
        typ = rng.randrange(len(case["types"]))
        own = rng.random() < 0.6
        name = f"{rng.choice(NAMES)}{k}" if own else case["types"][typ]["name"]
        if any(p["name"] == name for p in case["protos"]):
            own, name = True, f"Own{k}"
        proto = {"name": name, "own": own, "type": typ, "tree": g.Gen(rng, 51).cls(
            "SwComponentPrototype", 1, rng.choice([0, 0, 0.5]), set())}
        if own and rng.random() < 0.06:
            proto["type"] = rng.choice([-1, -2])  # there is no such type, or it is no component
        proto["tree"].pop("type_ref", None)
        proto["tree"]["name"] = name
        case["protos"].append(proto)
    if own_name := rng.random() < 0.06:
        # names of the composition itself
        some = rng.choice(case["protos"] + case["types"])
        if "own" in some and not any(p["name"] == "Composition" for p in case["protos"]):
            some["own"] = True
            some["name"] = some["tree"]["name"] = "Composition"
    if own_name and case["ports"] and rng.random() < 0.3:
        case["ports"][0][0] = "Composition_"
    if rng.random() < 0.2:
        # ports whose names differ by case only
        some = rng.choice([case["ports"]] + [t["ports"] for t in case["types"]])
        for name, kind in list(some):
            if name.swapcase() not in [n for n, _ in some] and rng.random() < 0.6:
                some.append([name.swapcase(), kind])
    late = []
    for _ in range(rng.choice([1, 2, 3, 5] if not big else [10, 20, 40])):
        op = {"a": gen_side(rng, case, rng.random() < 0.7), "b": gen_side(rng, case, rng.random() < 0.7)}
        if rng.random() < 0.1:
            op["mistake"] = rng.choice(["component", "port", "outer", "three", "empty", "trailing", "component as port"])
            op["side"] = rng.choice("ab")
            comp, port = op[op["side"]]
            names = [p["tree"]["name"] for p in case["protos"]]
            op["near"] = [world_of.near(rng, comp or "Unknown", names),
                          world_of.near(rng, port or "Unknown", [x for n in PORTS for x in (n, n.swapcase(), "X" + n, "x" + n.swapcase())])]
        case["ops"].append(op)
        if rng.random() < 0.15:
            case["ops"].append({"a": op["b"], "b": op["a"]} if rng.random() < 0.6 else dict(op))
        if rng.random() < 0.15:
            # the same again with a port of another case
            case["ops"].append({"a": op["a"], "b": [op["b"][0], op["b"][1].swapcase()]} if rng.random() < 0.5 else
                               {"a": [op["a"][0], op["a"][1].swapcase()], "b": op["b"]})
    for k in range(len(case["protos"])):
        if rng.random() < 0.2:
            late.append([k, rng.randrange(len(case["ops"]))])
    case["late"] = late  # prototypes that are created between the connectors
    return case


def text(side, op, key):
    """Reference text"""
    comp, port = side
    mistake = op.get("mistake") if op.get("side") == key else None
    if mistake:
        no_comp, no_port = op.get("near", ["Unknown", "Unknown"])
        return {"component": f"{no_comp}/{port}", "port": f"{comp}/{no_port}" if comp else no_port, "outer": no_port if not comp else "Unknown",
                "three": f"{comp or 'Comp'}/{port}/x", "empty": "", "trailing": f"{comp or port}/",
                "component as port": comp or "Unknown"}[mistake]
    return port if comp is None else f"{comp}/{port}"


class Model:
    """The composition"""
    def __init__(self, case):
        self.case = case
        self.protos = []  # prototypes that exist
        self.connectors = []  # trees

    def port_ref(self, comp, port):
        """(kind, prototype reference or None, port reference), None if there is no such port"""
        if comp is None:
            for name, kind in self.case["ports"]:
                if name == port:
                    return kind, None, [f"/Top/Composition/{name}", KINDS[kind][1]]
            return None
        proto = next((p for p in self.protos if p["name"] == comp), None)
        if proto is None or proto["type"] < 0:
            return None
        typ = self.case["types"][proto["type"]]
        for name, kind in typ["ports"]:
            if name == port:
                return kind, ["/Top/Composition/" + comp, "SW_COMPONENT_PROTOTYPE"], \
                    [f"/{typ['package']}/{typ['name']}/{name}", KINDS[kind][1]]
        return None

    def connector(self, op):
        """Expected connector, None if it must be rejected, False if nothing is said about it"""
        if op.get("mistake"):
            return None
        (ca, pa), (cb, pb) = op["a"], op["b"]
        one, two = self.port_ref(ca, pa), self.port_ref(cb, pb)
        if one is None or two is None:
            return None
        kinds = one[0], two[0]
        if ca is None and cb is None:
            if kinds in (("p", "p"), ("r", "r")):
                return None
            if kinds[0] == "r" or kinds[1] == "p":
                (pa, one), (pb, two) = (pb, two), (pa, one)
            tree = {"$": "PassThroughSwConnector", "name": f"{pa}_{pb}", "provide_port": one[2], "require_port": two[2]}
        elif ca is None or cb is None:
            inner, outer, names = (two, one, (cb, pb, pa)) if ca is None else (one, two, (ca, pa, pb))
            if "".join(sorted((inner[0], outer[0]))) == "pr":
                return False
            comp, inner_port, outer_port = names
            name = f"{comp}_{inner_port}_{outer_port}" if outer[0] == "p" else f"{outer_port}_{comp}_{inner_port}"
            tree = {"$": "DelegationSwConnector", "name": name, "outer_port": outer[2], "inner_port": {
                "$": "InnerR" if inner[0] == "r" else "InnerP", "component_ref": inner[1], "port_ref": inner[2]}}
        else:
            if kinds not in (("p", "r"), ("r", "p")):
                return None if "pr" not in kinds else False
            if kinds[0] == "r":
                (ca, pa, one), (cb, pb, two) = (cb, pb, two), (ca, pa, one)
            tree = {"$": "AssemblySwConnector", "name": f"{ca}_{pa}_{cb}_{pb}",
                    "provide_port": {"$": "PInComposition", "component_ref": one[1], "port_ref": one[2]},
                    "require_port": {"$": "RInComposition", "component_ref": two[1], "port_ref": two[2]}}
        taken = [c["name"] for c in self.connectors] + [p["name"] for p in self.protos] + \
            [n for n, _ in self.case["ports"]]
        return None if tree["name"] in taken else tree

    def tree(self):
        """Value tree"""
        tree = {"$": "CompositionSwComponentType", "name": "Composition"}
        if self.case["ports"]:
            tree["ports"] = [{"$": KINDS[k][0], "name": n} for n, k in self.case["ports"]]
        if self.protos:
            tree["components"] = [self.proto_tree(p) for p in self.protos]
        if self.connectors:
            tree["connectors"] = self.connectors
        return tree

    def proto_tree(self, proto):
        """Value tree of a prototype"""
        if proto["type"] >= 0:
            typ = self.case["types"][proto["type"]]
            dest = "COMPOSITION_SW_COMPONENT_TYPE" if typ["cls"][0] == "C" else "APPLICATION_SW_COMPONENT_TYPE"
            ref = [f"/{typ['package']}/{typ['name']}", dest]
        else:
            ref = ["/Top/Missing" if proto["type"] == -1 else "/Top/Interface", "APPLICATION_SW_COMPONENT_TYPE"]
        return {**proto["tree"], "type_ref": ref}


def create_proto(comp, proto, types):
    """create_component_prototype"""
    kwargs, _ = altbuild.kwargs_of(proto["tree"], {})
    name = kwargs.pop("name")
    if proto["type"] < 0:
        ref = ar_element.SwComponentTypeRef("/Top/Missing" if proto["type"] == -1 else "/Top/Interface",
                                            ar_enum.IdentifiableSubTypes.APPLICATION_SW_COMPONENT_TYPE)
        comp.append_component(ar_element.SwComponentPrototype(name, ref, **kwargs))
        return None
    if proto["own"]:
        kwargs["name"] = name
    got = comp.create_component_prototype(types[proto["type"]], **kwargs)
    return None if got is comp.components[-1] else "create_component_prototype: the result is not the last component"


def run(case):
    """Oracle"""
    s.schema_version[0] = 51
    root = ar_workspace.Workspace() if case["root"] == "workspace" else ar_document.Document(schema_version=51)
    types = []
    for t in case["types"]:
        obj = getattr(ar_element, t["cls"])(t["name"])
        root.make_packages(t["package"]).append(obj)
        for name, kind in t["ports"]:
            if kind == "r":
                obj.append_port(ar_element.RequirePortPrototype(name))
            else:
                getattr(obj, f"create_{kind}_port")(name)
        types.append(obj)
    top = root.make_packages("Top")
    top.append(ar_element.SenderReceiverInterface("Interface"))
    comp = ar_element.CompositionSwComponentType("Composition")
    top.append(comp)
    for name, kind in case["ports"]:
        comp.append_port(getattr(ar_element, KINDS[kind][0])(name))
    model = Model(case)
    cls = CLASSES["CompositionSwComponentType"]
    late = {k: at for k, at in case["late"]}

    def protos(at):
        for k, proto in enumerate(case["protos"]):
            if late.get(k) == at and all(c["name"] != proto["name"] for c in model.connectors):
                d = create_proto(comp, proto, types)
                model.protos.append(proto)
                if d:
                    return d
        return None

    d = protos(None) or cls.check(comp, model.tree())
    if d:
        return f"composition{d}"
    for k, op in enumerate(case["ops"]):
        refs = text(op["a"], op, "a"), text(op["b"], op, "b")
        want = model.connector(op)
        if want is False:
            continue
        what = f"create_connector{refs}"
        try:
            got = comp.create_connector(*refs, root)
        except ValueError as exc:
            if want is not None:
                return f"{what} raises {exc!r}, expected {want}"
        else:
            if want is None:
                return f"{what} is accepted, expected ValueError; model {model.tree()}"
            model.connectors.append(want)
            if got is not comp.connectors[-1]:
                return f"{what}: the result is not the last connector"
        d = cls.check(comp, model.tree())
        if d:
            return f"{what}: composition{d}"
        d = protos(k)
        if d:
            return d
    d = cls.check(comp, model.tree()) or search(root, model) or doc.shared(root.packages)
    if d:
        return f"composition{d}"
    document = root if case["root"] == "document" else ar_document.Document(packages=list(root.packages),
                                                                             schema_version=51)
    with doc.captured() as buf:
        again = ar_reader.Reader().read_str(ar_writer.Writer().write_str(document))
    if buf.getvalue():
        return f"read again: {buf.getvalue()[:200]}"
    d = cls.check(again.find("/Top/Composition"), model.tree()) or search(again, model)
    return f"read again: composition{d}" if d else None


def search(root, model):
    """Everything is found, and the references of the connectors lead to the ports and prototypes that are meant"""
    comp = root.find("/Top/Composition")
    for items, trees in ((comp.components, model.tree().get("components", [])), (comp.connectors, model.connectors)):
        for x, t in zip(items, trees):
            if root.find(f"/Top/Composition/{t['name']}") is not x:
                return f": find({t['name']}) is {root.find('/Top/Composition/' + t['name'])}"
    for c in comp.connectors:
        sides = []
        if isinstance(c, ar_element.AssemblySwConnector):
            for side, kind in ((c.provide_port, ar_element.ProvidePortPrototype),
                               (c.require_port, ar_element.RequirePortPrototype)):
                sides += [(side.component_ref, ar_element.SwComponentPrototype), (side.port_ref, kind)]
        elif isinstance(c, ar_element.DelegationSwConnector):
            sides += [(c.inner_port.component_ref, ar_element.SwComponentPrototype),
                      (c.inner_port.port_ref, ar_element.PortPrototype), (c.outer_port, ar_element.PortPrototype)]
        else:
            sides += [(c.provide_port, (ar_element.ProvidePortPrototype, ar_element.PRPortPrototype)),
                      (c.require_port, (ar_element.RequirePortPrototype, ar_element.PRPortPrototype))]
        for ref, kind in sides:
            obj = root.find(ref)
            if not isinstance(obj, kind) or str(obj.ref()) != str(ref) or obj.ref().dest is not ref.dest:
                return f": {c.name}: {ref} leads to {obj}"
    return None


def nontrivial(case):
    """See RULE"""
    return bool(case["ops"])


def labels(case):
    """Distribution"""
    model = Model(case)
    model.protos = case["protos"]
    for op in case["ops"]:
        want = model.connector(op)
        if want:
            kinds = model.port_ref(*op["a"])[0], model.port_ref(*op["b"])[0]
            yield f"connector {want['$']} {'-'.join(kinds)}"
        else:
            yield "not said" if want is False else "rejected " + op.get("mistake", "")
    for p in case["protos"]:
        yield "prototype " + ("own name" if p["own"] else "default name") + (" broken" if p["type"] < 0 else "")


def shrink(case):
    """Simpler cases"""
    for i in range(len(case["ops"])):
        if case["late"]:
            yield {**case, "late": []}
        yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1:], "late": [x for x in case["late"] if x[1] < i]}
    if not case["late"]:
        for i in range(len(case["protos"])):
            yield {**case, "protos": case["protos"][:i] + case["protos"][i + 1:]}

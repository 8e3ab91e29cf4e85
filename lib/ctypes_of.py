"""
Generated implementation data types, their XML objects and what they mean in C, for the properties about the
implementation model and the type generator
"""
import math
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_ref
import autosar.xml.workspace as ar_workspace
from doc import ar_document, ar_reader, ar_writer

LONG = "VehicleSpeedOfTheDriverAssistance_1" * 3
FOREIGN = ["Platform", "Platform", "RTE_Platform", "HEADER_FILE", "BswRte"]
LETTERS = ["", "", "A", "Z", "z", "a_", LONG]
NATIVE = ["unsigned char", "signed char", "char", "short", "unsigned short", "int", "unsigned int", "long", "float", "double",
          "unsigned long long", "_Bool"]
PACKAGES = ["Types", "Types/Base", "Types/Impl", "Other"]
POLICY = ["PAYLOAD_AS_ARRAY", "PAYLOAD_AS_POINTER_TO_ARRAY"]
HANDLING = ["ALL_INDICES_DIFFERENT_ARRAY_SIZE", "ALL_INDICES_SAME_ARRAY_SIZE", "INHERITED_FROM_ARRAY_ELEMENT_TYPE_SIZE"]
SEMANTICS = ["FIXED_SIZE", "VARIABLE_SIZE"]


def cost_of(t, costs):
    """(size in bytes, about, number of nodes of its tree) of a type"""
    if t["kind"] == "STRUCTURE":
        return sum(costs[k][0] for _, k in t["members"]), 1 + sum(costs[k][1] for _, k in t["members"])
    k = t["item"][1] if "item" in t else t["to"]
    return costs[k][0] * math.prod(t.get("sizes", [1])), 1 + costs[k][1]


def members_of(t):
    """Names of the members of a structure"""
    return [t["member"] + str(i) for i in range(len(t["members"]))]


def generate(rng, for_c, big=False):
    """Types; every one refers to earlier ones by index. For C: unique names, types that the generator supports. The order
    of the names has nothing to do with the order of the types"""
    bases = []
    for i in range(rng.choice([1, 2, 3] + [12] * big)):
        bases.append({"kind": "BASE", "name": f"{rng.choice(LETTERS)}Base{i}_t" if for_c or rng.random() < 0.7 else "Same",
                      "native": rng.choice(NATIVE) if rng.random() < 0.6 else None, "package": rng.choice(PACKAGES)})
    out = list(bases)
    costs = [(8, 1) for _ in bases]
    for i in range(rng.choice([1, 2, 3, 4, 6, 9] if not big else [20, 40])):
        impl = [k for k, t in enumerate(out) if t["kind"] != "BASE"]
        if for_c:
            impl = [k for k in impl if out[k]["kind"] != "DATA_REFERENCE"]
        kind = rng.choice(["VALUE", "TYPE_REFERENCE", "ARRAY", "STRUCTURE"] + ([] if for_c else ["DATA_REFERENCE"]))
        t = {"kind": kind, "name": f"{rng.choice(LETTERS)}Type{i}_T" if for_c or rng.random() < 0.7 else "Same", "package": rng.choice(PACKAGES),
             "symbol": rng.choice([None, None, f"Sym{i}"]), "emitter": rng.choice([None, None, "RTE", "Rte", "rte", rng.choice(FOREIGN)])}
        if kind == "TYPE_REFERENCE" and not impl:
            t["kind"] = kind = "VALUE"

        def item():
            """Reference to a base type or an implementation type"""
            if impl and rng.random() < 0.5:
                return ["TYPE_REFERENCE", rng.choice(impl)]
            return ["VALUE", rng.randrange(len(bases))]
        if kind == "VALUE":
            t["to"] = rng.randrange(len(bases))
        elif kind == "TYPE_REFERENCE":
            t["to"] = rng.choice(impl)
        elif kind == "DATA_REFERENCE":
            t["item"] = item()
        elif kind == "ARRAY":
            t["item"] = item()
            t["sizes"] = [rng.choice([1, 2, 3, 7, 8, 255]) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 3, 5]))]
            if len(t["sizes"]) == 1:
                t["sizes"] = [rng.choice([1, 2, 3, 7, 8, 255, 256, 4095, 65536, 1000000])]
            if cost_of(t, costs)[0] > 2**50:
                t["sizes"] = [1]
            t["dim"] = rng.choice([["Dim", ""], ["Dim", ""], ["_D", "_"], ["d", "x"], ["Same", ""]])
            t["more"] = [rng.choice(x) for x in ([None, None] + POLICY, [None, None] + HANDLING, [None, None] + SEMANTICS)]
        else:
            t["member"] = rng.choice(["m", "m", "x_", "Z", "long" + LONG])
            t["members"] = [item() for _ in range(rng.choice([1, 2, 3, 5] * 3 + [12] + [40] * big))]
            while cost_of(t, costs) > (2**50, 0) or cost_of(t, costs)[1] > 5000:
                t["members"][rng.randrange(len(t["members"]))] = ["VALUE", 0]
        if for_c and t["emitter"] in FOREIGN:
            used = [t["to"]] if kind == "TYPE_REFERENCE" else [
                k for c, k in t.get("members", []) + ([t["item"]] if "item" in t else []) if c == "TYPE_REFERENCE"]
            if any(out[k]["emitter"] not in FOREIGN for k in used):
                t["emitter"] = None
        out.append(t)
        costs.append(cost_of(t, costs))
    for t in out:
        if rng.random() < 0.1:
            name = rng.choice([rng.choice(out)["name"].swapcase(), rng.choice(out)["name"].lower(), rng.choice(out)["name"] + "x"])
            if all(x["name"] != name for x in out):
                t["name"] = name
    names = set()
    for i, t in enumerate(out):
        if (t["package"], t["name"]) in names:
            t["name"] += f"_{i}"
        names.add((t["package"], t["name"]))
    return out


def path(t):
    """Path of a type"""
    return f"/{t['package']}/{t['name']}"


def dims_of(t):
    """Names of the elements of an array"""
    before, after = t.get("dim", ["Dim", ""])
    return [f"{before}{i}{after}" for i in range(len(t["sizes"]) - 1)] + [f"{before}Elem{after}"]


def deps(types, k):
    """(category, index) of the direct references of a type"""
    t = types[k]
    if t["kind"] == "VALUE":
        return [("VALUE", t["to"])]
    if t["kind"] == "TYPE_REFERENCE":
        return [("TYPE_REFERENCE", t["to"])]
    return [tuple(x) for x in t.get("members", []) + ([t["item"]] if "item" in t else [])]


def closure(types, roots, follow=lambda k, category: True):
    """Indexes of all types that the roots need"""
    out, todo = set(), list(roots)
    while todo:
        k = todo.pop()
        if k in out:
            continue
        out.add(k)
        if types[k]["kind"] != "BASE":
            todo += [n for category, n in deps(types, k) if follow(k, category)]
    return out


def props_of(types, objs, category, k):
    """Data definition properties with a reference"""
    ref = objs[k].ref() if k < len(objs) else None
    if category == "VALUE":
        return ar_element.SwDataDefPropsConditional(base_type_ref=ref or ar_ref.SwBaseTypeRef(path(types[k])))
    return ar_element.SwDataDefPropsConditional(impl_data_type_ref=ref or ar_ref.ImplementationDataTypeRef(path(types[k])))


def build_one(types, objs, k, packages, missing):
    """One type, missing ones are not added to their package"""
    t = types[k]
    if t["kind"] == "BASE":
        obj = ar_element.SwBaseType(t["name"], native_declaration=t["native"])
    else:
        kwargs = {"category": t["kind"], "type_emitter": t["emitter"]}
        if t["symbol"]:
            kwargs["symbol_props"] = ar_element.SymbolProps("Symbol", t["symbol"])
        if t["kind"] in ("VALUE", "TYPE_REFERENCE"):
            kwargs["sw_data_def_props"] = props_of(types, objs, t["kind"], t["to"])
        elif t["kind"] == "DATA_REFERENCE":
            target = ar_element.SwPointerTargetProps(t["item"][0], props_of(types, objs, *t["item"]))
            kwargs["sw_data_def_props"] = ar_element.SwDataDefPropsConditional(ptr_target_props=target)
        elif t["kind"] == "STRUCTURE":
            kwargs["sub_elements"] = [ar_element.ImplementationDataTypeElement(
                name, category=c, sw_data_def_props=props_of(types, objs, c, n)) for name, (c, n) in zip(members_of(t), t["members"])]
        else:
            names = dims_of(t)
            subs = [ar_element.ImplementationDataTypeElement(name, category="ARRAY", array_size=n)
                    for name, n in zip(names, t["sizes"][:-1])]
            policy, handling, semantics = t["more"]
            subs.append(ar_element.ImplementationDataTypeElement(
                names[-1], category=t["item"][0], array_size=t["sizes"][-1], sw_data_def_props=props_of(types, objs, *t["item"]),
                array_impl_policy=ar_enum.ArrayImplPolicy[policy] if policy else None,
                array_size_handling=ar_enum.ArraySizeHandling[handling] if handling else None,
                array_size_semantics=ar_enum.ArraySizeSemantics[semantics] if semantics else None))
            kwargs["sub_elements"] = subs
        obj = ar_element.ImplementationDataType(t["name"], **kwargs)
    if k not in missing:
        packages[t["package"]].append(obj)
    return obj


def build(types, read, missing=()):
    """Workspace and objects of the types; read: they are written and read in between; missing: types to leave out"""
    workspace = ar_workspace.Workspace()
    packages = {p: workspace.make_packages(p) for p in PACKAGES}
    objs = []
    for k in range(len(types)):
        objs.append(build_one(types, objs, k, packages, missing))
    if read:
        text = ar_writer.Writer().write_str(ar_document.Document(packages=list(workspace.packages), schema_version=51))
        document = ar_reader.Reader().read_str(text)
        workspace = ar_workspace.Workspace()
        for package in document.packages:
            workspace.append(package)
        objs = [objs[k] if k in missing else workspace.find(path(t)) for k, t in enumerate(types)]
    return workspace, objs

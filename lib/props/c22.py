"""C22: the implementation model of data types"""
import autosar.model.element as rte_element
from autosar.model import ImplementationModel
import ctypes_of as ct

ID = "C22"
QUICK, THOROUGH = 20000, 300000
RULE = """A case is a set of base types and implementation data types of the categories VALUE, TYPE_REFERENCE, ARRAY (one to
three dimensions), STRUCTURE and DATA_REFERENCE in several packages, with equal names in different ones, built with the API
or read from a document, and a sequence of create_from_element and create_from_ref calls (source or not, repeated, unknown
references, types that are missing first and added later, structures with pointers to themselves). Oracle: the types described, compared attribute by attribute; one object per type; the dependency trees of the
types that were asked for. Non-trivial: at least three types."""
KINDS = {"BASE": "BaseType", "VALUE": "ScalarType", "TYPE_REFERENCE": "RefType", "ARRAY": "ArrayType",
         "STRUCTURE": "RecordType", "DATA_REFERENCE": "PointerType"}


def generate(rng, i, _tier):
    """Case number i"""
    types = ct.generate(rng, False, i % 50 == 49)
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3, 5] if i % 50 != 49 else [5, 12])):
        calls.append([rng.choice(["element", "ref", "text"]), rng.randrange(len(types)) if rng.random() < 0.9 else None,
                      rng.random() < 0.7])
    missing = []
    if rng.random() < 0.25:  # types that are added later, if at all
        missing = sorted({rng.randrange(len(types)) for _ in range(rng.choice([1, 1, 2]))})
        for k in missing:
            if rng.random() < 0.7:
                calls.insert(rng.randint(0, len(calls)), ["add", k, False])
                calls.append(["ref", rng.randrange(len(types)), True])
    if rng.random() < 0.3:
        link(rng, types)
    return {"types": types, "calls": calls, "read": rng.random() < 0.3, "missing": missing}


def link(rng, types):
    """Lets a pointer point to a structure that contains it, like in a linked list"""
    found = [(k, n) for k, t in enumerate(types) if t["kind"] == "STRUCTURE" for n in ct.closure(types, [k])
             if types[n]["kind"] == "DATA_REFERENCE"]
    if found:
        k, n = rng.choice(sorted(found))
        types[n]["item"] = ["TYPE_REFERENCE", k]


def name_of(what, got, want):
    """Difference of a value"""
    return None if got == want and type(got) is type(want) else f"{what} is {got!r}, expected {want!r}"


def check_member(types, model, where, got, item):
    """Data type of an element of an array or structure"""
    category, k = item
    if type(got).__name__ != KINDS[category]:
        return f"{where} is a {type(got).__name__}, expected {KINDS[category]}"
    target = got.base_type if category == "VALUE" else got.impl_type
    if target is not model.data_types.get(ct.path(types[k])):
        return f"{where} refers to {target!r}, expected the object of {ct.path(types[k])}"
    return None


def check_type(types, model, k):
    """Object of type number k"""
    t = types[k]
    path = ct.path(t)
    got = model.data_types.get(path)
    if got is None:
        return f"{path} isn't in the model"
    if type(got).__name__ != KINDS[t["kind"]]:
        return f"{path} is a {type(got).__name__}, expected {KINDS[t['kind']]}"
    d = name_of(f"{path}.ref", str(got.ref), path) or name_of(f"{path}.name", got.name, t["name"])
    if t["kind"] == "BASE":
        return d or name_of(f"{path}.native_declaration", got.native_declaration, t["native"])
    d = d or name_of(f"{path}.symbol_name", got.symbol_name, t["symbol"] or t["name"]) or \
        name_of(f"{path}.type_emitter", got.type_emitter, t["emitter"])
    if d:
        return d
    if t["kind"] in ("VALUE", "TYPE_REFERENCE", "DATA_REFERENCE"):
        attr = {"VALUE": "base_type", "TYPE_REFERENCE": "impl_type"}.get(t["kind"], "target_type")
        target = ct.path(types[ct.deps(types, k)[0][1]])
        if getattr(got, attr) is not model.data_types.get(target):
            return f"{path}.{attr} is {getattr(got, attr)!r}, expected the object of {target}"
    elif t["kind"] == "STRUCTURE":
        if [e.name for e in got.sub_elements] != ct.members_of(t):
            return f"{path} has the elements {[e.name for e in got.sub_elements]}"
        for name, elem, item in zip(ct.members_of(t), got.sub_elements, t["members"]):
            d = name_of(f"{path}.{name}.ref", str(elem.ref), f"{path}/{name}") or \
                check_member(types, model, f"{path}.{name}", elem.data_type, item)
            if d:
                return d
    else:
        names = ct.dims_of(t)
        if [(e.name, e.array_size, str(e.ref)) for e in got.sub_elements] != [
                (n, size, f"{path}/{n}") for n, size in zip(names, t["sizes"])]:
            return f"{path} has the elements {[(e.name, e.array_size, str(e.ref)) for e in got.sub_elements]}"
        last = got.sub_elements[-1]
        for attr, want in zip(["impl_policy", "size_handling", "size_semantics"], t["more"]):
            value = getattr(last, attr)
            if (value.name if value is not None else None) != want:
                return f"{path}.{attr} is {value!r}, expected {want}"
        return check_member(types, model, f"{path}.{names[-1]}", last.data_type, t["item"])
    return None


def follow(types):
    """The dependency trees: arrays and structures don't need the base types of their elements"""
    return lambda k, category: types[k]["kind"] not in ("ARRAY", "STRUCTURE") or category != "VALUE"


def tree_nodes(node, out):
    """(path, paths of the children) of all nodes"""
    out.append((node.data, [c.data for c in node.children]))
    for c in node.children:
        tree_nodes(c, out)


def check_trees(types, model, sources):
    """Dependency trees and creation order"""
    if any(types[k]["kind"] == "DATA_REFERENCE" for k in ct.closure(types, sources, follow(types))):
        return None  # not supported
    trees = model.gen_type_dependency_trees()
    if sorted(str(t.data.ref) for t in trees) != sorted(ct.path(types[k]) for k in sources):
        return f"trees of {[str(t.data.ref) for t in trees]}, expected {[ct.path(types[k]) for k in sources]}"
    index = {ct.path(t): k for k, t in enumerate(types)}
    for root in trees:
        nodes = []
        tree_nodes(root, nodes)
        for data, children in nodes:
            k = index[str(data.ref)]
            want = sorted(ct.path(types[n]) for category, n in ct.deps(types, k) if follow(types)(k, category)) \
                if types[k]["kind"] != "BASE" else []
            if sorted(str(c.ref) for c in children) != want:
                return f"{data.ref} depends on {[str(c.ref) for c in children]}, expected {want}"
        order = [str(n.data.ref) for n in model.get_type_creation_order(root)]
        first = {p: i for i, p in reversed(list(enumerate(order)))}
        if len(order) != len(nodes):
            return f"creation order {order} of {len(nodes)} nodes"
        for data, children in nodes:
            for c in children:
                if first[str(c.ref)] > first[str(data.ref)]:
                    return f"creation order {order}: {data.ref} comes before {c.ref}"
    return None


def run(case):
    """Oracle"""
    types = case["types"]
    missing = set(case.get("missing", []))
    workspace, objs = ct.build(types, case["read"], missing)
    model = ImplementationModel(workspace)
    asked, sources, results = [], set(), {}
    for how, k, is_source in case["calls"]:
        if how == "add":
            if k in missing:
                workspace.find(types[k]["package"]).append(objs[k])
                missing.discard(k)
            continue
        if k is None:
            try:
                model.create_from_ref("/Types/Nothing", is_source)
            except KeyError:
                continue
            return "create_from_ref accepts /Types/Nothing"
        before = dict(model.data_types), set(model.source_type_refs)
        if missing & ct.closure(types, [k]):
            try:
                if how == "element" and k not in missing:
                    model.create_from_element(objs[k], is_source)
                else:
                    model.create_from_ref(ct.path(types[k]), is_source)
            except KeyError:
                if (model.data_types, model.source_type_refs) != before:
                    return f"{ct.path(types[k])}: needs a missing type, but {sorted(set(model.data_types) - set(before[0]))} is " \
                        f"added to the model, sources {sorted(model.source_type_refs - before[1])}"
                continue
            return f"{ct.path(types[k])}: accepted, although {[ct.path(types[n]) for n in missing]} is missing"
        if how == "element":
            got = model.create_from_element(objs[k], is_source)
        else:
            got = model.create_from_ref(objs[k].ref() if how == "ref" else ct.path(types[k]), is_source)
        asked.append(k)
        if is_source:
            sources.add(k)
        if not isinstance(got, rte_element.Element) or got is not results.setdefault(k, got) or \
                got is not model.data_types.get(ct.path(types[k])):
            return f"{ct.path(types[k])}: returns {got!r}"
        want = ct.closure(types, asked)
        if set(model.data_types) != {ct.path(types[n]) for n in want}:
            return f"the model has {sorted(model.data_types)}, expected {sorted(ct.path(types[n]) for n in want)}"
        if set(model.source_type_refs) != {ct.path(types[n]) for n in sources}:
            return f"sources {model.source_type_refs}, expected {[ct.path(types[n]) for n in sources]}"
        for n in want:
            d = check_type(types, model, n)
            if d:
                return d
    return check_trees(types, model, sources)


def nontrivial(case):
    """See RULE"""
    return len(case["types"]) > 2


def labels(case):
    """Distribution"""
    yield "read" if case["read"] else "built"
    for t in case["types"]:
        yield t["kind"] + (f" {len(t['sizes'])} dimensions" if t["kind"] == "ARRAY" else "")
    for how, k, _ in case["calls"]:
        yield how if k is not None else "unknown"


def shrink(case):
    """Simpler cases"""
    for i in range(len(case["calls"])):
        yield {**case, "calls": case["calls"][:i] + case["calls"][i + 1:]}
    if case["read"]:
        yield {**case, "read": False}
    if case.get("missing"):
        yield {**case, "missing": case["missing"][1:]}
    types = case["types"]
    last = len(types) - 1
    if last and all(k != last for _, k, _ in case["calls"]) and last not in case.get("missing", []) and all(
            n != last for k in range(last) if types[k]["kind"] != "BASE" for _, n in ct.deps(types, k)):
        yield {**case, "types": types[:-1]}
    for i, t in enumerate(types):
        if len(t.get("members", [])) > 1:
            yield {**case, "types": types[:i] + [{**t, "members": t["members"][1:]}] + types[i + 1:]}
        if len(t.get("sizes", [])) > 1:
            yield {**case, "types": types[:i] + [{**t, "sizes": t["sizes"][1:]}] + types[i + 1:]}
        for attr in ("symbol", "emitter", "native"):
            if t.get(attr):
                yield {**case, "types": types[:i] + [{**t, attr: None}] + types[i + 1:]}

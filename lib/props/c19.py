"""C19: port access of runnables"""
import re
import altbuild
import argen as g
import arschema as s
import autosar.xml.element as ar_element
import autosar.xml.exception as ar_except
import swc as world_of
from doc import CLASSES, ar_document

ID = "C19"
QUICK, THOROUGH = 50000, 800000
RULE = """A case is a workspace with generated port interfaces of all kinds, a component with P-, R- and PR-ports and
behavior settings (some prefixes are missing), in which runnables get access to ports by several calls of
create_port_access with texts of all documented formats (prefixes in upper and lower case, with and without element,
single, lists, with dictionaries of further attributes and names); some calls contain a mistake after valid entries, and
the prefixes in the behavior settings change in between.
Oracle: model of the runnables with every access point, compared after every call and again after writing and reading;
the dictionaries must stay unchanged. Non-trivial: at least two access points or a mistake."""
ATTRS = {"data_read_access": ("VariableAccess", "data_read_access_prefix"),
         "data_receive_point_by_argument": ("VariableAccess", "data_receive_point_prefix"),
         "data_receive_point_by_value": ("VariableAccess", "data_receive_point_prefix"),
         "data_send_point": ("VariableAccess", "data_send_point_prefix"),
         "data_write_access": ("VariableAccess", "data_write_access_prefix"),
         "parameter_access": ("ParameterAccess", "parameter_access_prefix"),
         "mode_switch_point": ("ModeSwitchPoint", "mode_switch_point_prefix"),
         "SYNC": ("SynchronousServerCallPoint", "server_call_point_prefix"),
         "ASYNC": ("AsynchronousServerCallPoint", "server_call_point_prefix"),
         "ident": ("ModeAccessPointIdent", "mode_access_point_prefix")}
DATA = {"R": {"": "data_receive_point_by_argument", "ARG": "data_receive_point_by_argument",
              "ARGUMENT": "data_receive_point_by_argument", "VAL": "data_receive_point_by_value",
              "VALUE": "data_receive_point_by_value", "READ": "data_read_access"},
        "P": {"": "data_send_point", "SEND": "data_send_point", "WRITE": "data_write_access"}}
MISTAKES = ["port", "element", "prefix", "prefix", "no element", "path"]


# nearly the prefixes of accesses
WORDS = ["GIVE", "", " ", "S", "A", "SYN", "SYNCH", "ASYNCH", "ASYN", "REA", "READS", "WRIT", "WRITER", "ARGUMENTS", "AR", "ARGU",
         "VALUES", "VA", "VALU", "SEN", "SENDS", "ACCES", "ACC", "SWITCHES", "SW", "SWI", "RECEIVE", "IMPLICIT", "READ ",
         "SYNC:SYNC", "READ/WRITE", "None"]


def options(world):
    """(port, element, prefix, attribute) of all documented accesses"""
    out = []
    for port in world["ports"]:
        interface = world["interfaces"][port["if"]]
        kind, side = interface["kind"], port["side"]
        for element in interface["elements"]:
            if kind in ("SR", "NV") and side != "PR":
                out += [[port["name"], element, p, a] for p, a in DATA[side].items()]
            elif kind == "PARAM":
                out.append([port["name"], element, "", "parameter_access"])
            elif kind == "MS" and side != "PR":
                out += [[port["name"], element, "", "plain"], [port["name"], element, "ACCESS", "ident"]]
                if side == "P":
                    out.append([port["name"], element, "SWITCH", "mode_switch_point"])
            elif kind == "CS" and side != "P":
                out += [[port["name"], element, "", "SYNC"], [port["name"], element, "SYNC", "SYNC"],
                        [port["name"], element, "ASYNC", "ASYNC"]]
    return out


def generate(rng, i, _tier):
    """Case number i"""
    big = i % 50 == 49
    world = world_of.generate(rng, big=big)
    possible = options(world)
    rng.shuffle(possible)
    calls = []
    count = 0
    for _ in range(rng.choice([1, 2, 3] if not big else [4, 8, 12])):
        entries = []
        for _ in range(rng.choice([1, 1, 2, 3, 5] if not big else [1, 3, 8, 20])):
            if not possible:
                break
            port, element, prefix, attr = possible.pop()
            if rng.random() < 0.15:  # the same again
                possible.insert(rng.randrange(max(0, len(possible) - 4), len(possible) + 1), [port, element, prefix, attr])
            interface = world_of.port_of(world, port)[1]
            entry = {"port": port, "element": element, "prefix": prefix, "attr": attr,
                     "short": len(interface["elements"]) == 1 and rng.random() < 0.5,
                     "case": rng.choice(["upper", "lower", "title"]), "space": rng.random() < 0.2}
            if attr != "plain" and rng.random() < 0.5:
                cls = ATTRS[attr][0]
                tree = g.Gen(rng, 51).cls(cls, 1, rng.choice([0, 0.3, 0.8]), set())
                for a in ("accessed_variable", "accessed_parameter", "operation", "mode_group"):
                    tree.pop(a, None)
                tree.pop("name")
                if rng.random() < 0.5:
                    tree["name"] = rng.choice([f"Own{count}", f"Own{count}", element, port, f"{element}_", f"X_{port}_{element}"])
                    count += 1
                entry["args"] = tree
            entries.append(entry)
        call = {"runnable": rng.choice(["Run", "Run2"]), "entries": entries,
                "single": len(entries) == 1 and rng.random() < 0.5}
        if rng.random() < 0.15 and world["ports"]:
            port = rng.choice(world["ports"])
            call["mistake"] = [rng.choice(MISTAKES), port["name"]]
            if call["mistake"][0] == "prefix":
                call["mistake"].append(rng.choice(WORDS))
            else:
                names = [p["name"] for p in world["ports"]]
                elements = world_of.port_of(world, port["name"])[1]["elements"]
                call["mistake"] += [world_of.near(rng, rng.choice(names), names),
                                    world_of.near(rng, rng.choice(elements or ["x"]), elements)]
            call["single"] = False
        if rng.random() < 0.15:
            call["settings"] = world_of.gen_settings(rng)
        calls.append(call)
    return {"world": world, "calls": calls, "root": rng.choice(["workspace"] * 12 + ["document", "none"])}


def text_of(entry):
    """Text of an access"""
    ref = entry["port"] if entry["short"] else f"{entry['port']}/{entry['element']}"
    if not entry["prefix"]:
        return ref
    return getattr(entry["prefix"], entry["case"])() + ":" + (" " if entry["space"] else "") + ref


def mistake_text(world, mistake):
    """(text, exception) of a mistake, None if it isn't possible"""
    what, name = mistake[:2]
    port, interface = world_of.port_of(world, name)
    kind, elements = interface["kind"], interface["elements"]
    if what == "port":
        return mistake[2] + "/" + (elements or ["x"])[0], ValueError
    if what == "prefix":
        return f"{mistake[2]}:{name}" + ("/" + elements[0] if elements else ""), ValueError
    if kind in ("SR", "NV") and port["side"] == "PR" or kind == "CS" and port["side"] == "P":
        return None
    if what == "no element":
        return (name, RuntimeError) if len(elements) > 1 and kind != "MS" else None
    if kind == "MS" and not elements:
        return None
    if what == "path":
        return (f"{name}/{elements[0]}/x", RuntimeError) if elements else None
    return f"{name}/{mistake[3]}", RuntimeError


def expected(world, entry):
    """(attribute of the runnable, value tree) or the exception"""
    port, interface = world_of.port_of(world, entry["port"])
    port_ref = world_of.port_ref(world, port)
    element_ref = world_of.element_ref(world, interface, entry["element"])
    attr = entry["attr"]
    if attr in ("plain", "ident"):
        cls = ("P" if port["side"] == "P" else "R") + "ModeGroupInAtomicSwcInstanceRef"
        group = {"$": cls, "context_port": port_ref, "target_mode_group": element_ref}
        if attr == "plain":
            return "mode_access_point", {"$": "ModeAccessPoint", "mode_group": group}
    cls, prefix = ATTRS[attr]
    tree = {**entry.get("args", {}), "$": cls}
    if "name" not in tree:
        if prefix not in world["prefixes"]:
            return ValueError
        tree["name"] = f"{world['prefixes'][prefix]}_{entry['port']}_{entry['element']}"
    if cls == "VariableAccess":
        tree["accessed_variable"] = {"$": "AutosarVariableRef", "ar_variable_iref": {
            "$": "VariableInAtomicSWCTypeInstanceRef", "port_prototype_ref": port_ref,
            "target_data_prototype_ref": element_ref}}
        return attr, tree
    if cls == "ParameterAccess":
        tree["accessed_parameter"] = {"$": "AutosarParameterRef", "autosar_parameter": {
            "$": "ParameterInAtomicSwcTypeInstanceRef", "port_prototype": port_ref, "target_data_prototype": element_ref}}
        return attr, tree
    if attr in ("SYNC", "ASYNC"):
        tree["operation"] = {"$": "ROperationInAtomicSwcInstanceRef", "context_port": port_ref,
                             "target_required_operation": element_ref}
        return "server_call_point", tree
    if attr == "ident":
        return "mode_access_point", {"$": "ModeAccessPoint", "ident": tree, "mode_group": group}
    tree["mode_group"] = {"$": "PModeGroupInAtomicSwcInstanceRef", "context_port": port_ref,
                          "target_mode_group": element_ref}
    return attr, tree


def one_call(case, call, run, model):
    """One call of create_port_access"""
    world = case["world"]
    elements, error, dicts = [], None, []
    if case["root"] != "workspace":
        error = ValueError
    for entry in call["entries"]:
        text = text_of(entry)
        if "args" in entry:
            kwargs, after = altbuild.kwargs_of({**entry["args"], "$": ATTRS[entry["attr"]][0]}, {})
            assert not after
            dicts.append((kwargs, dict(kwargs)))
            elements.append((text, kwargs))
        else:
            elements.append(text)
        if error:
            continue
        want = expected(world, entry)
        if want is ValueError:
            error = want
            continue
        attr, tree = want
        model.setdefault(attr, []).append(tree)
    if "mistake" in call:
        bad = mistake_text(world, call["mistake"])
        if bad:
            elements.append(bad[0])
            error = error or bad[1]
    arg = elements[0] if call["single"] else elements
    what = f"create_port_access({elements})"
    try:
        run.create_port_access(arg)
    except (ValueError, RuntimeError, TypeError, ar_except.InvalidReferenceError) as exc:
        if error is None:
            raise
        if not isinstance(exc, error):
            return f"{what} raises {exc!r}, expected {error.__name__}"
    else:
        if error is not None:
            return f"{what} is accepted, expected {error.__name__}"
    for kwargs, before in dicts:
        if kwargs != before:
            return f"{what} changes a dictionary from {before} to {kwargs}"
    d = rename(run, model) or CLASSES["RunnableEntity"].check(run, model)
    return f"{what}: RunnableEntity{d}" if d else None


def rename(run, model):
    """Access points of the same name get another number; they stay different"""
    for attr, trees in model.items():
        if not isinstance(trees, list) or attr == "mode_access_point":
            continue
        names = [x["name"] for x in trees]
        if len(set(names)) == len(names):
            continue
        got = [x.name for x in getattr(run, attr)]
        if len(got) != len(names) or len(set(got)) != len(got):
            return f".{attr} has the names {got}"
        for a, b in zip(got, names):
            if a != b and not re.fullmatch(re.escape(b) + r"(_\d+)+", a):
                return f".{attr} has the names {got}, expected {names} with numbers"
        for a, tree in zip(got, trees):
            tree["name"] = a
    return None


def run(case):
    """Oracle"""
    s.schema_version[0] = 51
    case = world_of.own(case)
    world = case["world"]
    root = {"workspace": lambda: None, "none": lambda: None,
            "document": lambda: ar_document.Document(schema_version=51)}[case["root"]]()
    root, swc = world_of.build(world, root)
    behavior = swc.create_internal_behavior()
    runs, models = {}, {}
    for name in ("Run", "Run2"):
        runs[name] = behavior.create_runnable(name)
        models[name] = {"$": "RunnableEntity", "name": name, "symbol": name}
    if case["root"] == "none":
        swc.parent = None
    for call in case["calls"]:
        if "settings" in call and case["root"] == "workspace":
            world_of.apply_settings(root, world, call["settings"])
        d = one_call(case, call, runs[call["runnable"]], models[call["runnable"]])
        if d:
            return d
    if case["root"] == "none":
        return None
    tree = {**world_of.ports_tree(world), "internal_behavior": {
        "$": "SwcInternalBehavior", "name": world_of.swc_name(world) + "_InternalBehavior", "runnables": [models["Run"], models["Run2"]]}}
    cls = CLASSES[tree["$"]]
    d = cls.check(swc, tree)
    if d:
        return f"component{d}"
    document, output = world_of.again(root)
    if output:
        return f"read again: {output[:200]}"
    d = cls.check(document.find(f"/{world['path']}/{world_of.swc_name(world)}"), tree)
    return f"read again: component{d}" if d else None


def nontrivial(case):
    """See RULE"""
    return sum(len(c["entries"]) + 2 * ("mistake" in c) for c in case["calls"]) > 1


def labels(case):
    """Distribution"""
    yield "root " + case["root"]
    for call in case["calls"]:
        if "mistake" in call:
            yield "mistake " + call["mistake"][0]
        for e in call["entries"]:
            port, interface = world_of.port_of(case["world"], e["port"])
            yield f"access {interface['kind']} {port['side']} {e['prefix'] or 'default'}"
            if "args" in e:
                yield "with arguments"


def shrink(case):
    """Simpler cases"""
    for i, call in enumerate(case["calls"]):
        rest = case["calls"][:i], case["calls"][i + 1:]
        yield {**case, "calls": rest[0] + rest[1]}
        for k in range(len(call["entries"])):
            yield {**case, "calls": rest[0] + [{**call, "single": False, "entries":
                                                call["entries"][:k] + call["entries"][k + 1:]}] + rest[1]}
        for k, e in enumerate(call["entries"]):
            for attr in [a for a in e.get("args", {}) if a not in ("$", "name")]:
                yield {**case, "calls": rest[0] + [{**call, "entries": call["entries"][:k] + [
                    {**e, "args": {a: v for a, v in e["args"].items() if a != attr}}] + call["entries"][k + 1:]}] + rest[1]}

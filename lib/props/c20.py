"""C20: events that start runnables"""
import re
import altbuild
import argen as g
import arschema as s
import autosar.xml.enumeration as ar_enum
import swc as world_of
from doc import CLASSES, ar_document

ID = "C20"
QUICK, THOROUGH = 40000, 600000
RULE = """A case is a workspace with port interfaces of all kinds, a component with P-, R- and PR-ports, behavior
settings (some prefixes are missing), runnables with similar names and a sequence of create_*_event calls (eight kinds)
with default and own names that clash or nearly clash, with and without further attributes, some with a mistake: unknown
runnable, port, element or mode, wrong kind of port or interface, element left out where it is ambiguous, malformed text.
Oracle: model of the events, compared after every call and again after writing and reading. Non-trivial: at least two
events."""
EVENTS = {"background": ("BackgroundEvent", "background_event_prefix"),
          "init": ("InitEvent", "init_event_prefix"),
          "timing": ("TimingEvent", "timing_event_prefix"),
          "data_receive_error": ("DataReceiveErrorEvent", "data_receive_error_event_prefix"),
          "data_received": ("DataReceivedEvent", "data_receive_event_prefix"),
          "operation_invoked": ("OperationInvokedEvent", "operation_invoked_event_prefix"),
          "swc_mode_manager_error": ("SwcModeManagerErrorEvent", "swc_mode_manager_error_event_prefix"),
          "swc_mode_mode_switch": ("SwcModeSwitchEvent", "swc_mode_switch_event_prefix")}
NEEDS = {"data_receive_error": ("SR", "R"), "data_received": ("SR", "R"), "operation_invoked": ("CS", "P"),
         "swc_mode_manager_error": ("MS", "P"), "swc_mode_mode_switch": ("MS", "R")}
RUNNABLES = ["Run", "Run2", "Run_1", "Run_10", "Run_10ms", "Run_1_2", "run", "Ru", world_of.LONG, world_of.LONG + "A"]
MISTAKES = ["runnable", "port", "element", "side", "interface", "ambiguous", "text", "prefix", "count", "count"]
OWN_ATTRS = ("$", "name", "start_on_event", "data", "operation", "mode_group", "mode")


def target(rng, world, kind, good=True):
    """Port and element of an event, None if there are none"""
    need, side = NEEDS[kind]
    found = [(p, world["interfaces"][p["if"]]) for p in world["ports"]]
    found = [(p, i) for p, i in found if not good or i["kind"] == need and p["side"] in (side, "PR") and i["elements"]]
    if not found:
        return None
    port, interface = rng.choice(found)
    if need == "MS":
        return [port["name"], rng.choice(interface["modes"]), False]
    element = rng.choice(interface["elements"] or ["x"])
    return [port["name"], element, len(interface["elements"]) == 1 and rng.random() < 0.5]


def generate(rng, i, _tier):
    """Case number i"""
    big = i % 50 == 49
    world = world_of.generate(rng, ["SR", "SR", "CS", "CS", "MS", "MS", "PARAM", "NV"], big)
    runnables = rng.sample(RUNNABLES, rng.choice([1, 2, 3, 4]))
    calls = []
    for _ in range(rng.choice([1, 2, 3, 5, 8] if not big else [12, 15, 30])):
        kind = rng.choice(sorted(EVENTS))
        where = target(rng, world, kind) if kind in NEEDS else None
        if where is None:
            kind = rng.choice(["background", "init", "timing"])
        call = {"kind": kind, "runnable": rng.choice(runnables), "name": None}
        if rng.random() < 0.35:
            own = rng.choice(["Event", "X_Run", "Y_1_Run", "Y_1", "Y", "Event_1", "Event_10", "Event_10ms", "X_Run_1_0",
                              rng.choice(["Event", "X_Run", "Y"]) + rng.choice(["_0", "_00", "_007", "_99", "_100", "_999", "_123456789012"])])
            call["name"] = own
        if kind in NEEDS:
            call["target"] = [where]
            if kind == "swc_mode_mode_switch" and rng.random() < 0.5:
                call["target"].append(target(rng, world, kind))
                call["form"] = rng.choice(["list", "tuple"])
        if rng.random() < 0.4:
            tree = g.Gen(rng, 51).cls(EVENTS[kind][0], 1, rng.choice([0.3, 0.8]), set())
            call["args"] = {k: v for k, v in tree.items() if k not in OWN_ATTRS}
        if rng.random() < 0.15:
            add_mistake(rng, world, call, runnables)
        if rng.random() < 0.15:
            call["settings"] = world_of.gen_settings(rng)
        calls.append(call)
    return {"world": world, "runnables": runnables, "calls": calls, "areas": rng.choice([0, 0, 1]),
            "root": rng.choice(["workspace"] * 8 + ["document"])}


def add_mistake(rng, world, call, runnables):
    """Spoils a call"""
    kind = call["kind"]
    what = rng.choice(MISTAKES if kind in NEEDS else ["runnable"])
    if what == "runnable":
        call["runnable"] = rng.choice([world_of.near(rng, rng.choice(runnables), runnables),
                                        *[n for n in RUNNABLES if n not in runnables]])
        call["mistake"] = what
        return
    if what == "prefix":
        return
    need, side = NEEDS[kind]
    if what == "count":
        if kind != "swc_mode_mode_switch":
            return
        call["form"] = rng.choice(["list", "tuple"])
        call["target"] = [target(rng, world, kind) for _ in range(rng.choice([0, 1, 1, 3, 3, 4]))]
        call["mistake"] = what
        return
    k = rng.randrange(len(call["target"]))
    name, element, _ = call["target"][k]
    ports = [(p, world["interfaces"][p["if"]]) for p in world["ports"]]
    if what == "port":
        call["target"][k] = [world_of.near(rng, name, [p["name"] for p, _ in ports]), element, False]
    elif what == "element":
        if kind == "swc_mode_manager_error":
            return
        call["target"][k] = [name, world_of.near(rng, element, world_of.port_of(world, name)[1]["modes" if need == "MS" else "elements"]), False]
    elif what == "side":
        found = [p for p, i in ports if i["kind"] == need and p["side"] not in (side, "PR")]
        if not found:
            return
        call["target"][k] = [rng.choice(found)["name"], element, False]
    elif what == "interface":
        found = [p for p, i in ports if i["kind"] != need and p["side"] in (side, "PR") and
                 (need, i["kind"]) != ("SR", "NV")]
        if not found:
            return
        call["target"][k] = [rng.choice(found)["name"], element, False]
    elif what == "ambiguous":
        interface = world_of.port_of(world, name)[1]
        if len(interface["elements"]) < 2 and need != "MS" or kind == "swc_mode_manager_error":
            return
        call["target"][k] = [name, element, True]
    elif what == "text":
        if kind == "swc_mode_manager_error":
            call["target"][k] = [name + "/x", element, False]
        elif kind == "swc_mode_mode_switch":
            call["target"][k] = [name, rng.choice([element + "/x", "/".join([element] * 3)]), False]
        else:
            return
    call["mistake"] = what


def new_name(names, base):
    """Name of a new event; renames the event that has the name in the list"""
    index = [int(m.group(1)) for m in (re.fullmatch(re.escape(base) + r"_(\d+)", n) for n in names) if m]
    if not index and base not in names:
        return base
    highest = max(index, default=0)
    if base in names:
        first = f"{base}_0"
        if first in names:
            highest += 1
            first = f"{base}_{highest}"
        names[names.index(base)] = first
    return f"{base}_{highest + 1}"


def expected(case, call, runnable_ref):
    """(base of the name, value tree) or the exceptions that are possible"""
    world, kind = case["world"], call["kind"]
    cls, prefix = EVENTS[kind]
    errors = {"runnable": KeyError, "interface": TypeError, None: None}.get(call.get("mistake"), ValueError)
    no_name = None
    if call["name"] is None:
        if case["root"] != "workspace":
            no_name = (ValueError, RuntimeError)
        elif prefix not in world["prefixes"]:
            no_name = (RuntimeError,)
    if errors:
        return (errors,) + (no_name or ())
    if no_name:
        return no_name
    tree = {**call.get("args", {}), "$": cls, "start_on_event": runnable_ref}
    parts = [world["prefixes"].get(prefix, ""), call["runnable"]]
    irefs = []
    for name, element, _ in call.get("target", []):
        port, interface = world_of.port_of(world, name)
        port_ref = world_of.port_ref(world, port)
        if kind == "swc_mode_mode_switch":
            irefs.append({"$": "RModeInAtomicSwcInstanceRef", "context_port": port_ref,
                          "context_mode_declaration_group_prototype":
                          world_of.element_ref(world, interface, interface["elements"][0]),
                          "target_mode_declaration": world_of.mode_ref(world, interface, element)})
            continue
        if kind == "swc_mode_manager_error":
            element = interface["elements"][0]
        ref = world_of.element_ref(world, interface, element)
        parts += [name, element]
        if kind == "operation_invoked":
            tree["operation"] = {"$": "POperationInAtomicSwcInstanceRef", "context_port": port_ref,
                                 "target_provided_operation": ref}
        elif kind == "swc_mode_manager_error":
            tree["mode_group"] = {"$": "PModeGroupInAtomicSwcInstanceRef", "context_port": port_ref,
                                  "target_mode_group": ref}
        else:
            tree["data"] = {"$": "RVariableInAtomicSwcInstanceRef", "context_port": port_ref, "target_data_element": ref}
    if irefs:
        tree["mode"] = irefs
    return call["name"] or "_".join(parts), tree


def one_call(case, call, behavior, model):
    """One call of create_*_event"""
    want = expected(case, call, [f"/{case['world']['path']}/{home(case['world'])}/{call['runnable']}",
                                 "RUNNABLE_ENTITY"])
    kwargs, after = altbuild.kwargs_of({**call.get("args", {}), "$": EVENTS[call["kind"]][0]}, {})
    assert not after
    args = [call["runnable"]]
    texts = [name if short or call["kind"] == "swc_mode_manager_error" else f"{name}/{element}"
             for name, element, short in call.get("target", [])]
    if "form" in call:
        args.append(texts if call["form"] == "list" else tuple(texts))
    else:
        args += texts
    if call["name"] is not None:
        kwargs["event_name"] = call["name"]
    what = f"create_{call['kind']}_event({args}, {kwargs})"
    events = model.get("events", [])
    try:
        event = getattr(behavior, f"create_{call['kind']}_event")(*args, **kwargs)
    except (ValueError, RuntimeError, TypeError, KeyError) as exc:
        if isinstance(want[0], str):
            raise
        if not isinstance(exc, want):
            return f"{what} raises {exc!r}, expected {want}"
    else:
        if not isinstance(want[0], str):
            return f"{what} is accepted, expected {want}"
        names = [e["name"] for e in events]
        want[1]["name"] = new_name(names, want[0])
        for tree, name in zip(events, names):
            tree["name"] = name
        model.setdefault("events", []).append(want[1])
        if not any(e is event for e in behavior.events):
            return f"{what} returns an object that isn't in the list"
        if event.name != want[1]["name"]:
            return f"{what} has the name {event.name}, expected {want[1]['name']}"
        ref = event.ref()
        dest = s.CLASSES[want[1]["$"]].tag.replace("-", "_")
        path = f"/{case['world']['path']}/{home(case['world'])}/{event.name}"
        if ref is None or str(ref) != path or ref.dest is not ar_enum.IdentifiableSubTypes[dest]:
            return f"{what}: the reference of the event is {ref} {getattr(ref, 'dest', None)}"
    d = CLASSES["SwcInternalBehavior"].check(behavior, model)
    return f"{what}: SwcInternalBehavior{d}" if d else None


def run(case):
    """Oracle"""
    s.schema_version[0] = 51
    case = world_of.own(case)
    world = case["world"]
    root = None if case["root"] == "workspace" else ar_document.Document(schema_version=51)
    root, swc = world_of.build(world, root)
    behavior = swc.create_internal_behavior()
    model = {"$": "SwcInternalBehavior", "name": world_of.swc_name(world) + "_InternalBehavior"}
    for name in case["runnables"]:
        behavior.create_runnable(name)
        model.setdefault("runnables", []).append({"$": "RunnableEntity", "name": name, "symbol": name})
    for call in case["calls"]:
        if "settings" in call and case["root"] == "workspace":
            world_of.apply_settings(root, world, call["settings"])
        d = one_call(case, call, behavior, model)
        if d:
            return d
    tree = {**world_of.ports_tree(world), "internal_behavior": model}
    cls = CLASSES[tree["$"]]
    d = cls.check(swc, tree)
    if d:
        return f"component{d}"
    document, output = world_of.again(root)
    if output:
        return f"read again: {output[:200]}"
    d = cls.check(document.find(f"/{world['path']}/{world_of.swc_name(world)}"), tree)
    return f"read again: component{d}" if d else None


def home(world):
    """Path of the behavior below the package"""
    return f"{world_of.swc_name(world)}/{world_of.swc_name(world)}_InternalBehavior"


def nontrivial(case):
    """See RULE"""
    return len(case["calls"]) > 1


def labels(case):
    """Distribution"""
    yield "root " + case["root"]
    for call in case["calls"]:
        if "mistake" in call:
            yield f"mistake {call['mistake']}"
        else:
            yield call["kind"] + (" with own name" if call["name"] else "") + (" pair" if "form" in call else "")
        if call.get("args"):
            yield "with arguments"


def shrink(case):
    """Simpler cases"""
    for i, call in enumerate(case["calls"]):
        rest = case["calls"][:i], case["calls"][i + 1:]
        yield {**case, "calls": rest[0] + rest[1]}
        if call.get("args"):
            yield {**case, "calls": rest[0] + [{**call, "args": {}}] + rest[1]}
            for attr in call["args"]:
                yield {**case, "calls": rest[0] + [{**call, "args": {
                    a: v for a, v in call["args"].items() if a != attr}}] + rest[1]}
    for k, name in enumerate(case["runnables"]):
        if any(c["runnable"] == name for c in case["calls"]):
            continue
        yield {**case, "runnables": case["runnables"][:k] + case["runnables"][k + 1:]}

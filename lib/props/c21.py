"""C21: internal behaviors with exclusive areas, runnables and port API options"""
import altbuild
import argen as g
import arschema as s
import autosar.xml.element as ar_element
import swc as world_of
from doc import CLASSES, ar_document

ID = "C21"
QUICK, THOROUGH = 30000, 450000
RULE = """A case is a component with ports in a workspace or document, an internal behavior with a given or the default
name and generated attributes, and a sequence of calls of create_exclusive_area, create_runnable (symbol left out, given or
None; exclusive areas by name, alone and in lists, unknown ones too, or by reference; further attributes), create_port_api_options (a name, a
list, "*", unknown ports), assignments and creations of another internal behavior. Oracle: model of the behavior, compared
after every call, with the references and find_runnable, and again after writing and reading. Non-trivial: at least two
calls."""
AREAS = ["Area", "Area_1", "area", "EA", "Lock", world_of.LONG + "A", world_of.LONG + "B"]
RUNNABLES = ["Run", "Run2", "Run_1", "run", "Init", "R"]


def attrs(rng, cls, skip, density=None):
    """Generated attributes of a class"""
    if rng.random() < 0.4:
        return {}
    tree = g.Gen(rng, 51).cls(cls, 1, density or rng.choice([0.2, 0.6]), set())
    tree = g.uniquify({"e": [tree]})["e"][0]
    return {k: v for k, v in tree.items() if k not in skip + ("$", "name")}


def behavior_of(rng):
    """Arguments of an internal behavior"""
    return {"name": rng.choice([None, None, "Behavior", "IB_1"]),
            "args": attrs(rng, "SwcInternalBehavior", ("events", "runnables", "port_api_options", "exclusive_areas"))}


def generate(rng, i, _tier):
    """Case number i"""
    big = i % 50 == 49
    world = world_of.generate(rng, ["SR", "CS", "MS", "PARAM", "NV"], big)
    ports = [p["name"] for p in world["ports"]]
    more = range(20) if big else ()
    all_areas, all_runnables = AREAS + [f"Area{k}" for k in more], RUNNABLES + [f"Run_{k}0" for k in more]
    areas, runnables = rng.sample(all_areas, len(all_areas)), rng.sample(all_runnables, len(all_runnables))
    made, calls = [], []
    for _ in range(rng.choice([1, 2, 3, 5, 8, 10] if not big else [15, 25, 40])):
        what = rng.choice(["area", "area", "runnable", "runnable", "runnable", "options", "options", "again"])
        if what == "area" and areas:
            made.append(areas.pop())
            calls.append({"do": what, "name": made[-1], "args": attrs(rng, "ExclusiveArea", ())})
        elif what == "runnable" and runnables:
            call = {"do": what, "name": runnables.pop(), "symbol": rng.choice(["default", "default", "none", "Sym", "Run", "_", "_Sym_"]),
                    "args": attrs(rng, "RunnableEntity", ("symbol", "can_enter_leave"), 0.15)}
            if rng.random() < 0.5:
                names = rng.sample(made, rng.randint(0, len(made)))
                if rng.random() < 0.15:
                    names.insert(rng.randint(0, len(names)), world_of.near(rng, rng.choice(all_areas), all_areas))
                call["areas"] = names
                call["form"] = "str" if len(names) == 1 and rng.random() < 0.5 else rng.choice(
                    ["list", "list", "tuple", "refs"] if names else ["list"])
                if call["form"] == "refs" and set(names) - set(made):
                    call["form"] = "list"
            calls.append(call)
        elif what == "options":
            call = {"do": what, "args": attrs(rng, "PortApiOption", ("port",))}
            form = rng.choice(["*", "str", "list", "list", "tuple", "unknown"])
            call["form"] = form
            wrong = ["*" + rng.choice(ports or ["x"])] if rng.random() < 0.2 else [world_of.near(rng, rng.choice(ports or ["x"]), ports) for _ in range(rng.choice([1, 1, 2]))]
            call["ports"] = {"*": ports, "str": ports[:1], "unknown": wrong}.get(
                form, rng.sample(ports, rng.randint(0, len(ports))))
            calls.append(call)
        elif what == "again" and rng.random() < 0.3:
            calls.append({"do": what, "assign": rng.choice([False, False, True, "moved"]), "behavior": behavior_of(rng)})
            made, areas, runnables = [], list(all_areas), list(all_runnables)
    return {"world": world, "behavior": behavior_of(rng), "calls": calls, "root": rng.choice(["workspace", "document"])}


def kwargs_of(cls, args):
    """Keyword arguments"""
    kwargs, after = altbuild.kwargs_of({**args, "$": cls}, {})
    assert not after
    return kwargs


class State:
    """Component and model of its behavior"""

    def __init__(self, case):
        self.case, self.world = case, case["world"]
        root = None if case["root"] == "workspace" else ar_document.Document(schema_version=51)
        self.root, self.swc = world_of.build(case["world"], root)
        self.new(case["behavior"], False)

    def new(self, behavior, assign):
        """Another behavior"""
        name = behavior["name"] or world_of.swc_name(self.world) + "_InternalBehavior"
        self.model = {"$": "SwcInternalBehavior", **behavior["args"], "name": name}
        kwargs = kwargs_of("SwcInternalBehavior", behavior["args"])
        if assign:
            self.behavior = CLASSES["SwcInternalBehavior"].build(self.model)
            if assign == "moved":  # it belonged to another component before
                ar_element.ApplicationSoftwareComponentType("Former", self.behavior)
            self.swc.internal_behavior = self.behavior
        elif behavior["name"] is None:
            self.behavior = self.swc.create_internal_behavior(**kwargs)
        else:
            self.behavior = self.swc.create_internal_behavior(behavior["name"], **kwargs)
        self.path = f"/{self.world['path']}/{world_of.swc_name(self.world)}/{name}"

    def area(self, call):
        """create_exclusive_area"""
        obj = self.behavior.create_exclusive_area(call["name"], **kwargs_of("ExclusiveArea", call["args"]))
        self.model.setdefault("exclusive_areas", []).append({**call["args"], "$": "ExclusiveArea", "name": call["name"]})
        return obj, self.behavior.exclusive_areas

    def runnable(self, call):
        """create_runnable"""
        kwargs = kwargs_of("RunnableEntity", call["args"])
        tree = {**call["args"], "$": "RunnableEntity", "name": call["name"]}
        if call["symbol"] != "default":
            kwargs["symbol"] = None if call["symbol"] == "none" else call["symbol"]
        if call["symbol"] != "none":
            tree["symbol"] = call["name"] if call["symbol"] == "default" else call["symbol"]
        error = None
        if "areas" in call:
            names = [a["name"] for a in self.model.get("exclusive_areas", [])]
            kwargs["can_enter_leave"] = {"str": lambda x: x[0], "tuple": tuple}.get(
                call["form"], list)(call["areas"])
            by_given = names
            if call["form"] == "refs":
                kwargs["can_enter_leave"] = [self.behavior.exclusive_areas[names.index(n)].ref() for n in call["areas"]]
                by_given = call["areas"]
            refs = [{"$": "ExclusiveAreaRefConditional", "exclusive_area": [f"{self.path}/{n}", "EXCLUSIVE_AREA"]}
                    for n in by_given if n in call["areas"]]
            if refs:
                tree["can_enter_leave"] = refs
            if set(call["areas"]) - set(names):
                error = True
        try:
            obj = self.behavior.create_runnable(call["name"], **kwargs)
        except ValueError:
            if not error:
                raise
            return None
        if error:
            return f"create_runnable accepts {call['areas']}"
        self.model.setdefault("runnables", []).append(tree)
        return obj, self.behavior.runnables

    def options(self, call):
        """create_port_api_options"""
        kwargs = kwargs_of("PortApiOption", call["args"])
        names = {"*": lambda x: "*", "str": lambda x: x[0], "tuple": tuple,
                 "unknown": lambda x: x[0] if x[0][0] == "*" else list(x)}.get(call["form"], list)(call["ports"])
        try:
            self.behavior.create_port_api_options(names, **kwargs)
        except ValueError:
            if call["form"] != "unknown":
                raise
            return None
        if call["form"] == "unknown":
            return f"create_port_api_options accepts {names}"
        options = {o["port"][0]: o for o in self.model.get("port_api_options", [])}
        for port in sorted(self.world["ports"], key=lambda x: x["name"].lower()):
            if port["name"] in call["ports"]:
                ref = world_of.port_ref(self.world, port)
                options[ref[0]] = {**call["args"], "$": "PortApiOption", "port": ref}
        if options:
            self.model["port_api_options"] = list(options.values())
        return None

    def again(self, call):
        """Another behavior takes the place of the one before"""
        self.new(call["behavior"], call["assign"])

    def check(self, what):
        """Difference to the model"""
        if self.swc.internal_behavior is not self.behavior or self.behavior.parent is not self.swc:
            return f"{what}: the component doesn't have the behavior"
        d = CLASSES["SwcInternalBehavior"].check(self.behavior, self.model)
        if d:
            return f"{what}: SwcInternalBehavior{d}"
        if str(self.behavior.ref()) != self.path:
            return f"{what}: the reference of the behavior is {self.behavior.ref()}"
        for obj in self.behavior.runnables + self.behavior.exclusive_areas:
            ref = obj.ref()
            if ref is None or str(ref) != f"{self.path}/{obj.name}" or obj.parent is not self.behavior:
                return f"{what}: the reference of {obj.name} is {ref}"
        names = [r["name"] for r in self.model.get("runnables", [])]
        for name in RUNNABLES + ["RUN", "Area"]:
            found = self.behavior.find_runnable(name)
            if name not in names:
                if found is not None:
                    return f"{what}: find_runnable({name!r}) returns {found.name}"
            elif found is not self.behavior.runnables[names.index(name)]:
                return f"{what}: find_runnable({name!r}) returns {found!r}"
        return None


def run(case):
    """Oracle"""
    s.schema_version[0] = 51
    state = State(case)
    d = state.check("create_internal_behavior")
    for call in case["calls"]:
        if d:
            return d
        got = getattr(state, call["do"])(call)
        if isinstance(got, str):
            return got
        d = state.check(str({k: v for k, v in call.items() if k != "args"}))
        if not d and got and not any(x is got[0] for x in got[1]):
            return f"{call}: the returned object isn't in the list"
    if d:
        return d
    tree = {**world_of.ports_tree(case["world"]), "internal_behavior": state.model}
    cls = CLASSES[tree["$"]]
    d = cls.check(state.swc, tree)
    if d:
        return f"component{d}"
    document, output = world_of.again(state.root)
    if output:
        return f"read again: {output[:200]}"
    d = cls.check(document.find(f"/{case['world']['path']}/{world_of.swc_name(case['world'])}"), tree)
    return f"read again: component{d}" if d else None


def nontrivial(case):
    """See RULE"""
    return len(case["calls"]) > 1


def labels(case):
    """Distribution"""
    yield "root " + case["root"]
    for call in case["calls"]:
        yield call["do"] + (" " + call["form"] if "form" in call else "") + (" assigned" if call.get("assign") else "")


def shrink(case):
    """Simpler cases"""
    for i, call in enumerate(case["calls"]):
        rest = case["calls"][:i], case["calls"][i + 1:]
        yield {**case, "calls": rest[0] + rest[1]}
        for attr in call.get("args", {}):
            yield {**case, "calls": rest[0] + [{**call, "args": {
                a: v for a, v in call["args"].items() if a != attr}}] + rest[1]}
    for attr in case["behavior"]["args"]:
        yield {**case, "behavior": {**case["behavior"], "args": {
            a: v for a, v in case["behavior"]["args"].items() if a != attr}}}

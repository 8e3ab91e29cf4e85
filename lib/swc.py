"""
Workspace with port interfaces, a component with ports and an internal behavior, for the properties about behaviors
"""
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.workspace as ar_workspace
import doc
from doc import ar_document, ar_reader, ar_writer

NAMES = ["Speed", "Speed2", "Spee", "speed", "SPEED", "Value", "Err", "A", "B_1", "name", "Elem", "Speed_", "Value__2"]
LONG = "VehicleSpeedOfTheDriverAssistance_1" * 3
NAMES += [LONG, LONG + "A", LONG + "B"]
MODES = ["On", "Off", "On_1", "on", "Sleep", "initial", "On_"]
KINDS = ["SR", "SR", "SR", "CS", "CS", "MS", "MS", "PARAM", "NV"]
INTERFACE = {"SR": ("SenderReceiverInterface", "SENDER_RECEIVER_INTERFACE"),
             "CS": ("ClientServerInterface", "CLIENT_SERVER_INTERFACE"),
             "MS": ("ModeSwitchInterface", "MODE_SWITCH_INTERFACE"),
             "PARAM": ("ParameterInterface", "PARAMETER_INTERFACE"), "NV": ("NvDataInterface", "NV_DATA_INTERFACE")}
ELEMENT = {"SR": "VARIABLE_DATA_PROTOTYPE", "NV": "VARIABLE_DATA_PROTOTYPE", "CS": "CLIENT_SERVER_OPERATION",
           "MS": "MODE_DECLARATION_GROUP_PROTOTYPE", "PARAM": "PARAMETER_DATA_PROTOTYPE"}
PORT = {"P": ("ProvidePortPrototype", "P_PORT_PROTOTYPE"), "R": ("RequirePortPrototype", "R_PORT_PROTOTYPE"),
        "PR": ("PRPortPrototype", "PR_PORT_PROTOTYPE")}
PREFIXES = """background_event_prefix data_receive_error_event_prefix data_receive_event_prefix init_event_prefix
operation_invoked_event_prefix swc_mode_manager_error_event_prefix swc_mode_switch_event_prefix timing_event_prefix
data_read_access_prefix data_receive_point_prefix data_send_point_prefix data_write_access_prefix
external_triggering_point_prefix internal_triggering_point_prefix mode_access_point_prefix mode_switch_point_prefix
parameter_access_prefix read_local_variable_prefix server_call_point_prefix wait_point_prefix
write_local_variable_prefix""".split()


def generate(rng, kinds=KINDS, big=False):
    """Description of the workspace"""
    interfaces = []
    names = NAMES + [f"Signal{k}" for k in range(1, 14)] if big else NAMES
    modes = MODES + [f"M{k}" for k in range(20)] if big else MODES
    for i in range(rng.choice([1, 2, 3, 4]) if not big else rng.randint(4, 12)):
        kind = rng.choice(kinds)
        n = rng.choice([1, 1, 2, 3] + [8, 12, 20] * big) if kind != "MS" else rng.choice([1, 1, 1, 0])
        interfaces.append({"kind": kind, "name": f"If{i}", "elements": rng.sample(names, n),
                           "modes": rng.sample(modes, rng.choice([1, 2, 3, 4] + [9, 25] * big))})
    names = ["Port", "Port_1", "Port_10", "port", "Engine", "A", "Eng", "Speed", "X", "Port_", "Eng_", LONG + "P", LONG + "Q"]
    if big:
        names += [f"Port_{k}" for k in range(2, 10)] + [f"P{k}" for k in range(15)]
    names = rng.sample(names, rng.choice([1, 2, 3, 4, 5]) if not big else rng.randint(5, len(names)))
    ports = [{"name": n, "if": rng.randrange(len(interfaces)), "side": rng.choice(["P", "P", "R", "R", "PR"])}
             for n in names]
    return {"interfaces": interfaces, "ports": ports, "path": rng.choice(["Pkg", "Pkg/Sub", "Pkg_/Sub"]),
            "swc": rng.choice(["Swc", "Swc", "Swc", "Engine_", "A", "Port", LONG + "C", "Swc_InternalBehavior"]),
            "prefixes": {p: f"Pf{i}" if rng.random() < 0.5 else rng.choice(["X", "Y_1", "TMT"])
                         for i, p in enumerate(PREFIXES) if rng.random() < 0.93}}


def near(rng, name, taken):
    """A name that is nearly a given one and none of the taken ones"""
    found = [n for n in (name[:-1], name[1:], name + "_", name + "x", "_" + name, name.swapcase(), name.lower(), name.upper(),
                         name + name, name[::-1], name[:1], name + "_0", name.strip("_"), "Nothing")
             if n and n not in taken]
    return rng.choice(found)


def swc_name(world):
    """Name of the component"""
    return world.get("swc", "Swc")


def gen_settings(rng):
    """Change of the behavior settings, None takes a prefix away"""
    return {p: rng.choice(["Pnew", "X", "X_", "_y", "Other_1", None]) for p in rng.sample(PREFIXES, rng.choice([1, 1, 4, 13]))}


def apply_settings(root, world, settings):
    """Changes the behavior settings; the world must have its own prefixes"""
    given = {p: v for p, v in settings.items() if v is not None}
    if len(given) == 1:
        root.behavior_settings.set_value(*list(given.items())[0])
    else:
        root.behavior_settings.update(given)
    for p in settings:
        if p not in given:
            setattr(root.behavior_settings, p, None)
    world["prefixes"].update(settings)
    for p in [p for p, v in world["prefixes"].items() if v is None]:
        del world["prefixes"][p]


def own(case):
    """The case with prefixes that can be changed"""
    return {**case, "world": {**case["world"], "prefixes": dict(case["world"]["prefixes"])}}


def port_of(world, name):
    """(port, interface) or None"""
    for p in world["ports"]:
        if p["name"] == name:
            return p, world["interfaces"][p["if"]]
    return None


def port_ref(world, port):
    """Reference to a port"""
    return [f"/{world['path']}/{swc_name(world)}/{port['name']}", PORT[port["side"]][1]]


def element_ref(world, interface, name):
    """Reference to an element of an interface"""
    return [f"/{world['path']}/{interface['name']}/{name}", ELEMENT[interface["kind"]]]


def mode_ref(world, interface, mode):
    """Reference to a mode declaration"""
    return [f"/{world['path']}/Modes{interface['name']}/{mode}", "MODE_DECLARATION"]


def build_interface(package, interface):
    """Port interface"""
    kind = interface["kind"]
    obj = getattr(ar_element, INTERFACE[kind][0])(interface["name"])
    package.append(obj)
    for name in interface["elements"]:
        if kind in ("SR", "NV"):
            obj.create_data_element(name)
        elif kind == "CS":
            obj.create_operation(name)
        elif kind == "PARAM":
            obj.create_parameter(name)
        else:
            group = ar_element.ModeDeclarationGroup("Modes" + interface["name"])
            for mode in interface["modes"]:
                group.create_mode_declaration(mode)
            package.append(group)
            obj.create_mode_group(name, group.ref())


def build(world, root=None):
    """Workspace and component"""
    if root is None:
        root = ar_workspace.Workspace()
        root.behavior_settings.update(world["prefixes"])
    package = root.make_packages(world["path"])
    for interface in world["interfaces"]:
        build_interface(package, interface)
    swc = ar_element.ApplicationSoftwareComponentType(swc_name(world))
    package.append(swc)
    for port in world["ports"]:
        create = {"P": swc.create_p_port, "R": swc.create_r_port, "PR": swc.create_pr_port}[port["side"]]
        create(port["name"], package.find(world["interfaces"][port["if"]]["name"]))
    return root, swc


def ports_tree(world):
    """Value tree of the component without behavior"""
    out = {"$": "ApplicationSoftwareComponentType", "name": swc_name(world)}
    out["ports"] = [{"$": PORT[p["side"]][0], "name": p["name"], "port_interface_ref":
                     [f"/{world['path']}/{world['interfaces'][p['if']]['name']}",
                      INTERFACE[world["interfaces"][p["if"]]["kind"]][1]]} for p in world["ports"]]
    return out


def again(root):
    """The packages written and read again; (document, output of the reader)"""
    document = ar_document.Document(packages=list(root.packages), schema_version=51)
    with doc.captured() as buf:
        got = ar_reader.Reader().read_str(ar_writer.Writer().write_str(document))
    return got, buf.getvalue() or doc.shared(document.packages)


def enum(cls, name):
    """Literal or None"""
    return None if name is None else getattr(ar_enum, cls)[name]

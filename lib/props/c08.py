"""C08: references and paths"""
import copy
import random
import arschema as s
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.workspace as ar_workspace
import c01_gen
import doc
from doc import CLASSES, ar_document, ar_reader, ar_writer

ID = "C08"
QUICK, THOROUGH = 60000, 800000
RULE = """A case is a document over the supported elements in nested packages, that is built bottom-up, built top-down
in a Document or a Workspace (packages created first by append, create_package or make_packages, elements appended
later) or read from ARXML. For each named object: the reference it gives must have the path of short names from the
root and the destination of its class, root_collection() must be the root, find() must return this very object for
packages, elements, ports, component prototypes, connectors, modes, transitions and implementation data type elements
(by path with or without leading slash and by reference) and nothing for paths that name nothing; nothing that is not
attached to a root has a reference. In half of the cases all of this is checked again after objects inside of elements
got another name, or after the packages were appended to another document or workspace. Non-trivial: at least three named objects."""

# destination of the references that objects of a class give (ref()), and whether find() reaches them
DEST = """
Package AR-PACKAGE
ApplicationArrayDataType APPLICATION-ARRAY-DATA-TYPE
ApplicationArrayElement APPLICATION-ARRAY-ELEMENT
ApplicationError APPLICATION-ERROR
ApplicationPrimitiveDataType APPLICATION-PRIMITIVE-DATA-TYPE
ApplicationRecordDataType APPLICATION-RECORD-DATA-TYPE
ApplicationRecordElement APPLICATION-RECORD-ELEMENT
ApplicationSoftwareComponentType APPLICATION-SW-COMPONENT-TYPE
ArgumentDataPrototype ARGUMENT-DATA-PROTOTYPE
AsynchronousServerCallPoint ASYNCHRONOUS-SERVER-CALL-POINT
AsynchronousServerCallResultPoint ASYNCHRONOUS-SERVER-CALL-RESULT-POINT
AsynchronousServerCallReturnsEvent ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT
BackgroundEvent BACKGROUND-EVENT
ClientServerInterface CLIENT-SERVER-INTERFACE
ClientServerOperation CLIENT-SERVER-OPERATION
CompositionSwComponentType COMPOSITION-SW-COMPONENT-TYPE
CompuMethod COMPU-METHOD
ConstantSpecification CONSTANT-SPECIFICATION
DataConstraint DATA-CONSTR
DataReceiveErrorEvent DATA-RECEIVE-ERROR-EVENT
DataReceivedEvent DATA-RECEIVED-EVENT
DataSendCompletedEvent DATA-SEND-COMPLETED-EVENT
DataTypeMappingSet DATA-TYPE-MAPPING-SET
DataWriteCompletedEvent DATA-WRITE-COMPLETED-EVENT
E2EProfileCompatibilityProps E-2-E-PROFILE-COMPATIBILITY-PROPS
ExclusiveArea EXCLUSIVE-AREA
ExternalTriggerOccurredEvent EXTERNAL-TRIGGER-OCCURRED-EVENT
ImplementationDataType IMPLEMENTATION-DATA-TYPE
ImplementationDataTypeElement IMPLEMENTATION-DATA-TYPE-ELEMENT
InitEvent INIT-EVENT
InternalTriggerOccurredEvent INTERNAL-TRIGGER-OCCURRED-EVENT
ModeDeclaration MODE-DECLARATION
ModeDeclarationGroup MODE-DECLARATION-GROUP
ModeDeclarationGroupPrototype MODE-DECLARATION-GROUP-PROTOTYPE
ModeSwitchInterface MODE-SWITCH-INTERFACE
ModeSwitchPoint MODE-SWITCH-POINT
ModeSwitchedAckEvent MODE-SWITCHED-ACK-EVENT
NvDataInterface NV-DATA-INTERFACE
OperationInvokedEvent OPERATION-INVOKED-EVENT
PRPortPrototype PR-PORT-PROTOTYPE
ParameterDataPrototype PARAMETER-DATA-PROTOTYPE
ParameterInterface PARAMETER-INTERFACE
ProvidePortPrototype P-PORT-PROTOTYPE
RequirePortPrototype R-PORT-PROTOTYPE
RunnableEntity RUNNABLE-ENTITY
SenderReceiverInterface SENDER-RECEIVER-INTERFACE
SwAddrMethod SW-ADDR-METHOD
SwBaseType SW-BASE-TYPE
SwComponentPrototype SW-COMPONENT-PROTOTYPE
SwcImplementation SWC-IMPLEMENTATION
SwcInternalBehavior SWC-INTERNAL-BEHAVIOR
SwcModeManagerErrorEvent SWC-MODE-MANAGER-ERROR-EVENT
SwcModeSwitchEvent SWC-MODE-SWITCH-EVENT
TimingEvent TIMING-EVENT
TransformerHardErrorEvent TRANSFORMER-HARD-ERROR-EVENT
Unit UNIT
VariableAccess VARIABLE-ACCESS
VariableDataPrototype VARIABLE-DATA-PROTOTYPE
"""
DEST = dict(line.split() for line in DEST.split("\n") if line)
FIND = set("""ImplementationDataTypeElement ModeDeclaration ModeTransition PRPortPrototype ProvidePortPrototype
RequirePortPrototype SwComponentPrototype AssemblySwConnector DelegationSwConnector PassThroughSwConnector
Package""".split())
# objects that don't take part in paths
APART = {("VariableAccess", "PRPortPrototype"), ("VariableAccess", "RequirePortPrototype"), ("SymbolProps", None),
         ("Code", None), ("ExecutableEntityActivationReason", None)}
MODES = ["built", "read", "read file", "down-append", "down-create", "down-make", "workspace"]


def generate(rng, i, tier):
    """Case number i"""
    case = c01_gen.generate(rng, i, tier)
    case.pop("file", None)
    case["mode"] = MODES[i % len(MODES)] if rng.random() < 0.7 else rng.choice(MODES)
    case["seed"] = rng.randrange(10**6)
    case["after"] = [x for x in ("rename", "move") if rng.random() < 0.3]
    return case


def named(tree, path, owner, out):
    """(path, class, owner class, is an element of a package) of all named objects of a tree, in any order"""
    if isinstance(tree, list):
        for x in tree:
            named(x, path, owner, out)
    elif isinstance(tree, dict) and "$" in tree:
        cls = tree["$"]
        if isinstance(tree.get("name"), str) and issubclass(CLASSES[cls].py(), ar_element.Referrable):
            path = f"{path}/{tree['name']}"
            cls = CLASSES[cls].pyname
            out.append((path, cls, owner))
            owner = cls
        for k, v in tree.items():
            if k not in ("$", "name"):
                named(v, path, owner, out)
    return out


def objects(obj, path, owner, out, seen):
    """The same for objects"""
    if isinstance(obj, list):
        for x in obj:
            objects(x, path, owner, out, seen)
    elif isinstance(obj, ar_element.ARObject) and id(obj) not in seen:
        seen.add(id(obj))
        cls = type(obj).__name__
        if isinstance(obj, ar_element.Referrable):
            path = f"{path}/{obj.name}"
            out.append((path, cls, owner, obj))
            owner = cls
        for k, v in vars(obj).items():
            if k != "parent" and not k.startswith("_collection"):
                objects(v, path, owner, out, seen)
    return out


def nontrivial(case):
    """See RULE"""
    return len(named(case["packages"], "", "", [])) >= 3


def labels(case):
    """Distribution"""
    yield "mode " + case["mode"]
    for _, cls, _ in named(case["packages"], "", "", []):
        yield "object " + cls


def detached(obj):
    """Nothing that has no root has a reference"""
    for path, cls, _, o in objects(obj, "", "", [], set()):
        if cls in DEST and o.ref() is not None:
            return f"{cls} {path} is not in a document but gives the reference {o.ref()}"
        if o.root_collection() is not None:
            return f"{cls} {path} is not in a document but root_collection() is {o.root_collection()}"
    return None


def assemble(case, rng):
    """Top-down construction; returns (root, error)"""
    mode = case["mode"]
    root = ar_workspace.Workspace() if mode == "workspace" or rng.random() < 0.2 \
        else ar_document.Document(schema_version=case["sv"])
    todo = []

    def package(owner, tree, path):
        extra = {k: v for k, v in tree.items() if k not in ("packages", "elements")}
        path = f"{path}/{tree['name']}"
        style = mode if mode.startswith("down") else rng.choice(MODES[3:6])
        if style == "down-append" or set(extra) - {"$", "name"}:
            pkg = CLASSES["Package"].build(extra)
            owner.append(pkg)
        elif style == "down-create":
            pkg = owner.create_package(tree["name"])
        else:
            pkg = root.make_packages(path if rng.random() < 0.5 else path[1:])
        if tree.get("elements") and rng.random() < 0.5:
            todo.append((pkg, tree["elements"]))
        else:
            fill(pkg, tree.get("elements", []))
        for p in tree.get("packages", []):
            package(pkg, p, path)

    problems = []

    def fill(pkg, elements):
        for e in elements:
            obj = CLASSES[e["$"]].build(e)
            problems.append(detached(obj))
            path = str(pkg.ref()) + "/" + obj.name
            if root.find(path) is not None or pkg.find(obj.name) is not None:
                problems.append(f"find({path!r}) gives something before it is added")
            pkg.append(obj)
    for p in case["packages"]:
        package(root, p, "")
    for pkg, elements in todo:
        fill(pkg, elements)
    return root, next((p for p in problems if p), None)


def run(case):
    """Oracle"""
    s.schema_version[0] = case["sv"]
    case = copy.deepcopy(case)
    rng = random.Random(case["seed"])
    mode = case["mode"]
    if mode.startswith("read"):
        text = ar_writer.Writer().write_str(doc.build(case), False)
        with doc.captured():
            root = ar_reader.Reader().read_str(text)
    elif mode == "built":
        packages = [CLASSES["Package"].build(p) for p in case["packages"]]
        d = detached(packages)
        if d:
            return d
        root = ar_document.Document(packages, case["sv"])
    else:
        root, d = assemble(case, rng)
        if d:
            return d
    if not isinstance(root, ar_workspace.Workspace):
        d = doc.check(root, case, mode)
        if d:
            return d
    d = examine(root, case["packages"], "", mode)
    if d or not case.get("after"):
        return d
    return change(root, case, rng)


def change(root, case, rng):
    """Renames objects inside of elements and moves the packages to another root"""
    trees = case["packages"]
    if "rename" in case["after"]:
        pairs = []
        for t, o in zip(trees, root.packages):
            inner(t, o, "", pairs)
        for n, (tree, obj) in enumerate(rng.sample(pairs, min(len(pairs), 3))):
            tree["name"] = obj.name = f"Renamed{n}" if rng.random() < 0.5 else f"{obj.name}_{n}_new"
        d = examine(root, trees, "", case["mode"] + ", renamed")
        if d:
            return d
    if "move" not in case["after"]:
        return None
    other = ar_document.Document() if rng.random() < 0.5 else ar_workspace.Workspace()
    prefix = rng.choice(["", "/New", "/New/Sub"])
    owner = other.make_packages(prefix) if prefix else other
    for package in root.packages:
        owner.append(package)
    return examine(other, trees, prefix, case["mode"] + ", moved")


def inner(tree, obj, owner, out):
    """Pairs of trees and objects inside of elements that have names"""
    if isinstance(tree, dict) and "$" in tree:
        if isinstance(tree.get("name"), str) and isinstance(obj, ar_element.Referrable):
            cls = type(obj).__name__
            if cls != "Package" and owner != "Package" and obj.name == tree["name"]:
                out.append((tree, obj))
            owner = cls
        for k, v in tree.items():
            value = getattr(obj, k, None)
            if isinstance(v, list) and isinstance(value, list) and len(v) == len(value):
                for x, y in zip(v, value):
                    inner(x, y, owner, out)
            elif isinstance(v, dict):
                inner(v, value, owner, out)


def others(path, obj):
    """The place of an object with other texts and numbers of it instead of its name"""
    for k in ("value", "category", "symbol", "uuid", "error_code", "label"):
        x = getattr(obj, k, None)
        if isinstance(x, (str, int)) and str(x) and "/" not in str(x):
            yield path.rpartition("/")[0] + "/" + str(x)


def examine(root, packages, prefix, mode):
    """Checks references and paths of all objects in packages below a path"""
    want = sorted(named(packages, prefix, "", []))
    got = []
    seen: set = set()
    for p in (root.find(prefix).packages if prefix else root.packages):
        objects(p, prefix, "", got, seen)
    if sorted(x[:3] for x in got) != want:
        return f"{mode}: objects {sorted(x[:3] for x in got)}, expected {want}"
    paths = {}
    for path, cls, owner, o in got:
        if (cls, owner) in APART or (cls, None) in APART:
            continue
        paths.setdefault(path, o)
        if o.root_collection() is not root:
            return f"{mode}: root_collection() of {cls} {path} is {o.root_collection()}"
        ref = None
        if cls in DEST:
            ref = o.ref()
            if ref is None or str(ref) != path or ref.value != path:
                return f"{mode}: ref() of {cls} {path} is {ref}"
            if ar_enum.enum_to_xml(ref.dest) != DEST[cls]:
                return f"{mode}: ref() of {cls} {path} has the destination {ref.dest}"
            if ref.dest not in type(ref).accepted_sub_types():
                return f"{mode}: destination of the reference to {cls} isn't allowed in {type(ref).__name__}"
    for path, cls, owner, o in got:
        if (cls, owner) in APART or (cls, None) in APART:
            continue
        must = cls in FIND or owner == "Package"
        forms = [path, path[1:]] + ([o.ref()] if cls in DEST else [])
        for form in forms:
            found = root.find(form)
            if found is not o and (must or found is not None):
                return f"{mode}: find({form!r}) is {found}, expected {cls}"
        for wrong in (path + "/" + o.name, path + "x", path[:-1], path.swapcase(), path + "/x/y", "x" + path,
                      "/x" + path, *others(path, o)):
            wrong_key = "/" + wrong.lstrip("/").rstrip("/")
            if wrong_key not in paths and not wrong.endswith("/") and "//" not in wrong:
                found = root.find(wrong)
                if found is not None:
                    return f"{mode}: find({wrong!r}) is {found}, which names nothing"
    return None


def shrink(case):
    """Simpler cases"""
    if case["mode"] != "built":
        yield {**case, "mode": "built"}
    for x in case["after"]:
        yield {**case, "after": [y for y in case["after"] if y != x]}
    for c in doc.shrink(case):
        yield {**case, **c}

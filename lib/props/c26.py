"""C26: what an object says about itself agrees with what is stored in it"""
import random
import argen as g
import arschema as s
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_reference
import c01_gen
import doc
from doc import CLASSES, ar_reader, ar_writer

ID = "C26"
QUICK, THOROUGH = 80000, 600000
RULE = """A case is an object of any class with generated contents, or a document that is built or read. Everything an object
says about itself is compared with the generated contents or with the attributes they are stored in: is_empty before
and after attributes are taken away and given back, short_name, content_type, is_queued, is_composite, the items of
SwDataDefProps, str() of references, superscripts and unit names, the kind of port a reference leads to, the kind of a delegated
port, the ports by direction, the limits of constraints for values below, at and above them, the file of the schema.
Non-trivial: at least two attributes are set."""
DEFAULTS = ("CompuScale", "NotAvailableValueSpecification")  # never empty, because they have attributes with defaults
NAMES = sorted(CLASSES)


def generate(rng, i, tier):
    """Case number i"""
    if i % 4 == 3:
        case = c01_gen.generate(rng, i // 4, tier)
        case.pop("file", None)
        case["mode"] = rng.choice(["built", "read"])
        return case
    name = NAMES[(i // 4 * 3 + i % 4) % len(NAMES)]
    gen = g.Gen(rng, 51)
    tree = gen.cls(name, rng.choice([0, 1, 2]), rng.choice([0.0, 0.1, 0.3, 0.7]))
    g.uniquify({"packages": [tree]})
    return {"mode": "object", "tree": tree, "seed": rng.randrange(10**6)}


def nontrivial(case):
    """See RULE"""
    if case["mode"] == "object":
        return g.count_attrs(case["tree"]) >= 2
    return c01_gen.nontrivial(case)


def labels(case):
    """Distribution"""
    yield "mode " + case["mode"]
    if case["mode"] == "object":
        yield "class " + case["tree"]["$"]


def inside(value, limit, kind, lower):
    """A value is on the right side of a limit"""
    if limit is None:
        return True
    if value == limit:
        return kind is ar_enum.IntervalType.CLOSED
    return value > limit if lower else value < limit


def near(limit):
    """Values around a limit"""
    if limit is None:
        return []
    if isinstance(limit, float):
        return [limit, limit * 2, limit / 2, -limit, limit + 1, limit - 1]
    return [limit, limit + 1, limit - 1, -limit, limit * 2]


def port_kind(dest):
    """Directions of a port type"""
    text = s.enum_text("IdentifiableSubTypes", dest.name)
    return ("PROVIDED-PORT" in text or text in ("P-PORT-PROTOTYPE", "PR-PORT-PROTOTYPE"),
            "REQUIRED-PORT" in text or text in ("R-PORT-PROTOTYPE", "PR-PORT-PROTOTYPE"))


def expect(what, got, want):
    """Difference"""
    return None if type(got) is type(want) and got == want else f"{what} is {got!r}, expected {want!r}"


def queries(obj):  # pylint: disable=too-many-return-statements, too-many-branches
    """Everything that the object says about itself"""
    name = type(obj).__name__
    d = None
    if isinstance(obj, ar_element.Referrable):
        d = expect(f"{name}.short_name", obj.short_name, obj.name)
    if isinstance(obj, ar_element.CompuScale):
        want = {"CompuConst": "CONSTANT", "CompuRational": "RATIONAL", "NoneType": "NONE"}[type(obj.content).__name__]
        d = d or expect("content_type", obj.content_type, ar_enum.CompuScaleContent[want])
    elif isinstance(obj, ar_element.SwDataDefPropsConditional):
        d = d or expect("is_queued", obj.is_queued, obj.impl_policy is ar_enum.SwImplPolicy.QUEUED)
    elif isinstance(obj, ar_element.VariableDataPrototype):
        props = obj.sw_data_def_props
        want = bool(props and props.variants and props.variants[0].impl_policy is ar_enum.SwImplPolicy.QUEUED)
        d = d or expect(f"is_queued of {obj.name}", obj.is_queued, want)
    elif isinstance(obj, (ar_element.ApplicationArrayDataType, ar_element.ApplicationRecordDataType)):
        d = d or expect("is_composite", obj.is_composite, True)
    elif isinstance(obj, ar_element.ApplicationPrimitiveDataType):
        d = d or expect("is_composite", obj.is_composite, False)
    elif isinstance(obj, ar_element.SwDataDefProps):
        d = d or expect("len()", len(obj), len(obj.variants))
        if d is None and [id(x) for x in obj] != [id(x) for x in obj.variants]:
            d = "iteration does not give the variants"
        pairs = [(id(x), id(y)) for x in obj for y in obj]
        if d is None and pairs != [(id(x), id(y)) for x in obj.variants for y in obj.variants]:
            d = f"an iteration within an iteration gives {len(pairs)} pairs, expected {len(obj.variants) ** 2}"
        for i, v in enumerate(obj.variants):
            if obj[i] is not v or obj[i - len(obj.variants)] is not v:
                d = f"variant {i} is another one"
    elif isinstance(obj, ar_element.Superscript) and type(obj).__name__ == "Superscript":
        d = d or expect("str()", str(obj), "^" + obj.text)
    elif isinstance(obj, ar_element.SingleLanguageUnitNames):
        if any(type(p).__name__ == "Subscript" for p in obj.parts):
            try:
                d = f"str() of a name with subscript is {str(obj)!r}"
            except ValueError:
                pass
        else:
            d = expect("str()", str(obj), "".join(p if isinstance(p, str) else "^" + p.text for p in obj.parts))
    elif isinstance(obj, ar_reference.BaseRef):
        d = d or expect("str()", str(obj), obj.value)
        if isinstance(obj, ar_element.PortPrototypeRef):
            d = d or expect(f"direction of {obj.dest}", (obj.is_provide_port_ref, obj.is_require_port_ref), port_kind(obj.dest))
    elif isinstance(obj, ar_element.SwComponentType):
        for attr, cls in (("provide_ports", "ProvidePortPrototype"), ("require_ports", "RequirePortPrototype"),
                          ("pr_ports", "PRPortPrototype")):
            want = [id(p) for p in obj.ports if type(p).__name__ == cls]
            if [id(p) for p in getattr(obj, attr)] != want:
                d = f"{attr} of {obj.name} are others"
    elif isinstance(obj, ar_element.DelegationSwConnector) and obj.inner_port and obj.inner_port.port_ref:
        provide, require = port_kind(obj.inner_port.port_ref.dest)
        want = f"{'P' if provide else 'R'}-PORT-IN-COMPOSITION-INSTANCE-REF" if provide or require else None
        d = d or expect("xml_tag", obj.xml_tag, want)
    elif isinstance(obj, ar_element.LimitObject):
        for v in near(obj.lower_limit) + near(obj.upper_limit) + [0]:
            want = inside(v, obj.lower_limit, obj.lower_limit_type, True) and \
                inside(v, obj.upper_limit, obj.upper_limit_type, False)
            if v == v and obj.lower_limit == obj.lower_limit and obj.upper_limit == obj.upper_limit:  # NaN
                d = d or expect(f"check_value({v!r}) of {obj.lower_limit!r} {obj.lower_limit_type} to {obj.upper_limit!r} "
                                f"{obj.upper_limit_type}", obj.check_value(v), want)
    return d


def emptiness(tree, obj, rng):
    """is_empty says whether anything is stored, whatever happened before"""
    fields = [k for k in tree if k != "$"]
    d = expect(f"is_empty of {tree}", obj.is_empty, not fields)
    if d:
        return d
    stored = {k: v for k, v in vars(obj).items() if v not in (None, []) and not k.endswith("limit_type")}
    order = sorted(stored)
    rng.shuffle(order)
    for n, k in enumerate(order):
        setattr(obj, k, [] if isinstance(stored[k], list) else None)
        left = order[n + 1:]
        d = expect(f"is_empty of {tree['$']} with only {left}", obj.is_empty, not left)
        if d:
            return d
    for k in order:
        setattr(obj, k, stored[k])
        if obj.is_empty:
            return f"is_empty of {tree['$']} with {k} again is True"
    return None


def run(case):
    """Oracle"""
    if case["mode"] == "object":
        obj = CLASSES[case["tree"]["$"]].build(case["tree"])
        objects = everything(obj)
        if isinstance(obj, ar_element.ARObject) and not isinstance(obj, ar_element.Referrable) and \
                case["tree"]["$"] not in DEFAULTS:
            d = emptiness(case["tree"], obj, random.Random(case["seed"]))
            if d:
                return d
    else:
        document = doc.build(case)
        if case["mode"] == "read":
            document, _ = doc.read_quiet(ar_writer.Writer().write_str(document, False), ar_reader.Reader())
        d = expect("schema_file", document.schema_file, f"AUTOSAR_{case['sv']:05}.xsd")
        if d:
            return d
        objects = [o for p in document.packages for o in everything(p)]
    for o in objects:
        d = queries(o)
        if d:
            return f"{type(o).__name__}: {d}"
    return None


def everything(top):
    """All objects below an object, with it"""
    out, seen, todo = [], set(), [top]
    while todo:
        o = todo.pop()
        if isinstance(o, (list, tuple)):
            todo += reversed(o)
        elif isinstance(o, dict):
            todo += reversed(list(o.values()))
        elif isinstance(o, ar_element.ARObject) and id(o) not in seen:
            seen.add(id(o))
            out.append(o)
            todo += [v for k, v in vars(o).items() if k != "parent" and not k.startswith("_collection")]
    return out


def shrink(case):
    """Simpler cases"""
    if case["mode"] == "object":
        for y in g.shrink_steps(case["tree"]):
            yield {**case, "tree": y}
    else:
        yield from doc.shrink(case)

"""C16: convenience builders for values, computations and constraints"""
import math
import argen as g
import arschema as s
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import doc
from doc import CLASSES, ar_document, ar_reader, ar_writer

ID = "C16"
QUICK, THOROUGH = 160000, 1200000
RULE = """A case is a call of make_value, make_value_with_check, make_constant, make_value_table, make_rational,
make_physical, make_internal or check_value with generated arguments (nested arrays and records with and without labels in
all notations, tables of texts, pairs and ranges, all optional arguments; wrong data). The expected object is derived
from the arguments as documented and compared with the result, before and after it is written and read, and the
arguments must be unchanged. Non-trivial: at least three values, or a mistake in the data, or optional arguments."""
KINDS = ["value", "value", "value", "check", "constant", "constant", "table", "table", "rational", "physical", "internal",
         "limits", "limits", "mistake"]
FORMATS = ["list", "pairs", "ranges", "mixed"]


def gen_num(rng):
    """Number without special values"""
    return g.gen_num(rng, special=False)


def gen_value(rng, depth):
    """[kind, label or None, content]"""
    if rng.random() < 0.05:  # equal values of different types and in several places
        return ["num", None, rng.choice([0, 0.0, 1, 1.0, 2, 2.0, True, False])]
    label = g.gen_name(rng) if rng.random() < 0.4 else None
    r = rng.random()
    if depth > 0 and r < 0.45:
        return [rng.choice(["A", "ARRAY", "a", "Array", "R", "RECORD", "r", "record"]), label,
                [gen_value(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 5] * 6 + [11, 20]))]]
    if r < 0.55:
        return ["none", label, rng.choice([None, None, 0, 255, rng.randrange(2**32)]) if label else None]
    if r < 0.75:
        return ["text", label, g.gen_text(rng)]
    return ["num", label, gen_num(rng)]


def generate(rng, i, _tier):
    """Case number i"""
    kind = KINDS[i % len(KINDS)]
    case = {"kind": kind}
    if kind in ("value", "constant", "check"):
        case["value"] = gen_value(rng, rng.choice([0, 1, 1, 2, 3]))
        if kind == "check":
            case["form"] = rng.choice(["raw", "raw", "none", "ref", "object"])
            if case["value"][0] == "none" and case["value"][1] is None:
                case["value"][1] = "Label"
            case["path"] = g.gen_path(rng)
        if kind == "constant":
            case["category"] = g.gen_name(rng) if rng.random() < 0.3 else None
    elif kind == "table":
        fmt = rng.choice(FORMATS)
        case["rows"] = []
        for _ in range(rng.choice([0, 1, 2, 3, 8, 8, 30])):
            value = g.gen_text(rng) if rng.random() < 0.85 or fmt == "list" else gen_num(rng)
            row = {"list": 1, "pairs": 2, "ranges": 3, "mixed": rng.choice([1, 2, 3])}[fmt]
            if row == 1 and not isinstance(value, str):
                row = 2
            case["rows"].append([gen_num(rng) for _ in range(row - 1)] + [value])
        case["default"] = rng.choice([None, None, g.gen_text(rng), gen_num(rng)])
        case["wrap"] = rng.random() < 0.3
        case["auto_label"] = rng.choice([None, True, False])
    elif kind == "rational":
        case["args"] = {k: gen_num(rng) for k in ("scaling_factor", "offset", "lower_limit", "upper_limit")
                        if rng.random() < 0.6}
        case["default"] = rng.choice([None, None, g.gen_text(rng), gen_num(rng)])
        case["types"] = [rng.choice(["OPEN", "CLOSED", None]) for _ in range(2)]
    elif kind in ("physical", "internal"):
        case["args"] = {k: gen_num(rng) for k in ("lower_limit", "upper_limit", "max_gradient", "max_diff")
                        if rng.random() < 0.6}
        case["types"] = [rng.choice(["OPEN", "CLOSED", None]) for _ in range(2)]
        case["monotony"] = rng.choice([None] + [m.name for m in ar_enum.Monotony])
        gen = g.Gen(rng, 51)
        case["scales"] = [gen.cls("ScaleConstraint", 1, 0.4, set()) for _ in range(rng.choice([0, 0, 1, 2, 2, 9]))]
        case["unit"] = g.gen_path(rng) if kind == "physical" and rng.random() < 0.5 else None
        case["category"] = g.gen_name(rng) if rng.random() < 0.3 else None
    elif kind == "limits":
        values = [rng.randrange(-5, 6) + rng.choice([0, 0, 0, 0.5]) for _ in range(2)]
        case["limits"] = [rng.choice([v, v, v, None, w]) for v, w in zip(sorted(values), (-math.inf, math.inf))]
        case["types"] = [rng.choice(["OPEN", "CLOSED", None]) for _ in range(2)]
        case["class"] = rng.choice(["InternalConstraint", "PhysicalConstraint", "ScaleConstraint"])
        case["test"] = [rng.choice([v + d for v in values for d in (-1, -0.5, -1e-9, 0, 1e-9, 0.5, 1)] + [0, 1e300])
                        for _ in range(4)]
    else:
        case["what"] = rng.choice(["tuple", "first", "marker", "marker type", "type", "check", "row", "row type"])
        case["depth"] = rng.choice([0, 0, 1, 2])
        case["marker"] = rng.choice(["X", "", "AR", "ARR", "ARRAYS", "RE", "REC", "RECORDS", " A", "A ", "ARECORD", "RA"])
    return case


def raw(v):
    """Python data of a value"""
    kind, label, content = v
    if kind == "none":
        return (label, None) if content is None and label else (label, None, content) if label else None
    if kind not in ("text", "num"):
        content = [kind] + [raw(x) for x in content]
    return content if label is None else (label, content)


def tree_of(v):
    """Expected value specification"""
    kind, label, content = v
    tree = {} if label is None else {"label": label}
    if kind == "none":
        if content is not None:
            tree["default_pattern"] = content
        return {"$": "NotAvailableValueSpecification", **tree}
    if kind in ("text", "num"):
        return {"$": "TextValueSpecification" if kind == "text" else "NumericalValueSpecification", **tree,
                "value": content}
    cls, attr = ("ArrayValueSpecification", "elements") if kind.upper()[0] == "A" else \
        ("RecordValueSpecification", "fields")
    if content:
        tree[attr] = [tree_of(x) for x in content]
    return {"$": cls, **tree}


def exact(obj, v, seen):
    """Types of numbers are kept and no object is in two places"""
    if id(obj) in seen:
        return f"{obj} is in two places"
    seen[id(obj)] = obj
    if v[0] == "num" and type(obj.value) is not type(v[2]):
        return f"value {obj.value!r}, expected {v[2]!r}"
    if isinstance(v[2], list):
        for x, y in zip(obj.elements if v[0].upper()[0] == "A" else obj.fields, v[2]):
            d = exact(x, y, seen)
            if d:
                return d
    return None


def compare(obj, tree, what, value=None):
    """The object, and the same after writing and reading"""
    cls = CLASSES[tree["$"]]
    d = cls.check(obj, tree) or doc.shared(obj)
    if not d and value is not None:
        d = exact(obj.value if tree["$"] == "ConstantSpecification" else obj, value, {})
    if d:
        return f"{what}: {tree['$']}{d}"
    if not cls.collectable:
        return None
    document = ar_document.Document(schema_version=51)
    document.create_package("Package").append(obj)
    with doc.captured() as buf:
        again = ar_reader.Reader().read_str(ar_writer.Writer().write_str(document))
    d = doc.check(again, {"sv": 51, "packages": [{"$": "Package", "name": "Package", "elements": [tree]}]}, what)
    return d or (f"{what}: {buf.getvalue()[:200]}" if buf.getvalue() else None)


def limits(args, types):
    """Limits of a value tree"""
    out = {}
    for k, t in zip(("lower_limit", "upper_limit"), types):
        if k in args:
            out[k] = {"v": args[k], "t": t or "CLOSED"}
    return out


def type_args(types):
    """Arguments for the interval types"""
    return {k: ar_enum.IntervalType[t] for k, t in zip(("lower_limit_type", "upper_limit_type"), types) if t}


def run(case):
    """Oracle"""
    s.schema_version[0] = 51
    kind = case["kind"]
    if kind == "value":
        data = raw(case["value"])
        before = repr(data)
        obj = ar_element.ValueSpecification.make_value(data)
        if repr(data) != before:
            return f"make_value({before}) changes its argument to {data!r}"
        return compare(obj, tree_of(case["value"]), f"make_value({before})", case["value"])
    if kind == "constant":
        data = raw(case["value"])
        before = repr(data)
        kwargs = {"category": case["category"]} if case["category"] else {}
        obj = ar_element.ConstantSpecification.make_constant("Name", data, **kwargs)
        if repr(data) != before:
            return f"make_constant({before}) changes its argument to {data!r}"
        return compare(obj, {"$": "ConstantSpecification", "name": "Name", "value": tree_of(case["value"]), **kwargs},
                       f"make_constant({before})", case["value"])
    if kind == "check":
        return with_check(case)
    if kind == "table":
        return table(case)
    if kind == "rational":
        args = case["args"]
        kwargs = {**args, **type_args(case["types"])}
        if case["default"] is not None:
            kwargs["default_value"] = case["default"]
        obj = ar_element.Computation.make_rational(**kwargs)
        scale = {"$": "CompuScale", **limits(args, case["types"]), "content": {
            "$": "CompuRational", "numerator": [args.get("offset", 0), float(args.get("scaling_factor", 1))],
            "denominator": [1]}}
        return computation(obj, [scale], case["default"], f"make_rational({kwargs})")
    if kind in ("physical", "internal"):
        return constraint(case)
    if kind == "limits":
        return check_value(case)
    return mistake(case)


def with_check(case):
    """make_value_with_check"""
    make = ar_element.ValueSpecification.make_value_with_check
    form = case["form"]
    if form == "none":
        got = make(None)
        return None if got is None else f"make_value_with_check(None) is {got}"
    if form == "ref":
        got = make(ar_element.ConstantRef(case["path"]))
        return compare(got, {"$": "ConstantReference", "constant_ref": [case["path"], "CONSTANT_SPECIFICATION"]},
                       "make_value_with_check(ConstantRef)")
    if form == "object":
        obj = CLASSES[tree_of(case["value"])["$"]].build(tree_of(case["value"]))
        got = make(obj)
        return None if got is obj else f"make_value_with_check(object) is {got}, another object"
    data = raw(case["value"])
    return compare(make(data), tree_of(case["value"]), f"make_value_with_check({data!r})", case["value"])


def const(value):
    """Value tree of a constant"""
    return {"$": "CompuConst", "value": value}


def computation(obj, scales, default, what):
    """Compare a computation"""
    tree = {"$": "Computation"}
    if scales:
        tree["compu_scales"] = scales
    if default is not None:
        tree["default_value"] = const(default)
    d = CLASSES["Computation"].check(obj, tree)
    if d:
        return f"{what}: {d}"
    if not scales and default is None:
        return None
    return compare(ar_element.CompuMethod("Name", int_to_phys=obj),
                   {"$": "CompuMethod", "name": "Name", "int_to_phys": tree}, what)


def table(case):
    """make_value_table"""
    rows = [r[0] if len(r) == 1 else tuple(r) for r in case["rows"]]
    kwargs = {} if case["auto_label"] is None else {"auto_label": case["auto_label"]}
    default = case["default"]
    if default is not None:
        kwargs["default_value"] = ar_element.CompuConst(default) if case["wrap"] else default
    before = repr(rows)
    obj = ar_element.Computation.make_value_table(rows, **kwargs)
    if repr(rows) != before:
        return f"make_value_table({before}) changes its argument"
    scales = []
    for i, r in enumerate(case["rows"]):
        lower, upper = (i, i) if len(r) == 1 else (r[0], r[-2])
        scale = {"$": "CompuScale", "lower_limit": {"v": lower, "t": "CLOSED"},
                 "upper_limit": {"v": upper, "t": "CLOSED"}, "content": const(r[-1])}
        if case["auto_label"] is not False and isinstance(r[-1], str):
            scale["label"] = r[-1]
        scales.append(scale)
    return computation(obj, scales, default, f"make_value_table({before}, {kwargs})")


def constraint(case):
    """make_physical and make_internal"""
    kwargs = {**case["args"], **type_args(case["types"])}
    rule = {**limits(case["args"], case["types"]),
            **{k: v for k, v in case["args"].items() if not k.endswith("limit")}}
    if case["monotony"]:
        kwargs["monotony"] = ar_enum.Monotony[case["monotony"]]
        rule["monotony"] = case["monotony"]
    if case["scales"]:
        kwargs["scale_constr"] = [CLASSES["ScaleConstraint"].build(x) for x in case["scales"]]
        rule["scale_constrs"] = case["scales"]
    if case["unit"]:
        kwargs["unit_ref"] = ar_element.UnitRef(case["unit"])
        rule["unit_ref"] = [case["unit"], "UNIT"]
    tree = {"$": "DataConstraint", "name": "Name"}
    if case["category"]:
        kwargs["category"] = tree["category"] = case["category"]
    if case["kind"] == "physical":
        obj = ar_element.DataConstraint.make_physical("Name", **kwargs)
        tree["rules"] = [{"$": "DataConstraintRule", "physical": {"$": "PhysicalConstraint", **rule}}]
    else:
        obj = ar_element.DataConstraint.make_internal("Name", **kwargs)
        tree["rules"] = [{"$": "DataConstraintRule", "internal": {"$": "InternalConstraint", **rule}}]
    what = f"make_{case['kind']}({kwargs})"
    if not rule:
        return None if len(obj.rules) == 1 else f"{what}: {len(obj.rules)} rules"
    return compare(obj, tree, what)


def check_value(case):
    """check_value"""
    lower, upper = case["limits"]
    kwargs = type_args(case["types"])
    obj = getattr(ar_element, case["class"])(lower_limit=lower, upper_limit=upper, **kwargs)
    for x in case["test"]:
        want = (lower is None or x > lower or x == lower and case["types"][0] != "OPEN") and \
            (upper is None or x < upper or x == upper and case["types"][1] != "OPEN")
        got = obj.check_value(x)
        if got is not want:
            return f"check_value({x}) with limits {case['limits']} ({case['types']}) is {got}"
    return None


def nest(data, depth):
    """Puts data into records"""
    for _ in range(depth):
        data = ["R", 1, data, "x"]
    return data


def mistake(case):
    """Wrong data is rejected"""
    what = case["what"]
    make = ar_element.ValueSpecification.make_value
    if what == "check":
        data = {"a": 1}
        make, error = ar_element.ValueSpecification.make_value_with_check, TypeError
    elif what in ("row", "row type"):
        data = [("a", 1, 2, "b")] if what == "row" else ["a", 5]
        make, error = ar_element.Computation.make_value_table, ValueError if what == "row" else TypeError
    else:
        data, error = {"tuple": (("label", 1, 2, 3), ValueError), "first": ((1, 2), TypeError),
                       "marker": ([case.get("marker", "X"), 1], ValueError), "marker type": ([1, 2], TypeError),
                       "type": ({"a": 1}, TypeError)}[what]
        data = nest(data, case["depth"])
    try:
        got = make(data)
    except error:
        return None
    return f"{make.__name__}({data!r}) is accepted: {got}"


def count(v):
    """Number of values"""
    return 1 + sum(count(x) for x in v[2]) if isinstance(v[2], list) else 1


def nontrivial(case):
    """See RULE"""
    if "value" in case:
        return count(case["value"]) >= 3
    if case["kind"] == "table":
        return len(case["rows"]) >= 2
    if case["kind"] in ("rational", "physical", "internal"):
        return len(case["args"]) > 1
    return True


def labels(case):
    """Distribution"""
    yield case["kind"]
    if "value" in case:
        yield f"values {min(count(case['value']), 10)}"


def shrink(case):
    """Simpler cases"""
    for k in ("args",):
        if k in case:
            for a in case[k]:
                yield {**case, k: {x: y for x, y in case[k].items() if x != a}}
    for k in ("rows", "scales", "test"):
        if k in case:
            for n in range(len(case[k])):
                yield {**case, k: case[k][:n] + case[k][n + 1:]}
    if "value" in case:
        for v in smaller(case["value"]):
            yield {**case, "value": v}


def smaller(v):
    """Simpler values"""
    if isinstance(v[2], list):
        yield from v[2]
        for n, x in enumerate(v[2]):
            yield [v[0], v[1], v[2][:n] + v[2][n + 1:]]
            for y in smaller(x):
                yield [v[0], v[1], v[2][:n] + [y] + v[2][n + 1:]]
    if v[1] is not None and v[0] != "none":
        yield [v[0], None, v[2]]

"""C15: values of wrong types are rejected"""
import json
import os
import re
import altbuild
import argen as g
import arschema as s
from arschema import CLASSES
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
from badvalues import VALUES
from props import c14

ID = "C15"
QUICK, THOROUGH = 150000, 1500000
RULE = """A case is a class, one of its attributes and a value of a wrong type (objects, elements, references with a
destination that isn't allowed, literals of other enumerations, numbers, negative numbers, texts, lists and pairs that
contain such values at any place), in the constructor or an append method of an otherwise valid generated object. It must raise a
TypeError or ValueError and leave existing objects unchanged; the same object with valid values is accepted. Every tenth
case is a value that the library doesn't check: it may be kept or rejected, but not left out silently. Every fiftieth
case is a text for an alignment or display format with parts added, replaced or removed: it must be accepted if and only
if the whole text follows the syntax of the AUTOSAR schema.
Non-trivial: all cases."""
_FILE = os.path.join(os.path.dirname(os.path.dirname(__file__)), "rejects.json")
TABLE = {}
if os.path.exists(_FILE):
    with open(_FILE, encoding="utf-8") as _fh:
        TABLE = json.load(_fh)
CASES = [(c, a, b) for c, d in sorted(TABLE.items()) for a, bads in sorted(d.items()) for b in bads
         for _ in range(10 if b == "any reference" else 1)]
# Values that aren't checked must be kept or rejected somehow, but not left out
LAX = [(c, f.attr, b) for c, cls in sorted(CLASSES.items()) for f in cls.fields
       if type(cls).build is s.Cls.build and not (f.arg and f.arg[0] in "+=") for b in VALUES
       if b[0] not in "+()" and b not in TABLE.get(c, {}).get(f.attr, [])]


BAD = {**VALUES, "any reference": None}  # any reference: with a destination that isn't allowed


class Unusable(Exception):
    """The value can't be given"""


def attributes(cls):
    """Attributes that are given to the constructor"""
    try:
        cls.py()
    except AttributeError:
        return []
    if type(cls).build is not s.Cls.build:
        return []
    return [f.attr for f in cls.fields if not (f.arg and f.arg[0] in "+=")]


def make_case(rng, name, attr, method, bad):
    """A case"""
    gen = g.Gen(rng, 51)
    tree = gen.cls(name, rng.choice([0, 0, 1]), rng.choice([0.0, 0.1, 0.4]), {attr})
    tree = g.uniquify({"e": [tree]})["e"][0]
    case = {"tree": tree, "attr": attr, "method": method, "bad": bad, "place": rng.randrange(5)}
    if bad == "any reference":
        kind = CLASSES[name].by_attr[attr].kind
        kind = kind.item if isinstance(kind, s.ListOf) else kind
        options = [[r, d] for r, dests in c14.REFS.items() for d in dests
                   if isinstance(kind, s.Ref) and r != kind.cls and d not in c14.REFS[kind.cls]]
        case["ref"] = rng.choice(options)  # IndexError for other attributes
    return case


# Texts with a syntax of their own (AUTOSAR XSD, ALIGNMENT-TYPE and DISPLAY-FORMAT-STRING)
SYNTAX = {
    "alignment": (r"[1-9][0-9]*|0[xX][0-9a-fA-F]*|0[bB][0-1]+|0[0-7]*|UNSPECIFIED|UNKNOWN|BOOLEAN|PTR", g.ALIGN,
                  ["9", "8 ", "x", " ", "_", "PTR", "F", "0", "\n", "-", "1.5"]),
    "display_format": (r"%[ \-+#]?[0-9]*(\.[0-9]+)?[diouxXfeEgGcs]", g.DISPLAY,
                       ["%", "d", " ", "z", "0", ".", "\n", "%d", "+"])}
PATTERNED = [("SwDataDefPropsConditional", "alignment"), ("SwDataDefPropsConditional", "display_format")]


def syntax_case(rng):
    """A text with a part too much, too few or replaced"""
    name, attr = rng.choice(PATTERNED)
    _, valid, parts = SYNTAX[attr]
    text = rng.choice(valid)
    if rng.random() < 0.2:
        text = text[:rng.randrange(len(text) + 1)]
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        at = rng.choice([0, len(text), rng.randrange(len(text) + 1)])
        text = text[:at] + rng.choice(parts + [""]) + text[at + rng.choice([0, 0, 1]):]
    gen = g.Gen(rng, 51)
    tree = g.uniquify({"e": [gen.cls(name, 0, rng.choice([0.0, 0.3]), {attr})]})["e"][0]
    return {"tree": tree, "attr": attr, "method": "", "bad": "text", "text": text}


def syntax(case, what):
    """Texts are accepted if and only if all of them follows the syntax"""
    s.schema_version[0] = 51
    cls, attr, text = CLASSES[case["tree"]["$"]], case["attr"], case["text"]
    kwargs, _ = altbuild.kwargs_of(case["tree"], {})
    kwargs[attr] = text
    valid = re.fullmatch(SYNTAX[attr][0], text) is not None
    try:
        obj = cls.py()(**kwargs)
    except ValueError:
        return f"{what}: {text!r} is valid but is rejected" if valid else None
    if not valid:
        return f"{what} accepts {text!r}"
    return None if getattr(obj, attr) == text else f"{what}: {getattr(obj, attr)!r} instead of {text!r}"


def generate(rng, i, _tier):
    """Case number i"""
    if i % 50 == 7:
        return syntax_case(rng)
    if i % 10 == 9:
        name, attr, bad = LAX[i // 10 % len(LAX)]
        return {**make_case(rng, name, attr, "", bad), "lax": True}
    name, attr, bad = CASES[i % len(CASES)]
    attr, _, method = attr.partition("+")
    return make_case(rng, name, attr, method and "+" + method, bad)


def perform(case):
    """Give the value"""
    s.schema_version[0] = 51
    tree, attr, method, bad = case["tree"], case["attr"], case["method"], case["bad"]
    cls = CLASSES[tree["$"]]
    if bad == "any reference":
        value = getattr(ar_element, case["ref"][0])("/Some/Ref", ar_enum.IdentifiableSubTypes[case["ref"][1]])
    else:
        value = BAD[bad]()
    field = cls.by_attr[attr]
    if method:
        if bad[0] in "+()":
            raise Unusable
        obj = altbuild.build(tree, {})
        case["obj"] = obj
        try:
            getattr(obj, method[1:])(value)
        finally:
            case["difference"] = cls.check(obj, tree)
        return obj
    kwargs, _ = altbuild.kwargs_of(tree, {})
    if bad[0] == "+":
        items = kwargs.get(field.arg or attr)
        if not isinstance(items, list):
            raise Unusable
        value = items[:case["place"]] + [value] + items[case["place"]:]
    elif bad[0] in "()":
        items = kwargs.get(field.arg or attr)
        valid = items[0] if isinstance(items, (tuple, list)) and items else items
        value = (valid, value) if bad[0] == "(" else (value, valid)
    kwargs[field.arg or attr] = value
    return cls.py()(**kwargs)


def run(case):
    """Oracle"""
    case = dict(case)
    tree = case["tree"]
    what = f"{tree['$']}.{case['attr']}{case['method']}"
    if "text" in case:
        return syntax(case, what)
    if case.get("lax"):
        return left_out(case, what)
    try:
        obj = perform(case)
    except (TypeError, ValueError):
        d = case.get("difference")
        if d:
            return f"{what}: rejects {case['bad']} but has changed the object: {tree['$']}{d}"
        valid = altbuild.build(tree, {})
        d = CLASSES[tree["$"]].check(valid, tree)
        return f"{what}: valid object {tree['$']}{d}" if d else None
    except Unusable:
        return None
    return f"{what} accepts {case['bad']}: {obj}"


def left_out(case, what):
    """Whether a value that isn't rejected disappears"""
    try:
        obj = perform(case)
    except (TypeError, ValueError, AttributeError, AssertionError, KeyError):
        return None
    value = getattr(obj, case["attr"], "none")
    if value is None or isinstance(value, (list, tuple)) and not value:
        return f"{what} leaves out {case['bad']} silently"
    return None


def nontrivial(_case):
    """See RULE"""
    return True


def labels(case):
    """Distribution"""
    yield "value " + case["bad"]
    yield "append method" if case["method"] else "constructor"
    yield "class " + case["tree"]["$"]


def shrink(case):
    """Simpler cases"""
    for y in g.shrink_steps(case["tree"]):
        yield {**case, "tree": y}

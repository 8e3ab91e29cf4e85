"""C24: numbers"""
import decimal
import math
import random
import re
import struct
import xml.etree.ElementTree as StdET
import argen as g
import arschema as s
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import doc
from doc import CLASSES, ar_document, ar_reader, ar_writer

ID = "C24"
QUICK, THOROUGH = 40000, 600000
RULE = """Two thirds of the cases are documents in which every number is extreme (doubles with random bit patterns,
subnormal ones, neighbours of powers of two and ten, integers of up to 400 bits), the numeric attributes of all classes
visited round robin: the written text must denote exactly the number (independent parser) and the number must be read back.
The others are lists of values in which numbers are given plainly or as NumericalValue in decimal, hexadecimal, binary or
scientific format: the text has the format and denotes the value, reading gives the value and the hexadecimal or binary
format, and writing again the same text; and texts handed to NumericalValue and PositiveIntegerValue. Non-trivial: a number
that isn't an integer between -1000 and 1000. In a tenth of the cases the application that uses the library has another
context for decimal numbers (precision, rounding, traps), which must not matter."""
FORMATS = {"DEFAULT": None, "DECIMAL": r"-?[0-9.]+([eE][+-]?\d+)?|-?INF|NaN", "HEXADECIMAL": r"-?0x[0-9a-fA-F]+",
           "BINARY": r"-?0b[01]+", "SCIENTIFIC": r"-?\d(\.\d+)?[eE][+-]?\d+"}


def hard_int(rng, lo=None):
    """Integer"""
    n = rng.choice([0, 1, 2 ** rng.randint(1, 400) + rng.randint(-2, 2), rng.getrandbits(rng.randint(1, 400)),
                    10 ** rng.randint(1, 100) + rng.randint(-1, 1), rng.randint(0, 300)])
    return abs(n) if lo == 0 else n * rng.choice([1, -1])


def hard_float(rng, special=True):
    """Float"""
    r = rng.random()
    if r < 0.4:
        x = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
    elif r < 0.5:
        x = rng.choice([5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1 / 3, 1e16, 1e22, 1e23, 123456789.125,
                        9007199254740993.0, 1e27, 1e28, 1e29, 0.0001, 1e-05, 4.35, 0.30000000000000004, 100.0])
    elif r < 0.6:
        x = math.nextafter(rng.choice([2.0, 10.0]) ** rng.randint(-300, 300), rng.choice([0, math.inf]))
    elif r < 0.8:
        x = rng.uniform(-1, 1) * 10.0 ** rng.randint(-10, 30)
    else:
        x = float(rng.getrandbits(rng.randint(1, 200)))
    if not special and not math.isfinite(x):
        return 1.5
    return x * rng.choice([1, -1])


def numeric(v):
    """A number is somewhere in the value"""
    if isinstance(v, dict):
        return any(numeric(x) for x in v.values())
    if isinstance(v, list):
        return any(numeric(x) for x in v)
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def _foci():
    """Numeric attributes"""
    out = []
    for focus in g.focus_list():
        if focus[1] is None:
            continue
        trees = [g.Gen(random.Random(i), 51).cls(focus[0], 0, 0.0, {focus[1]}).get(focus[1]) for i in range(3)]
        if any(numeric(t) for t in trees):
            out.append(focus)
    return out


FOCI = _foci()


def library(case):
    """The decimal context of the application in which the library works"""
    prec, rounding, capitals, traps = case.get("context") or [28, "ROUND_HALF_EVEN", 1, []]
    return decimal.localcontext(decimal.Context(prec, rounding, capitals=capitals, traps=[getattr(decimal, x) for x in traps]))


def generate(rng, i, tier):
    """Case number i"""
    case = _generate(rng, i, tier)
    if rng.random() < 0.1:
        case["context"] = [rng.choice([1, 2, 6, 9, 17, 50, 400]), rng.choice(["ROUND_HALF_EVEN", "ROUND_UP", "ROUND_DOWN"]),
                           rng.choice([0, 1]), rng.choice([[], [], ["Inexact"], ["FloatOperation"], ["Inexact", "Rounded"]])]
    return case


def _generate(rng, i, _tier):
    """Case number i"""
    if i % 3:
        saved = g.gen_int, g.gen_float
        g.gen_int, g.gen_float = hard_int, hard_float
        try:
            return {"doc": g.gen_case(rng, FOCI[i % len(FOCI)])}
        finally:
            g.gen_int, g.gen_float = saved
    items = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        fmt = rng.choice([None, None, *FORMATS])
        value = hard_int(rng) if fmt in ("HEXADECIMAL", "BINARY") or rng.random() < 0.5 else hard_float(rng)
        if fmt in (None, "DEFAULT", "DECIMAL") and rng.random() < 0.04:
            value = rng.choice([True, False])
        if fmt == "SCIENTIFIC" and isinstance(value, float) and not math.isfinite(value):
            value = 2.5
        items.append([fmt, value, rng.choice(["size", "values", "group", "inner"])])
    texts = []
    for _ in range(rng.choice([0, 1, 2])):
        n = hard_int(rng)
        texts.append(rng.choice([hex(n), bin(n), str(n), repr(hard_float(rng)), hex(abs(n)), bin(abs(n)), "+" + str(abs(n)),
                                 f"{hard_float(rng):.5e}", "INF", "-INF", hex(n).upper().replace("X", "x"), "1_0x", "abc", "0x",
                                 "0b2", "1.2.3", "0" + oct(abs(n))[2:], "017", "00", "-0x1F", " 010 ",
                                 "1_000", "0o17", "0O17", "0x1_F", "0b1_0", "1_0.5", "1e1_0", "\uff11\uff12", "\u0661.\u0665"]))
    return {"items": items, "texts": texts}


def value_of(fmt, value):
    """Value given to the library"""
    return value if fmt is None else ar_element.NumericalValue(value, ar_enum.ValueFormat[fmt])


def contents(case, where):
    """Items of a place"""
    return [x for x in case["items"] if x[2] == where]


def build(case):
    """Document"""
    inner = ar_element.ValueGroup(None, [value_of(*x[:2]) for x in contents(case, "inner")])
    group = ar_element.ValueGroup(None, [value_of(*x[:2]) for x in contents(case, "group")] + [inner])
    values = ar_element.SwValues([value_of(*x[:2]) for x in contents(case, "values")] + [group])
    sizes = ar_element.ValueList([value_of(*x[:2]) for x in contents(case, "size")])
    cont = ar_element.SwValueCont(sw_array_size=sizes, sw_values_phys=values)
    spec = ar_element.ApplicationValueSpecification(sw_value_cont=cont)
    package = ar_element.Package("P")
    package.append(ar_element.ConstantSpecification("C", spec))
    return ar_document.Document(packages=[package], schema_version=51)


def check_text(fmt, value, text):
    """Text of a number"""
    got = s.parse_number(text)
    if got is not None and fmt == "SCIENTIFIC" and isinstance(value, int):
        got = decimal.Decimal(text)
        got = int(got) if got == got.to_integral_value() else None  # exact, unlike a float
    if got is None or not s.num_eq(got, int(value) if isinstance(value, bool) else value):
        return f"{value!r} in the format {fmt} is written as {text!r}"
    if FORMATS.get(fmt) and not re.fullmatch(FORMATS[fmt], text):
        return f"{value!r} is written as {text!r}, which isn't {fmt}"
    return None


def check_value(fmt, value, got):
    """Number that was read"""
    if fmt in ("HEXADECIMAL", "BINARY") and value >= 0:
        if not isinstance(got, ar_element.NumericalValue) or got.value_format.name != fmt:
            return f"{value!r} in the format {fmt} is read as {got!r}"
    if isinstance(got, ar_element.NumericalValue):
        got = got.value
    if fmt == "SCIENTIFIC" and isinstance(value, int):
        value = float(value)  # the notation is that of a floating point number
    return None if s.num_eq(got, int(value) if isinstance(value, bool) else value) else f"{value!r} in the format {fmt} is read as {got!r}"


def run_items(case):
    """Values in different formats"""
    with library(case):
        text = ar_writer.Writer().write_str(build(case), False)
        again, noise = doc.read_quiet(text)
    root = StdET.fromstring(text.encode("utf-8"))
    ns = "{" + doc.NS + "}"
    in_size = root.findall(f".//{ns}SW-ARRAYSIZE/{ns}V")
    in_values = root.findall(f".//{ns}SW-VALUES-PHYS/{ns}V")
    in_group = root.findall(f".//{ns}SW-VALUES-PHYS/{ns}VG/{ns}V")
    in_inner = root.findall(f".//{ns}SW-VALUES-PHYS/{ns}VG/{ns}VG/{ns}V")
    if noise:
        return f"reading prints {noise[:200]}"
    cont = again.packages[0].elements[0].value.sw_value_cont
    outer = cont.sw_values_phys.values[-1]
    read = {"size": cont.sw_array_size.values, "values": cont.sw_values_phys.values[:-1], "group": outer.values[:-1],
            "inner": outer.values[-1].values}
    for where, nodes in (("size", in_size), ("values", in_values), ("group", in_group), ("inner", in_inner)):
        want = contents(case, where)
        if len(nodes) != len(want) or len(read[where]) != len(want):
            return f"{where}: {len(nodes)} numbers written, {len(read[where])} read, expected {len(want)}"
        for (fmt, value, _), node, got in zip(want, nodes, read[where]):
            d = check_text(fmt, value, node.text) or check_value(fmt, value, got)
            if d:
                return d
    if all(fmt != "SCIENTIFIC" and (fmt not in ("HEXADECIMAL", "BINARY") or value >= 0) and
           not (value == 0 and str(value)[0] == "-") for fmt, value, _ in case["items"]):
        second = ar_writer.Writer().write_str(again, False)
        if second != text:
            return "writing what was read gives another text"
    return None


def run_text(text):
    """Texts handed to the wrappers"""
    want = s.parse_number(text)
    try:
        number = ar_element.NumericalValue(text)
    except ValueError:
        if want is not None:
            return f"NumericalValue({text!r}) is rejected"
    else:
        if want is None:
            return f"NumericalValue({text!r}) is accepted as {number.value!r}"
        fmt = "HEXADECIMAL" if text.startswith("0x") else "BINARY" if text.startswith("0b") else "DEFAULT"
        if not s.num_eq(number.value, want) or not text.startswith("-") and number.value_format.name != fmt:
            return f"NumericalValue({text!r}) is {number.value!r} {number.value_format}"
        number.value = 7
        if number.value != 7:
            return f"NumericalValue.value = 7 is {number.value!r}"
        number.value = text
        if not s.num_eq(number.value, want):
            return f"NumericalValue.value = {text!r} is {number.value!r}"
    for arg in [text] + ([want] if isinstance(want, int) else []):
        ok = isinstance(want, int) and want >= 0
        for setter in (False, True):
            try:
                number = ar_element.PositiveIntegerValue(5 if setter else arg)
                if setter:
                    number.value = arg
            except (ValueError, TypeError):
                if ok:
                    return f"PositiveIntegerValue({arg!r}) is rejected"
            else:
                if not ok or number.value != want:
                    return f"PositiveIntegerValue({arg!r}) is accepted as {number.value!r}"
    return None


def run(case):
    """Oracle"""
    if "items" in case:
        d = run_items(case)
        for text in case["texts"]:
            d = d or run_text(text)
        return d
    used = library(case)
    case = case["doc"]
    document = doc.build(case)
    with used:
        text = ar_writer.Writer().write_str(document, False)
        again, noise = doc.read_quiet(text)
    d = doc.cmp_doc(case, StdET.fromstring(text.encode("utf-8")))
    if d:
        return f"written: {d}"
    return f"reading prints {noise[:300]}" if noise else doc.check(again, case, "after round trip")


def numbers(v):
    """All numbers"""
    if isinstance(v, dict):
        for k, x in v.items():
            if k != "sv":
                yield from numbers(x)
    elif isinstance(v, list):
        for x in v:
            yield from numbers(x)
    elif isinstance(v, (int, float)) and not isinstance(v, bool):
        yield v


def nontrivial(case):
    """See RULE"""
    return any(isinstance(n, float) or abs(n) > 1000 for n in numbers(case.get("doc") or case["items"]))


def labels(case):
    """Distribution"""
    if "doc" in case:
        yield "class " + doc.focus_path(case["doc"])
    else:
        for fmt, value, where in case["items"]:
            yield f"{fmt or 'plain'} {type(value).__name__} {where}"


def shrink(case):
    """Simpler cases"""
    if case.get("context"):
        yield {**case, "context": None}
    if "doc" in case:
        for c in doc.shrink(case["doc"]):
            yield {**case, "doc": c}
        return
    for attr in ("items", "texts"):
        for i in range(len(case[attr])):
            yield {**case, attr: case[attr][:i] + case[attr][i + 1:]}

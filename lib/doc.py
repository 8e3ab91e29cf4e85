"""
Shared helpers of the document level properties
"""
import collections
import contextlib
import enum
import io
import random
import lxml.etree as ET
import autosar.xml.document as ar_document
import autosar.xml.reader as ar_reader
import autosar.xml.writer as ar_writer
import arschema as s
import argen as g
from arschema import CLASSES, Node

FOCI = g.focus_list()
FOCI += [f for f in g.focus_values()]
XSI = "http://www.w3.org/2001/XMLSchema-instance"
NS = "http://autosar.org/schema/r4.0"


def build(case):
    """Build Document of a case"""
    s.schema_version[0] = case["sv"]
    return ar_document.Document(packages=[CLASSES["Package"].build(p) for p in case["packages"]],
                                schema_version=case["sv"])


def wreck(obj, seen=None):
    """What an application may do with objects that it has no more use for: empties all lists, takes all attributes away"""
    seen = {} if seen is None else seen
    if isinstance(obj, (str, bytes, int, float, type(None), enum.Enum, type)) or id(obj) in seen:
        return
    seen[id(obj)] = obj
    if isinstance(obj, (list, set, dict, collections.deque)):
        values = list(obj.values() if isinstance(obj, dict) else obj)
        obj.clear()
    elif isinstance(obj, tuple):
        values = obj
    elif type(obj).__module__.startswith("autosar.") and hasattr(obj, "__dict__"):
        values = list(vars(obj).values())
        for name in vars(obj):
            vars(obj)[name] = None
    else:
        return
    for value in values:
        wreck(value, seen)


def shared(obj) -> str | None:
    """Two places of an object tree that share an object, so that a change of one changes the other"""
    seen, todo = {}, [(obj, type(obj).__name__)]
    while todo:
        obj, where = todo.pop()
        if isinstance(obj, (str, bytes, int, float, type(None), enum.Enum, type)):
            continue
        if id(obj) in seen:
            return f"{where} and {seen[id(obj)][1]} are the same object"
        seen[id(obj)] = (obj, where)
        if isinstance(obj, dict):
            todo += [(v, f"{where}[{k!r}]") for k, v in obj.items()]
        elif isinstance(obj, (list, tuple, set, collections.deque)):
            todo += [(v, f"{where}[{k}]") for k, v in enumerate(obj)]
        elif hasattr(obj, "__dict__"):
            todo += [(v, f"{where}.{k}") for k, v in vars(obj).items() if k != "parent" and k[0] != "_"]
    return None


def emit(case) -> Node:
    """Expected XML of a case"""
    s.schema_version[0] = case["sv"]
    root = Node("AUTOSAR")
    if case["packages"]:
        top = root.add(Node("AR-PACKAGES"))
        for p in case["packages"]:
            CLASSES["Package"].emit(top, p)
    return root


def check(document, case, what) -> str | None:
    """Compare Document with case"""
    s.schema_version[0] = case["sv"]
    if len(document.packages) != len(case["packages"]):
        return f"{what}: {len(document.packages)} packages, expected {len(case['packages'])}"
    for i, (obj, tree) in enumerate(zip(document.packages, case["packages"])):
        d = CLASSES["Package"].check(obj, tree)
        if d:
            return f"{what}: packages[{i}]{d}"
    return None


def check_root(text: str, root, sv: int) -> str | None:
    """XML declaration and attributes of the root element"""
    if not text.startswith('<?xml version="1.0" encoding="utf-8"?>'):
        return f"document starts with {text[:60]!r}"
    if root.tag != f"{{{NS}}}AUTOSAR":
        return f"root element is {root.tag!r}"
    loc = dict(root.attrib)
    want = {f"{{{XSI}}}schemaLocation": f"{NS} AUTOSAR_{sv:05d}.xsd"}
    if loc != want:
        return f"root attributes {loc!r}, expected {want!r}"
    return None


def cmp_doc(case, root) -> str | None:
    """Compare parsed XML of a document with what is expected"""
    node = emit(case)
    node.attrs = {k: v for k, v in root.attrib.items() if not k.startswith("{")}
    return s.cmp_xml(node, root)


@contextlib.contextmanager
def captured():
    """Capture stdout and stderr"""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield buf


def read_quiet(text, reader=None):
    """Read a document, returning it with whatever was printed"""
    reader = reader or ar_reader.Reader()
    with captured() as buf:
        doc = reader.read_str(text)
    return doc, buf.getvalue()


def case_at(rng: random.Random, i: int) -> dict:
    """Case number i: the foci are visited round robin, so that every (class, attribute) pair is exercised"""
    return g.gen_case(rng, FOCI[i % len(FOCI)])


def attr_count(case) -> int:
    """Number of attributes set"""
    return sum(g.count_attrs(p) for p in case["packages"])


def classes_of(case) -> set:
    """Classes used"""
    out = set()
    for p in case["packages"]:
        g.count_classes(p, out)
    return out


def leaf_element(case):
    """First element below the packages"""
    p = case["packages"][0]
    while "packages" in p:
        p = p["packages"][0]
    return (p.get("elements") or [p])[0]


def focus_path(case) -> str:
    """Label of a case"""
    return leaf_element(case)["$"]


def shrink(case):
    """Simpler cases"""
    pk = case["packages"]
    for i, p in enumerate(pk):
        if len(pk) > 1:
            yield {**case, "packages": pk[:i] + pk[i + 1:]}
        if list(p) == ["$", "name", "packages"] and len(p["packages"]) == 1:
            yield {**case, "packages": pk[:i] + p["packages"] + pk[i + 1:]}
        for y in g.shrink_steps(p):
            yield {**case, "packages": pk[:i] + [y] + pk[i + 1:]}


__all__ = ["ET", "ar_document", "ar_reader", "ar_writer", "s", "g", "CLASSES", "Node"]

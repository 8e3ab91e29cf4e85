"""C25: damaged elements are left out and reported, or understood completely"""
import copy
import math
import random
import re
import argen as g
import autosar.xml.exception as ar_exception
import doc
from lxml import etree
from doc import CLASSES, Node, ar_reader, ar_writer, s
from props import c06

ID = "C25"
SCRATCH = ""
QUICK, THOROUGH = 20000, 300000
RULE = """A case is a document with two to four elements of random types in nested packages, one of which is damaged in one
to three places: anything inside it is removed, repeated, renamed, given another text or attribute, moved, put in another
order, emptied, wrapped, unwrapped, or the whole element is put inside itself. Read leniently, the other elements must come
back unchanged and in order and no exception may be raised; the damaged one is left out if and only if an error is reported
with its line, and if and only if reading strictly raises a ParseError or DuplicateElement. What has been accepted must be
written, without anything that was not in the document, as a document that is read without reports and written
identically. Non-trivial: the damage changes the document."""
TEXTS = ["", " ", "X", "-1", "0", "1.5", "0x", "/A/B/C", "a b", "<", "NO-SUCH", "true", "INF", "\n", "é", "1" * 40, "/", "//", "99999999999"]
KINDS = ["delete", "duplicate", "rename", "known", "text", "attribute", "noattribute", "move", "swap", "empty", "unwrap", "wrap", "nested"]


def generate(rng, i, _tier):
    """Case number i"""
    gen = g.Gen(rng, 51)
    elements = []
    for k in range(rng.choice([2, 2, 3, 4])):
        focus = doc.FOCI[i % len(doc.FOCI)] if k == 0 else rng.choice(doc.FOCI)
        tree = gen.cls(focus[0], rng.choice([0, 1, 1]), rng.choice([0.1, 0.3, 0.5]), {focus[1]})
        if len(focus) > 2:
            g.force(gen, tree, focus[1], focus[2])
        elements.append(g.embed(gen, tree))
    g.uniquify({"e": elements})
    rng.shuffle(elements)
    return {"sv": 51, "elements": elements, "cut": rng.randint(0, len(elements)), "file": False,
            "faults": [None] * len(elements), "which": rng.randrange(len(elements)),
            "damage": [[rng.choice(KINDS), rng.randrange(10**6)] for _ in range(rng.choice([1, 1, 1, 2, 3]))]}


def places(top):
    """All elements and the ones above them"""
    out = []
    c06._walk(top, out, None)  # pylint: disable=protected-access
    return out


def damage(top, kind, seed, tags):
    """One change of the element"""
    rng = random.Random(seed)
    nodes = places(top)
    inner = [x for x in nodes if x[1] is not None]
    if not inner:
        return
    n, par = rng.choice(inner)
    if kind == "delete":
        par.children = [c for c in par.children if c is not n]
    elif kind == "duplicate":
        c = copy.deepcopy(n)
        par.children.insert(rng.randint(0, len(par.children)), c)
    elif kind == "rename":
        n.tag = rng.choice([n.tag + "S", n.tag[:-1] or "X", "X-UNKNOWN", n.tag.lower()])
    elif kind == "known":
        n.tag = rng.choice(tags)
    elif kind == "text":
        n, _ = rng.choice(nodes)
        n.children = [rng.choice(TEXTS)]
        n.mixed = False
    elif kind == "attribute":
        n.attrs[rng.choice(["DEST", "L", "BASE", "TYPE", "INTERVAL-TYPE", "UUID", "GID", "FONT", "SHORT-LABEL"])] = rng.choice(TEXTS)
    elif kind == "noattribute":
        with_attrs = [x for x, _ in inner if x.attrs]
        if with_attrs:
            x = rng.choice(with_attrs)
            del x.attrs[rng.choice(sorted(x.attrs))]
    elif kind == "move":
        other, _ = rng.choice(nodes)
        if not any(x is other for x, _ in places(n)):
            par.children = [c for c in par.children if c is not n]
            other.children.insert(rng.randint(0, len(other.children)), n)
            other.mixed = other.mixed or any(isinstance(c, str) for c in other.children)
    elif kind == "swap":
        rng.shuffle(par.children)
    elif kind == "empty":
        n.children = []
    elif kind == "unwrap":
        k = [c is n for c in par.children].index(True)
        par.children[k:k + 1] = n.children
        par.mixed = par.mixed or any(isinstance(c, str) for c in par.children)
    elif kind == "wrap":
        k = [c is n for c in par.children].index(True)
        par.children[k] = Node(rng.choice(tags), {}, [n])
    elif kind == "nested":
        n.children.append(copy.deepcopy(top))
        n.mixed = n.mixed or any(isinstance(c, str) for c in n.children)


def nontrivial(case):
    """See RULE"""
    return text_of(case)[0] != text_of({**case, "damage": []})[0]


def labels(case):
    """Distribution"""
    for k, _ in case["damage"]:
        yield "damage " + k
    with doc.captured() as buf:
        ar_reader.Reader().read_str(text_of(case)[0])
    yield "damaged element " + ("reported as invalid" if "Parse error" in buf.getvalue() else "accepted")


def shrink(case):
    """Simpler cases"""
    for k in range(len(case["damage"])):
        if len(case["damage"]) > 1:
            yield {**case, "damage": case["damage"][:k] + case["damage"][k + 1:]}
    for k in range(len(case["elements"])):
        if k != case["which"]:
            yield {**case, "elements": case["elements"][:k] + case["elements"][k + 1:], "faults": case["faults"][1:],
                   "which": case["which"] - (k < case["which"]), "cut": case["cut"] - (k < case["cut"])}
    for k, (kind, seed) in enumerate(case["damage"]):
        if seed >= 30:
            for new in range(30):
                yield {**case, "damage": case["damage"][:k] + [[kind, new]] + case["damage"][k + 1:]}
    for k, e in enumerate(case["elements"]):
        for y in g.shrink_steps(e):
            yield {**case, "elements": case["elements"][:k] + [y] + case["elements"][k + 1:]}


def text_of(case):
    """Text and lines"""
    s.schema_version[0] = 51
    root = Node("AUTOSAR", {"xmlns": doc.NS, "xmlns:xsi": doc.XSI, "xsi:schemaLocation": f"{doc.NS} AUTOSAR_00051.xsd"})
    top = root.add(Node("AR-PACKAGES"))
    CLASSES["Package"].emit(top, c06.packages(case)[0])
    elems: list = []

    def find(n):
        for c in n.children:
            if isinstance(c, Node):
                if n.tag == "ELEMENTS":
                    elems.append(c)
                elif c.tag in ("AR-PACKAGES", "AR-PACKAGE", "ELEMENTS"):
                    find(c)
    find(root)
    tags = sorted({n.tag for n, _ in places(root)})
    for i, e in enumerate(elems):
        e.attrs["MARK"] = str(i)
    for kind, seed in case["damage"]:
        damage(elems[case["which"]], kind, seed, tags)
    text = s.Style(random.Random(0), []).dump(root)
    lines = {}
    for no, line in enumerate(text.split("\n"), 1):
        for piece in line.split(" MARK=")[1:]:
            lines.setdefault(int(piece.split('"')[1]), no)
    return text, lines


def values(root):
    """All texts and attributes of a document"""
    for e in root.iter():
        if isinstance(e.tag, str):
            for k, v in e.attrib.items():
                if not k.endswith("schemaLocation"):
                    yield k, v
            yield s.local(e), e.text or ""
            if e.tail and e.tail.strip():
                yield s.local(e.getparent()), e.tail


def meanings(text):
    """A value, however it is written"""
    text = " ".join(text.split())
    n = s.parse_number(text)
    if n is not None:
        yield float(n) if abs(n) < 1e300 else n
    if text in ("0", "1"):
        yield {"1": "true", "0": "false"}[text]
    if text != "" and n is None:
        yield text


def short_names(case, text):
    """Names of the damaged element"""
    top = next(x for x in etree.fromstring(text.encode()).iter() if x.get("MARK") == str(case["which"]))
    return [(x.text or "").strip() for x in top if s.local(x) == "SHORT-NAME"]


def invented(before, after):
    """Values that are written but were not in the document"""
    there = {("INTERVAL-TYPE", "CLOSED")}  # default
    for tag, v in values(etree.fromstring(before.encode())):
        there.update((tag, m) for m in meanings(v))
    for tag, v in values(etree.fromstring(after.encode())):
        what = next(meanings(v), None)
        if what is None or (tag, what) in there or isinstance(what, float) and math.isnan(what):
            continue
        if tag == "SHORT-NAME" and (tag, re.sub(r"_\d+$", "", what)) in there:  # accesses with the same name are numbered
            continue
        return f"{tag} {v!r} is written but was not in the document"
    return None


def run(case):
    """Oracle"""
    text, lines = text_of(case)
    which = case["which"]
    for k, e in enumerate(case["elements"]):  # the damage has given the element the name of another one
        if k != which and (k < case["cut"]) == (which < case["cut"]) and e["name"] in short_names(case, text):
            return None
    reader = ar_reader.Reader()
    with doc.captured() as buf:
        document = reader.read_str(text)
    said = buf.getvalue()
    rest = {i for i in range(len(case["elements"])) if i != which}
    package = document.packages[0]
    home = package if which < case["cut"] else package.packages[0]
    others = len([i for i in rest if (i < case["cut"]) == (which < case["cut"])])
    at = len([i for i in rest if (i < case["cut"]) == (which < case["cut"]) and i < which])
    if len(home.elements) not in (others, others + 1):
        return f"{len(home.elements)} elements"
    kept = None
    if len(home.elements) == others + 1:
        kept = home.elements.pop(at)
    d = doc.check(document, {"sv": 51, "packages": c06.packages(case, rest)}, "lenient read")
    if d:
        return d
    reported = any(line.startswith(f"({lines[which]}): ") and "Unprocessed" not in line for line in said.split("\n"))
    if reported != (kept is None) and f"({lines[which]}): Unprocessed" not in said:
        return f"kept {kept}, reported {reported}: {said[:300]}"
    caught = None
    with doc.captured():
        try:
            reader.read_str(text, True)
        except (ar_exception.ParseError, ar_exception.DuplicateElement) as exc:
            caught = exc
    if (caught is None) != (not reported):
        return f"strict {caught!r}, lenient reported {reported}"
    if kept is None:
        return None
    home.elements.insert(at, kept)
    with doc.captured():  # ports whose direction is unknown
        first = ar_writer.Writer().write_str(document, False)
    d = invented(text, first)
    if d:
        return d
    with doc.captured() as buf:
        again = reader.read_str(first)
    if buf.getvalue():
        return f"what was accepted is written as XML that is not: {buf.getvalue()[:300]} from {said[:100]}"
    with doc.captured():
        second = ar_writer.Writer().write_str(again, False)
    if first != second:
        for a, b in zip(first.replace(">-0<", ">0<").split("\n"), second.split("\n")):  # zero has no sign in XML
            if a != b:
                return f"written, read and written again: {b!r}, expected {a!r}"
    return None

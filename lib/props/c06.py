"""C06: invalid elements are isolated and reported"""
import json
import os
import random
import re
import argen as g
import autosar.xml.exception as ar_exception
import doc
from doc import CLASSES, Node, ar_reader, s

ID = "C06"
SCRATCH = ""
QUICK, THOROUGH = 20000, 250000
RULE = """A case is a document with two to six elements in nested packages of which up to three are made invalid: an
unknown literal, a non-number, an empty number, a wrong Boolean, an unknown or missing DEST, the DEST of another type, a missing SHORT-NAME,
contents that exclude each other or do not belong there (at a random place inside the element), an element that can't be
in a package, or a name that is already taken. Read leniently, exactly the valid elements must come
back, unchanged and in order, and each invalid one is reported with its line; with stop_on_error the first one is
raised as the documented exception with its line; the Reader then still reads a valid document. Non-trivial: at least
one valid and one invalid element."""
KINDS = ["num", "empty", "enum", "boolean", "dest", "nodest", "wrongdest", "name", "structure", "misplaced"]
MISPLACED = ["DATA-FILTER", "CODE", "AUTOSAR-ENGINEERING-OBJECT"]  # read, but not in packages
COMPU = {"COMPU-CONST", "COMPU-DEFAULT-VALUE", "COMPU-INVERSE-VALUE"}
MIXED = {"E", "L-1", "L-2", "L-4", "L-5", "TT", "DISPLAY-NAME", "UNIT-DISPLAY-NAME"}
with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "literals.json"), encoding="utf-8") as _fh:
    DESTS = [s.enum_text("IdentifiableSubTypes", m) for m in json.load(_fh)["enums"]["IdentifiableSubTypes"]]


def generate(rng, i, _tier):
    """Case number i"""
    gen = g.Gen(rng, 51)
    elements = []
    many = i % 500 == 250
    for k in range(300 if many else rng.randint(2, 6) if i % 100 != 99 else 30):
        focus = doc.FOCI[i % len(doc.FOCI)] if k == 0 else rng.choice(doc.FOCI)
        tree = gen.cls(focus[0], 0 if many else rng.choice([0, 1]), 0.0 if many else rng.choice([0.0, 0.2, 0.5]), {focus[1]})
        if len(focus) > 2:
            g.force(gen, tree, focus[1], focus[2])
        elements.append(g.embed(gen, tree))
    g.uniquify({"e": elements})
    faults: list = [None] * len(elements)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3] if i % 100 != 99 else [1, 5, 15]) if not many else 250):
        k = rng.randrange(len(elements)) if many or rng.random() < 0.6 else 0
        if rng.random() < 0.15 and k > 0:
            elements[k]["name"] = elements[rng.randrange(k)]["name"]
        else:
            faults[k] = rng.randrange(10**6)
    cut = rng.randint(0, len(elements))
    return {"sv": 51, "elements": elements, "faults": faults, "cut": cut, "file": rng.random() < 0.3, "full": rng.random() < 0.2,
            "gap": rng.randint(20000, 60000) if rng.random() < 0.002 else 0}


def packages(case, keep=None):
    """Package trees: the elements before `cut` in /P, the others in /P/Q"""
    idx = [i for i in range(len(case["elements"])) if keep is None or i in keep]
    a = [case["elements"][i] for i in idx if i < case["cut"]]
    b = [case["elements"][i] for i in idx if i >= case["cut"]]
    sub = {"$": "Package", "name": "Sub_Package_Q"}
    if b:
        sub["elements"] = b
    p = {"$": "Package", "name": "P", "packages": [sub]}
    if a:
        p["elements"] = a
    return [p]


def _walk(n, out, par):
    out.append((n, par))
    for c in n.children:
        if not isinstance(c, str):
            _walk(c, out, n)


def candidates(top):
    """Places where a fault can be put"""
    nodes: list = []
    _walk(top, nodes, None)
    out = []
    for n, p in nodes:
        for k in KINDS:
            if (k in ("num", "enum", "boolean") and getattr(n, k)) or (k == "empty" and n.num) or \
               (k in ("dest", "nodest") and "DEST" in n.attrs) or (k == "wrongdest" and n.dests) or \
               (k == "structure" and n.tag in COMPU | MIXED | {"COMPU-SCALE"}) or \
               (k == "misplaced" and p is None) or \
               (k == "name" and n.cls and n.children and getattr(n.children[0], "tag", "") == "SHORT-NAME"):
                out.append((n, k, f"{p.cls or p.tag if p else ''}/{n.tag}"))
    return out


def inject(top, seed):
    """Make the element invalid"""
    rng = random.Random(seed)
    cands = candidates(top)
    kinds = sorted({c[1] for c in cands})
    kind = rng.choices(kinds, [{"name": 2, "misplaced": 1}.get(k, 8) for k in kinds])[0]
    n, kind, where = rng.choice([c for c in cands if c[1] == kind])
    if kind == "num":
        n.children = [rng.choice(["12abc", "0xZZ", "--1", "1,5", "one", "1_000", "0o17", "\uff11\uff12", "0x1_F"])]
    elif kind == "empty":
        n.children = []
    elif kind == "boolean":
        n.children = [rng.choice(["NO-SUCH-LITERAL", "no", "TRUE ", "-", "", "True", "FALSE", "yes", "00", "01", "2", "+1", "1.0", "true1",
                                  "0x1", "None"])]
    elif kind == "enum":
        n.children = [rng.choice(["NO-SUCH-LITERAL", "no", "TRUE ", "-", ""])]
    elif kind == "dest":
        n.attrs["DEST"] = rng.choice(["NO-SUCH-DEST", "", "ar-package"])
    elif kind == "wrongdest":
        n.attrs["DEST"] = rng.choice([d for d in DESTS if d not in n.dests])
    elif kind == "misplaced":
        n.tag, n.children, n.mixed = rng.choice(MISPLACED), n.children[:1] if n.children and rng.random() < 0.5 else [], False
    elif kind == "structure":
        break_structure(n, rng)
    elif kind == "nodest":
        del n.attrs["DEST"]
    else:
        n.children.pop(0)
    return kind, where


def break_structure(n, rng):
    """Content that excludes each other or does not belong there"""
    if n.tag == "COMPU-SCALE":
        n.children = [c for c in n.children if c.tag not in ("COMPU-CONST", "COMPU-RATIONAL-COEFFS")]
        n.children += [Node("COMPU-CONST", {}, [Node("V", {}, ["1"])]), Node("COMPU-RATIONAL-COEFFS")]
    elif n.tag in COMPU:
        n.children = rng.choice([[], [Node("V", {}, ["1"]), Node("VT", {}, ["a"])]])
    else:
        n.mixed = True
        n.children.insert(rng.randint(0, len(n.children)), Node(rng.choice(["NO-SUCH-TAG", "P", "SHORT-NAME"] + ["SUB", "TT", "BR"] * (n.tag == "E")), {}, ["a"]))


def outcome(case):
    """Indices of elements that are kept, and (index, exception class) of those that are not"""
    keep, bad, seen = [], [], {True: set(), False: set()}
    for i, e in enumerate(case["elements"]):
        names = seen[i < case["cut"]]
        if case["faults"][i] is not None:
            bad.append((i, ar_exception.ParseError))
        elif e["name"] in names:
            bad.append((i, ar_exception.DuplicateElement))
        else:
            names.add(e["name"])
            keep.append(i)
    return keep, bad


def nontrivial(case):
    """See RULE"""
    keep, bad = outcome(case)
    return bool(keep and bad)


def text_of(case):
    """Document text and the line number of each element, and what was injected"""
    s.schema_version[0] = 51
    root = Node("AUTOSAR", {"xmlns": doc.NS, "xmlns:xsi": doc.XSI, "xsi:schemaLocation": f"{doc.NS} AUTOSAR_00051.xsd"})
    top = root.add(Node("AR-PACKAGES"))
    CLASSES["Package"].emit(top, packages(case)[0])
    elems: list = []

    def find(n):
        for c in n.children:
            if isinstance(c, Node):
                if n.tag == "ELEMENTS":
                    elems.append(c)
                elif c.tag in ("AR-PACKAGES", "AR-PACKAGE", "ELEMENTS"):
                    find(c)
    find(root)
    what = []
    for i, e in enumerate(elems):
        e.attrs["MARK"] = str(i)
        what.append(inject(e, case["faults"][i]) if case["faults"][i] is not None else None)
    text = s.Style(random.Random(0), []).dump(root)
    if case.get("gap"):
        text = text.replace("<AR-PACKAGES>", "<AR-PACKAGES>" + "\n" * case["gap"], 1)
    lines = {}
    for no, line in enumerate(text.split("\n"), 1):
        if " MARK=" in line:
            for piece in line.split(" MARK=")[1:]:
                lines[int(piece.split('"')[1])] = no
    return text, lines, what


def labels(case):
    """Distribution"""
    _, _, what = text_of(case)
    for w in what:
        if w:
            yield "fault " + w[0]
    if any(c is ar_exception.DuplicateElement for _, c in outcome(case)[1]):
        yield "fault duplicate name"
    n = len(outcome(case)[1])
    yield f"{n if n < 10 else '10 or more' if n < 100 else '100 or more'} invalid elements"


def _read(case, text, stop, reader):
    if case["file"]:
        path = os.path.join(SCRATCH, "faulty.arxml")
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(text)
        try:
            return reader.read_file(path, stop)
        finally:
            os.unlink(path)
    return reader.read_str(text, stop)


def run(case):
    """Oracle"""
    keep, bad = outcome(case)
    text, lines, what = text_of(case)
    name = "" if not case["file"] else os.path.join(SCRATCH, "faulty.arxml") if case.get("full") else "faulty.arxml"
    reader = ar_reader.Reader(use_full_path_on_warning=bool(case.get("full")))
    with doc.captured() as buf:
        document = _read(case, text, False, reader)
    said = buf.getvalue()
    d = doc.check(document, {"sv": 51, "packages": packages(case, set(keep))},
                  f"lenient read (invalid: {[(i, what[i]) for i, _ in bad]})")
    if d:
        return d
    for i, _cls in bad:
        if not any(line.startswith(f"{name}({lines[i]}): ") for line in said.split("\n")):
            return f"element #{i} ({what[i] or 'duplicate name'}) at line {lines[i]} is not reported: {said[:300]!r}"
    report = re.compile(re.escape(name) + r"\((\d+)\): (?!Unprocessed)")
    extra = {int(m) for line in said.split("\n") for m in report.findall(line)[:1] if line.startswith(name + "(")}
    if extra - {lines[i] for i, _ in bad}:
        return f"reports about other lines than {sorted(lines[i] for i, _ in bad)}: {said[:300]!r}"
    if not bad and said:
        return f"reading a valid document printed {said[:300]!r}"
    # strict
    caught = None
    with doc.captured():
        try:
            document = _read(case, text, True, reader)
        except (ar_exception.ParseError, ar_exception.DuplicateElement) as exc:
            caught = exc
    order = sorted(bad)
    if not bad:
        if caught is not None:
            return f"stop_on_error raised {caught!r} for a valid document"
        d = doc.check(document, {"sv": 51, "packages": packages(case)}, "strict read")
        if d:
            return d
    else:
        i, cls = order[0]
        if caught is None:
            return f"stop_on_error did not raise for element #{i} ({what[i] or 'duplicate name'})"
        if not isinstance(caught, cls) or f"{name}({lines[i]}): " not in str(caught):
            return f"stop_on_error raised {caught!r}, expected {cls.__name__} for line {lines[i]}"
    # the reader is as good as new
    fine = {"sv": 51, "packages": packages(case, set(keep))}
    node = doc.emit(fine)
    node.attrs = {"xmlns": doc.NS}
    with doc.captured() as buf:
        document = reader.read_str(s.Style(random.Random(0), []).dump(node))
    return doc.check(document, fine, "valid document read by the same Reader afterwards") or \
        (f"valid document afterwards printed {buf.getvalue()[:200]!r}" if buf.getvalue() else None)


def shrink(case):
    """Simpler cases"""
    n = len(case["elements"])
    for i in range(n):
        if n > 1:
            yield {**case, "elements": case["elements"][:i] + case["elements"][i + 1:],
                   "faults": case["faults"][:i] + case["faults"][i + 1:],
                   "cut": case["cut"] - (1 if i < case["cut"] else 0)}
    for i, f in enumerate(case["faults"]):
        if f is not None:
            yield {**case, "faults": case["faults"][:i] + [None] + case["faults"][i + 1:]}
            if f > 20:
                for k in range(20):
                    yield {**case, "faults": case["faults"][:i] + [k] + case["faults"][i + 1:]}
    if case["file"]:
        yield {**case, "file": False}
    if case.get("gap"):
        yield {**case, "gap": 0}
    for i, e in enumerate(case["elements"]):
        for y in g.shrink_steps(e):
            yield {**case, "elements": case["elements"][:i] + [y] + case["elements"][i + 1:]}

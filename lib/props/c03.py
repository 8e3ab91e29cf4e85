"""C03: written XML conforms to the schema"""
import os
import xml.etree.ElementTree as StdET
import doc
import c01_gen
from doc import ar_writer

ID = "C03"
SCRATCH = ""
QUICK, THOROUGH = 120000, 900000
RULE = """Cases as in C01 (every (class, attribute) pair, every enumeration literal, DEST and Boolean visited round
robin). The document is written (string with and without root attributes, file) and parsed with expat; the tree must be
exactly the one derived from the hand-written schema table: tags, nesting, schema order, XML attributes, DEST, literals,
numbers by value, namespace of every element, schemaLocation and XML declaration. Non-trivial: at least three
attributes other than names are set."""

generate = c01_gen.generate
nontrivial = c01_gen.nontrivial
labels = c01_gen.labels


def _namespaces(root, want):
    for e in root.iter():
        ns, brace, _ = e.tag.rpartition("}")
        if ns + brace != want:
            return f"element {e.tag!r} is not in namespace {want!r}"
        for k in e.attrib:
            if k.startswith("{") and e is not root:
                return f"attribute {k!r} of <{e.tag}>"
    return None


def run(case):
    """Oracle"""
    document = doc.build(case)
    text = ar_writer.Writer().write_str(document, False)
    outs = [("write_str", text)]
    if case.get("file"):
        path = os.path.join(SCRATCH, "w.arxml")
        ar_writer.Writer().write_file(document, path)
        with open(path, "rb") as fh:
            outs.append(("write_file", fh.read().decode("utf-8")))
        os.unlink(path)
    for what, t in outs:
        root = StdET.fromstring(t.encode("utf-8"))
        d = doc.check_root(t, root, case["sv"]) or _namespaces(root, "{%s}" % doc.NS) or doc.cmp_doc(case, root)
        if d:
            return f"{what}: {d}"
    t = ar_writer.Writer().write_str(document)
    root = StdET.fromstring(t.encode("utf-8"))
    if root.attrib or not t.startswith('<?xml version="1.0" encoding="utf-8"?>'):
        return f"write_str without root attributes starts with {t[:120]!r}"
    d = _namespaces(root, "") or doc.cmp_doc(case, root)
    return f"write_str without root attributes: {d}" if d else None


shrink = doc.shrink

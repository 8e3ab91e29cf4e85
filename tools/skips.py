"""
Finds the elements of the schema that the reader passes over silently, per class, and writes lib/skips.json (reviewed,
frozen)
"""
import json
import os
import random
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import argen as g  # noqa: E402 pylint: disable=wrong-import-position
import arschema as s  # noqa: E402 pylint: disable=wrong-import-position
import doc  # noqa: E402 pylint: disable=wrong-import-position

BODIES = ["", "1", "<X-IN>1</X-IN>", "<SHORT-NAME>Q</SHORT-NAME>"]


def outcome(case, name, tag, body):
    """Is the tag passed over silently in all objects of a class?"""
    root = doc.emit(case)
    found = [0]

    def foreign(node):
        if node.cls == name and (not node.children or not isinstance(node.children[0], str)):
            found[0] += 1
            return [(len(node.children), f"<{tag}>{body}</{tag}>")]
        return []
    style = s.Style(random.Random(1), [], "\n", "  ", None, "", foreign)
    root.attrs = {"xsi:schemaLocation": f"{doc.NS} AUTOSAR_{case['sv']:05d}.xsd"}
    text = style.dump(root, 0, f' xmlns="{doc.NS}" xmlns:xsi="{doc.XSI}"')
    if not found[0]:
        return None
    try:
        with doc.captured() as buf:
            document = doc.ar_reader.Reader().read_str(text)
        return not buf.getvalue() and doc.check(document, case, "x") is None
    except Exception:  # pylint: disable=broad-except
        return False


def own_tags(name):
    """Tags of the children that objects of a class can have"""
    out = set()

    def walk(node):
        for c in node.children:
            if not isinstance(c, str):
                if node.cls == name:
                    out.add(c.tag)
                walk(c)
    for field in s.CLASSES[name].fields:
        for n in range(8):
            walk(doc.emit(g.gen_case(random.Random(n), (name, field.attr))))
    return out


def main():
    """Write the table"""
    with open(os.path.join(doc.REPO if hasattr(doc, "REPO") else "/repo", "src/autosar/xml/reader.py"), encoding="utf-8") as fh:
        tags = sorted(set(re.findall(r"skip\(['\"]([A-Z0-9-]+)['\"]\)", fh.read())) | {"VTF"})
    table = {}
    for name in sorted({f[0] for f in g.focus_list()}):
        cases = []
        for n in range(40):
            rng = random.Random(n)
            attr = rng.choice([f.attr for f in s.CLASSES[name].fields] or [None])
            case = g.gen_case(rng, (name, attr))
            if outcome(case, name, "X-UNKNOWN", "") is False:  # unknown elements are reported
                cases.append(case)
        own = own_tags(name)
        for tag in sorted(set(tags) - own):
            results = {outcome(c, name, tag, b) for c in cases[:10] for b in BODIES}
            if results == {True}:
                table.setdefault(name, []).append(tag)
    with open(os.path.join(VERIF, "lib", "skips.json"), "w", encoding="utf-8") as fh:
        json.dump(table, fh, indent=0, sort_keys=True)
    print(len(tags), "tags", len(table), "classes", sum(len(x) for x in table.values()))
    print("unused:", set(tags) - {t for v in table.values() for t in v})


main()

"""C02: text and attribute fidelity"""
import os
import xml.etree.ElementTree as StdET
import argen as g
import arschema as s
import doc
from doc import ar_reader, ar_writer

ID = "C02"
SCRATCH = ""
QUICK, THOROUGH = 40000, 600000
RULE = """A case is a document of C01 in which every free text (element content, text between inline elements, XML
attribute) is replaced by random strings over all characters that XML 1.0 allows (markup characters, quotes, CR, LF,
TAB, C1 controls, combining, private use and non-BMP characters). Oracles: the written text is accepted by expat (not
the parser that the reader uses) which sees exactly the given strings; the file written by write_file is the UTF-8
encoding of the same content; Reader returns the given strings. Non-trivial: at least one string contains a character
outside [A-Za-z0-9 _.]."""


def generate(rng, i, _tier):
    """Case number i"""
    case = doc.case_at(rng, i)
    focus = doc.FOCI[i % len(doc.FOCI)]
    del focus

    def wild(old, where):
        if rng.random() < 0.25:
            return old
        t = g.gen_wild(rng)
        if where == "part" and rng.random() < 0.2:
            return rng.choice([" ", "\n", "  ", "\t", "\r"])
        return t if t.strip(" \t\r\n") else t + "x"
    case["packages"] = [g.map_text(p, wild) for p in case["packages"]]
    case["file"] = i % 4 == 0
    return case


def _texts(case):
    out = []
    for p in case["packages"]:
        g.map_text(p, lambda old, where: (out.append((old, where)), old)[1])
    return out


def nontrivial(case):
    """See RULE"""
    return any(not all(c.isascii() and (c.isalnum() or c in " _.") for c in t) for t, _ in _texts(case))


def labels(case):
    """Distribution"""
    for t, where in _texts(case):
        yield "string in " + where
        if any(c in t for c in "<>&\"'"):
            yield "markup character in " + where
        if any(c in t for c in "\r\n\t"):
            yield "CR, LF or TAB in " + where
        if not t.isascii():
            yield "non-ASCII in " + where


def run(case):
    """Oracle"""
    document = doc.build(case)
    text = ar_writer.Writer().write_str(document, False)
    try:
        root = StdET.fromstring(text.encode("utf-8"))
    except StdET.ParseError as exc:
        return f"written document is not well-formed XML: {exc}"
    d = doc.cmp_doc(case, root)
    if d:
        return f"written XML: {d}"
    again, _ = doc.read_quiet(text)
    d = doc.check(again, case, "after write_str/read_str")
    if d:
        return d
    if case.get("file"):
        path = os.path.join(SCRATCH, "t.arxml")
        ar_writer.Writer().write_file(document, path)
        with open(path, "rb") as fh:
            data = fh.read()
        try:
            root = StdET.fromstring(data)
        except StdET.ParseError as exc:
            return f"written file is not well-formed XML: {exc}"
        d = doc.cmp_doc(case, root)
        if d:
            return f"written file: {d}"
        with doc.captured():
            again = ar_reader.Reader().read_file(path)
        d = doc.check(again, case, "after write_file/read_file")
        os.unlink(path)
        if d:
            return d
    return None


def pinned():
    """Regressions"""
    def long_name(*parts):
        return {"$": "MultilanguageLongName", "elements": [{"$": "LanguageLongName", "language": "EN",
                                                            "parts": list(parts)}]}
    for t in g.WILD + g.TEXTS:
        t = t if t.strip(" \t\r\n") else t + "x"
        yield {"sv": 51, "file": True, "packages": [
            {"$": "Package", "name": "P", "category": t, "uuid": t, "long_name": long_name(t)}]}
    for t in g.WILD:
        yield {"sv": 51, "file": True, "packages": [
            {"$": "Package", "name": "P", "long_name": long_name(
                "a" + t,
                {"$": "TechnicalTerm", "text": t + "x", "type": t, "tex_render": t}, t + " ")}]}


def shrink(case):
    """Simpler cases"""
    for c in doc.shrink(case):
        yield {**c, "file": case.get("file")}
    if case.get("file"):
        yield {**case, "file": False}


__all__ = ["s"]

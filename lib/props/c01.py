"""C01: write -> read round trip of every supported element and attribute"""
import os
import doc
import c01_gen
from doc import ar_reader, ar_writer

ID = "C01"
SCRATCH = ""
QUICK, THOROUGH = 120000, 900000
RULE = """A case is a document (schema version 48..51, packages, elements) generated from a hand-written table of the
supported AUTOSAR classes; the (class, attribute) pairs of the table are visited round robin, each embedded in a random
chain of owners up to a package element. The document is built through the public constructors, written with Writer,
read with Reader and compared attribute by attribute with the generated values. Non-trivial: at least three
attributes other than names are set."""


generate = c01_gen.generate
nontrivial = c01_gen.nontrivial
labels = c01_gen.labels


def run(case):
    """Oracle"""
    document = doc.build(case)
    d = doc.check(document, case, "after construction")
    if d:
        return d
    if case.get("file"):
        path = os.path.join(SCRATCH, "rt.arxml")
        ar_writer.Writer().write_file(document, path)
        with doc.captured() as buf:
            again = ar_reader.Reader().read_file(path)
        noise = buf.getvalue()
        os.unlink(path)
    else:
        again, noise = doc.read_quiet(ar_writer.Writer().write_str(document, bool(case["sv"] == 51)))
    if noise:
        return f"reading the written document printed: {noise.strip()[:400]}"
    if (case.get("file") or case["sv"] != 51) and again.schema_version != case["sv"]:
        return f"schema version {case['sv']} read back as {again.schema_version}"
    return doc.check(again, case, "after round trip")


shrink = doc.shrink

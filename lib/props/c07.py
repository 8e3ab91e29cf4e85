"""C07: reading and writing are deterministic, repeatable and free of side effects"""
import hashlib
import json
import os
import subprocess
import sys
import autosar.xml.element as ar_element
import autosar.xml.exception as ar_exception
import c01_gen
import doc
import interleave
from doc import ar_reader, ar_writer

ID = "C07"
SCRATCH = ""
QUICK, THOROUGH = 12000, 150000
RULE = """A case is a history of 3..10 operations on one Writer and one Reader shared by several documents: write to
string or file, write a single element, write a document that fails half way (element of a type unknown to the
library), read a document, a single element, malformed XML, a document with an invalid element, empty the objects that
were read or another document with the same values (nothing else may change). After every operation its result must equal that of a fresh instance, documents must be unchanged, writing what was read back must give the
same bytes. One case in 12 reads and writes the documents in threads of their own, which are switched at random lines of the
library. One case in 400 repeats writing and reading in processes with other hash seeds. Non-trivial: at least three
successful operations and two documents."""
OPS = ["write", "write", "writefile", "elem", "failwrite", "read", "read", "readfile", "readelem", "malformed",
       "invalid", "rewrite", "rewrite", "wreck"]
BROKEN = ["<AUTOSAR><AR-PACKAGES>", "", "<AUTOSAR></AR-PACKAGES>", "no xml", "<A>&undefined;</A>"]


def generate(rng, i, tier):
    """Case number i"""
    docs = []
    for k in range(rng.randint(1, 3)):
        d = c01_gen.generate(rng, i if k == 0 else rng.randrange(10**6), tier)
        d.pop("file", None)
        docs.append(_plain(d))
    ops = [[rng.choice(OPS), rng.randrange(len(docs)), rng.randrange(100)] for _ in range(rng.randint(3, 10))]
    case = {"docs": docs, "ops": ops, "proc": i % 400 == 7}
    if i % 12 == 5:
        case["threads"] = [rng.randrange(10**6), rng.choice([0.001, 0.01, 0.1])]
    return case


def _plain(v):
    """Without alignments that are normalized (0x10 is read as 16) and without minus zero (read as 0)"""
    if isinstance(v, dict):
        return {k: "8" if k == "alignment" and x in ("0x10", "0b11", "017") else _plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_plain(x) for x in v]
    return 0.0 if isinstance(v, float) and v == 0 else v


def nontrivial(case):
    """See RULE"""
    return len(case["docs"]) >= 2 and sum(1 for o in case["ops"] if o[0] not in ("malformed", "failwrite")) >= 3


def labels(case):
    """Distribution"""
    for o in case["ops"]:
        yield "operation " + o[0]
    if case["proc"]:
        yield "other processes"
    if case.get("threads"):
        yield "threads"


def _same(a, b):
    """Compare two documents by what a fresh Writer makes of them"""
    return ar_writer.Writer().write_str(a, False) == ar_writer.Writer().write_str(b, False)


def run(case):
    """Oracle"""
    docs = [doc.build(d) for d in case["docs"]]
    texts = [ar_writer.Writer().write_str(d, False) for d in docs]
    bare = [ar_writer.Writer().write_str(d) for d in docs]
    writer, reader = ar_writer.Writer(), ar_reader.Reader()
    path = os.path.join(SCRATCH, "h.arxml")
    for no, (op, k, x) in enumerate(case["ops"]):
        what = f"operation #{no} ({op})"
        if op == "write":
            got, want = (writer.write_str(docs[k], False), texts[k]) if x % 2 else (writer.write_str(docs[k]), bare[k])
            if got != want:
                return f"{what}: output differs from that of a new Writer: {_diff(want, got)}"
        elif op == "writefile":
            if x % 2:
                with open(path, "w", encoding="utf-8") as fh:
                    fh.write("old content" * 10000)
            writer.write_file(docs[k], path)
            with open(path, "rb") as fh:
                got = fh.read().decode("utf-8")
            if got.replace("\r\n", "\n") != texts[k]:
                return f"{what}: file differs from the string written: {_diff(texts[k], got)}"
        elif op == "elem":
            obj = _element(docs[k])
            if obj is not None:
                try:
                    want = ar_writer.Writer().write_str_elem(obj)
                except TypeError:
                    continue        # needs a tag
                got = writer.write_str_elem(obj)
                if got != want:
                    return f"{what}: output differs from that of a new Writer: {_diff(want, got)}"
        elif op == "failwrite":
            try:
                writer.write_str(_unwritable(), False)
            except Exception:  # pylint: disable=broad-except
                pass
        elif op in ("read", "readfile"):
            with doc.captured() as buf:
                if op == "read":
                    document = reader.read_str(texts[k])
                else:
                    with open(path, "w", encoding="utf-8") as fh:
                        fh.write(texts[k])
                        if x % 3:      # files of the same size
                            fh.write(" " * (max(len(y.encode()) for y in texts) - len(texts[k].encode())))
                    document = reader.read_file(path)
            d = doc.check(document, case["docs"][k], what) or doc.shared(document.packages)
            if d or buf.getvalue():
                return d or f"{what} printed {buf.getvalue()[:200]!r}"
            if document.schema_version != case["docs"][k]["sv"]:
                return f"{what}: schema version {document.schema_version}"
            if x % 4 == 0:
                doc.wreck(document)
        elif op == "wreck":
            doc.wreck(doc.build(case["docs"][k]))
        elif op == "readelem":
            obj = _element(docs[k])
            if obj is not None:
                try:
                    text = ar_writer.Writer().write_str_elem(obj)
                except TypeError:
                    continue
                with doc.captured():
                    again = reader.read_str_elem(text)
                if ar_writer.Writer().write_str_elem(again) != text:
                    return f"{what}: element read back differs: {_diff(text, ar_writer.Writer().write_str_elem(again))}"
                if x % 2:
                    doc.wreck(again)
        elif op == "malformed":
            try:
                reader.read_str(BROKEN[x % len(BROKEN)])
            except Exception:  # pylint: disable=broad-except
                pass
            else:
                return f"{what}: malformed XML was accepted"
        elif op == "invalid":
            bad = texts[k].replace("<SHORT-NAME>", "<SHORT-NAMES>", 1).replace("</SHORT-NAME>", "</SHORT-NAMES>", 1)
            try:
                with doc.captured():
                    reader.read_str(bad, x % 2 == 1)
            except (ar_exception.ParseError, AttributeError, TypeError, KeyError, ValueError):
                pass
        elif op == "rewrite":
            with doc.captured():
                document = reader.read_str(texts[k])
            got = writer.write_str(document, False)
            if got != texts[k]:
                return f"{what}: writing what was read gives another text: {_diff(texts[k], got)}"
            if x % 2:
                doc.wreck(document)
    for k, d in enumerate(docs):
        diff = doc.check(d, case["docs"][k], f"document #{k} after the operations")
        if diff:
            return diff
        if ar_writer.Writer().write_str(d, False) != texts[k]:
            return f"document #{k} is written differently after the operations"
    if case.get("threads"):
        diff = _threads(case, texts)
        if diff:
            return diff
    if case["proc"]:
        return _other_processes(case, texts)
    return None


def _threads(case, texts):
    """Readers and Writers in several threads"""
    texts = [t for t in texts if len(t) < 60000] * 2

    def job(text):
        def work():
            document = ar_reader.Reader().read_str(text)
            elem = _element(document)
            single = None
            if elem is not None:
                try:
                    single = ar_writer.Writer().write_str_elem(elem)
                    single = single, ar_writer.Writer().write_str_elem(ar_reader.Reader().read_str_elem(single))
                except TypeError:
                    pass  # needs a tag
            return ar_writer.Writer().write_str(document, False), single
        return work
    with doc.captured() as buf:
        results = interleave.run([job(t) for t in texts], *case["threads"])
    for k, (text, (result, exc)) in enumerate(zip(texts, results)):
        what = f"document #{k % len(case['docs'])} in one of {len(texts)} threads"
        if exc is not None:
            return f"{what}: {exc!r}"
        got, single = result
        if got != text:
            return f"{what}: reading and writing gives another text: {_diff(text, got)}"
        if single and single[0] != single[1]:
            return f"{what}: element read back differs: {_diff(*single)}"
    return f"threads: printed {buf.getvalue()[:200]!r}" if buf.getvalue() else None


def _diff(want, got):
    for a, b in zip(want.split("\n"), got.split("\n")):
        if a != b:
            return f"{b!r}, expected {a!r}"
    return f"length {len(got)}, expected {len(want)}"


def _element(document):
    """First element of a document"""
    p = document.packages[0]
    while not p.elements and p.packages:
        p = p.packages[0]
    return p.elements[0] if p.elements else None


class _Unknown(ar_element.ARElement):
    """Element type that the Writer does not know"""


def _unwritable():
    """Document that fails half way"""
    package = ar_element.Package("P")
    package.append(ar_element.SwBaseType("T"))
    sub = package.create_package("Q") if hasattr(package, "create_package") else package
    sub.append(_Unknown("U"))
    return doc.ar_document.Document(packages=[package], schema_version=48)


CHILD = """
import sys, json, hashlib
sys.path[:0] = json.loads(sys.argv[1])
import doc
cases = json.load(sys.stdin)
out = []
for c in cases:
    t = doc.ar_writer.Writer().write_str(doc.build(c), False)
    d, _ = doc.read_quiet(t)
    out.append([hashlib.sha256(t.encode()).hexdigest(),
                hashlib.sha256(doc.ar_writer.Writer().write_str(d, False).encode()).hexdigest()])
print(json.dumps(out))
"""


def _other_processes(case, texts):
    want = [hashlib.sha256(t.encode()).hexdigest() for t in texts]
    for seed in ("0", "1", "4711"):
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1")
        res = subprocess.run([sys.executable, "-B", "-c", CHILD, json.dumps(sys.path)], env=env, check=False,
                             input=json.dumps(case["docs"]), capture_output=True, text=True, timeout=120)
        if res.returncode != 0:
            return f"process with hash seed {seed}: {res.stderr[-500:]}"
        for k, (a, b) in enumerate(json.loads(res.stdout)):
            if a != want[k] or b != want[k]:
                return f"document #{k} is {'written' if a != want[k] else 'read'} differently with hash seed {seed}"
    return None


def shrink(case):
    """Simpler cases"""
    for i in range(len(case["ops"])):
        yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1:]}
    if case.get("threads"):
        yield {**case, "threads": None}
        yield {**case, "ops": []}
    if len(case["docs"]) > 1:
        for i in range(len(case["docs"])):
            yield {**case, "docs": case["docs"][:i] + case["docs"][i + 1:],
                   "ops": [[o, k - (k > i), x] for o, k, x in case["ops"] if k != i]}
    for i, d in enumerate(case["docs"]):
        for y in doc.shrink(d):
            yield {**case, "docs": case["docs"][:i] + [y] + case["docs"][i + 1:]}



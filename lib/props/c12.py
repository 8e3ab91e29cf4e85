"""C12: documents written by a workspace (stateful model)"""
import copy
import os
import shutil
import arschema as s
import autosar.xml.element as ar_element
import autosar.xml.workspace as ar_workspace
import argen as g
import c01_gen
import doc
from doc import CLASSES, ar_document, ar_reader, ar_writer
from props import c08

ID = "C12"
QUICK, THOROUGH = 12000, 200000
SCRATCH = None  # set by the runner
RULE = """A case is a workspace with generated elements in nested packages and a history of create_document (one, several,
nested, still missing or no packages; file names in sub-folders), create_document_mapping (element types, base types,
suffixes), set_document_root (absolute, relative or never called), additions of elements and packages, failing writes
(missing folder, a path that names an element) and write_documents with different schema versions, in empty folders or in
ones with older files of these names. After each write the
folder must contain exactly the expected files, each with the expected schema version, packages and elements (compared
with the generated value trees), and the workspace must be unchanged with all parents, references and paths.
Non-trivial: at least two written files."""
TYPES = sorted(c for c in CLASSES if CLASSES[c].collectable and c not in ("Package", "DataFilter"))
BASES = ["PortInterface", "SwComponentType", "AtomicSoftwareComponentType", "AutosarDataType", "ApplicationDataType",
         "ARElement"]
SUFFIXES = ["_Impl", "_Init", "_I", "nit", "X", "_I_I"]


def package_paths(packages, path, out):
    """Paths of packages"""
    for p in packages:
        out.append(f"{path}/{p['name']}")
        package_paths(p.get("packages", []), out[-1], out)
    return out


def lookup(packages, path):
    """Package or element of a path"""
    item = None
    for n in path.strip("/").split("/"):
        item = next((x for x in packages if x["name"] == n), None)
        if item is None:
            return None
        packages = item.get("packages", []) + item.get("elements", []) if item["$"] == "Package" else []
    return item


def overlap(a, b):
    """Whether one path is inside of the other"""
    a, b = a.strip("/") + "/", b.strip("/") + "/"
    return a.startswith(b) or b.startswith(a)


def generate(rng, i, tier):
    """Case number i"""
    case = c01_gen.generate(rng, i, tier)
    case.pop("file", None)
    packages = case["packages"]
    for _ in range(rng.choice([0, 1, 2])):  # more packages at all levels
        more = c01_gen.generate(rng, rng.randrange(10**5), tier)
        more = [p for p in more["packages"] if "array_impl_policy" not in str(p) or case["sv"] > 48]
        paths = package_paths(packages, "", [])
        where = lookup(packages, rng.choice(paths))
        (where.setdefault("packages", []) if rng.random() < 0.5 else packages).extend(more)
        g.uniquify({"packages": packages})
    paths = package_paths(packages, "", [])
    for path in paths:  # elements that belong together
        p = lookup(packages, path)
        for e in list(p.get("elements", [])):
            if rng.random() < 0.5:
                for suffix in rng.sample(SUFFIXES, rng.choice([1, 2, 3])):
                    if lookup([p], f"{p['name']}/{e['name']}{suffix}") is None:
                        kind = rng.choice(["Unit", e["$"], "ConstantSpecification"])
                        p["elements"].insert(rng.randrange(len(p["elements"]) + 1), {
                            **(e if kind == e["$"] else {"$": kind}), "name": e["name"] + suffix})
    ops = []
    files = ["a.arxml", "b.arxml", "Sub/c.arxml", "d.xml", "Name With Space.arxml", "ü.arxml"]
    for _ in range(rng.randrange(3, 12)):
        kind = rng.choice(["document"] * 4 + ["mapping"] * 3 + ["write"] * 3 + ["root", "add", "add", "bad"])
        if kind == "document" and files:
            refs = []
            chosen = rng.sample(paths, min(len(paths), rng.choice([0, 1, 1, 2, 3, 4])))
            if rng.random() < 0.3:
                missing = rng.choice(["/New/Package", "/New/Package", rng.choice(paths) + "/Missing", "/Missing"])
                chosen.insert(rng.randrange(len(chosen) + 1), missing)
            for path in chosen:
                if not any(overlap(path, r) for r in refs):
                    refs.append(path if rng.random() < 0.7 else path[1:])
            ops.append([kind, files.pop(0),
                        None if not refs else refs[0] if len(refs) == 1 and rng.random() < 0.5 else refs])
        elif kind == "mapping":
            path = rng.choice(paths)
            have = sorted({e["$"] for e in lookup(packages, path).get("elements", [])}) or ["Unit"]
            types = sorted({rng.choice(have if rng.random() < 0.8 else TYPES + BASES)
                            for _ in range(rng.choice([1, 1, 2, 3]))})
            suffixes = rng.sample(SUFFIXES, rng.choice([0, 1, 2, 3]))
            ops.append([kind, path, types[0] if len(types) == 1 and rng.random() < 0.5 else types,
                        suffixes[0] if len(suffixes) == 1 and rng.random() < 0.5 else
                        "" if not suffixes and rng.random() < 0.5 else suffixes])
        elif kind == "write":
            ops.append([kind, rng.choice([None, None, 49, 50, 51] + ([48] if case["sv"] == 48 else []))])
        elif kind == "root":
            ops.append([kind, rng.choice(["x", "y", "y/z", ".", ":x", ":y/z", ":."])])
        elif kind == "add":
            ops.append([kind, rng.choice(paths + ["/New/Package"]),
                        {"$": rng.choice(["Unit", "ApplicationSoftwareComponentType", "SenderReceiverInterface"]),
                         "name": rng.choice(["Added", "Added_Impl", "AddedX"])}])
        elif kind == "bad":
            ops.append([kind, rng.choice(["folder", "element", "constructor"])])
    ops.append(["write", None])
    case["ops"] = ops
    case["constructor"] = rng.random() < 0.3
    case["no_root"] = rng.random() < 0.2
    if rng.random() < 0.5:
        case["stale"] = rng.choice([1, 100, 10**5])
    return case


def pyclass(name):
    """Class of the library"""
    return CLASSES[name].py() if name in CLASSES else getattr(ar_element, name)


def expected_documents(packages, config):
    """Packages of a document"""
    out = []
    refs = config if isinstance(config, list) else [config] if config else []
    for ref in refs:
        package = lookup(packages, ref)
        if package is None:
            continue
        level = out
        names = ref.strip("/").split("/")
        for n in names[:-1]:
            parent = next((x for x in level if x["name"] == n), None)
            if parent is None:
                parent = {"$": "Package", "name": n}
                level.append(parent)
            level = parent.setdefault("packages", [])
        level.append(package)
    return out


def expected_mapping(packages, path, types, suffixes):
    """{file: packages} of a mapping"""
    out = {}
    package = lookup(packages, path)
    if package is None:
        return out
    elements = {e["name"]: e for e in package.get("elements", [])}
    types = tuple(pyclass(t) for t in ([types] if isinstance(types, str) else types))
    suffixes = [suffixes] if isinstance(suffixes, str) else suffixes
    for name, e in elements.items():
        if issubclass(CLASSES[e["$"]].py(), types):
            group = [name] + [name + x for x in suffixes if x and name + x in elements]
            tree = [elements[n] for n in sorted(group)]
            content = {"elements": tree}
            for n in reversed(path.strip("/").split("/")):
                content = {"packages": [{"$": "Package", "name": n, **content}]}
            out[name + ".arxml"] = content["packages"]
    return out


def check_workspace(ws, case, what):
    """Content, parents and references"""
    d = doc.check(ws, case, what)
    if d:
        return d
    out, seen = [], set()
    for p in ws.packages:
        c08.objects(p, "", "", out, seen)
        if p.parent is not ws:
            return f"{what}: parent of {p.name} is {p.parent}"
    for path, cls, owner, o in out:
        if (cls, owner) in c08.APART or (cls, None) in c08.APART:
            continue
        if o.root_collection() is not ws:
            return f"{what}: root_collection() of {cls} {path} is {o.root_collection()}"
        if cls in c08.DEST and str(o.ref()) != path:
            return f"{what}: reference of {cls} {path} is {o.ref()}"
        if owner in ("", "Package") and ws.find(path) is not o:
            return f"{what}: find({path!r}) is {ws.find(path)}"
    return None


STATS = [None, 0]


def run(case):
    """Oracle"""
    here = os.getcwd()
    try:
        return run_in(case)
    finally:
        os.chdir(here)


def run_in(case):
    """Oracle, in the folder of the documents"""
    base = os.path.join(SCRATCH, "c12")
    shutil.rmtree(base, ignore_errors=True)
    for folder in ("", "x", "y", "y/z"):
        os.makedirs(os.path.join(base, folder, "Sub"))
    STATS[:] = [case, 0]
    os.chdir(base)
    state = {"sv": 51, "packages": copy.deepcopy(case["packages"])}
    s.schema_version[0] = 51
    root = base
    if case.get("no_root"):
        ws = ar_workspace.Workspace()
        root = None
    elif case["constructor"]:
        ws = ar_workspace.Workspace(None, base)
    else:
        ws = ar_workspace.Workspace()
        ws.set_document_root(base)
    for p in state["packages"]:
        ws.append(CLASSES["Package"].build(p))
    documents, mappings = [], []
    for number, op in enumerate(case["ops"]):
        what = f"operation {number} ({op[:3]})"
        if op[0] == "document":
            documents.append(op)
            given = list(op[2]) if isinstance(op[2], list) else op[2]
            ws.create_document(op[1], given)
            if isinstance(given, list):
                if given != op[2]:
                    return f"{what}: the list of packages is changed to {given}"
                given.clear()  # it belongs to the caller
        elif op[0] == "mapping":
            mappings.append(op)
            types = pyclass(op[2]) if isinstance(op[2], str) else tuple(pyclass(t) for t in op[2])
            given = list(op[3]) if isinstance(op[3], list) else op[3]
            ws.create_document_mapping(op[1], types, given)
            if isinstance(given, list):
                given.clear()
        elif op[0] == "root":
            # ":x" is a folder relative to the working folder
            root = op[1][1:] if op[1][0] == ":" else os.path.join(base, op[1])
            ws.set_document_root(root)
        elif op[0] == "add":
            if lookup(state["packages"], op[1] + "/" + op[2]["name"]) is not None:
                continue
            package = ws.make_packages(op[1])
            package.append(CLASSES[op[2]["$"]].build(op[2]))
            level, target = state["packages"], None
            for n in op[1].strip("/").split("/"):
                target = next((x for x in level if x["name"] == n), None)
                if target is None:
                    target = {"$": "Package", "name": n}
                    level.append(target)
                level = target.setdefault("packages", [])
            target.setdefault("elements", []).append(op[2])
            for p in state["packages"]:
                prune(p)
        elif op[0] == "bad":
            d = failure(ws, op[1], state, base)
            if d:
                return f"{what}: {d}"
            root = root or "."
            ws.set_document_root(root)
        elif op[0] == "write":
            d = write(ws, op[1], root, state, documents, mappings, case.get("stale"))
            if d:
                return f"{what}: {d}"
        d = check_workspace(ws, state, f"workspace after {what}")
        if d:
            return d
    return None


def prune(tree):
    """Empty lists are not attributes"""
    for p in tree.get("packages", []):
        prune(p)
    if "packages" in tree and not tree["packages"]:
        del tree["packages"]


def failure(ws, kind, state, base):
    """A write that fails"""
    element = next((f"{p}/{e['name']}" for p in package_paths(state["packages"], "", [])
                    for e in lookup(state["packages"], p).get("elements", [])), None)
    if kind == "constructor" or kind == "element" and element is None:
        return None
    path = package_paths(state["packages"], "", [])[-1]
    if kind == "folder":
        ws.create_document("ok.arxml", path)
        ws.set_document_root(os.path.join(base, "missing"))
        error = OSError
    else:
        ws.create_document("ok.arxml", [path, element] if not overlap(path, element) else element)
        error = ValueError
    try:
        ws.write_documents()
    except error:
        ws.documents.pop()
        return None
    finally:
        if os.path.exists(os.path.join(base, "missing")):
            shutil.rmtree(os.path.join(base, "missing"))
    return "the write does not fail"


def listing(folder):
    """Files of a folder"""
    return sorted(os.path.relpath(os.path.join(d, f), folder) for d, _, files in os.walk(folder) for f in files)


def write(ws, sv, root, state, documents, mappings, stale):
    """Write and compare all files"""
    want = {op[1]: expected_documents(state["packages"], op[2]) for op in documents}
    for op in mappings:
        want.update(expected_mapping(state["packages"], *op[1:]))
    base = os.path.join(SCRATCH, "c12")
    for f in listing(base):
        if stale:  # files that are overwritten, or left alone
            with open(os.path.join(base, f), "w", encoding="utf-8") as fh:
                fh.write("old" * stale)
        else:
            os.remove(os.path.join(base, f))
    old = listing(base)
    if sv is None:
        ws.write_documents()
        sv = 51
    else:
        ws.write_documents(sv)
    root = root or "."
    prefix = os.path.relpath(os.path.join(base, root), base)
    names = sorted(os.path.normpath(os.path.join(prefix, f)) for f in want)
    for f in [f for f in old if f not in names]:
        with open(os.path.join(base, f), encoding="utf-8") as fh:
            if fh.read() != "old" * stale:
                return f"{f} is overwritten"
        os.remove(os.path.join(base, f))
    if listing(base) != names:
        return f"the files are {listing(base)}, expected {names}"
    STATS[1] += len(names)
    for name, packages in want.items():
        path = os.path.join(root, name)
        with open(path, encoding="utf-8") as fh:
            text = fh.read()
        d = doc.check_root(text, doc.ET.fromstring(text.encode("utf-8")), sv)
        if d:
            return f"{name}: {d}"
        with doc.captured() as buf:
            document = ar_reader.Reader().read_file(path)
        d = doc.check(document, {"sv": sv, "packages": packages}, name)
        if d or buf.getvalue():
            return d or f"{name}: reading prints {buf.getvalue()[:200]!r}"
        if document.schema_version != sv:
            return f"{name}: schema version {document.schema_version}, expected {sv}"
        if text != ar_writer.Writer().write_str(doc.build({"sv": sv, "packages": packages}), False):
            return f"{name}: the text is not the one of a document that has these packages"
    return None


def nontrivial(case):
    """See RULE"""
    if STATS[0] is not case:
        run(case)
    return STATS[1] >= 2


def labels(case):
    """Distribution"""
    for op in case["ops"]:
        yield "operation " + op[0]
        if op[0] == "document":
            yield f"packages {len(op[2]) if isinstance(op[2], list) else 1 if op[2] else 0}"
    yield f"files {min(STATS[1], 20)}"


def shrink(case):
    """Simpler cases"""
    ops = case["ops"]
    for i in range(len(ops)):
        yield {**case, "ops": ops[:i] + ops[i + 1:]}
    for i, op in enumerate(ops):
        if op[0] == "document" and isinstance(op[2], list) and len(op[2]) > 1:
            for k in range(len(op[2])):
                yield {**case, "ops": ops[:i] + [[op[0], op[1], op[2][:k] + op[2][k + 1:]]] + ops[i + 1:]}
    for c in doc.shrink(case):
        yield {**case, **c}


__all__ = ["ar_document"]

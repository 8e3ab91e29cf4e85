"""C13: configuration files do the same as the corresponding calls"""
import json
import os
import shutil
import tomllib
import argen as g
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.workspace as ar_workspace
import c01_gen
import runner
from doc import CLASSES
from props import c11, c12

ID = "C13"
QUICK, THOROUGH = 30000, 250000
SCRATCH = None  # set by the runner
RULE = """A case is one or two configurations (namespaces, documents, document mappings, behavior settings in any order)
written as TOML in different notations (sections, dotted keys, inline tables, quoted keys, kinds of strings, arrays over
several lines, comments) and loaded by the constructor or load_config(), and a workspace content. The package of each role
of each namespace, all behavior settings and the files of write_documents() must be those of a second workspace that
is set up by create_namespace(), create_document(), create_document_mapping() and behavior_settings. A configuration
with a mistake must be rejected with the error of the mistake. Non-trivial: at least three sections, or a mistake."""
BEHAVIOR = sorted(vars(ar_element.BehaviorSettings()))
SUFFIXES = ["_Impl", "_X", "_Init"]
MISTAKES = ["no package_ref", "no element_types", "unknown element", "element number", "no elements", "unknown behavior",
            "behavior number", "unknown role", "suffix number", "behavior method", "package number", "element of list",
            "suffix of list", "no element class"]
ERRORS = {"no package_ref": KeyError, "no element_types": KeyError, "unknown element": ValueError,
          "element number": ValueError, "no elements": ValueError, "unknown behavior": KeyError,
          "behavior number": TypeError, "unknown role": KeyError, "suffix number": ValueError, "behavior method": KeyError,
          "package number": (ValueError, TypeError), "element of list": (ValueError, TypeError),
          "suffix of list": (ValueError, TypeError), "no element class": ValueError}
NO_ELEMENTS = ["re", "Any", "Union", "dataclass", "split_ref", "alignment_type_re", "OrderedDict", "ar_enum", "InitValueArgType",
               "make_unique_name_in_list", "unit", "", "Unit ", "__name__", "Unit.name"]


def generate(rng, i, tier):
    """Case number i"""
    case = c01_gen.generate(rng, i, tier)
    packages = case["packages"]
    paths = c12.package_paths(packages, "", [])
    for path in paths:
        p = c12.lookup(packages, path)
        for e in list(p.get("elements", [])):
            for suffix in SUFFIXES:
                if rng.random() < 0.3:
                    p["elements"].append({"$": rng.choice(["Unit", "ConstantSpecification"]),
                                          "name": e["name"] + suffix})
    g.uniquify({"packages": packages})
    return {"packages": packages, "sv": case["sv"], "constructor": rng.random() < 0.5,
            "configs": [config(rng, packages, paths) for _ in range(rng.choice([1, 1, 1, 2]))],
            "style": rng.randrange(10**6), "mistake": rng.choice(MISTAKES) if i % 6 == 5 else None}


def config(rng, packages, paths):
    """A configuration"""
    out = {}
    if rng.random() < 0.75:
        out["namespace"] = {}
        for name in rng.sample(c11.NAMESPACES + ["With Space", "ä.b", "behavior", "document"], rng.choice([1, 1, 2, 3])):
            op = c11.namespace(rng, name)
            out["namespace"][name] = dict(op[2])
            if op[3] is not None:
                out["namespace"][name]["base_ref"] = op[3]
                if rng.random() < 0.5:  # in any order
                    keys = list(out["namespace"][name])
                    rng.shuffle(keys)
                    out["namespace"][name] = {k: out["namespace"][name][k] for k in keys}
    if rng.random() < 0.75:
        out["document"] = {}
        for name in rng.sample(["A", "B.C", "Data Types", "d-e_f", "Ü", "packages", "namespace"], rng.choice([1, 1, 2, 3])):
            refs = []
            for path in rng.sample(paths, min(len(paths), rng.choice([0, 1, 1, 2, 3]))):
                if not any(c12.overlap(path, r) for r in refs):
                    refs.append(path)
            table = {} if not refs and rng.random() < 0.5 else {
                "packages": refs[0] if len(refs) == 1 and rng.random() < 0.5 else refs}
            out["document"][name] = table
    if rng.random() < 0.75:
        out["document_mapping"] = {}
        for name in rng.sample(["M1", "Components", "m 3", "package_ref", "document"], rng.choice([1, 1, 2])):
            path = rng.choice(paths)
            have = sorted({e["$"] for e in c12.lookup(packages, path).get("elements", [])}) or ["Unit"]
            have = [CLASSES[c].pyname for c in have]
            types = sorted({rng.choice(have if rng.random() < 0.8 else c12.BASES) for _ in range(rng.choice([1, 2, 3]))})
            table = {"package_ref": path, "element_types": types[0] if len(types) == 1 and rng.random() < 0.6 else types}
            if rng.random() < 0.7:
                table["suffix_filters"] = rng.choice([
                    "_Impl", ["_Impl"], [], rng.sample(SUFFIXES, 2), rng.sample(SUFFIXES, 3), ["_X", ""], "", "_X,_Impl", ["_Init _X", "_Impl"]])
            out["document_mapping"][name] = table
    if rng.random() < 0.75:
        out["behavior"] = {k: rng.choice(["BT", "P_", "x", "Ä", "a\"b", ""])
                           for k in rng.sample(BEHAVIOR, rng.randrange(1, len(BEHAVIOR)))}
    keys = list(out)
    rng.shuffle(keys)
    return {k: out[k] for k in keys}


def break_config(conf, mistake):
    """Adds a mistake"""
    conf = {k: dict(v) for k, v in conf.items()}
    mapping = {"package_ref": "/P", "element_types": ["Unit"], "suffix_filters": ["_X"]}
    if mistake == "no package_ref":
        del mapping["package_ref"]
    elif mistake == "no element_types":
        del mapping["element_types"]
    elif mistake == "unknown element":
        mapping["element_types"] = ["Unit", "Units"]
    elif mistake == "package number":
        mapping["package_ref"] = (5, ["P"], True, 0)[len(conf) % 4]
    elif mistake == "element of list":
        mapping["element_types"] = ["Unit", 5] if len(conf) % 2 else [["Unit"]]
    elif mistake == "suffix of list":
        mapping["suffix_filters"] = ["_X", 5] if len(conf) % 2 else [["_X"]]
    elif mistake == "no element class":
        name = NO_ELEMENTS[sum(map(len, json.dumps(conf))) % len(NO_ELEMENTS)]
        mapping["element_types"] = name if len(conf) % 2 else ["Unit", name]
    elif mistake == "element number":
        mapping["element_types"] = 5
    elif mistake == "no elements":
        mapping["element_types"] = []
    elif mistake == "suffix number":
        mapping["suffix_filters"] = 5
    elif mistake == "unknown behavior":
        conf.setdefault("behavior", {})["unknown_prefix"] = "X"
        return conf
    elif mistake == "behavior method":
        conf.setdefault("behavior", {})[("get_value", "set_default", "__doc__")[len(conf) % 3]] = "X"
        return conf
    elif mistake == "behavior number":
        conf.setdefault("behavior", {})["init_event_prefix"] = 5
        return conf
    elif mistake == "unknown role":
        conf.setdefault("namespace", {})["Wrong"] = {"Units": "P"}
        return conf
    conf.setdefault("document_mapping", {})["Wrong"] = mapping
    return conf


def string(rng, text):
    """TOML string"""
    kind = rng.randrange(3)
    if kind == 0 and "'" not in text:
        return f"'{text}'"
    if kind == 1 and '"' not in text and "\\" not in text:
        return f'"""{text}"""'
    return '"' + text.replace("\\", "\\\\").replace('"', '\\"') + '"'


def key(rng, text):
    """TOML key"""
    bare = text.replace("_", "").replace("-", "").isalnum() and text.isascii()
    return text if bare and rng.random() < 0.8 else '"' + text + '"'


def value(rng, val):
    """TOML value"""
    if isinstance(val, list):
        if rng.random() < 0.5:
            return "[" + ", ".join(value(rng, x) for x in val) + "]"
        return "[ # list\n" + "".join(f"    {value(rng, x)},\n" for x in val) + "]"
    return string(rng, val) if isinstance(val, str) else str(val).lower()


def to_toml(rng, conf):
    """TOML text of a configuration"""
    lines, first = ["# Configuration"], []
    for section, tables in conf.items():
        if section == "behavior":
            if rng.random() < 0.8:
                lines.append(f"[{key(rng, section)}]")
                lines += [f"    {key(rng, k)} = {value(rng, v)}" for k, v in tables.items()]
            else:
                first += [f"{section}.{key(rng, k)} = {value(rng, v)} # setting" for k, v in tables.items()]
            continue
        style = rng.randrange(4)
        if style == 0 and all(tables.values()):
            first += [f"{section}.{key(rng, n)}.{key(rng, k)} = {value(rng, v)}" for n, t in tables.items()
                      for k, v in t.items()]
        elif style == 1:
            lines.append(f"[{section}]")
            lines += [f"{key(rng, n)} = {{" + ", ".join(f"{key(rng, k)} = {value(rng, v)}" for k, v in t.items()) +
                      "}" for n, t in tables.items()]
        else:
            for n, t in tables.items():
                lines += ["", f"[{section}.{key(rng, n)}]"]
                lines += [f"  {key(rng, k)} = {value(rng, v)}" for k, v in t.items()]
    text = "\n".join(first + lines) + "\n"
    try:
        if tomllib.loads(text) != conf:
            raise runner.HarnessError(f"not the same configuration: {text}")
    except tomllib.TOMLDecodeError as exc:
        raise runner.HarnessError(f"{exc}: {text}") from exc
    return text


def by_calls(ws, conf):
    """The same with calls"""
    for name, table in conf.get("namespace", {}).items():
        ws.create_namespace(name, {k: v for k, v in table.items() if k != "base_ref"}, table.get("base_ref"))
    for name, table in conf.get("document", {}).items():
        ws.create_document(name + ".arxml", table.get("packages"))
    for table in conf.get("document_mapping", {}).values():
        types = table["element_types"]
        types = tuple(getattr(ar_element, t) for t in ([types] if isinstance(types, str) else types))
        ws.create_document_mapping(table["package_ref"], types, table.get("suffix_filters", []))
    for name, text in conf.get("behavior", {}).items():
        ws.behavior_settings.set_value(name, text)


def role_of(name):
    """Argument of get_package_ref_by_role"""
    return name[1:] if name.startswith("!") else getattr(ar_enum.PackageRole, c11.ROLES[name])


def run(case):
    """Oracle"""
    import random  # pylint: disable=import-outside-toplevel
    rng = random.Random(case["style"])
    base = os.path.join(SCRATCH, "c13")
    shutil.rmtree(base, ignore_errors=True)
    for n in "ab":
        os.makedirs(os.path.join(base, n))
    files = []
    for n, conf in enumerate(case["configs"]):
        files.append(os.path.join(base, f"{n}.toml"))
        with open(files[-1], "w", encoding="utf-8") as fh:
            fh.write(to_toml(rng, break_config(conf, case["mistake"]) if case["mistake"] else conf))
    root_a = os.path.join(base, "a")
    if case["mistake"]:
        try:
            if case["constructor"]:
                ar_workspace.Workspace(files[0], root_a)
            else:
                ar_workspace.Workspace().load_config(files[0])
        except ERRORS[case["mistake"]]:
            return None
        return f"configuration with {case['mistake']} is accepted"
    if case["constructor"]:
        a = ar_workspace.Workspace(files.pop(0), root_a)
    else:
        a = ar_workspace.Workspace(document_root=root_a)
    for f in files:
        a.load_config(f)
    b = ar_workspace.Workspace(None, os.path.join(base, "b"))
    for conf in case["configs"]:
        by_calls(b, conf)
    if sorted(a.namespaces) != sorted(b.namespaces):
        return f"namespaces {sorted(a.namespaces)}, expected {sorted(b.namespaces)}"
    for name in b.namespaces:
        for role in c11.ROLES:
            got, e1 = c11.attempt(a.get_package_ref_by_role, name, role_of(role))
            want, e2 = c11.attempt(b.get_package_ref_by_role, name, role_of(role))
            if got != want or type(e1) is not type(e2):
                return f"package of role {role} in namespace {name} is {got or e1}, expected {want or e2}"
    got, want = ([getattr(x, "file_path", None) for x in ws.documents] for ws in (a, b))
    if got != want:
        return f"documents {got}, expected {want}"
    if len(a.document_mappings) != len(b.document_mappings):
        return f"{len(a.document_mappings)} document mappings, expected {len(b.document_mappings)}"
    settings: dict = dict.fromkeys(BEHAVIOR)
    for conf in case["configs"]:
        settings.update(conf.get("behavior", {}))
    for ws in (a, b):
        for k, v in settings.items():
            got, error = c11.attempt(ws.behavior_settings.get_value, k)
            if got != v or (v is None) != isinstance(error, ValueError):
                return f"behavior setting {k} is {got!r}, expected {v!r}"
    for ws in (a, b):
        for p in case["packages"]:
            ws.append(CLASSES["Package"].build(p))
        ws.write_documents()
    content = []
    for n in "ab":
        content.append({})
        for f in c12.listing(os.path.join(base, n)):
            with open(os.path.join(base, n, f), "rb") as fh:
                content[-1][f] = fh.read()
    if sorted(content[0]) != sorted(content[1]):
        return f"written files {sorted(content[0])}, expected {sorted(content[1])}"
    for f, text in content[0].items():
        if text != content[1][f]:
            return f"file {f} differs from the one written without configuration file"
    names = {n + ".arxml" for conf in case["configs"] for n in conf.get("document", {})}
    if not names <= set(content[0]):
        return f"written files {sorted(content[0])}, expected {sorted(names)}"
    return None


def nontrivial(case):
    """See RULE"""
    return bool(case["mistake"]) or sum(len(t) if k != "behavior" else 1
                                        for conf in case["configs"] for k, t in conf.items()) >= 3


def labels(case):
    """Distribution"""
    if case["mistake"]:
        yield "mistake " + case["mistake"]
    for conf in case["configs"]:
        for k in conf:
            yield "section " + k
    yield "constructor" if case["constructor"] else "load_config"


def shrink(case):
    """Simpler cases"""
    confs = case["configs"]
    if len(confs) > 1:
        yield {**case, "configs": confs[:1]}
        yield {**case, "configs": confs[1:]}
    for i, conf in enumerate(confs):
        for k, t in conf.items():
            yield {**case, "configs": confs[:i] + [{a: b for a, b in conf.items() if a != k}] + confs[i + 1:]}
            for n in t:
                if len(t) > 1:
                    yield {**case, "configs": confs[:i] + [{**conf, k: {a: b for a, b in t.items() if a != n}}] +
                           confs[i + 1:]}

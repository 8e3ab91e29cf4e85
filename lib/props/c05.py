"""C05: reader completeness on ARXML written by other tools"""
import json
import os
import random
import re
import doc
import c01_gen
from doc import ar_reader, s
import autosar.xml.element as ar_element
import autosar.xml.document as ar_document

ID = "C05"
SCRATCH = ""
QUICK, THOROUGH = 120000, 900000
FEATURES = ["comments", "pis", "cdata", "charrefs", "quotes", "attrs", "lexical", "entities"]
SILENT = {"Annotation", "DataConstraintRule", "DataTypeMap", "ExclusiveArea", "ExternalTriggeringPointIdent",
          "InternalConstraint", "InvalidationPolicy", "ModeAccessPointIdent", "ModeErrorBehavior",
          "MultiLanguageOverviewParagraph", "MultiLanguageParagraph", "MultiLanguageVerbatim",
          "MultilanguageLongName", "PModeGroupInAtomicSwcInstanceRef", "RModeGroupInAtomicSwcInstanceRef",
          "PhysicalConstraint", "ScaleConstraint", "SwDataDefProps", "ValueList"}
# schema elements that are not supported and passed over silently, per class
with open(os.path.join(os.path.dirname(__file__), "..", "skips.json"), encoding="utf-8") as _fh:
    SKIPS = json.load(_fh)
# inline elements of texts that are not supported: reported and passed over
INLINE = {"L-2": ["FT", "TRACE-REF", "XREF"], "L-5": ["XREF"],
          "L-1": ["FT", "STD", "TRACE-REF", "XDOC", "XFILE", "XREF", "XREF-TARGET"]}
# ways to name the schema file
LOCATIONS = ["{ns} {f}.xsd", "{ns}\n    {f}.xsd", " {ns} {f}.xsd ", "{ns} {f}_STRICT.xsd", "{ns} {f}_STRICT_COMPACT.xsd",
             "{ns} {f}_COMPACT.xsd", "{ns} ../schema/{f}.xsd", "{xml} xml.xsd {ns} {f}.xsd", "{ns} {f}.xsd {xml} xml.xsd",
             "{ns} file:///opt/AUTOSAR_R4-0/AUTOSAR-00046/{f}.xsd"]
DEFAULT = ["", "{ns}", "{ns} schema.xsd"]      # schema version 51
USED = (f'<AUTOSAR xmlns="{doc.NS}" xmlns:xsi="{doc.XSI}" xsi:schemaLocation="{doc.NS} AUTOSAR_00049.xsd">')
TOP = ["FILE-INFO-COMMENT", "ADMIN-DATA", "INTRODUCTION"]
RULE = """A case is a document of C01 that is serialized by the check itself from the schema table, the way other tools
do: name space prefix or default name space, any indentation and line ends or none, comments and processing
instructions between elements and inside text, CDATA sections, character references, single quotes, S, T and xml:space attributes, left out defaults,
other ways to name the schema, other elements before the packages, hexadecimal, binary, signed and exponent forms of numbers, 0/1 for Booleans, byte order mark, UTF-8, UTF-16, ISO-8859-1
or US-ASCII files, unknown elements and such of other name spaces inside packages, lists of packages, elements and nested objects, schema elements that are not supported. What the Reader returns must equal
the generated values, administrative data included (of groups with several SD it reads one: not compared); each tag of an unknown element is reported once, and nothing else. Non-trivial: at least one of
these features is used and at least two attributes other than names are set."""


def generate(rng, i, tier):
    """Case number i"""
    case = c01_gen.generate(rng, i, tier)
    case.pop("file", None)
    case["style"] = {
        "seed": rng.randrange(10**9),
        "features": [f for f in FEATURES if rng.random() < 0.35],
        "newline": rng.choice([None, "\n", "\n", "\r\n"]),
        "indent": rng.choice(["", " ", "  ", "    ", "\t"]),
        "prefix": rng.choice(["", "", "", "AR:", "x:"]),
        "encoding": rng.choice([None, None, None, "utf-8", "utf-8-sig", "utf-16", "iso-8859-1", "us-ascii"]),
        "decl": rng.choice(["", '<?xml version="1.0"?>', "<?xml version='1.0' encoding='UTF-8' standalone='no'?>\n"]),
        "unknown": rng.random() < 0.3,
        "skips": rng.random() < 0.2,
        "warn": rng.random() < 0.9,
        "used": rng.random() < 0.3,
        "full": rng.random() < 0.3,
        "location": rng.choice(LOCATIONS + DEFAULT * (case["sv"] == 51)) if rng.random() < 0.3 else LOCATIONS[0],
        "xsi": rng.choice(["xsi", "xsi", "xsi", "x1"]),
        "top": [t for t in TOP if rng.random() < 0.1],
    }
    return case


def nontrivial(case):
    """See RULE"""
    st = case["style"]
    return bool(st["features"] or st["prefix"] or st["encoding"] or st["unknown"] or st["skips"]) and c01_gen.nontrivial(case)


def labels(case):
    """Distribution"""
    st = case["style"]
    for f in st["features"]:
        yield "feature " + f
    yield f"encoding {st['encoding']}"
    if st["prefix"]:
        yield "feature prefix"
    if st["unknown"]:
        yield "feature unknown elements"
    if st["skips"]:
        yield "feature unsupported elements"
    if st["used"]:
        yield "feature used reader"
    if st["newline"] is None:
        yield "feature no white space"


def serialize(case):
    """Text and the unknown tags"""
    st = case["style"]
    rng = random.Random(st["seed"])
    injected: list = []
    silent: list = []      # reporting is left open
    admin: list = []
    names = ["X-UNKNOWN", "X-VENDOR-EXTENSION", "SHORT-NAMES", "X-1"]
    body = ["", "text", "<{p}SHORT-NAME>Q</{p}SHORT-NAME>", "<{p}AR-PACKAGE><{p}SHORT-NAME>Q</{p}SHORT-NAME></{p}AR-PACKAGE>",
            "<{p}X-INNER UUID='1'/>"]

    def foreign(node):
        if st["skips"] and node.cls in SKIPS and rng.random() < 0.4 and not (
                node.children and isinstance(node.children[0], str)):
            p = st["prefix"]
            out = []
            for t in rng.sample(SKIPS[node.cls], rng.randint(1, min(3, len(SKIPS[node.cls])))):
                inner = rng.choice(body).format(p=p)
                if t == "ADMIN-DATA":
                    inner, data = admin_data(rng, p)
                    if node.cls not in NO_ADMIN:
                        admin.append(data)
                place = len(node.children) if node.cls == "ValueGroup" else rng.randint(0, len(node.children))
                out.append((place, f"<{p}{t}>{inner}</{p}{t}>"))
            return out
        if not st["unknown"] or rng.random() > 0.25:
            return []
        if node.tag == "AR-PACKAGES" and rng.random() < 0.5:  # reporting is left open
            tag, p = rng.choice(names), st["prefix"]
            silent.append(tag)
            return [(rng.randint(0, len(node.children)), f"<{p}{tag}>{rng.choice(body).format(p=p)}</{p}{tag}>")]
        listed = node.tag == "ELEMENTS" and node.cls == "" and node.children and \
            getattr(node.children[0], "cls", "") in COLLECTABLE
        if not (node.cls and node.children and not isinstance(node.children[0], str)) and not listed:
            return []
        if rng.random() < 0.2:  # an element of another name space is not the one of AUTOSAR with this name
            tag = rng.choice([c.tag for c in node.children if isinstance(c, s.Node)] + ["SHORT-NAME", "CATEGORY", "ELEMENTS", "AR-PACKAGES"])
            silent.append("{urn:vendor}" + tag)
            return [(len(node.children) if node.cls == "ValueGroup" else rng.randint(0, len(node.children)),
                     f"<v:{tag} xmlns:v='urn:vendor'>{rng.choice(body).format(p=st['prefix'])}</v:{tag}>")]
        tag = rng.choice(names)
        (silent if node.cls in SILENT else injected).append(tag)
        p = st["prefix"]
        return [(len(node.children) if node.cls == "ValueGroup" else rng.randint(0, len(node.children)), f"<{p}{tag}>{rng.choice(body).format(p=p)}</{p}{tag}>")]
    node = doc.emit(case)
    if st["skips"] and rng.random() < 0.5:
        inline(node, rng, injected)
    loc = st["location"].format(ns=doc.NS, f=f"AUTOSAR_{case['sv']:05d}", xml="http://www.w3.org/XML/1998/namespace")
    node.attrs = {st["xsi"] + ":schemaLocation": loc} if loc else {}
    for k, tag in enumerate(st["top"]):  # left out by the Reader, whether it reports them or not
        node.children.insert(k, s.Node(tag, children=[s.Node("SDGS"), s.Node("X-1")] if k % 2 else []))
        silent.extend([tag])
    charset = st["encoding"] if st["encoding"] in ("iso-8859-1", "us-ascii") else None
    style = s.Style(rng, st["features"], st["newline"], st["indent"], charset, st["prefix"], foreign)
    style.rng = rng
    decl = f' xmlns{":" + st["prefix"][:-1] if st["prefix"] else ""}="{doc.NS}" xmlns:{st["xsi"]}="{doc.XSI}"'
    text = style.dump(node, 0, decl)
    if style.entities or "entities" in st["features"] and rng.random() < 0.5:
        text = f"<!DOCTYPE {st['prefix']}AUTOSAR [" + "".join(
            f'<!ENTITY e{k} "{v}">\n' for k, v in enumerate(style.entities, 1)) + "]>" + text
    if "comments" in st["features"]:
        text = "<!-- head -->\n" + text + "\n<!-- tail -->\n"
    return text, injected, silent, admin


def admin_data(rng, p):
    """Contents of ADMIN-DATA as the schema allows them and the groups that the Reader gives; it doesn't support several SD"""
    def tag(name, body, **attrs):
        return f"<{p}{name}" + "".join(f' {k.replace("_", ":")}="{v}"' for k, v in attrs.items()) + f">{body}</{p}{name}>"

    def data(depth, found):
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            kind = rng.choice(["SD", "SD", "SD", "SDF", "SDG", "SD-REF"])
            gid = {"GID": rng.choice(["a", "DV:Mode", "b-1"])} if rng.random() < 0.8 else {}
            if kind == "SDG" and depth:
                out.append(tag("SDG", data(depth - 1, []), **gid))
            elif kind == "SD-REF":
                out.append(tag(kind, "/A/B", DEST="UNIT"))
            elif kind == "SDF":
                out.append(tag(kind, "1.5", **gid))
            else:
                value = rng.choice(["", "1", " x ", "a &lt; b"])
                out.append(tag("SD", value, **gid))
                found.append({gid.get("GID"): value.replace("&lt;", "<") or None})
        return "".join(out)
    out, result = "", None
    if rng.random() < 0.3:
        out += tag("LANGUAGE", "EN") + tag("USED-LANGUAGES", tag("L-10", "English", L="EN", xml_space="default"))
    if rng.random() < 0.3:
        out += tag("DOC-REVISIONS", tag("DOC-REVISION", tag("REVISION-LABEL", "1.0") + tag("DATE", "2024-01-01")))
    if rng.random() < 0.7:
        groups, result = [], []
        for _ in range(rng.choice([0, 1, 1, 2])):
            gid = {"GID": rng.choice(["Group", "EV:IM"])} if rng.random() < 0.8 else {}
            caption = tag("SDG-CAPTION", tag("SHORT-NAME", "Caption")) if rng.random() < 0.2 else ""
            found = []
            groups.append(tag("SDG", caption + data(2, found), **gid))
            result.append({gid.get("GID"): {} if not found else found[0] if len(found) == 1 else "several"})
        out += tag("SDGS", "".join(groups))
    return out, result


def inline(node, rng, injected):
    """Puts unsupported elements into mixed contents"""
    if node.tag in INLINE and rng.random() < 0.5:
        tag = rng.choice(INLINE[node.tag])
        node.children.insert(rng.randint(0, len(node.children)), s.Node(tag, children=[rng.choice(["", "text"])]))
        injected.append(tag)
        return
    for child in node.children:
        if not isinstance(child, str):
            inline(child, rng, injected)


def case_has(text, number, tag):
    """Whether there is a start tag in the line; the line before the text may be that of the XML declaration, and the parser
    gives the line where the start tag ends"""
    for m in re.finditer(f"<{tag}(?:\\s[^<>]*)?>", text):
        first, last = text.count("\n", 0, m.start()) + 1, text.count("\n", 0, m.end()) + 1
        if first <= number <= last + 1:
            return True
    return False


def admin_of(obj, out):
    """Administrative data of all objects"""
    if isinstance(obj, (list, tuple)):
        for x in obj:
            admin_of(x, out)
    elif isinstance(obj, (ar_element.ARObject, ar_document.Document)):
        for k, x in sorted(vars(obj).items()):
            if k == "admin_data" and x is not None:
                out.append(x.data)
            elif k != "parent" and isinstance(x, (list, tuple, ar_element.ARObject)):
                admin_of(x, out)


def check_admin(document, want):
    """Administrative data, in any order"""
    got: list = []
    admin_of(document, got)
    if len(got) != len(want):
        return f"administrative data of {len(got)} objects, expected {len(want)}"
    if "several" in repr(want):
        return None
    def key(data):
        return repr([sorted((str(k), sorted((str(a), b or "") for a, b in v.items())) for k, v in d.items()) for d in data]
                    if data is not None else None)
    got, want = sorted(map(key, got)), sorted(map(key, want))
    for a, b in zip(got, want):
        if a != b:
            return f"administrative data {a}, expected {b}"
    return None


NO_ADMIN = {"EndToEndTransformationComSpecProps"}     # not supported there
COLLECTABLE = {n for n, c in doc.CLASSES.items() if c.collectable}


def run(case):
    """Oracle"""
    st = case["style"]
    text, injected, silent, admin = serialize(case)
    reader = ar_reader.Reader(warn_on_unprocessed_element=st["warn"], use_full_path_on_warning=st["full"])
    if st["used"]:  # the Reader has read another document with unknown elements
        with doc.captured():
            reader.read_str(USED + "<AR-PACKAGES><AR-PACKAGE><SHORT-NAME>P</SHORT-NAME><ELEMENTS><X-UNKNOWN/><X-1/>"
                            "<X-VENDOR-EXTENSION/><SHORT-NAMES/></ELEMENTS></AR-PACKAGE></AR-PACKAGES></AUTOSAR>")
    name = ""
    if st["encoding"] is None:
        with doc.captured() as buf:
            document = reader.read_str((st["decl"] if text[0] != "\n" else "") + text)
    else:
        enc = st["encoding"]
        label = {"utf-8-sig": "utf-8"}.get(enc, enc)
        path = os.path.join(SCRATCH, "in.arxml")
        name = path if st["full"] else "in.arxml"
        with open(path, "wb") as fh:
            fh.write(f'<?xml version="1.0" encoding="{label}"?>\n{text}'.encode(enc))
        with doc.captured() as buf:
            document = reader.read_file(path)
        os.unlink(path)
    d = doc.check(document, case, "as read")
    if d:
        return d
    d = check_admin(document, admin)
    if d:
        return d
    if document.schema_version != case["sv"]:
        return f"schema version {document.schema_version}, expected {case['sv']}"
    got = sorted(line.rpartition("<")[2].rstrip(">") for line in buf.getvalue().splitlines() if "Unprocessed" in line)
    want = sorted(set(injected)) if st["warn"] else []
    if len(got) != len(set(got)) or not set(want) <= set(got) <= set(want) | set(silent if st["warn"] else []):
        return f"reported as unprocessed: {got}, expected {want}"
    for line in buf.getvalue().splitlines():
        match = re.fullmatch(re.escape(name) + r"\((\d+)\): Unprocessed element <(.*)>", line)
        if not match:
            return f"report without file name {name!r} and line: {line!r}"
        if int(match[1]) < 65535 and not case_has(
                text, int(match[1]), match[2].replace("{urn:vendor}", "v:") if match[2][0] == "{" else st["prefix"] + match[2]):
            return f"report {line!r}: there is no such element in line {match[1]}"
    noise = [line for line in buf.getvalue().splitlines() if "Unprocessed" not in line]
    if noise:
        return f"reading printed {noise[:3]}"
    return None


def shrink(case):
    """Simpler cases"""
    st = case["style"]
    for f in st["features"]:
        yield {**case, "style": {**st, "features": [x for x in st["features"] if x != f]}}
    for k, v in (("unknown", False), ("skips", False), ("used", False), ("encoding", None), ("prefix", ""), ("decl", ""), ("newline", "\n"),
                 ("location", LOCATIONS[0]), ("xsi", "xsi"), ("top", []),
                 ("indent", "  ")):
        if st[k] != v:
            yield {**case, "style": {**st, k: v}}
    for sd in range(3):
        if st["seed"] > 3:
            yield {**case, "style": {**st, "seed": sd}}
    for c in doc.shrink(case):
        yield {**c, "style": st}

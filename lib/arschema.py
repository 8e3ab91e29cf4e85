"""
Independent, table-driven model of the AUTOSAR XML subset that cogu/autosar supports.

Nothing in this file is derived from the reader, writer or element implementation at run time: tables of
(attribute, XML tag, kind) are written out by hand in `artables.py`. From a table we obtain

* a generator (Hypothesis strategy) of neutral, JSON-able *value trees*  {"$": "ClassName", "attr": value, ...}
* `build`   value tree -> Python object, through the public constructors only
* `emit`    value tree -> expected XML tree (`Node`), in schema order
* `check`   compares a Python object against a value tree, attribute by attribute
* `cmp_xml` compares a parsed XML element against the expected `Node`
"""
import importlib
import math
import re
from dataclasses import dataclass, field as dfield
from typing import Any

ar_element = importlib.import_module("autosar.xml.element")
ar_enum = importlib.import_module("autosar.xml.enumeration")
ar_document = importlib.import_module("autosar.xml.document")

CLASSES: dict[str, "Cls"] = {}
# Tags having mixed or simple text content where white space is significant
MIXED_TAGS = {"L-1", "L-2", "L-4", "L-5", "DISPLAY-NAME", "UNIT-DISPLAY-NAME"}

ENUM_TEXT_EXCEPTIONS = {
    ("ByteOrder", "BIG_ENDIAN"): "MOST-SIGNIFICANT-BYTE-FIRST",
    ("ByteOrder", "LITTLE_ENDIAN"): "MOST-SIGNIFICANT-BYTE-LAST",
    ("DisplayPresentation", "CONTINUOUS"): "PRESENTATION-CONTINUOUS",
    ("DisplayPresentation", "DISCRETE"): "PRESENTATION-DISCRETE",
    ("IdentifiableSubTypes", "E2E_PROFILE_COMPATIBILITY_PROPS"): "E-2-E-PROFILE-COMPATIBILITY-PROPS",
    ("ServerArgImplPolicy", "USE_ARRAY_BASED_TYPE"): "USE-ARRAY-BASE-TYPE",
}


def enum_text(enum_name: str, member: str) -> str:
    """Expected XML text of an enumeration literal"""
    key = (enum_name, member)
    if key in ENUM_TEXT_EXCEPTIONS:
        return ENUM_TEXT_EXCEPTIONS[key]
    if enum_name == "ServiceKind":
        member = member.replace("J1939", "J_1939").replace("V2X", "V_2_X")
    if enum_name in LOWERCASE_ENUMS:
        return LOWERCASE_ENUMS[enum_name](member)
    return member.replace("_", "-")


LOWERCASE_ENUMS: dict[str, Any] = {}


# ---------------------------------------------------------------- XML tree
@dataclass
class Node:
    """Expected XML element"""
    tag: str
    attrs: dict = dfield(default_factory=dict)
    children: list = dfield(default_factory=list)   # Node | str
    num: bool = False                               # text compares as a number
    mixed: bool = False
    boolean: bool = False
    enum: bool = False
    dests: list | None = None                       # texts of the destinations that are allowed, for references
    cls: str = ""                                   # class, for elements that represent an object

    def add(self, child):
        """Add a child"""
        self.children.append(child)
        return child


def esc_text(text: str) -> str:
    """Escape character data"""
    return text.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")


def esc_attr(text: str) -> str:
    """Escape attribute value"""
    return (esc_text(text).replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;"))


def serialize(node: Node, prefix: str = "", ns_decl: str = "", pretty: int | None = 0, noise=None) -> str:
    """
    Node -> XML text.
    pretty: None = no white space between elements, int = current indentation level.
    noise: optional callable(kind, node) -> str of extra markup (comments, PIs) inserted between elements.
    """
    attrs = "".join(f' {k}="{esc_attr(v)}"' for k, v in node.attrs.items())
    name = prefix + node.tag
    if not node.children:
        return f"<{name}{ns_decl}{attrs}/>"
    if node.mixed or all(isinstance(c, str) for c in node.children):
        body = "".join(esc_text(c) if isinstance(c, str) else serialize(c, prefix, "", None) for c in node.children)
        return f"<{name}{ns_decl}{attrs}>{body}</{name}>"
    sub = None if pretty is None else pretty + 1
    pad = "" if pretty is None else "\n" + "  " * sub
    body = ""
    for child in node.children:
        if noise is not None:
            extra = noise(node)
            if extra:
                body += pad + extra
        body += pad + serialize(child, prefix, "", sub, noise)
    end = "" if pretty is None else "\n" + "  " * pretty
    return f"<{name}{ns_decl}{attrs}>{body}{end}</{name}>"


class Style:
    """
    Serialization of a Node tree the way another tool may do it. All choices come from `rng` and the set of enabled
    features: prefix, comments, pis, cdata, charrefs, quotes, attrs (checksum and time stamp attributes), lexical
    (number and Boolean variants), entities (declared in the document), foreign (unknown elements: see `injected`)
    """
    def __init__(self, rng, features, newline="\n", indent="  ", charset=None, prefix="", foreign=None):
        self.rng, self.features, self.newline, self.indent = rng, set(features), newline, indent
        self.charset = charset
        self.prefix = prefix
        self.foreign = foreign        # callable(node) -> list of (position, xml text)
        self.injected = []
        self.entities: list = []      # texts of the entities that are used

    def on(self, feature, p=0.3):
        """Random decision"""
        return feature in self.features and self.rng.random() < p

    def chars(self, text, attr=False):
        """Character data"""
        out = []
        if self.on("entities", 0.2) and len(text) > 1:
            n = self.rng.randint(1, len(text))
            value = text[:n]
            plain = not set(value) & set("<>&%\"'\r\n\t")
            if plain and self.charset:
                plain = value.encode(self.charset, "ignore").decode(self.charset) == value
            if plain:
                self.entities.append(value)
                out.append(f"&e{len(self.entities)};")
                text = text[n:]
        for ch in text:
            need = ch in "<&\r" or (attr and ch in "\n\t\"'") or ch == ">"
            if not need and self.charset:
                try:
                    ch.encode(self.charset)
                except UnicodeEncodeError:
                    need = True
            if need or self.on("charrefs", 0.1):
                named = {"<": "&lt;", ">": "&gt;", "&": "&amp;", '"': "&quot;", "'": "&apos;"}.get(ch)
                if named and self.rng.random() < 0.6:
                    out.append(named)
                else:
                    out.append(f"&#{ord(ch)};" if self.rng.random() < 0.5 else f"&#x{ord(ch):X};")
            else:
                out.append(ch)
        return "".join(out)

    def misc(self):
        """Comment or processing instruction"""
        out = ""
        if self.on("comments", 0.5):
            out += self.rng.choice(["<!-- c -->", "<!---->", "<!-- <SHORT-NAME>x</SHORT-NAME> & > -->"])
        if self.on("pis", 0.5):
            out += self.rng.choice(["<?tool data?>", "<?p <A> ?>"])
        return out

    def text(self, text):
        """Text content, possibly split by comments and CDATA sections"""
        out, i = "", 0
        while i < len(text):
            n = len(text) if not self.features & {"comments", "pis", "cdata"} else i + self.rng.randint(1, len(text))
            piece = text[i:n]
            plain = "\r" not in piece and "]]>" not in piece
            if plain and self.charset:
                try:
                    piece.encode(self.charset)
                except UnicodeEncodeError:
                    plain = False
            if plain and self.on("cdata"):
                out += f"<![CDATA[{piece}]]>"
            else:
                out += self.chars(piece)
            i += len(piece)
            if self.rng.random() < 0.3:
                out += self.misc()
        if self.rng.random() < 0.2:
            out = self.misc() + out
        return out

    def number(self, text, tag):
        """Another way to write a number"""
        v = parse_number(text)
        r = self.rng.random()
        if isinstance(v, int):
            sign, a = ("-" if v < 0 else ""), abs(v)
            if r < 0.25:
                return sign + (f"0x{a:x}" if self.rng.random() < 0.5 else f"0X{a:X}")
            if r < 0.4:
                return sign + f"0{self.rng.choice('bB')}{a:b}"
            if r < 0.55 and v >= 0:
                return f"+{v}"
            if r < 0.65 and v >= 0 and tag not in FLOATS:
                return f"0{v:o}"
        elif isinstance(v, float) and math.isfinite(v):
            t = repr(v)
            if r < 0.3:
                return t.upper()
            if r < 0.6:
                t = f"{v:.17e}"
                return t.upper() if self.rng.random() < 0.5 else t
            if r < 0.7 and v >= 0 and not t.startswith("-"):
                return "+" + t
        return text

    def dump(self, node, depth=0, decl=""):
        """Serialize"""
        attrs = list(node.attrs.items())
        if node.attrs.get("INTERVAL-TYPE") == "CLOSED" and self.on("lexical", 0.5):
            attrs.remove(("INTERVAL-TYPE", "CLOSED"))  # the default
        if node.tag == "L-5" and self.on("attrs", 0.5):
            attrs.append(("xml:space", "preserve"))
        if self.on("attrs", 0.15):
            attrs += [("S", "0123abcd"), ("T", "2024-01-01T00:00:00Z")][:self.rng.randint(1, 2)]
            self.rng.shuffle(attrs)
        out = f"<{self.prefix}{node.tag}{decl}"
        for k, v in attrs:
            q = "'" if self.on("quotes", 0.5) else '"'
            sp = self.rng.choice([" ", "  ", "\n "]) if self.on("quotes", 0.2) else " "
            out += f"{sp}{k}={q}{self.chars(v, True)}{q}"
        kids = list(node.children)
        extra = self.foreign(node) if self.foreign else []
        if not kids and not extra:
            return out + self.rng.choice(["/>", " />", f"></{self.prefix}{node.tag}>"])
        out += ">"
        if node.mixed or (kids and all(isinstance(c, str) for c in kids)):
            for c in kids:
                if isinstance(c, str):
                    if "lexical" in self.features and node.num:
                        c = self.number(c, node.tag)
                    if "lexical" in self.features and node.boolean and self.rng.random() < 0.5:
                        c = {"true": "1", "false": "0"}[c]
                    out += self.text(c)
                else:
                    out += self.dump(c, depth + 1)
                    if self.rng.random() < 0.2:
                        out += self.misc()
            return out + f"</{self.prefix}{node.tag}>"
        items = [self.dump(c, depth + 1) for c in kids]
        for pos, xml in extra:
            items.insert(pos, xml)
        pad = "" if self.newline is None else self.newline + self.indent * (depth + 1)
        for item in items:
            if self.rng.random() < 0.2:
                m = self.misc()
                if m:
                    out += pad + m
            out += pad + item
        if self.newline is not None:
            out += self.newline + self.indent * depth
        return out + f"</{self.prefix}{node.tag}>"


FLOATS = """TIMEOUT ALIVE-TIMEOUT DATA-UPDATE-PERIOD MINIMUM-SEND-INTERVAL MINIMUM-START-INTERVAL OFFSET PERIOD MAX-GRADIENT
MAX-DIFF E-2-E-CALL-RESPONE-TIMEOUT""".split()  # numbers of AR:FLOAT and AR:TIME-VALUE have no octal literals


def parse_number(text: str):
    """Independent AUTOSAR numerical parser; returns None when not a number"""
    text = text.strip(" \t\r\n")
    low = text.lower().lstrip("+")
    if low in ("inf", "-inf"):
        return float(low)
    if low == "nan":
        return math.nan
    m = re.fullmatch(r"([+-]?)0[xX]([0-9a-fA-F]+)", text)
    if m:
        return int(m.group(1) + m.group(2), 16)
    m = re.fullmatch(r"([+-]?)0[bB]([01]+)", text)
    if m:
        return int(m.group(1) + m.group(2), 2)
    if re.fullmatch(r"0[0-7]+", text):
        return int(text, 8)
    if re.fullmatch(r"[+-]?[0-9]+", text):
        return int(text)
    if re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", text):
        return float(text)
    return None


def num_eq(a, b) -> bool:
    """The actual number a is the expected number b, NaN equals NaN"""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        return False
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    if a == b:
        return True
    if isinstance(b, float) and not isinstance(a, float):
        # The float 1e22 may be written as 10000000000000000000000 and read as an integer
        try:
            return float(a) == b
        except OverflowError:
            return False
    return False


def local(elem) -> str:
    """Tag without namespace"""
    tag = elem.tag
    return tag.rpartition("}")[2] if isinstance(tag, str) else tag


def cmp_xml(node: Node, elem, path="") -> str | None:
    """Compare expected node with parsed lxml element. Returns description of the first difference"""
    path = path + "/" + node.tag
    if local(elem) != node.tag:
        return f"{path}: element <{local(elem)}> where <{node.tag}> is expected"
    attrs = {k: v for k, v in elem.attrib.items() if not k.startswith("{")}
    if attrs != node.attrs:
        return f"{path}: attributes {attrs!r}, expected {node.attrs!r}"
    kids = list(elem)
    exp_kids = [c for c in node.children if isinstance(c, Node)]
    mixed = node.mixed or not kids
    if mixed:
        got: list = []

        def put(txt):
            if txt:
                if got and isinstance(got[-1], str):
                    got[-1] += txt
                else:
                    got.append(txt)
        put(elem.text)
        for k in kids:
            got.append(k)
            put(k.tail)
        if not node.mixed and len(got) == 1 and isinstance(got[0], str) and not got[0].strip() and not node.children:
            got = []   # whitespace in an element without content
        want: list = []
        for c in node.children:
            if isinstance(c, str) and want and isinstance(want[-1], str):
                want[-1] += c
            elif c != "":
                want.append(c)
        if len(got) != len(want):
            return f"{path}: content {[g if isinstance(g, str) else '<'+local(g)+'>' for g in got]!r}, " \
                   f"expected {[w if isinstance(w, str) else '<'+w.tag+'>' for w in want]!r}"
        for g, w in zip(got, want):
            if isinstance(w, str):
                if not isinstance(g, str):
                    return f"{path}: element <{local(g)}> where text {w!r} is expected"
                if node.num:
                    a, b = parse_number(g), parse_number(w)
                    if a is None or not num_eq(a, b):
                        return f"{path}: number {g!r}, expected {w!r}"
                elif g != w:
                    return f"{path}: text {g!r}, expected {w!r}"
            else:
                if isinstance(g, str):
                    return f"{path}: text {g!r} where <{w.tag}> is expected"
                diff = cmp_xml(w, g, path)
                if diff:
                    return diff
        return None
    stray = (elem.text or "") + "".join(k.tail or "" for k in kids)
    if stray.strip():
        return f"{path}: stray text {stray.strip()!r} between the elements"
    for i, exp in enumerate(exp_kids):
        if i >= len(kids):
            return f"{path}: <{exp.tag}> is missing"
        if local(kids[i]) != exp.tag:
            return f"{path}: child #{i} is <{local(kids[i])}>, expected <{exp.tag}>" \
                   f" (children {[local(k) for k in kids]}, expected {[e.tag for e in exp_kids]})"
        diff = cmp_xml(exp, kids[i], path)
        if diff:
            return diff
    if len(kids) > len(exp_kids):
        return f"{path}: unexpected extra child <{local(kids[len(exp_kids)])}>"
    return None


# ---------------------------------------------------------------- kinds
class Kind:
    """Base class of value kinds"""
    leaf = True
    num = False
    default: Any = None

    def text(self, v) -> str:
        """XML text"""
        return str(v)

    def build(self, v):
        """Python value"""
        return v

    def cmp(self, actual, v) -> str | None:
        """Compare Python value with tree value"""
        return None if type(actual) is type(v) and actual == v else f"{actual!r}, expected {v!r}"

    def emit(self, parent: Node, tag: str, v):
        """Append expected XML"""
        n = Node(tag, num=self.num, boolean=isinstance(self, Bool), enum=isinstance(self, Enum))
        t = self.text(v)
        if t != "":
            n.children.append(t)
        parent.add(n)

    def classes(self):
        """Names of classes reachable"""
        return ()


class Text(Kind):
    """Free text"""
    def __init__(self, sort="text"):
        self.sort = sort


class Int(Kind):
    """Integer"""
    num = True

    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def cmp(self, actual, v):
        ok = isinstance(actual, int) and not isinstance(actual, bool) and actual == v
        return None if ok else f"{actual!r}, expected {v!r}"


def num_text(v) -> str:
    """Number to text, as another tool would do it"""
    if isinstance(v, float):
        if math.isinf(v):
            return "-INF" if v < 0 else "INF"
        if math.isnan(v):
            return "NaN"
        return repr(v)
    return str(int(v)) if isinstance(v, bool) else str(v)


class Num(Kind):
    """int | float"""
    num = True

    def __init__(self, ints=True, floats=True, special=True):
        self.ints, self.floats, self.special = ints, floats, special

    def text(self, v):
        return num_text(v)

    def cmp(self, actual, v):
        if isinstance(v, bool) and type(actual) in (bool, int) and actual == v:  # False is written as 0 and read as 0
            return None
        return None if num_eq(actual, v) else f"{actual!r}, expected {v!r}"


class Bool(Kind):
    """Boolean"""
    def text(self, v):
        return "true" if v else "false"


class Enum(Kind):
    """Enumeration literal"""
    def __init__(self, name, members=None):
        self.name = name
        self.members = members or [m.name for m in getattr(ar_enum, name)]

    def text(self, v):
        return enum_text(self.name, v)

    def build(self, v):
        return getattr(ar_enum, self.name)[v]

    def cmp(self, actual, v):
        exp = getattr(ar_enum, self.name)[v]
        return None if actual is exp else f"{actual!r}, expected {exp!r}"


REF_DESTS: dict[str, list[str]] = {}
schema_version = [51]     # schema version assumed by emit()


class Ref(Kind):
    """Reference; value = [path, DEST member]"""
    def __init__(self, cls):
        self.cls = cls.partition(".")[0]
        self.dests = REF_DESTS[cls]

    def build(self, v):
        return getattr(ar_element, self.cls)(v[0], ar_enum.IdentifiableSubTypes[v[1]])

    def cmp(self, actual, v):
        if type(actual).__name__ != self.cls:
            return f"{type(actual).__name__}, expected {self.cls}"
        if actual.value != v[0]:
            return f"reference value {actual.value!r}, expected {v[0]!r}"
        if actual.dest is not ar_enum.IdentifiableSubTypes[v[1]]:
            return f"reference DEST {actual.dest!r}, expected {v[1]!r}"
        return None

    def emit(self, parent, tag, v):
        parent.add(Node(tag, {"DEST": enum_text("IdentifiableSubTypes", v[1])}, [v[0]],
                        dests=[enum_text("IdentifiableSubTypes", d) for d in REF_DESTS[self.cls]]))


class Obj(Kind):
    """Single object. mode: 'tag' (element named by the field's tag), 'own' (element named by class tag),
    'wrap' (field tag wraps the class's own element)"""
    leaf = False

    def __init__(self, classes, mode="tag"):
        self.cls = classes
        self.mode = mode

    def classes(self):
        return self.cls

    def build(self, v):
        return CLASSES[v["$"]].build(v)

    def cmp(self, actual, v):
        return CLASSES[v["$"]].check(actual, v)

    def emit(self, parent, tag, v):
        c = CLASSES[v["$"]]
        if self.mode == "wrap":
            parent = parent.add(Node(tag))
        c.emit(parent, v, tag if self.mode == "tag" else None)


class ListOf(Kind):
    """List. item: Kind. mode: 'wrap' (field tag wraps the items), 'flat' (items directly in parent).
    itag: tag of each item or None = class tag"""
    leaf = False
    default: Any = ()

    def __init__(self, item: Kind, itag=None, mode="wrap", wrap2=None, min_size=0):
        self.item, self.itag, self.mode, self.wrap2, self.min_size = item, itag, mode, wrap2, min_size

    def classes(self):
        return self.item.classes()

    def build(self, v):
        return [self.item.build(x) for x in v]

    def cmp(self, actual, v):
        if not isinstance(actual, (list, tuple)):
            return f"{actual!r}, expected a list"
        if len(actual) != len(v):
            return f"list of length {len(actual)}, expected {len(v)}"
        for i, (a, x) in enumerate(zip(actual, v)):
            d = self.item.cmp(a, x)
            if d:
                return f"[{i}]{'' if d.startswith('.') else ': '}{d}"
        return None

    def emit(self, parent, tag, v):
        if not v and self.mode != "wrap0":
            return
        if self.mode in ("wrap", "wrap0"):
            parent = parent.add(Node(tag))
        for x in v:
            p = parent.add(Node(self.wrap2)) if self.wrap2 else parent
            self.item.emit(p, self.itag, x)


class PyKind(Kind):
    """Kind assembled from functions"""
    def __init__(self, gen, emit, build=None, cmp=None, classes=(), leaf=True, default=None):
        self.gen = gen
        self.emit = emit
        if build:
            self.build = build
        if cmp:
            self.cmp = cmp
        self._classes = classes
        self.leaf = leaf
        self.default = default

    def classes(self):
        return self._classes


# ---------------------------------------------------------------- classes
@dataclass
class Field:
    """Field of a class"""
    attr: str
    tag: str
    kind: Kind
    xattr: bool = False       # XML attribute
    req: bool = False
    arg: str | None = None    # constructor argument (None = same as attr); "=" means setattr; "+" means append()
    default: Any = None
    since: int = 0
    until: int = 99

    def empty(self, actual) -> bool:
        """True if actual is what an unset attribute looks like"""
        if isinstance(actual, dict):
            return len(actual) == 0
        if isinstance(self.kind, ListOf):
            return actual is None or (isinstance(actual, (list, tuple)) and len(actual) == 0)
        if self.default is not None:
            return actual is self.default or actual == self.default
        return actual is None


class Cls:
    """Class description"""
    mixed = False

    def __init__(self, name, tag, fields, collectable=False, ident=False):
        self.name, _, pyname = name.partition("=")
        self.pyname = pyname or self.name
        self.tag, self.fields = tag, fields
        self.collectable = collectable
        self.ident = ident
        self.by_attr = {f.attr: f for f in fields}

    def py(self):
        """Python class"""
        return getattr(ar_element, self.pyname)

    def build(self, v):
        """Value tree -> Python object"""
        kwargs, after = {}, []
        for f in self.fields:
            if f.attr not in v:
                continue
            val = f.kind.build(v[f.attr])
            if f.arg == "=":
                after.append(("set", f.attr, val))
            elif f.arg == "+":
                after.append(("app", "append", val))
            elif f.arg and f.arg.startswith("+"):
                after.append(("app", f.arg[1:], val))
            else:
                kwargs[f.arg or f.attr] = val
        obj = self.py()(**kwargs)
        for op, name, val in after:
            if op == "set":
                setattr(obj, name, val)
            else:
                for x in val:
                    getattr(obj, name)(x)
        return obj

    def emit(self, parent, v, tag=None):
        """Value tree -> expected XML"""
        n = Node(tag or self.tag, cls=self.name)
        for f in self.fields:
            if f.attr not in v:
                continue
            if f.xattr:
                n.attrs[f.tag] = f.kind.text(v[f.attr])
            else:
                f.kind.emit(n, f.tag, v[f.attr])
        parent.add(n)
        return n

    def check(self, obj, v) -> str | None:
        """Compare Python object with value tree"""
        if type(obj).__name__ != self.pyname:
            return f": object of type {type(obj).__name__}, expected {self.pyname}"
        for f in self.fields:
            actual = getattr(obj, f.attr)
            if f.attr in v and not (isinstance(f.kind, ListOf) and not v[f.attr]):
                d = f.kind.cmp(actual, v[f.attr])
                if d:
                    return f".{f.attr}{'' if d[0] in '.[:' else ': '}{d}"
            elif not f.empty(actual):
                return f".{f.attr}: {actual!r}, expected unset"
        return None


class MixedCls(Cls):
    """Mixed content"""
    mixed = True

    def __init__(self, name, tag, fields, parts, attr="parts", construct="list"):
        super().__init__(name, tag, fields)
        self.parts, self.attr, self.construct = parts, attr, construct

    @staticmethod
    def merge(parts):
        """Merge adjacent strings"""
        out: list = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        return [p for p in out if p != ""]

    def build(self, v):
        kwargs = {f.attr: f.kind.build(v[f.attr]) for f in self.fields if f.attr in v}
        kwargs["parts"] = [p if isinstance(p, str) else CLASSES[p["$"]].build(p) for p in v["parts"]]
        return self.py()(**kwargs)

    def emit(self, parent, v, tag=None):
        n = Node(tag or self.tag, mixed=True)
        for f in self.fields:
            if f.attr in v:
                n.attrs[f.tag] = f.kind.text(v[f.attr])
        for p in v["parts"]:
            if isinstance(p, str):
                n.children.append(p)
            else:
                CLASSES[p["$"]].emit(n, p)
        parent.add(n)
        return n

    def check(self, obj, v):
        d = super().check(obj, v)
        if d:
            return d
        got = self.merge(obj.parts)
        want = self.merge(v["parts"])
        if len(got) != len(want):
            return f".parts: {len(got)} parts {got!r}, expected {want!r}"
        for i, (g, w) in enumerate(zip(got, want)):
            if isinstance(w, str):
                if g != w:
                    return f".parts[{i}]: {g!r}, expected {w!r}"
            else:
                d = CLASSES[w["$"]].check(g, w)
                if d:
                    return f".parts[{i}]{d}"
        return None


class TextCls(Cls):
    """Element whose own text is one attribute (simple content), plus XML attributes"""
    def __init__(self, name, tag, fields, text_attr="text", kind=None, arg=None):
        super().__init__(name, tag, fields)
        self.text_attr = text_attr
        self.kind = kind or Text()
        self.arg = arg or text_attr

    def build(self, v):
        kwargs = {f.attr: f.kind.build(v[f.attr]) for f in self.fields if f.attr in v}
        kwargs[self.arg] = self.kind.build(v[self.text_attr])
        return self.py()(**kwargs)

    def emit(self, parent, v, tag=None):
        n = Node(tag or self.tag, {f.tag: f.kind.text(v[f.attr]) for f in self.fields if f.attr in v},
                 [self.kind.text(v[self.text_attr])])
        parent.add(n)
        return n

    def check(self, obj, v):
        d = super().check(obj, v)
        if d:
            return d
        d = self.kind.cmp(self.get(obj), v[self.text_attr])
        return f".{self.text_attr}: {d}" if d else None

    def get(self, obj):
        """Extract text"""
        val = getattr(obj, self.text_attr)
        if isinstance(val, list):
            return "".join(val)
        return val


# ---------------------------------------------------------------- table language
def parse_kind(spec: str, tag: str) -> Kind:
    """Parse one kind specification"""
    name, _, arg = spec.partition(":")
    if name in ("text", "ident", "name", "words"):
        return Text(name)
    if name == "int":
        return Int()
    if name == "uint":
        return Int(lo=0)
    if name == "float":
        return Num(ints=False)
    if name == "ffloat":
        return Num(ints=False, special=False)
    if name == "num":
        return Num()
    if name == "fnum":
        return Num(special=False)
    if name == "bool":
        return Bool()
    if name == "enum":
        en, _, members = arg.partition("=")
        return Enum(en, members.split("|") if members else None)
    if name == "ref":
        return Ref(arg)
    if name == "obj":
        return Obj(arg.split("|"))
    if name == "own":
        return Obj(arg.split("|"), "own")
    if name == "wrap":
        return Obj(arg.split("|"), "wrap")
    if name in ("list", "flat", "list0"):
        mode = {"list": "wrap", "flat": "flat", "list0": "wrap0"}[name]
        inner, _, itag = arg.partition("=")
        if inner.startswith("ref/"):
            wrap2, _, itag2 = itag.rpartition("/")
            return ListOf(Ref(inner[4:]), itag2, mode, wrap2 or None)
        if inner.startswith("kind/"):
            return ListOf(parse_kind(inner[5:].replace("~", ":"), itag), itag, mode)
        wrap2, _, itag2 = itag.rpartition("/")
        return ListOf(Obj(inner.split("|"), "tag" if itag2 else "own"), itag2 or None, mode, wrap2 or None)
    if name == "custom":
        return CUSTOM[arg]
    raise ValueError(spec)


CUSTOM: dict[str, Kind] = {}


def parse_fields(text: str) -> list[Field]:
    """Parse a table of fields"""
    fields = []
    for line in text.strip().splitlines():
        line = line.split("#")[0].strip()
        if not line:
            continue
        attr, tag, kind, *flags = line.split()
        f = Field(attr, tag.lstrip("@"), parse_kind(kind, tag), xattr=tag.startswith("@"))
        for fl in flags:
            if fl == "!":
                f.req = True
            elif fl.startswith("arg="):
                f.arg = fl[4:]
            elif fl.startswith("def="):
                f.default = {"False": False, "True": True}.get(fl[4:], fl[4:])
            elif fl.startswith("until="):
                f.until = int(fl[6:])
            else:
                raise ValueError(fl)
        fields.append(f)
    return fields


def define(text: str, bases: dict[str, list[Field]]):
    """
    Parse class definitions:
    `Name TAG [: Base] [collectable]` followed by indented field lines
    """
    cur = None
    buf: list[str] = []

    def flush():
        if cur is None:
            return
        name, tag, base, coll = cur
        fields = list(bases[base]) + parse_fields("\n".join(buf)) if base else parse_fields("\n".join(buf))
        if tag == "abstract":
            bases[name] = fields
        else:
            cls = Cls(name, tag, fields, coll, ident=base is not None and any(f.attr == "name" for f in fields))
            CLASSES[cls.name] = cls
            bases[cls.name] = fields
    for line in text.splitlines():
        line = line.split("#")[0].rstrip()
        if not line.strip():
            continue
        if not line.startswith(" "):
            flush()
            parts = line.split()
            coll = "collectable" in parts
            base = parts[parts.index(":") + 1] if ":" in parts else None
            cur, buf = (parts[0], parts[1], base, coll), []
        else:
            buf.append(line)
    flush()

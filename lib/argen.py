"""
Random generation and shrinking of value trees (see arschema.py).
All randomness comes from a random.Random given by the caller.
"""
import copy
import math
import random
import artables                                             # noqa: F401  pylint: disable=unused-import
import arschema as s
from arschema import CLASSES, Obj, ListOf, PyKind, Ref, Enum, Text, Int, Num, Bool, MixedCls, TextCls

WORDS = ["VALUE", "A", "Speed", "x1", "Engine_Speed", "TYPE_REFERENCE", "FUNC-PTR", "a.b", "0", "STD:1", "None",
         "false", "1e5", "nan"]
TEXTS = ["a", "Hello World", "a<b", "x && y", "1 > 0", "\"quoted\"", "it's", "&amp;", "<![CDATA[x]]>", "]]>",
         "åäö ° µ", "日本語", "😀", " lead", "trail ", "two  spaces", "line1\nline2", "tab\tend", "&#13;", "%d%s\\n",
         "<!-- c -->", "<?pi?>", "0", "false", "None", "A", "x\u00a0y", "{0} {name}"]
NAMES = ["A", "b", "a", "Name", "name", "Element_1", "SHORT_NAME", "x0", "Port", "Speed", "Z9_", "Name_", "longName" + "X" * 40]
INTS = [0, 1, -1, 2, 7, 8, 255, 256, -128, 65535, 2**31, 2**32 - 1, -2**31, 2**63, 2**64 - 1, 10**20, 1000000, 100]
FLOATS = [0.0, 1.0, -1.0, 0.1, 0.5, -0.25, 1.5, 100.0, 1000.0, 0.001, 1e-7, 1e-5, 3.141592653589793, 1e15, 1e16,
          1e17, 123456789.123, 1e22, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 0.30000000000000004,
          1e28, 1.5e30, -2.5e-300, 12345678901234567890.0, 20.0, 65535.0, 0.1 + 0.7]
ALIGN = ["1", "8", "64", "UNSPECIFIED", "UNKNOWN", "BOOLEAN", "PTR", "0x10", "0b11", "017"]
DISPLAY = ["%d", "%x", "%5.2f", "%-8s", "%+d", "%#x", "%c", "%.3e", "%10u", "%G"]
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
CHARS = ALPHA + "0123456789 <>&\"'/\\-_.:;,()[]{}%#@!?*+=|~^`$åß€"


LENGTHS = [16, 20, 24, 30, 32, 40, 50, 60, 64, 72, 80, 100, 120, 127, 128, 200, 255, 256]


def gen_length(rng, lo, hi) -> int:
    """Length of a text, sometimes near a limit"""
    if rng.random() < 0.95:
        return rng.randint(lo, hi)
    return rng.choice(LENGTHS) + rng.choice([-1, 0, 1])


def gen_name(rng) -> str:
    """SHORT-NAME"""
    if rng.random() < 0.5:
        return rng.choice(NAMES)
    return rng.choice(ALPHA) + "".join(rng.choice(ALPHA + "0123456789_") for _ in range(min(gen_length(rng, 0, 8), 127)))  # at most 128


def gen_text(rng) -> str:
    """Non-empty text that is not white space only"""
    if rng.random() < 0.6:
        return rng.choice(TEXTS)
    while True:
        t = "".join(rng.choice(CHARS) for _ in range(gen_length(rng, 1, 12)))
        if t.strip():
            return t


def gen_text_or_empty(rng) -> str:
    """Text where no text is text too"""
    return "" if rng.random() < 0.05 else gen_text(rng)


def gen_words(rng) -> str:
    """Token"""
    if rng.random() < 0.6:
        return rng.choice(WORDS)
    return "".join(rng.choice(ALPHA + "0123456789_-.:") for _ in range(gen_length(rng, 1, 10)))


def gen_path(rng) -> str:
    """Reference path"""
    return "".join("/" + gen_name(rng) for _ in range(rng.randint(1, 4) if rng.random() < 0.97 else rng.randint(5, 12)))


def gen_int(rng, lo=None) -> int:
    """Integer"""
    r = rng.random()
    v = rng.choice(INTS) if r < 0.6 else (rng.randint(-1000, 1000) if r < 0.9 else rng.randint(-2**64, 2**64))
    return abs(v) if lo == 0 and v < 0 else v


def gen_float(rng, special=True) -> float:
    """Float"""
    r = rng.random()
    if special and r < 0.08:
        return rng.choice([math.inf, -math.inf, math.nan])
    if r < 0.6:
        return rng.choice(FLOATS) * rng.choice([1, 1, 1, -1])
    if r < 0.8:
        return round(rng.uniform(-1000, 1000), rng.randint(0, 6))
    return rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30)


def gen_num(rng, ints=True, floats=True, special=True):
    """Number"""
    if ints and (not floats or rng.random() < 0.5):
        return gen_int(rng)
    return gen_float(rng, special)


class Gen:
    """Generator of value trees"""
    def __init__(self, rng: random.Random, schema_version: int = 51):
        self.rng = rng
        self.sv = schema_version
        self.seen = {}
        self.long = 0  # number of items of the lists in focus

    # ------------------------------------------------------------ kinds
    def kind(self, k: s.Kind, depth: int, density: float):
        """Value of a kind, now and then the same as an earlier one: equal values at two places of a document must not
        influence each other"""
        rng = self.rng
        if isinstance(k, Ref):
            key = "ref"
        elif isinstance(k, Text):
            key = ("text", k.sort)
        elif isinstance(k, Int):
            key = ("int", k.lo)
        elif isinstance(k, Num):
            key = ("num", k.ints, k.floats, k.special)
        elif isinstance(k, Obj):
            key = ("obj", tuple(k.cls))
        else:
            return self.fresh(k, depth, density)
        seen = self.seen.setdefault(key, [])
        if seen and rng.random() < 0.12:
            v = copy.deepcopy(rng.choice(seen))
            return [v, rng.choice(k.dests)] if key == "ref" else v
        v = self.fresh(k, depth, density)
        if not isinstance(k, Obj):
            seen.append(v[0] if key == "ref" else v)
        elif count_attrs(v) < 12:
            seen.append(copy.deepcopy(v))
        return v

    def fresh(self, k: s.Kind, depth: int, density: float):
        """New value of a kind"""
        rng = self.rng
        if isinstance(k, Text):
            return {"text": gen_text_or_empty, "ident": gen_name, "name": gen_name, "words": gen_words}[k.sort](rng)
        if isinstance(k, Int):
            return gen_int(rng, k.lo)
        if isinstance(k, Num):
            return gen_num(rng, k.ints, k.floats, k.special)
        if isinstance(k, Bool):
            return rng.random() < 0.5
        if isinstance(k, Enum):
            return rng.choice(k.members)
        if isinstance(k, Ref):
            return [gen_path(rng), rng.choice(k.dests)]
        if isinstance(k, Obj):
            return self.cls(rng.choice(k.cls), depth - 1, density)
        if isinstance(k, ListOf):
            if getattr(k, "one_or_pair", False):
                n = rng.choice([1, 2])
            else:
                n = rng.choice([1, 1, 2, 2, 3]) if depth > 0 else 1
            if self.long and not getattr(k, "one_or_pair", False):
                n, self.long, depth, density = self.long, 0, 0, density * 0.3
                out = [self.telling(k.item, depth, density) for _ in range(n)]
            else:
                out = [self.kind(k.item, depth, density) for _ in range(n)]
            if n > 1 and rng.random() < 0.1 and count_attrs(out[0]) < 30:
                out[-1] = copy.deepcopy(out[0])
            return out
        if isinstance(k, PyKind):
            return self.special(k.gen, depth, density)
        raise NotImplementedError(type(k))

    def telling(self, k: s.Kind, depth: int, density: float):
        """Item of a long list, which has something that distinguishes it from others"""
        v = self.kind(k, depth, density)
        if isinstance(k, Obj) and len(v) == 1 and CLASSES[v["$"]].fields:
            fields = [f for f in CLASSES[v["$"]].fields if self.allowed(v["$"], f)]
            v = self.cls(v["$"], depth - 1, density, {self.rng.choice(fields).attr} if fields else None)
        return v

    def special(self, spec, depth, density):
        """PyKind values"""
        rng = self.rng
        what = spec[0]
        if what == "limit":
            return {"v": gen_num(rng), "t": rng.choice(["OPEN", "CLOSED"])}
        if what == "const":
            return gen_text_or_empty(rng) if rng.random() < 0.5 else gen_num(rng)
        if what == "numlist":
            return [gen_num(rng) for _ in range(self.count([1, 1, 2, 3]))]
        if what == "alignment":
            return rng.choice(ALIGN)
        if what == "display_format":
            return rng.choice(DISPLAY)
        if what == "axis_index":
            return rng.choice([0, 1, 2, 5, "3"])
        if what == "swvalues":
            out = []
            for _ in range(self.count([1, 2, 3])):
                r = rng.random()
                if r < 0.6:
                    out.append(gen_num(rng))
                elif r < 0.8:
                    out.append(gen_text_or_empty(rng))
                elif depth > 0:
                    out.append(self.cls("ValueGroup", depth - 1, density))
                else:
                    out.append(gen_num(rng))
            return out
        raise NotImplementedError(spec)

    def count(self, usual):
        """Number of items"""
        n = self.long if self.long else self.rng.choice(usual)
        self.long = 0
        return n

    def mixed_parts(self, c: MixedCls, depth):
        """Parts of mixed content, adjacent strings merged"""
        rng = self.rng
        parts = []
        for _ in range(self.count([1, 1, 2, 3, 4])):
            if rng.random() < 0.55 or depth < -3:
                parts.append(gen_text(rng))
            else:
                parts.append(self.cls(rng.choice(c.parts), 0, 0.5))
        return MixedCls.merge(parts)

    # ------------------------------------------------------------ classes
    def allowed(self, name, f):
        """Field available in the current schema version"""
        return f is None or not (f.attr == "array_impl_policy" and self.sv < 49)

    def cls(self, name: str, depth: int, density: float, focus=None):
        """Value tree of class `name`. focus: fields that must be present"""
        rng = self.rng
        c = CLASSES[name]
        v = {"$": name}
        for f in c.fields:
            if not self.allowed(name, f):
                continue
            want = f.req or (focus and f.attr in focus)
            if not want:
                leaf = f.kind.leaf
                p = density if leaf else (density if depth > 0 else 0.06 if depth > -3 else 0.0)
                want = rng.random() < p
            if want and not (depth <= -6 and not f.req):
                v[f.attr] = self.kind(f.kind, depth, density * 0.7)
        if isinstance(c, MixedCls):
            v["parts"] = self.mixed_parts(c, depth)
        elif isinstance(c, TextCls):
            v[c.text_attr] = gen_text_or_empty(rng)
        self.fix(name, v)
        return v

    def fix(self, name, v):
        """Constraints between fields"""

    def package(self, elements, depth=0):
        """Wrap elements into a document (list of packages)"""
        rng = self.rng
        p = self.cls_no_lists("Package", 0.15 if rng.random() < 0.3 else 0.0)
        if elements:
            p["elements"] = elements
        if rng.random() < 0.2 and depth < 2:
            for _ in range(rng.choice([1] * 9 + [2, 3, 5, 8])):
                p = {"$": "Package", "name": gen_name(rng), "packages": [p]}
        return p

    def cls_no_lists(self, name, density):
        """Package without content"""
        c = CLASSES[name]
        v = {"$": name}
        for f in c.fields:
            if f.attr in ("elements", "packages"):
                continue
            if f.req or self.rng.random() < density:
                v[f.attr] = self.kind(f.kind, 0, 0.3)
        return v


# ------------------------------------------------------------------ hosts
def _edges():
    """child class -> [(parent class, attr)]"""
    out: dict[str, list] = {n: [] for n in CLASSES}
    for n, c in CLASSES.items():
        for f in c.fields:
            for k in f.kind.classes():
                out[k].append((n, f.attr))
        if isinstance(c, MixedCls):
            for k in c.parts:
                out[k].append((n, "parts"))
    return out


PARENTS = _edges()


def _distances():
    dist = {n: 0 for n in CLASSES if CLASSES[n].collectable}
    todo = list(dist)
    while todo:
        nxt = []
        for n in todo:
            c = CLASSES[n]
            kids = set(c.parts if isinstance(c, MixedCls) else ())
            for f in c.fields:
                kids.update(f.kind.classes())
            for k in sorted(kids):
                if k not in dist and k != "Package":
                    dist[k] = dist[n] + 1
                    nxt.append(k)
        todo = nxt
    return dist


DIST = _distances()


def embed(gen: Gen, tree: dict) -> dict:
    """Embed a value tree into a collectable element, through a random chain of parents"""
    steps = 0
    while not CLASSES[tree["$"]].collectable:
        name = tree["$"]
        opts = [(p, a) for p, a in PARENTS[name] if p in DIST and p != "Package" and
                gen.allowed(p, CLASSES[p].by_attr.get(a))]
        if steps > 2 or gen.rng.random() < 0.6:
            best = min(DIST[p] for p, _ in opts)
            opts = [(p, a) for p, a in opts if DIST[p] == best]
        p, a = gen.rng.choice(opts)
        c = CLASSES[p]
        host = {"$": p}
        for f in c.fields:
            if f.attr == a:
                host[a] = [tree] if isinstance(f.kind, ListOf) or f.kind is s.CUSTOM["swvalues"] else tree
            elif f.req:
                host[f.attr] = gen.kind(f.kind, 0, 0.0)
        if a == "parts":
            host["parts"] = [tree]
            if gen.rng.random() < 0.5:
                host["parts"].append(gen_text(gen.rng))
            if gen.rng.random() < 0.5:
                host["parts"].insert(0, gen_text(gen.rng))
        gen.fix(p, host)
        tree = host
        steps += 1
    return tree


def uniquify(v, _used=None):
    """Make names unique among the named children of one owner (over all its lists); port references of port API
    options unique by their last part"""
    if isinstance(v, dict):
        used = set()
        opts = set()

        def visit(x):
            if isinstance(x, dict):
                if "name" in x and "$" in x:
                    base, i = x["name"], 0
                    if base in used and len(base) % 2:
                        x["name"] = base.swapcase()
                    while x["name"] in used:
                        i += 1
                        x["name"] = f"{base}_u{i}"
                    used.add(x["name"])
                if x.get("$") == "PortApiOption":
                    base, i = x["port"][0], 0
                    while x["port"][0].split("/")[-1] in opts:
                        i += 1
                        x["port"] = [f"{base}_u{i}", x["port"][1]]
                    opts.add(x["port"][0].split("/")[-1])
            elif isinstance(x, list):
                for y in x:
                    visit(y)
        for x in v.values():
            visit(x)
        for x in v.values():
            uniquify(x)
    elif isinstance(v, list):
        for x in v:
            uniquify(x)
    return v


# ------------------------------------------------------------------ statistics
def count_attrs(v) -> int:
    """Number of set attributes in tree"""
    if isinstance(v, dict):
        return sum(1 for k in v if k != "$") + sum(count_attrs(x) for x in v.values())
    if isinstance(v, list):
        return sum(count_attrs(x) for x in v)
    return 0


def count_classes(v, out=None) -> set:
    """Set of class names in tree"""
    out = set() if out is None else out
    if isinstance(v, dict):
        if "$" in v:
            out.add(v["$"])
        for x in v.values():
            count_classes(x, out)
    elif isinstance(v, list):
        for x in v:
            count_classes(x, out)
    return out


# ------------------------------------------------------------------ shrinking
def _leaf_options(k, x):
    if isinstance(k, Text):
        simple = "A"
        if x != simple:
            yield simple
        if k.sort == "text" and len(x) > 1:
            for i in range(len(x)):
                y = x[:i] + x[i + 1:]
                if y.strip():
                    yield y
    elif isinstance(k, Int):
        for y in (0, 1, 2):
            if y != x:
                yield y
    elif isinstance(k, Num):
        for y in ((0, 1, 1.5) if k.ints else (0.0, 1.0, 1.5)):
            if y != x:
                yield y
    elif isinstance(k, Ref):
        if x[0] != "/A":
            yield ["/A", x[1]]
        if x[1] != k.dests[0]:
            yield [x[0], k.dests[0]]
    elif isinstance(k, Enum):
        if x != k.members[0]:
            yield k.members[0]
    elif isinstance(k, PyKind):
        if isinstance(x, list):
            for i in range(len(x)):
                if len(x) > 1:
                    yield x[:i] + x[i + 1:]
                for y in (1, 1.5):
                    if x[i] != y and not (isinstance(x[i], (int, float)) and not isinstance(x[i], bool) and
                                          len(str(x[i])) <= len(str(y))):
                        yield x[:i] + [y] + x[i + 1:]


def shrink_steps(v):
    """Yield simpler trees"""
    c = CLASSES[v["$"]]
    for f in c.fields:
        if f.attr not in v:
            continue
        x = v[f.attr]
        if not f.req:
            w = dict(v)
            del w[f.attr]
            yield w
    for f in c.fields:
        if f.attr not in v:
            continue
        x = v[f.attr]
        k = f.kind
        if isinstance(k, ListOf):
            for i in range(len(x)):
                if len(x) > 1:
                    w = dict(v)
                    w[f.attr] = x[:i] + x[i + 1:]
                    yield w
                for y in (shrink_steps(x[i]) if isinstance(x[i], dict) else _leaf_options(k.item, x[i])):
                    w = dict(v)
                    w[f.attr] = x[:i] + [y] + x[i + 1:]
                    yield w
        elif isinstance(x, dict) and "$" in x:
            for y in shrink_steps(x):
                w = dict(v)
                w[f.attr] = y
                yield w
        else:
            for y in _leaf_options(k, x):
                w = dict(v)
                w[f.attr] = y
                yield w
    if "parts" in v:
        parts = v["parts"]
        for i, x in enumerate(parts):
            if len(parts) > 1:
                yield {**v, "parts": MixedCls.merge(parts[:i] + parts[i + 1:])}
            for y in (shrink_steps(x) if isinstance(x, dict) else _leaf_options(Text(), x)):
                yield {**v, "parts": parts[:i] + [y] + parts[i + 1:]}
    if isinstance(c, TextCls):
        for y in _leaf_options(c.kind, v[c.text_attr]):
            yield {**v, c.text_attr: y}


def shrink(tree, fails, budget=400):
    """Greedy shrinking of one value tree; `fails(tree)` tells whether the failure is still there"""
    tree = copy.deepcopy(tree)
    progress = True
    while progress and budget > 0:
        progress = False
        for cand in shrink_steps(tree):
            budget -= 1
            if budget <= 0:
                break
            if fails(cand):
                tree = cand
                progress = True
                break
    return tree


def focus_list() -> list:
    """All (class, attr) pairs to exercise"""
    out = []
    for n in sorted(CLASSES):
        if n == "Package" or n not in DIST:
            continue
        c = CLASSES[n]
        if not c.fields:
            out.append((n, None))
        for f in c.fields:
            out.append((n, f.attr))
    return out


def focus_values() -> list:
    """All (class, attr, variant) for attributes of enumeration, reference, Boolean or alternative-class kind; the
    variant is the literal, the DEST, the truth value or the class"""
    out = []
    for n, attr in focus_list():
        if attr is None:
            continue
        k = CLASSES[n].by_attr[attr].kind
        if isinstance(k, ListOf):
            k = k.item
        if isinstance(k, Enum):
            out += [(n, attr, m) for m in k.members]
        elif isinstance(k, Ref) and len(k.dests) > 1:
            out += [(n, attr, m) for m in k.dests]
        elif isinstance(k, Bool):
            out += [(n, attr, m) for m in (False, True)]
        elif isinstance(k, Obj) and len(k.cls) > 1:
            out += [(n, attr, m) for m in k.cls]
    return out


def force(gen, tree, attr, variant):
    """Force the variant of the focused attribute"""
    f = CLASSES[tree["$"]].by_attr[attr]
    k = f.kind.item if isinstance(f.kind, ListOf) else f.kind
    if isinstance(k, Ref):
        v = [gen_path(gen.rng), variant]
    elif isinstance(k, Obj):
        v = gen.cls(variant, 0, 0.3)
    else:
        v = variant
    if isinstance(f.kind, ListOf):
        vs = tree[attr]
        vs[gen.rng.randrange(len(vs))] = v
    else:
        tree[attr] = v


def gen_case(rng, focus) -> dict:
    """One case: {"sv": schema version, "packages": [package trees]}"""
    sv = rng.choice([48, 49, 50, 51, 51])
    gen = Gen(rng, sv)
    name, attr = focus[:2]
    if attr == "array_impl_policy" and sv < 49:
        gen.sv = sv = 50
    mode = rng.random()
    density = rng.choice([0.0, 0.1, 0.3, 0.6]) if mode < 0.9 else 1.0
    listed = attr is None or isinstance(CLASSES[name].by_attr[attr].kind, (ListOf, PyKind))
    if mode < (0.15 if listed else 0.01):  # a long list
        gen.long, density = rng.choice([4, 5, 6, 8, 9, 10, 11, 12, 16, 17, 20, 33, 40]), 0.1
    tree = gen.cls(name, rng.choice([0, 0, 1, 1, 2]), density, {attr})
    if len(focus) > 2:
        force(gen, tree, attr, focus[2])
    gen.long = 0
    tree = embed(gen, tree)
    pk = gen.package([tree])
    return uniquify({"sv": sv, "packages": [pk]})


# ------------------------------------------------------------------ text leaves
def map_text(v, fn, attr_too=True):
    """Copy of tree with every free text leaf replaced by fn(old, where); where is 'text', 'words', 'attribute', 'part'
    or 'only' (the only content of its element)"""
    if isinstance(v, list):
        return [map_text(x, fn) for x in v]
    if not isinstance(v, dict) or "$" not in v:
        return v
    c = CLASSES[v["$"]]
    out = dict(v)
    for f in c.fields:
        if f.attr not in v:
            continue
        x = v[f.attr]
        k = f.kind
        if isinstance(k, Text) and k.sort in ("text", "words"):
            out[f.attr] = fn(x, "attribute" if f.xattr else k.sort)
        elif isinstance(k, ListOf) and isinstance(k.item, Text) and k.item.sort in ("text", "words"):
            out[f.attr] = [fn(y, k.item.sort) for y in x]
        elif isinstance(k, PyKind) and k.gen[0] == "const":
            out[f.attr] = fn(x, "text") if isinstance(x, str) else x
        elif isinstance(k, PyKind) and k.gen[0] == "swvalues":
            out[f.attr] = [fn(y, "text") if isinstance(y, str) else map_text(y, fn) for y in x]
        else:
            out[f.attr] = map_text(x, fn)
    if isinstance(c, MixedCls):
        n = len(v["parts"])
        out["parts"] = [fn(p, "only" if n == 1 else "part") if isinstance(p, str) else map_text(p, fn)
                        for p in v["parts"]]
    elif isinstance(c, TextCls) and isinstance(c.kind, Text):
        out[c.text_attr] = fn(v[c.text_attr], "text")
    return out


XML_RANGES = [(0x9, 0xa), (0xd, 0xd), (0x20, 0x7e), (0x20, 0x7e), (0x20, 0x7e), (0x7f, 0x9f), (0xa0, 0x2ff),
              (0x300, 0x36f), (0x590, 0x6ff), (0x2000, 0x206f), (0x3000, 0x30ff), (0xac00, 0xd7ff),
              (0xe000, 0xf8ff), (0xfe00, 0xfffd), (0x10000, 0x1f6ff), (0x100000, 0x10ffff)]
WILD = ["\r", "a\rb", "\r\n", "x\r\ny", "a\nb\n", "\ta", "]]>", "]]]]>>", "<![CDATA[", "&lt;", "&#38;", "&#x26;#60;",
        "<L-4 L=\"EN\">x</L-4>", "</SHORT-NAME>", "<?xml version=\"1.0\"?>", "<!--", "-->", "--", "\x7f", "\x85",
        "a\x85b", "\u2028", "a\u2029", "\ufeff", "\ufffd", "\ud7ff", "\ue000", "\U0010ffff", "\U0001f600", "e\u0301",
        "\u202e", "'", "\"", "\"'", "&", "<", ">", "&&", "<<", "%s", "{}", "\\", "\\n", "$", "`", "\u00a0", " a ",
        "a  b", "=", "&nbsp;", "&amp;amp;", "\x80", "\x9f", "0x10", "1e3", "true", "None", "A" * 400]


def gen_wild(rng) -> str:
    """Any text of XML characters"""
    r = rng.random()
    if r < 0.35:
        return rng.choice(WILD)
    if r < 0.55:
        return rng.choice(WILD) + rng.choice(["", "a", " ", "\n"]) + rng.choice(WILD)
    out = []
    for _ in range(gen_length(rng, 1, 20)):
        lo, hi = rng.choice(XML_RANGES)
        out.append(chr(rng.randint(lo, hi)))
    if rng.random() < 0.0003:
        out *= rng.choice([5000, 20000]) // len(out)  # longer than buffers
    return "".join(out)

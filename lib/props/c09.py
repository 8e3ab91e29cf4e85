"""C09: different ways to build the same object"""
import altbuild
import altforms
import argen as g
import arschema as s
import doc
from doc import CLASSES, ar_document, ar_reader, ar_writer
from props import c08

ID = "C09"
QUICK, THOROUGH = 80000, 1000000
RULE = """A case is an element in a package that is built with another choice of the documented ways to give each
attribute: constructor lists, single items, tuples, append and create methods one by one (before or after the element
is added to a package), references as text or as objects of other reference classes with the same destination,
descriptions as text or (language, text). The result must have exactly the attributes, the XML and the references of
the same element built with constructor lists; the lists given are unchanged and can be changed afterwards. Non-trivial: at least one attribute is given in another way."""
FOCI = [(cls, attr) for cls, d in altforms.FORMS.items() for attr in d]


def generate(rng, i, _tier):
    """Case number i"""
    focus = FOCI[i % len(FOCI)]
    gen = g.Gen(rng, 51)
    tree = gen.cls(focus[0], rng.choice([0, 1, 1, 2]), rng.choice([0.0, 0.2, 0.5]), {focus[1]})
    if focus[1] == "desc" and rng.random() < 0.7:
        tree["desc"] = {"$": "MultiLanguageOverviewParagraph", "elements": [
            {"$": "LanguageOverviewParagraph", "parts": [g.gen_text(rng)],
             "language": rng.choice(["FOR_ALL", "FOR_ALL", "EN", "SV"])}]}
    try:
        tree = g.embed(gen, tree)
    except (IndexError, ValueError):
        pass  # is not used in documents
    element = g.uniquify({"e": [tree]})["e"][0]
    forms = []
    for cls in sorted(g.count_classes(element)):
        for attr, options in altforms.FORMS.get(cls, {}).items():
            if (cls, attr) == tuple(focus):
                forms.append([cls, attr, options[(i // len(FOCI)) % len(options)]])
            elif rng.random() < 0.4:
                forms.append([cls, attr, rng.choice(options)])
    return {"element": element, "forms": forms, "attach": rng.random() < 0.5, "former": rng.random() < 0.3}


def usable(case):
    """The forms that can express the values everywhere"""
    return {(c, a): f for c, a, f in case["forms"]}


def nontrivial(case):
    """See RULE"""
    return any(found(case["element"], c, a) for c, a, _ in case["forms"])


def found(tree, cls, attr):
    """Whether an attribute of a class occurs"""
    if isinstance(tree, dict):
        return tree.get("$") == cls and attr in tree or any(found(x, cls, attr) for x in tree.values())
    return isinstance(tree, list) and any(found(x, cls, attr) for x in tree)


def labels(case):
    """Distribution"""
    if case["former"]:
        yield "objects belonged to other owners before"
    for c, a, f in case["forms"]:
        if found(case["element"], c, a):
            yield "form " + f
            yield f"attribute {c}.{a}"


def run(case):
    """Oracle"""
    s.schema_version[0] = 51
    element, forms = case["element"], usable(case)
    document = ar_document.Document(schema_version=51)
    package = document.create_package("Package")
    in_package = CLASSES[element["$"]].collectable or element["$"] == "Package"
    while True:  # forms that can't express a value are not used
        try:
            altbuild.build(element, forms)
            break
        except altbuild.NotApplicable as exc:
            forms.pop(exc.args[0])
    lists = altbuild.GIVEN[0] = []
    altbuild.FORMER[0] = [] if case.get("former") else None
    obj = altbuild.build(element, forms, package.append if case["attach"] and in_package else None)
    altbuild.GIVEN[0] = altbuild.FORMER[0] = None
    for name, given, items in lists:  # they belong to the caller
        if len(given) != len(items) or any(x is not y for x, y in zip(given, items)):
            return f"the list given as {name} was changed to {given}"
        given.clear()
    if in_package and not case["attach"]:
        package.append(obj)
    used = sorted(f"{c}.{a}: {f}" for (c, a), f in forms.items() if found(element, c, a))
    d = CLASSES[element["$"]].check(obj, element) or doc.shared(obj)
    if d:
        return f"{element['$']} built with {used}{d}"
    if not in_package:
        return None
    plain = ar_document.Document(schema_version=51)
    plain.create_package("Package").append(CLASSES[element["$"]].build(element))
    a = ar_writer.Writer().write_str(document)
    b = ar_writer.Writer().write_str(plain)
    if a != b:
        x, y = next((x, y) for x, y in zip(a.split("\n") + [""], b.split("\n") + [""]) if x != y)
        return f"{element['$']} built with {used}: XML has {x!r} where constructor lists give {y!r}"
    for path, cls, owner, o in c08.objects(package, "", "", [], set()):
        if (cls, owner) in c08.APART or (cls, None) in c08.APART:
            continue
        if o.root_collection() is not document:
            return f"{element['$']} built with {used}: {cls} {path} is not connected to the document"
        if cls in c08.DEST and str(o.ref()) != path:
            return f"{element['$']} built with {used}: reference of {cls} {path} is {o.ref()}"
    return None


def shrink(case):
    """Simpler cases"""
    for i in range(len(case["forms"])):
        yield {**case, "forms": case["forms"][:i] + case["forms"][i + 1:]}
    for y in g.shrink_steps(case["element"]):
        yield {**case, "element": y}


__all__ = ["ar_reader", "doc"]

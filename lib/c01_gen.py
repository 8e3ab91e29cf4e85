"""Generator shared by the document level properties"""
import argen as g
import doc


def generate(rng, i, _tier):
    """Case number i"""
    if i % 4001 == 4000:
        return large(rng, i // 4001)
    if i % 211 == 210:
        return nested(rng, i // 211)
    if i % 10 == 9:
        case = doc.case_at(rng, i // 10)
        for _ in range(rng.randint(1, 2)):
            case["packages"] += [p for p in g.gen_case(rng, rng.choice(doc.FOCI))["packages"]
                                 if case["sv"] >= 49 or "ArrayImpl" not in str(p)]
        g.uniquify({"packages": case["packages"]})
        case["packages"] = [p for p in case["packages"] if case["sv"] >= 49 or "array_impl_policy" not in str(p)]
        case["file"] = True
        if case["packages"]:
            return case
    return doc.case_at(rng, i)


def large(rng, i):
    """Many elements, many packages, long lists or deep nesting"""
    gen = g.Gen(rng, 51)
    kind = ["elements", "packages", "list", "values"][i % 4]
    if kind == "elements":
        elements = []
        for k in range(rng.randint(200, 600)):
            focus = doc.FOCI[(i * 601 + k) % len(doc.FOCI)]
            elements.append(g.embed(gen, gen.cls(focus[0], 0, 0.1, {focus[1]})))
        packages = [{"$": "Package", "name": "P", "elements": elements}]
    elif kind == "packages":
        packages = [{"$": "Package", "name": f"P{k}", "elements": [gen.cls("Unit", 0, 0.3)]}
                    for k in range(rng.randint(100, 400))]
        deep = {"$": "Package", "name": "Deep", "elements": [gen.cls("Unit", 0, 0.3)]}
        for k in range(rng.randint(20, 60)):
            deep = {"$": "Package", "name": f"D{k % 7}", "packages": [deep]}
        packages.append(deep)
    elif kind == "list":
        group = {"$": "ModeDeclarationGroup", "name": "G", "mode_declarations": [
            {"$": "ModeDeclaration", "name": f"M{k}", "value": k} for k in range(rng.randint(500, 3000))]}
        types = [{"$": "ImplementationDataType", "name": "T", "sub_elements": [
            gen.cls("ImplementationDataTypeElement", 0, 0.1) for k in range(rng.randint(200, 600))]}]
        packages = [{"$": "Package", "name": "P", "elements": [group] + types}]
    else:
        value = {"$": "ArrayValueSpecification", "elements": [gen.cls("NumericalValueSpecification", 0, 0.9)
                                                              for _ in range(rng.randint(500, 2000))]}
        for k in range(rng.randint(10, 40)):
            value = {"$": rng.choice(["ArrayValueSpecification", "RecordValueSpecification"]), "label": f"L{k}",
                     "elements": [value, gen.cls("TextValueSpecification", 0, 0.9)]}
        for v in walk(value):
            if v["$"] == "RecordValueSpecification":
                v["fields"] = v.pop("elements")
        packages = [{"$": "Package", "name": "P", "elements": [
            {"$": "ConstantSpecification", "name": "C", "value": value}]}]
    return g.uniquify({"sv": 51, "packages": packages, "file": i % 2 == 0})


def nested(rng, i):
    """Data types with elements inside of elements"""
    gen = g.Gen(rng, 51)

    def inner(depth):
        tree = gen.cls("ImplementationDataTypeElement", 0, 0.1)
        tree.pop("sub_elements", None)
        if depth:
            tree["sub_elements"] = [inner(depth - 1 if k == 0 else 0) for k in range(rng.choice([1, 2, 3]))]
            rng.shuffle(tree["sub_elements"])
        return tree
    tree = {"$": "ImplementationDataType", "name": "T", "sub_elements": [inner(rng.choice([2, 3, 5, 9, 30]))]}
    return g.uniquify({"sv": 51, "packages": [gen.package([tree])], "file": i % 2 == 0})


def walk(v):
    """All objects of a value specification"""
    yield v
    for x in v.get("elements", []) + v.get("fields", []):
        yield from walk(x)


def nontrivial(case):
    """At least three attributes other than names"""
    return doc.attr_count(case) >= 3 + sum(1 for _ in case["packages"])


def labels(case):
    """Distribution"""
    yield "element " + doc.focus_path(case)
    n = doc.attr_count(case)
    yield "attributes " + ("<5" if n < 5 else "5-19" if n < 20 else "20-99" if n < 100 else ">=100")

"""C14: enumerations and destinations of references"""
import json
import os
import autosar.xml.enumeration as ar_enum
import autosar.xml.exception as ar_except
import autosar.xml.reference as ar_ref

ID = "C14"
QUICK, THOROUGH = 120000, 1000000
RULE = """All literals of all enumerations with all schema versions 46 to 53, all package role names and all pairs of
reference class and destination are enumerated, and unknown literals are generated by mutation of literals (case, blanks,
underscores, prefixes, literals of other enumerations). Oracle: a frozen table of the literals and destinations of the
schema. Non-trivial: all cases."""
with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "literals.json"), encoding="utf-8") as _fh:
    TABLE = json.load(_fh)
ENUMS, REFS, ROLES = TABLE["enums"], TABLE["refs"], TABLE["roles"]
VERSIONED = {"ArrayImplPolicy": [49, 50, 51]}
PROVIDE = {"ABSTRACT_PROVIDED_PORT_PROTOTYPE", "P_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE"}
REQUIRE = {"ABSTRACT_REQUIRED_PORT_PROTOTYPE", "R_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE"}


def enumerate_all():
    """All literals, roles and destinations"""
    for name, members in ENUMS.items():
        for member in members:
            for version in range(46, 54):
                yield {"kind": "literal", "enum": name, "member": member, "version": version}
        yield {"kind": "members", "enum": name}
    for role in ROLES:
        yield {"kind": "role", "name": role}
    for ref, dests in REFS.items():
        for dest in ENUMS["IdentifiableSubTypes"]:
            yield {"kind": "dest", "ref": ref, "dest": dest, "value": "/Package/Name"}
        yield {"kind": "default", "ref": ref, "single": len(dests) == 1}


def generate(rng, i, _tier):
    """Case number i: unknown literals"""
    names = sorted(ENUMS)
    name = names[i % len(names)]
    if i % 5 == 4:
        dests = REFS[rng.choice(sorted(REFS))]
        ref = rng.choice(sorted(REFS))
        value = "/".join([rng.choice(["", "", "A"])] + [rng.choice(["A", "Name_1", "ä", "x" * 128])
                                                        for _ in range(rng.choice([1, 2, 5]))])
        return {"kind": "dest", "ref": ref, "dest": rng.choice(dests), "value": value}
    member = rng.choice(sorted(ENUMS[name]))
    text = ENUMS[name][member][0]
    mutation = rng.randrange(9)
    if mutation == 0:
        text = text.swapcase() if rng.random() < 0.5 else text.title()
    elif mutation == 1:
        text = text.replace("-", "_") if "-" in text else text + "_"
    elif mutation == 2:
        text = rng.choice([" ", "\n", ""]) + text + rng.choice([" ", "\t"])
    elif mutation == 3:
        text = text[:rng.randrange(len(text))]
    elif mutation == 4:
        text += rng.choice(["S", "-", "1", text])
    elif mutation == 5:
        other = rng.choice(names)
        text = ENUMS[other][rng.choice(sorted(ENUMS[other]))][0]
    elif mutation == 6:
        k = rng.randrange(len(text))
        text = text[:k] + rng.choice("ABXZ-_ 0") + text[k + 1:]
    elif mutation == 7:
        text = rng.choice(["", "NONE", "0", "UNDEFINED", member, "None"])
    else:
        text = text.replace("-", "", 1) if "-" in text else text[::-1]
    return {"kind": "unknown", "enum": name, "text": text, "version": rng.choice([48, 49, 50, 51])}


def nontrivial(_case):
    """See RULE"""
    return True


def labels(case):
    """Distribution"""
    yield case["kind"]
    yield "enum " + case["enum"] if "enum" in case else "references or roles"


def known(name):
    """Literals with aliases"""
    return {t: m for m, (text, aliases) in ENUMS[name].items() for t in [text] + aliases}


def error_of(func, *args):
    """(result, error)"""
    try:
        return func(*args), None
    except Exception as exc:  # pylint: disable=broad-except
        return None, exc


def run(case):
    """Oracle"""
    kind = case["kind"]
    if kind == "members":
        got = sorted(m.name for m in getattr(ar_enum, case["enum"]))
        missing = sorted(set(ENUMS[case["enum"]]) - set(got))
        return f"{case['enum']} has no literals {missing}" if missing else None
    if kind == "literal":
        return literal(case["enum"], case["member"], case["version"])
    if kind == "unknown":
        name, text = case["enum"], case["text"]
        result, error = error_of(ar_enum.xml_to_enum, name, text, case["version"])
        member = known(name).get(text)
        if member is not None:
            if name in VERSIONED and case["version"] not in VERSIONED[name]:
                return None if isinstance(error, ar_except.VersionError) else f"{name} {text!r}: {result or error}"
            return None if result is getattr(ar_enum, name)[member] else f"{name} {text!r} is {result or error}"
        if not isinstance(error, ar_except.ParseError):
            return f"{name}: unknown literal {text!r} gives {result if error is None else repr(error)}"
        return None
    if kind == "role":
        got = ar_enum.str_to_package_role(case["name"])
        return None if got is ar_enum.PackageRole[ROLES[case["name"]]] else f"role {case['name']} is {got}"
    cls = getattr(ar_ref, case["ref"])
    if kind == "default":
        ref, error = error_of(cls, "/A/B")
        if not case["single"]:
            return None if error is not None else f"{case['ref']} without destination is {ref.dest}"
        if error is not None or ref.dest.name != REFS[case["ref"]][0] or str(ref) != "/A/B":
            return f"{case['ref']} without destination: {error or ref.dest}"
        return None
    ref, error = error_of(cls, case["value"], ar_enum.IdentifiableSubTypes[case["dest"]])
    if case["dest"] not in REFS[case["ref"]]:
        if not isinstance(error, ValueError):
            return f"{case['ref']} accepts the destination {case['dest']}: {error or ref.dest}"
        return None
    if error is not None:
        return f"{case['ref']} with the destination {case['dest']} raises {error!r}"
    if ref.dest.name != case["dest"] or ref.value != case["value"] or str(ref) != case["value"]:
        return f"{case['ref']}({case['value']!r}, {case['dest']}) is {ref} with {ref.dest}"
    if case["ref"] == "PortPrototypeRef":
        if ref.is_provide_port_ref != (case["dest"] in PROVIDE) or ref.is_require_port_ref != (case["dest"] in REQUIRE):
            return f"PortPrototypeRef with {case['dest']}: wrong is_provide_port_ref or is_require_port_ref"
    return None


def literal(name, member, version):
    """Both directions"""
    item = getattr(ar_enum, name)[member]
    text, aliases = ENUMS[name][member]
    got, error = error_of(ar_enum.enum_to_xml, item, version)
    allowed = name not in VERSIONED or version in VERSIONED[name]
    if not allowed:
        if not isinstance(error, ar_except.VersionError):
            return f"{name}.{member} in schema version {version}: {got if error is None else repr(error)}"
    elif got != text:
        return f"{name}.{member} in schema version {version} is {got if error is None else repr(error)}, expected {text}"
    for t in [text] + aliases:
        got, error = error_of(ar_enum.xml_to_enum, name, t, version)
        if not allowed:
            if not isinstance(error, ar_except.VersionError):
                return f"{name} {t} in schema version {version}: {got if error is None else repr(error)}"
        elif got is not item:
            return f"{name} {t} in schema version {version} is {got if error is None else repr(error)}"
    if allowed and version == 51:
        if ar_enum.enum_to_xml(item) != text or ar_enum.xml_to_enum(name, text) is not item:
            return f"{name}.{member}: another result without schema version"
    return None

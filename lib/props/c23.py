"""C23: the generated type header"""
import os
import re
import subprocess
import autosar.generator
from autosar.model import ImplementationModel
import ctypes_of as ct

ID = "C23"
QUICK, THOROUGH = 6000, 30000
RULE = """A case is a set of base types and implementation data types (values, references, arrays of one to three
dimensions, structures, nested and shared, some emitted by the platform) and the types that are asked for. The header
Rte_Type.h is generated (as text and as file) and compiled with gcc, in every fifth case with g++ as well, next to a Rte.h
that only has the types that the header isn't responsible for. Oracle: exactly the needed types are defined, once, and the
compiler accepts assertions that every type is the C type that the description means (element types, dimensions, members,
order of members). Non-trivial: at least three types."""
ASSUMPTIONS = ["gcc decides whether two C types are the same"]
SCRATCH = None  # set by the runner


def generate(rng, i, _tier):
    """Case number i"""
    types = ct.generate(rng, True, i % 50 == 49)
    n = rng.choice([1, 1, 2, 3, 4])
    roots = sorted({rng.randrange(len(types) // 2, len(types)) if rng.random() < 0.7 else rng.randrange(len(types))
                    for _ in range(n)})
    rng.shuffle(roots)
    return {"types": types, "roots": roots, "read": rng.random() < 0.1, "cpp": i % 5 == 0,
            "early": rng.choice([None, None, rng.sample(EARLY, rng.choice([1, 2, 4]))])}


EARLY = ["write_type_header_str", "write_type_header", "write_type_defs_str", "gen_data_type_creation_order"]


def foreign(t):
    """The header doesn't define the type"""
    return not t["native"] if t["kind"] == "BASE" else t["emitter"] not in (None, "RTE", "Rte", "rte")


def meaning(types, k):
    """(C type without typedefs or name of a structure, dimensions)"""
    t = types[k]
    if t["kind"] == "BASE":
        return t["native"] or "signed short", []
    if t["kind"] in ("VALUE", "TYPE_REFERENCE"):
        return meaning(types, t["to"])
    if t["kind"] == "STRUCTURE":
        return t["name"], []
    name, dims = meaning(types, t["item"][1])
    return name, t["sizes"] + dims


def text_of(name_dims, declared=""):
    """C type or declaration"""
    name, dims = name_dims
    return f"{name}{' ' + declared if declared else ''}" + "".join(f"[{n}]" for n in dims)


def rte_h(types, used):
    """Types that Rte_Type.h doesn't define"""
    out = ["#ifndef RTE_H", "#define RTE_H"]
    for k in sorted(used):
        t = types[k]
        if not foreign(t):
            continue
        if t["kind"] == "STRUCTURE":
            members = [text_of(meaning(types, n), name) + ";" for name, (_, n) in zip(ct.members_of(t), t["members"])]
            out.append(f"typedef struct Foreign_{t['name']} {{ {' '.join(members)} }} {t['name']};")
        else:
            out.append(f"typedef {text_of(meaning(types, k), t['name'])};")
    return "\n".join(out + ["#endif", ""])


def checks_c(types, names):
    """Assertions about the types"""
    out = ["#include <stddef.h>", '#include "Rte_Type.h"', '#include "Rte_Type.h"']
    for t in types:
        if t["name"] not in names:
            continue
        if t["kind"] != "STRUCTURE":
            want = text_of(meaning(types, types.index(t)))
            out.append(f"_Static_assert(__builtin_types_compatible_p({t['name']}, {want}), \"{t['name']} is {want}\");")
            continue
        ref = f"struct Ref_{t['name']}"
        members = [text_of(meaning(types, n), name) + ";" for name, (_, n) in zip(ct.members_of(t), t["members"])]
        out.append(f"{ref} {{ {' '.join(members)} }};")
        out.append(f"_Static_assert(sizeof({t['name']}) == sizeof({ref}), \"size of {t['name']}\");")
        out.append(f"_Static_assert(__builtin_types_compatible_p({t['name']}, struct Rte_struct_{t['name']}), \"struct\");")
        for name in ct.members_of(t):
            out.append(f"_Static_assert(__builtin_types_compatible_p(__typeof__((({t['name']}*)0)->{name}), "
                       f"__typeof__((({ref}*)0)->{name})) && offsetof({t['name']}, {name}) == offsetof({ref}, {name}), "
                       f"\"{t['name']}.{name}\");")
    return "\n".join(out) + "\n"


def compiled(compiler, folder, name, text):
    """Messages of the compiler, None if there are none"""
    with open(os.path.join(folder, name), "w", encoding="ascii") as fh:
        fh.write(text)
    got = subprocess.run([compiler, "-fsyntax-only", "-Wall", "-Werror", "-I", folder, os.path.join(folder, name)],
                         capture_output=True, text=True, timeout=60, check=False)
    if got.returncode:
        lines = [x for x in got.stderr.replace(folder, "").splitlines() if "error" in x]
        return "; ".join(lines[:3]) or got.stderr[:300]
    return None


def defined(text):
    """Names of the typedefs in a header"""
    text = re.sub(r"/\*.*?\*/|//[^\n]*", "", text, flags=re.S)
    return re.findall(r"\btypedef\b[^;]*?(\w+)\s*(?:\[\d+\])*\s*;", text)


def run(case):
    """Oracle"""
    types, roots = case["types"], case["roots"]
    workspace, objs = ct.build(types, case["read"])
    model = ImplementationModel(workspace)
    generator = autosar.generator.TypeGenerator(model)
    folder = os.path.join(SCRATCH, f"c{os.getpid()}")
    os.makedirs(folder, exist_ok=True)
    for k in roots:
        for method in case.get("early") or []:  # the generator is used before all types are asked for
            getattr(generator, method)(*[folder] * (method == "write_type_header"))
        model.create_from_element(objs[k])
    generator.write_type_header(folder)
    with open(os.path.join(folder, "Rte_Type.h"), encoding="utf-8", newline="") as fh:
        header = fh.read()
    text = generator.write_type_header_str()
    if text.rstrip() != header.replace("\r\n", "\n").rstrip():
        return "write_type_header and write_type_header_str differ"
    if case.get("early"):
        model = ImplementationModel(workspace)
        for k in roots:
            model.create_from_element(objs[k])
        if autosar.generator.TypeGenerator(model).write_type_header_str() != text:
            return "the header differs from the one of a generator that was not used before"
    names = defined(header)
    if len(set(names)) != len(names):
        return f"defined more than once: {names}"
    used = ct.closure(types, roots)
    inline = ct.closure(types, roots, lambda k, c: not foreign(types[k]) and not (
        types[k]["kind"] in ("ARRAY", "STRUCTURE") and c == "VALUE"))
    must = {types[k]["name"] for k in inline if not foreign(types[k])}
    may = {types[k]["name"] for k in used if not foreign(types[k])}
    if must - set(names) or set(names) - may:
        return f"the header defines {sorted(names)}, expected {sorted(must)}, at most {sorted(may)}"
    order = [t.name for t in generator.gen_data_type_creation_order()]
    if order != names or defined(generator.write_type_defs_str()) != names:
        return f"the header defines {names}, creation order {order}"
    with open(os.path.join(folder, "Rte.h"), "w", encoding="ascii") as fh:
        fh.write(rte_h(types, used))
    d = compiled("gcc", folder, "check.c", checks_c(types, set(names)))
    if not d and case["cpp"] and not any(t["kind"] == "BASE" and t["native"] == "_Bool" for t in types):
        d = compiled("g++", folder, "check.cpp", '#include "Rte_Type.h"\n#include "Rte_Type.h"\n' + "".join(
            f"extern {n} v_{n};\n" for n in names))
    return d


def nontrivial(case):
    """See RULE"""
    return len(case["types"]) > 2


def labels(case):
    """Distribution"""
    yield f"{len(case['roots'])} asked for"
    if case.get("early"):
        yield "generator used before"
    for t in case["types"]:
        yield t["kind"] + (f" {len(t['sizes'])} dimensions" if t["kind"] == "ARRAY" else "")


def shrink(case):
    """Simpler cases"""
    for i in range(len(case["roots"])):
        if len(case["roots"]) > 1:
            yield {**case, "roots": case["roots"][:i] + case["roots"][i + 1:]}
    if case.get("early"):
        yield {**case, "early": None}
    if case["cpp"]:
        yield {**case, "cpp": False}
    types = case["types"]
    last = len(types) - 1
    if last and last not in case["roots"]:
        yield {**case, "types": types[:-1]}
    for i, t in enumerate(types):
        if len(t.get("members", [])) > 1:
            yield {**case, "types": types[:i] + [{**t, "members": t["members"][1:]}] + types[i + 1:]}
        if len(t.get("sizes", [])) > 1:
            yield {**case, "types": types[:i] + [{**t, "sizes": t["sizes"][1:]}] + types[i + 1:]}
        for attr in ("symbol", "emitter"):
            if t.get(attr):
                yield {**case, "types": types[:i] + [{**t, attr: None}] + types[i + 1:]}

"""
Finds the ways in which the attributes of each class can be given (run once on the tree that was reviewed; the result is
reviewed and kept in lib/altforms.py):  python tools/altforms.py
"""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import argen as g  # noqa: E402
import arschema as s  # noqa: E402
import altbuild  # noqa: E402
import artables  # noqa: E402,F401
from arschema import CLASSES  # noqa: E402


def main():
    """Entry point"""
    s.schema_version[0] = 51
    out = {}
    for name, cls in CLASSES.items():
        try:
            py = cls.py()
        except AttributeError:
            continue
        for attr in [f.attr for f in cls.fields] + (["parts"] if isinstance(cls, s.MixedCls) else []):
            forms = ["str", "other", "single", "tuple", "text", "pair", "plain", "make", "list"]
            forms += ["+" + m for m in dir(py) if m.startswith(("append", "extend", "create_"))]
            for form in forms:
                ok = bad = 0
                for seed in range(60):
                    rng = random.Random(seed)
                    gen = g.Gen(rng, 51)
                    tree = g.uniquify(gen.cls(name, 1, 0.0, {attr}))
                    if attr not in tree or not tree[attr]:
                        continue
                    try:
                        obj = altbuild.build(tree, {(name, attr): form})
                    except altbuild.NotApplicable:
                        continue
                    except Exception as exc:  # pylint: disable=broad-exception-caught
                        bad += 1
                        if os.environ.get("SHOW") == name:
                            print(form, exc)
                        continue
                    d = cls.check(obj, tree)
                    if d:
                        bad += 1
                        if os.environ.get("SHOW") == name:
                            print(form, d)
                    else:
                        ok += 1
                if ok and not bad:
                    out.setdefault(name, {}).setdefault(attr, []).append(form)
                elif ok and bad:
                    print("mixed", name, attr, form, ok, bad, file=sys.stderr)
    for name, d in out.items():
        print(name, "; ".join(f"{a} {' '.join(f)}" for a, f in d.items()))


main()

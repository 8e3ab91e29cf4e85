"""
Finds the values that constructors and append methods reject and writes lib/rejects.json (reviewed, frozen)
"""
import json
import os
import random
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import altforms  # noqa: E402 pylint: disable=wrong-import-position
import argen as g  # noqa: E402 pylint: disable=wrong-import-position
import arschema as s  # noqa: E402 pylint: disable=wrong-import-position
from props import c15  # noqa: E402 pylint: disable=wrong-import-position


def outcome(case):
    """Type of the error or None"""
    try:
        c15.perform(case)
    except (TypeError, ValueError):
        return "rejected"
    except c15.Unusable:
        return "unusable"
    except Exception as exc:  # pylint: disable=broad-except
        return type(exc).__name__
    return "accepted"


def main():
    """Write the table"""
    table, odd = {}, {}
    for name, cls in sorted(s.CLASSES.items()):
        for attr in c15.attributes(cls):
            for method in [""] + [f for f in altforms.FORMS.get(name, {}).get(attr, []) if f.startswith("+append")]:
                good, lax = [], []
                for bad in c15.BAD:
                    results = set()
                    for n in range(6):
                        rng = random.Random(n)
                        try:
                            case = c15.make_case(rng, name, attr, method, bad)
                        except (IndexError, ValueError, KeyError):
                            continue
                        results.add(outcome(case))
                    if results == {"rejected"}:
                        good.append(bad)
                    elif results - {"unusable", "rejected", "accepted"}:
                        odd.setdefault(f"{name}.{attr}{method} {sorted(results)}", []).append(bad)
                    elif "accepted" in results:
                        lax.append(bad)
                if good:
                    table.setdefault(name, {})[attr + method] = good
    with open(os.path.join(VERIF, "lib", "rejects.json"), "w", encoding="utf-8") as fh:
        json.dump(table, fh, indent=0, sort_keys=True)
    for k, v in odd.items():
        print(k, v)
    print(sum(len(x) for x in table.values()), sum(len(y) for x in table.values() for y in x.values()))


if __name__ == "__main__":
    main()
    assert g

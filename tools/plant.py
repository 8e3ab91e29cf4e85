"""
Plants a bug: turns a specification into seeded/<id>/ and verifies it:  python tools/plant.py SPEC... [--keep-missed]

A specification has the lines "id:", "prop:", "needs:", "breaks:", then blocks "file: PATH" / "<<<" old "===" new ">>>"
and at last "demo:" followed by a Python program that exits non-zero when the bug is there.
With --verify ID... existing folders are verified again and the check of their property is run on them.
"""
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = f"/tmp/plant-{os.getpid()}"  # a copy of /repo's HEAD, removed at the end
BASE = "1600e04"
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    """Runs a command"""
    kw.setdefault("env", {**os.environ, "PYTHONPATH": REPO + "/src", "VERIF_REPO": REPO, "VERIF_SEED": "1",
                          "VERIF_TIER": "quick", "PYTHONDONTWRITEBYTECODE": "1"})
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, check=False, **kw)


def parse(path):
    """Reads a specification"""
    with open(path, encoding="utf-8") as fh:
        text = fh.read()
    head, demo = text.split("\ndemo:\n", 1)
    spec = {"demo": demo, "edits": []}
    for key in ("id", "prop", "needs", "breaks"):
        spec[key] = re.search(rf"^{key}: *(.*)$", head, re.M).group(1)
    for m in re.finditer(r"^file: *(\S+)\n<<<\n(.*?)\n===\n(.*?)\n>>>$", head, re.M | re.S):
        spec["edits"].append(m.groups())
    assert spec["edits"]
    return spec


def create(spec):
    """Writes seeded/<id>/"""
    assert not sh(f"git -C {REPO} status --porcelain").stdout
    folder = os.path.join(VERIF, "seeded", spec["id"])
    try:
        for name, old, new in spec["edits"]:
            path = os.path.join(REPO, name)
            with open(path, encoding="utf-8") as fh:
                text = fh.read()
            assert text.count(old) == 1, f"{name}: {text.count(old)} matches of {old!r}"
            with open(path, "w", encoding="utf-8") as fh:
                fh.write(text.replace(old, new))
        diff = sh(f"git -C {REPO} diff").stdout
    finally:
        sh(f"git -C {REPO} checkout -- .")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, "patch.diff"), "w", encoding="utf-8") as fh:
        fh.write(diff)
    with open(os.path.join(folder, "demo.py"), "w", encoding="utf-8") as fh:
        fh.write(spec["demo"])
    with open(os.path.join(folder, "demo.sh"), "w", encoding="utf-8") as fh:
        fh.write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(folder, "demo.sh"), 0o755)
    with open(os.path.join(folder, "meta.json"), "w", encoding="utf-8") as fh:
        json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, fh, indent=1)


def original(folder):
    """Does the patch remove a line that isn't from a commit of ours, or only add lines?"""
    ours = {c[:12] for c in sh(f"git -C {REPO} log --format=%H {BASE}..HEAD").stdout.split()}
    path, removed = None, False
    with open(os.path.join(folder, "patch.diff"), encoding="utf-8") as fh:
        for line in fh:
            if line.startswith("--- a/"):
                path = line[6:].strip()
            elif line.startswith("@@"):
                number = int(re.match(r"@@ -(\d+)", line).group(1))
            elif line.startswith("-"):
                removed = True
                blame = sh(f"git -C {REPO} blame -l -s -L {number},{number} HEAD -- {path}").stdout.lstrip("^")
                if blame[:12] not in ours:
                    return True
                number += 1
            elif line.startswith(" "):
                number += 1
    return not removed


def verify(name, extra=()):
    """Verifies a planted bug; returns a line"""
    folder = os.path.join(VERIF, "seeded", name)
    with open(os.path.join(folder, "meta.json"), encoding="utf-8") as fh:
        meta = json.load(fh)
    demo = f"cd {REPO} && bash {folder}/demo.sh"
    clean = sh(demo)
    if clean.returncode:
        return f"{name}: demo fails on the unchanged tree\n{clean.stdout}{clean.stderr}"
    assert not sh(f"git -C {REPO} status --porcelain").stdout
    try:
        applied = sh(f"git -C {REPO} apply {folder}/patch.diff")
        if applied.returncode:
            return f"{name}: does not apply {applied.stderr}"
        if not original(folder):
            return f"{name}: changes no line of the original repository"
        tests = sh(f"cd {REPO} && {PY} -m pytest -q -x -p no:cacheprovider tests")
        if tests.returncode:
            return f"{name}: breaks tests: {tests.stdout[-300:]}"
        broken = sh(demo)
        if not broken.returncode:
            return f"{name}: the demo does not notice"
        res = []
        for pid in [meta["property"], *extra]:
            run = sh(f"{PY} -B {VERIF}/checks/run.py {pid}", cwd=VERIF)
            hit = run.returncode == 1 and f"VIOLATION property={pid} " in run.stdout
            res.append(f"{pid} {'caught' if hit else 'MISSED (exit %d)' % run.returncode}")
            if hit:
                lines = [x for x in run.stdout.splitlines() if x.strip()]
                res.append(" | ".join(lines)[:300])
        return f"{name}: " + " ".join(res)
    finally:
        sh(f"git -C {REPO} checkout -- .")


def main():
    """Entry point"""
    args = sys.argv[1:]
    if args[0] == "--verify":
        names = args[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
        for name in names:
            print(verify(name), flush=True)
        return
    for path in args:
        try:
            spec = parse(path)
            create(spec)
            print(verify(spec["id"]), flush=True)
        except AssertionError as exc:
            print(path, "ERROR", exc)


sh(f"git clone -q /repo {REPO}", env=None)
try:
    main()
finally:
    shutil.rmtree(REPO, ignore_errors=True)

"""Makes planted bugs from descriptions and confirms them in scratch copies.

plant.py FILE [ID...]    FILE holds sections of the form

    #### <id> <property>
    needs: <one line>
    breaks: <one line>
    -- <path of a source file>
    <<<
    old lines
    ===
    new lines
    >>>
    -- demo
    <python program: raises if the behaviour is wrong>

For each: seeded/<id>/ is written, and it is confirmed that the patch applies, that the
stable tests pass with it, that the demonstration tells the trees apart, and whether the
quick check of the property catches it.
"""

import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exit 0: behaves as it should
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 TQDM_DISABLE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout,
                       env={**os.environ, **(env or {})})
    return p.returncode, p.stdout + p.stderr


def sections(path):
    with open(path, encoding="utf-8") as f:
        text = f.read()
    for part in re.split(r"^#### ", text, flags=re.M)[1:]:
        head, rest = part.split("\n", 1)
        name, prop = head.split()
        needs = re.search(r"^needs: (.*)$", rest, flags=re.M).group(1)
        breaks = re.search(r"^breaks: (.*)$", rest, flags=re.M).group(1)
        files, demo = [], None
        for sub in re.split(r"^-- ", rest, flags=re.M)[1:]:
            title, content = sub.split("\n", 1)
            if title.strip() == "demo":
                demo = content
            else:
                for m in re.finditer(r"^<<<\n(.*?)^===\n(.*?)^>>>$", content, flags=re.M | re.S):
                    files.append((title.strip(), m.group(1), m.group(2)))
        yield name, prop, needs, breaks, files, demo


def fresh(name):
    copy = f"/tmp/seed/{name}"
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs(copy)
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {copy}", shell=True, check=True)
    sh(["git", "init", "-q"], copy)
    sh(["git", "add", "-A"], copy)
    sh(["git", "-c", "user.name=x", "-c", "user.email=x", "commit", "-qm", "x"], copy)
    return copy


def tests(copy):
    out = os.path.join(copy, "junit.xml")
    sh([PY, "-B", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-p", "no:cov",
        "-p", "no:xdist", "--randomly-seed=1", "--randomly-dont-reorganize", "--timeout=60",
        f"--junitxml={out}"], copy,
       {"PYTHONPATH": copy + "/src", "TQDM_DISABLE": "1", "MPLBACKEND": "Agg"})
    if not os.path.exists(out):
        return ("no tests ran",)
    with open(out, encoding="utf-8") as f:
        m = re.search(r'errors="(\d+)" failures="(\d+)" skipped="(\d+)" tests="(\d+)"', f.read())
    os.remove(out)
    return m.groups()


def make(name, prop, needs, breaks, files, demo):
    copy = fresh(name)
    for path, old, new in files:
        full = os.path.join(copy, path)
        with open(full, encoding="utf-8") as f:
            text = f.read()
        if text.count(old) != 1:
            return f"{name}: BAD EDIT in {path} ({text.count(old)} matches)"
        with open(full, "w", encoding="utf-8") as f:
            f.write(text.replace(old, new))
    _, diff = sh(["git", "diff"], copy)
    where = os.path.join(VERIF, "seeded", name)
    os.makedirs(where, exist_ok=True)
    for fname, content in (
        ("patch.diff", diff), ("demo.sh", DEMO_SH), ("demo.py", demo),
        ("meta.json", json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks},
                                 indent=1) + "\n"),
    ):
        with open(os.path.join(where, fname), "w", encoding="utf-8") as f:
            f.write(content)
    os.chmod(os.path.join(where, "demo.sh"), 0o755)
    good, out1 = sh(["bash", os.path.join(where, "demo.sh")], "/repo")
    bad, out2 = sh(["bash", os.path.join(where, "demo.sh")], copy)
    t = tests(copy)
    ok = good == 0 and bad != 0 and t == ("0", "0", "0", "127")
    rc, out3 = sh([os.path.join(VERIF, "check"), prop, "quick"], VERIF, {"MC_REPO": copy})
    caught = rc == 1 and f"VIOLATION property={prop} " in out3
    line = f"{name}: {'valid' if ok else 'NOT VALID'} demo {good}/{bad} tests {t} " \
           f"{'caught' if caught else 'MISSED rc=%d' % rc}"
    if good:
        line += "\n  unpatched: " + out1[-600:]
    if not bad:
        line += "\n  patched: " + out2[-300:]
    else:
        line += "\n  patched: " + (out2.strip().splitlines() or [""])[-1][:200]
    if rc not in (0, 1):
        line += "\n" + out3[-800:]
    shutil.rmtree(copy)
    return line


if __name__ == "__main__":
    chosen = sys.argv[2:]
    for args in sections(sys.argv[1]):
        if not chosen or args[0] in chosen:
            print(make(*args), flush=True)

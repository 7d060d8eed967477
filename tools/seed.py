"""Plants one change: python3 tools/seed.py <spec.py> [id ...].

A spec file defines BUGS: dicts with id, property, needs, breaks, edits [(file, old, new)], demo (python
source) and optionally stubs (names under stubs/ to lay beside the demo).  The change is applied to a
copy of /repo, checked (only lines of the original repository, tests pass, demo passes before and
fails after) and written to seeded/<id>/.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
SH = """#!/bin/bash
# cwd: the repository
D="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
R="$PWD"
W="$(mktemp -d)" || exit 3
trap 'cd /; rm -rf -- "$W"' EXIT
cd "$W" || exit 3
cp "$R/model_converters/onnx2json/settings.yaml" "$W/settings.yaml" 2>/dev/null
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0 MPLBACKEND=Agg LOGLEVEL=CRITICAL
export MPLCONFIGDIR="$W" DEMO="$D" REPO="$R"
export PYTHONPATH="$R/core:$R/inference_engine:$R/quantizer:$R/model_converters/keras2json:$R/model_converters/tflite2json:$R/model_converters/onnx2json:$R/demo/demo_lib:$D/stubs"
timeout 250 /opt/venv/bin/python "$D/demo.py"
"""


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def tests(copy):
    src = open("/opt/vp/test.sh").read().replace("/opt/vp/reports", "@REPORTS@").replace("/repo", copy).replace("@REPORTS@", copy + ".reports")
    out = copy + ".json"
    with open(copy + ".test.sh", "w") as f:
        f.write(src)
    sh(["bash", copy + ".test.sh", out], copy)
    o = json.load(open(out))
    for p in (out, copy + ".test.sh"):
        os.remove(p)
    shutil.rmtree(copy + ".reports", ignore_errors=True)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(map(str, o["passed"]))
    return [t for t in stable if t not in passed]


def plant(b):
    tmp = tempfile.mkdtemp(prefix="seed-")
    copy = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        for f, old, new in b["edits"]:
            p = os.path.join(copy, f)
            s = open(p, newline="").read()
            assert s.count(old) == 1, (b["id"], f, "pattern occurs %d times" % s.count(old))
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=copy, text=True)
        own = []
        for f, old, new in b["edits"]:
            removed = [l[1:] for l in subprocess.check_output(["git", "diff", "-U0", "--", f], cwd=copy, text=True).splitlines() if l.startswith("-") and not l.startswith("---")]
            blame = subprocess.check_output(["git", "-c", "core.quotepath=off", "blame", "-l", "-s", "HEAD", "--", f], cwd=copy, text=True).splitlines()
            base = {l.split(")", 1)[1][1:] for l in blame if l.split()[0].lstrip("^")[:30] == BASE[:len(l.split()[0].lstrip("^")[:30])]}
            own += [l for l in removed if l.strip() and l not in base]
            if not removed:
                own.append("(nothing of the original changed)")
        d = os.path.join(tmp, "demo")
        os.makedirs(d)
        for s in b.get("stubs", []):
            src = os.path.join(H, "stubs", s)
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(d, "stubs", s), **({"ignore": shutil.ignore_patterns("__pycache__")} if os.path.isdir(src) else {}))
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        good = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        bad = sh(["bash", os.path.join(d, "demo.sh")], copy)
        failing = tests(copy)
        ok = good.returncode == 0 and bad.returncode != 0 and not failing and not own
        print(b["id"], "OK" if ok else "REJECTED", "clean rc", good.returncode, "patched rc", bad.returncode, "tests failing", failing[:3], "not original:", own[:3])
        if good.returncode:
            print("   clean:", good.stdout[-500:])
        if bad.returncode:
            print("   patched:", bad.stdout.strip().splitlines()[-1:])
        if not ok:
            return False
        out = os.path.join(H, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    spec = {"H": H, "__builtins__": __builtins__}
    exec(open(sys.argv[1]).read(), spec)
    for b in spec["BUGS"]:
        if not sys.argv[2:] or b["id"] in sys.argv[2:]:
            try:
                plant(b)
            except AssertionError as e:
                print(b["id"], "FAILED", e)

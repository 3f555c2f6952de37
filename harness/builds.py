"""C26: one process per build of the library, their evidence merged.

    python -m harness.builds C26 | replay FILE
"""

import json
import os
from pathlib import Path
import subprocess
import sys
import time

ROOT = Path(os.environ["VERIF_ROOT"])
FLAVOURS = ("portable", "clang", "debug")


def build(flavour):
    r = subprocess.run([sys.executable, str(ROOT / "harness" / "build.py"), flavour],
                       capture_output=True, text=True)
    return r.stderr[-2500:] if r.returncode else ""


def run(flavour, *args):
    env = dict(os.environ, VERIF_FLAVOUR=flavour,
               PYTHONPATH=os.pathsep.join([str(ROOT / ".build" / flavour), os.environ["VERIF_HS"], str(ROOT)]))
    return subprocess.run([sys.executable, "-m", "harness.main", *args], env=env, cwd=ROOT)


def unbuildable(flavour, told):
    d = ROOT / "replays"
    d.mkdir(exist_ok=True)
    path = d / f"C26-{flavour}-build.json"
    path.write_text(json.dumps({"property": "C26", "sub": f"{flavour}/build", "case": "None", "message": told}, indent=1))
    print(f"--- C26/{flavour}: the library does not compile\n{told}\nVIOLATION property=C26 replay={path}")


def property_():
    t0 = time.time()
    merged = None
    only = os.environ.get("VERIF_ONLY", "")
    for f in FLAVOURS:
        if any(g in only for g in FLAVOURS) and f not in only:
            continue
        told = build(f)
        if told:
            unbuildable(f, told)
            return 1
        part = ROOT / ".build" / f"C26-{f}.json"
        part.unlink(missing_ok=True)
        code = run(f, "C26").returncode
        if part.exists():
            ev = json.loads(part.read_text())
            merged = join(merged, ev) if merged else ev
            merged["wall_s"] = round(time.time() - t0, 2)
            (ROOT / "evidence").mkdir(exist_ok=True)
            (ROOT / "evidence" / "C26.json").write_text(json.dumps(merged, indent=1))
        if code:
            return code
    return 0


def join(a, b):
    x, y = a["coverage"], b["coverage"]
    x["evaluations"] += y["evaluations"]
    x["distinct_nontrivial"] += y["distinct_nontrivial"]  # cases name their build
    x["samples"] = (x["samples"] + y["samples"])[:30]
    x["per_subcheck"].update(y["per_subcheck"])
    for k, v in y["classes"].items():
        x["classes"][k] = x["classes"].get(k, 0) + v
    a["violations"] += b["violations"]
    return a


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        d = json.loads(Path(sys.argv[2]).read_text())
        flavour = d["sub"].split("/")[0]
        flavour = flavour if flavour in FLAVOURS else FLAVOURS[0]
        told = build(flavour)
        if told:
            unbuildable(flavour, told)
            sys.exit(1)
        if d["sub"].endswith("/build"):
            print("the library compiles")
            sys.exit(0)
        sys.exit(run(flavour, *sys.argv[1:]).returncode)
    sys.exit(property_())

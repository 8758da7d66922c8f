"""Plant bugs: python3 tools/plant.py BUGS.py [id ...] [--nocheck]

BUGS.py calls bug(id, prop, edits, needs, breaks, demo) with edits = [(file, old, new)].  For each: scratch copy of /repo,
apply, diff, run the demonstration on both trees, optionally the property's check against the copy, and store it in seeded/<id>.
"""
import json, os, shutil, subprocess, sys, tempfile, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
BASE = os.environ.get("VERIF_REPO", "/repo")
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=$R PATH_TO_POSYDON=$R/ PATH_TO_POSYDON_DATA=$R/posydon/unit_tests/_data/ MESA_DIR=$R/ HDF5_USE_FILE_LOCKING=FALSE
D=$(mktemp -d) && cd "$D" || exit 2
trap 'rm -rf "$D"' EXIT
/opt/venv/bin/python -W ignore "$HERE/demo.py"
'''


def bug(id, prop, edits, needs, breaks, demo):
    BUGS[id] = (prop, edits, needs, breaks, demo)


def main():
    args = sys.argv[1:]
    nocheck = "--nocheck" in args
    args = [a for a in args if a != "--nocheck"]
    exec(open(args[0]).read(), dict(bug=bug))
    for id in args[1:] or list(BUGS):
        prop, edits, needs, breaks, demo = BUGS[id]
        d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
        r = os.path.join(d, "repo")
        try:
            subprocess.run(["git", "clone", "-q", BASE, r], check=True)
            for f, old, new in edits:
                p = os.path.join(r, f)
                s = open(p).read()
                assert s.count(old) == 1, (id, f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout
            out = os.path.join(ROOT, "seeded", id)
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.py"), "w").write(textwrap.dedent(demo).lstrip())
            open(os.path.join(out, "demo.sh"), "w").write(SH)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            a = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=BASE, capture_output=True, text=True)
            b = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=r, capture_output=True, text=True)
            print(id, prop, "demo clean:", a.returncode, "bug:", b.returncode)
            if a.returncode:
                print(a.stdout[-500:], a.stderr[-1500:])
            print("   ", (b.stderr or b.stdout).strip().splitlines()[-1:])
            if not nocheck:
                c = subprocess.run(["bash", os.path.join(ROOT, "check.sh"), prop, "--tier", "quick", "--seed", "1"], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=r))
                print("    check rc", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "seed=" in l or l.startswith("  ")][:6], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()

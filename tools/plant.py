"""plant.py SPEC.py [id ...]: makes /verif/seeded/<id>/ from edits, confirming each in a scratch copy of /repo.

SPEC.py defines BUGS: list of dict(id, property, file, edits=[(old, new)], needs, breaks, demo)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
ENV.pop("PYTHONPATH", None)


def run(cmd, cwd, timeout=600, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, text=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    for b in bugs:
        if want and b["id"] not in want:
            continue
        out = os.path.join(HERE, "seeded", b["id"])
        if not want and os.path.exists(os.path.join(out, "meta.json")):
            continue
        tmp = tempfile.mkdtemp(prefix="plant-")
        try:
            repo = os.path.join(tmp, "repo")
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            p = os.path.join(repo, b["file"])
            s = open(p).read()
            bad = None
            for old, new in b["edits"]:
                if s.count(old) != 1:
                    bad = f"{s.count(old)} places for {old!r:.60}"
                s = s.replace(old, new)
            if bad:
                print(b["id"], "EDIT FAILED", bad)
                continue
            open(p, "w").write(s)
            patch = run(["git", "diff"], repo).stdout
            demo = os.path.join(tmp, "demo")
            os.makedirs(demo)
            open(os.path.join(demo, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            open(os.path.join(demo, "demo.sh"), "w").write(
                '#!/bin/bash\n# run with cwd /repo: exit 0 when the property holds\n'
                'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            good = run(["bash", demo + "/demo.sh"], "/repo", 300)
            broken = run(["bash", demo + "/demo.sh"], repo, 300)
            if good.returncode:
                print(b["id"], "DEMO FAILS ON CLEAN TREE", good.stdout[-600:])
                continue
            if not broken.returncode:
                print(b["id"], "DEMO PASSES WITH BUG")
                continue
            t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--doctest-modules", "--timeout=60",
                     "--basetemp=" + tmp + "/pt", "-x", "test", "castep_outputs"], repo, 800, PYTHONPATH=repo, PYTHONHASHSEED="0")
            if t.returncode:
                print(b["id"], "TESTS FAIL", t.stdout[-700:])
                continue
            os.makedirs(out, exist_ok=True)
            for f in ("demo.py", "demo.sh"):
                shutil.copy(os.path.join(demo, f), out)
            open(os.path.join(out, "patch.diff"), "w").write(patch)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            c = run(["python3-vt", os.path.join(HERE, "check.py"), b["property"]], HERE, 900, VERIF_REPO=repo, VERIF_SEED="1")
            v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
            print(b["id"], "CAUGHT" if c.returncode == 1 and v else f"MISSED rc={c.returncode}", len(v), v[:1],
                  c.stdout.splitlines()[-1:], flush=True)
        finally:
            shutil.rmtree(tmp)


main()

"""Plant a bug: python3 tools/plant.py BUG.py...  (development only; no check uses this)

BUG.py defines prop, file, old, new (or edits = [(file, old, new)...]), needs, breaks and demo (a python program).
The bug is kept in seeded/<id>/ only when the demonstration tells the trees apart and the existing tests pass."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")
FAKE = os.path.join(VERIF, "tools", "demo_fake.py")
SH = """#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def plant(path):
    b = {}
    exec(open(path, encoding="utf-8").read(), b)
    name = os.path.basename(path)[:-3]
    tmp = tempfile.mkdtemp(prefix="plant_")
    wt = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", REPO, wt], check=True)
        for f, old, new in b.get("edits") or [(b["file"], b["old"], b["new"])]:
            f = os.path.join(wt, f)
            s = open(f, encoding="utf-8").read()
            if s.count(old) != 1:
                return "%s: the old text occurs %d times" % (name, s.count(old))
            with open(f, "w", encoding="utf-8") as g:
                g.write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
        out = os.path.join(tmp, name)
        os.makedirs(out)
        for fn, s in (("patch.diff", diff), ("demo.sh", SH), ("demo.py", b["demo"]), ("fake.py", open(FAKE).read()),
                      ("meta.json", json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")):
            with open(os.path.join(out, fn), "w", encoding="utf-8") as g:
                g.write(s)
        if "import fake" not in b["demo"] and "from fake" not in b["demo"]:
            os.remove(os.path.join(out, "fake.py"))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        res = []
        for cwd in (REPO, wt):
            r = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=cwd, capture_output=True, text=True, timeout=280)
            res.append(r)
        if res[0].returncode != 0 or res[1].returncode == 0:
            return "%s: demo %d %d\n%s\n%s" % (name, res[0].returncode, res[1].returncode, res[0].stderr[-1500:], res[1].stderr[-600:])
        why = (res[1].stderr.strip().splitlines() or ["?"])[-1]
        # existing tests, in the scratch copy
        ok = tests(wt, tmp)
        if ok is not True:
            return "%s: tests: %s" % (name, ok)
        dst = os.path.join(VERIF, "seeded", name)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return "%s: kept (%s)" % (name, why[:150])
    finally:
        shutil.rmtree(tmp)


def tests(wt, tmp):
    env = dict(os.environ, PYTHONPATH=wt, PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), PYTHONHASHSEED="0", LANG="C.UTF-8")
    skip = []
    for m in ("test_capitains_xml_default", "test_capitains_xml_notObjectified"):
        for c in ("CapitainsXmlTextTest", "CapitainsXmlPassageTests", "CapitainsXMLRangePassageTests"):
            skip += ["--deselect", "tests/resources/texts/local/%s.py::%s" % (m, c)]
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider"] + skip + ["tests"], cwd=wt, env=env,
                       capture_output=True, text=True, timeout=600)
    tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]
    if "306 passed" in tail and "1 failed" in tail:
        return True
    return tail + "\n" + "\n".join(x for x in r.stdout.splitlines() if x.startswith("FAILED"))[-800:]


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(plant, sys.argv[1:]):
            print(r, flush=True)

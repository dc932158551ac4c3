#!/usr/bin/env python3
"""Which lines of MyCapytain the runs of the checks execute (a view of what the search reaches; no check uses it).

  lines.py RUNS [PROP...]     prints the lines of functions no run executed
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def lines_of(code, inside, out):
    if inside:
        out.update(l for _, _, l in code.co_lines() if l and l != code.co_firstlineno)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            lines_of(c, c.co_name[0].isalpha() and not is_class(c) or c.co_name.startswith(("_", "<")) and not is_class(c), out)
    return out


def is_class(c):
    return "__qualname__" in c.co_names and "__module__" in c.co_names


def main():
    runs, props = sys.argv[1], sys.argv[2:] or [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
    where = tempfile.mkdtemp(prefix="verif-lines-")
    try:
        for p in props:
            subprocess.run([os.path.join(VERIF, "check"), p, "--runs", runs], env=dict(os.environ, VERIF_LINES=where), cwd=VERIF, stdout=subprocess.DEVNULL)
        seen = set()
        for f in os.listdir(where):
            seen.update(open(os.path.join(where, f)).read().split())
    finally:
        shutil.rmtree(where)
    root = os.path.join(REPO, "MyCapytain")
    total = hit = 0
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".py"):
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)
                text = open(path, encoding="utf-8").read()
                ls = sorted(lines_of(compile(text, path, "exec"), False, set()))
                miss = [l for l in ls if "%s:%d" % (rel, l) not in seen]
                total, hit = total + len(ls), hit + len(ls) - len(miss)
                if ls:
                    print("%s: %d of %d" % (rel, len(ls) - len(miss), len(ls)))
                rows = text.split("\n")
                for l in miss:
                    print("   %4d %s" % (l, rows[l - 1]))
    print("%d of %d lines of functions" % (hit, total))


main()

"""Fills the lists of DESIGN.md (repairs, planted bugs) from known_findings.json and seeded/.  Usage: python3 tools/design.py [CATCHES.txt]"""
import glob
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def block(text, name, lines):
    return re.sub("(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + "\n".join(lines) + "\n" + m.group(2), text, flags=re.S)


def main():
    path = os.path.join(VERIF, "DESIGN.md")
    text = open(path, encoding="utf-8").read()
    known = json.load(open(os.path.join(VERIF, "known_findings.json"), encoding="utf-8"))
    text = block(text, "fixes", ["* `%s` **%s** %s" % (m[1], m[0], m[2]) for m in
                                 (re.match(r"fixed: property=(\S+) (\S+) (.*)", f).groups() for f in known["fixed"])])
    rows = ["| id | what it breaks | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json"), encoding="utf-8"))
        rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"]))
    text = block(text, "seeded", rows)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


main()

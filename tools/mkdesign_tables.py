#!/usr/bin/env python3
"""Print the tables of DESIGN.md that come from other files: planted bugs and fixes."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seeded():
    rows = ["| planted bug | check | what it breaks | needs |", "|---|---|---|---|"]
    for d in sorted(os.listdir(f"{V}/seeded")):
        m = json.load(open(f"{V}/seeded/{d}/meta.json"))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
    return "\n".join(rows)


def fixes():
    rows = ["| property | commit | what failed |", "|---|---|---|"]
    for line in open(f"{V}/known_findings.txt", encoding="utf-8"):
        if m := re.match(r"fixed: property=(\S+) (\S+) (.*)", line):
            rows.append(f"| {m[1]} | {m[2]} | {m[3].replace('|', chr(92) + '|')} |")
    return "\n".join(rows)


def main():
    p = f"{V}/DESIGN.md"
    s = open(p, encoding="utf-8").read()
    for name, f in (("seeded", seeded), ("fixes", fixes)):
        s = re.sub(f"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m[1] + f() + "\n" + m[2], s, flags=re.S)
    open(p, "w", encoding="utf-8").write(s)


main()

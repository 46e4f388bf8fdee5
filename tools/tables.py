"""Rewrites the generated tables of DESIGN.md: sub-checks with their case
counts, and the planted bugs with the property each belongs to."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/opt/veriftools/pyvenv/lib/python3.12/site-packages"]


def subs():
    out = ["| check | sub-check | cases quick | cases thorough |", "|---|---|---|---|"]
    for name in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if not re.fullmatch(r"c\d\d\.py", name):
            continue
        module = importlib.import_module("checks." + name[:-3])
        for sub in module.SUBS:
            out.append(f"| {module.PROPERTY} | {sub.name} | {sub.n["quick"]} | {sub.n["thorough"]} |")
    return out


def seeds():
    out = ["| planted bug | needs, in order to manifest |", "|---|---|"]
    for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        with open(os.path.join(HERE, "seeded", name, "meta.json")) as file:
            meta = json.load(file)
        out.append(f"| {name} | {meta['needs']} |")
    return out


def main():
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as file:
        text = file.read()
    for mark, lines in (("subs", subs()), ("seeds", seeds())):
        text = re.sub(rf"(<!-- {mark} -->\n).*?(<!-- /{mark} -->)",
                      lambda m: m.group(1) + "\n".join(lines) + "\n" + m.group(2), text, flags=re.S)
    with open(path, "w") as file:
        file.write(text)


if __name__ == "__main__":
    main()

"""Regenerates the tables of DESIGN.md (between <!-- x --> and <!-- /x -->) from the contracts and seeded/"""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts.run import load

reg, errors = load()
base = json.load(open(os.path.join(HERE, "contracts", "baseline.json")))
lines = ["| contract | properties | functions | assumptions | bound |", "|---|---|---|---|---|"]
for c in reg:
    esc = lambda s: s.replace("|", "\\|")
    lines.append(f"| {c.name}{' [b]' if c.bounded else ''} | {' '.join(c.props)} | {esc(', '.join(c.functions))} | {esc('; '.join(c.assumes)) or '-'} | {esc(c.bounded or '-')} |")
text = open(os.path.join(HERE, "DESIGN.md")).read()


def put(mark, body):
    global text
    text = re.sub(rf"(<!-- {mark} -->\n).*?(\n<!-- /{mark} -->)", lambda m: m.group(1) + body + m.group(2), text, flags=re.S)


put("contracts", "\n".join(lines))
seeds = ["| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    seeds.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
put("seeds", "\n".join(seeds))
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)

"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""

import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "| change | what it breaks | caught by |\n|-|-|-|\n"

with open(os.path.join(VERIF, "DESIGN.md"), encoding="utf-8") as f:
    text = f.read()
text = text[: text.index(HEAD)] + HEAD
for path in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    with open(path, encoding="utf-8") as f:
        meta = json.load(f)
    name = os.path.basename(os.path.dirname(path))
    text += f"| {name} | {meta['what_it_breaks']} | {meta.get('caught_by', meta['property'])} |\n"
with open(os.path.join(VERIF, "DESIGN.md"), "w", encoding="utf-8") as f:
    f.write(text)

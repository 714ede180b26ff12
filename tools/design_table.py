#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import pathlib
import re

root = pathlib.Path(__file__).parents[1]
rows = []
for meta in sorted(root.glob("seeded/*/meta.json")):
    m = json.loads(meta.read_text())
    rows.append(f"| {meta.parent.name} | {m['property']} | {m['needs']} |")
path = root / "DESIGN.md"
text = path.read_text()
text = re.sub(r"Each of the \d+ bugs in", f"Each of the {len(rows)} bugs in", text)
text = re.sub(r"(\| bug \| caught by \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)*",
              lambda m: m.group(1) + "\n".join(rows) + "\n", text)
path.write_text(text)

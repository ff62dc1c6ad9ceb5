#!/usr/bin/env python3
"""Puts the table of planted bugs, made from seeded/*/meta.json, at the end of DESIGN.md."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
HEAD = "| planted bug | caught by | needs |\n|---|---|---|\n"
rows = []
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs'].replace('|', '/')} |")
t = (ROOT / "DESIGN.md").read_text()
t = t.split(HEAD)[0].replace("CATCH_TABLE", "").rstrip("\n")
(ROOT / "DESIGN.md").write_text(t + "\n\n" + HEAD + "\n".join(rows) + "\n")

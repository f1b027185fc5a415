#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""

import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
BEGIN, END = "<!-- planted -->", "<!-- /planted -->"

rows = ["| bug | breaks | needs | caught by |", "|-----|--------|-------|-----------|"]
for path in sorted(ROOT.glob("seeded/*/meta.json")):
    meta = json.loads(path.read_text())
    row = [path.parent.name, meta["what_it_breaks"], meta["needs"], meta.get("caught_by", meta["property"])]
    rows.append("| " + " | ".join(text.replace("|", "\\|").replace("\n", " ") for text in row) + " |")

design = ROOT / "DESIGN.md"
text = design.read_text()
new = BEGIN + "\n" + "\n".join(rows) + "\n" + END
text = re.sub(re.escape(BEGIN) + ".*?" + re.escape(END), lambda _: new, text, flags=re.S)
design.write_text(text)

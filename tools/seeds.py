"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import re
from pathlib import Path

here = Path(__file__).resolve().parent.parent
rows = ["| Planted bug | Needs | Breaks |", "|---|---|---|"]
for d in sorted((here / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['needs']} | {m['what_it_breaks']} |")
text = (here / "DESIGN.md").read_text()
text = re.sub(r"\{SEEDS\}|(?<=<!-- seeds -->\n).*?(?=\n<!-- /seeds -->)",
              lambda k: "\n".join(rows) if k.group() != "{SEEDS}" else
              "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", text, flags=re.S)
(here / "DESIGN.md").write_text(text)

"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
from pathlib import Path

from props import PROPS, TECH

V = Path(__file__).resolve().parent.parent
DONE = {p.stem.upper() for p in (V / "harness" / "props").glob("c*.py")}
with open(V / "properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"],
                         observe_at=p["observe"], state=p["state"], hook_needed=None),
        )) + "\n")
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
checks, na = [], []
for p in PROPS:
    if p["id"] in DONE and p["claimed"] is True:
        checks.append(dict(
            property=p["id"], quick_cmd=f"./check {p['id']} quick",
            thorough_cmd=f"./check {p['id']} thorough", technique=TECH,
            level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["claimed"] if isinstance(p["claimed"], str)
                       else "The check is not built yet."))
(V / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="TLA+ specifications in spec/, drivers in harness/; see DESIGN.md."), indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")

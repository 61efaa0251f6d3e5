"""Writes the table of planted bugs between the markers of DESIGN.md (development only; no check runs this)."""
import json, pathlib, collections, re
root = pathlib.Path(__file__).resolve().parent.parent
by = collections.defaultdict(list)
for d in sorted((root / "seeded").iterdir()):
    if (d / "meta.json").exists():
        by[json.loads((d / "meta.json").read_text())["property"]].append(d.name.split("-", 1)[1])
rows = ["<!-- planted -->", "| caught by | planted bugs |", "|-|-|"]
rows += [f"| {p} | {', '.join(by[p])} |" for p in sorted(by)]
rows += [f"", f"{sum(map(len, by.values()))} in all.", "<!-- /planted -->"]
text = (root / "DESIGN.md").read_text()
text = re.sub(r"PLANTED_TABLE|<!-- planted -->.*?<!-- /planted -->", lambda m: "\n".join(rows), text, flags=re.S)
(root / "DESIGN.md").write_text(text)

"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json."""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for meta in sorted(root.glob("seeded/*/meta.json")):
    m = json.loads(meta.read_text())
    text = " ".join(m["what_it_breaks"].split())
    caught = m.get("caught_by", m["property"])
    rows.append(f"| {meta.parent.name} | {m['property']} | {text} | {caught} |")
design = root / "DESIGN.md"
text = design.read_text()
block = "<!-- matrix -->\n" + "\n".join(rows) + "\n<!-- end -->"
text = re.sub(r"<!-- matrix -->(.*<!-- end -->)?", lambda m: block, text, flags=re.S)
design.write_text(text)

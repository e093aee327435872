"""Rewrites the table of planted changes at the end of DESIGN.md."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
text = (root / "DESIGN.md").read_text()
mark = "## Planted changes and the checks that catch them"
text = text.split(mark)[0].rstrip() + "\n\n" + mark + "\n\n"
text += "Each was confirmed to build and to pass the stable tests; the check named catches it in the\nquick tier (seed 1). The ones that failed the stable tests were thrown away.\n\n| change | caught by | needs | breaks |\n|---|---|---|---|\n"
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    cut = lambda s: " ".join(s.replace("|", "/").split())
    text += "| %s | %s | %s | %s |\n" % (d.name, m.get("caught_by", m["property"]), cut(m["needs"]), cut(m["what_it_breaks"]))
(root / "DESIGN.md").write_text(text)

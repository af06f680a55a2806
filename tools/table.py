"""Writes the list of planted bugs per property into DESIGN.md (between the markers), from seeded/*/meta.json."""
import collections, json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
by = collections.defaultdict(list)
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    by[m["property"]].append(d.name.split("-", 1)[1])
lines = [f"- {p}: {', '.join(v)}" for p, v in sorted(by.items())]
f = root / "DESIGN.md"
s = f.read_text()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
f.write_text(s[:i] + "\n".join(lines) + "\n" + s[j:])
print(sum(map(len, by.values())), "bugs")

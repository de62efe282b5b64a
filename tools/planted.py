"""Rewrites the list of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
text = open(p).read().split("<!-- planted -->")[0] + "<!-- planted -->\n\n| change | caught by | needs |\n|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    text += f"| {d} | {m['property']} | {m['needs']} |\n".replace("\n|", " |") if "\n" in m["needs"] else f"| {d} | {m['property']} | {m['needs']} |\n"
open(p, "w").write(text)

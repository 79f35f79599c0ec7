"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json."""
import collections
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    with open(os.path.join(here, "seeded", d, "meta.json")) as f:
        m = json.load(f)
    by[m["property"]].append((d, m["what_it_breaks"], m.get("missed")))
out = ["## 5. Planted changes and the checks that catch them", "",
       "Each change in `seeded/` was made from a property's text and the code alone, passes the 68 stable tests and has a",
       "demonstration of its own. It was run against the quick check of its property; every one listed here is caught by it",
       "(exit 1 with the property's VIOLATION line and a replay that reproduces), unless marked. What had to be added for",
       "changes that were missed at first is listed after the table.", "", "| check | planted change | what it breaks |", "|---|---|---|"]
for p in sorted(by):
    for d, what, missed in by[p]:
        out.append(f"| {p}{' (missed: ' + missed + ')' if missed else ''} | {d} | {what} |")
out += ["", open(os.path.join(here, "tools", "seeded_notes.md")).read().rstrip(), ""]
path = os.path.join(here, "DESIGN.md")
text = open(path).read().split("\n## 5. ")[0].rstrip() + "\n\n"
open(path, "w").write(text + "\n".join(out))

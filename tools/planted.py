"""Rewrites the list of planted bugs per property in DESIGN.md from seeded/*/meta.json."""
import collections, json, pathlib, re, textwrap
root = pathlib.Path(__file__).resolve().parent.parent
by = collections.defaultdict(list)
for m in sorted(root.glob("seeded/*/meta.json")):
    by[json.loads(m.read_text())["property"]].append(m.parent.name)
txt = "; ".join("%s %s" % (p, " ".join(by[p])) for p in sorted(by))
n = sum(map(len, by.values()))
para = "Per property (%d in all): %s. `bash run.sh` of the named property with the patch applied exits 1 for each of them." % (n, txt)
d = root / "DESIGN.md"
s = d.read_text()
new = re.sub(r"(?ms)^Per property.*?\n\n", lambda m: "\n".join(textwrap.wrap(para, 118, break_on_hyphens=False)) + "\n\n", s, count=1)
d.write_text(new)

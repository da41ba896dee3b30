"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = []
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("- `%s` (%s): %s. Needs: %s. %s" % (f.split("/")[1], m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."), m.get("caught", "Caught by %s." % m["property"])))
s = open("DESIGN.md").read()
s = re.sub(r"<!-- seeded -->.*?<!-- end -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)

"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), " ".join(m["what_it_breaks"].split()).replace("|", "/"), m["property"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
mark = "## Planted bugs\n"
s = s.split(mark)[0].rstrip() + "\n\n" + mark + """Each was written from the text of a property and the code, passes the repository's tests, has a demonstration, and is caught by the quick tier (seed 1) of the check of the
property named. Those first missed led to the stronger generators described above (near-identical identifiers, "again" requests, edges in time, several users/servers, shared clients).

| planted bug | what it breaks | caught by |
|---|---|---|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)

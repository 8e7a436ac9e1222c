"""fills the generated parts of DESIGN.md between markers (idempotent)"""
import json, os, re
V = "/verif/"
ns = {}
exec(open(V + "tools/spec.py").read(), ns)
s = open(V + "DESIGN.md").read()


def put(tag, text):
    global s
    a, b = "<!-- %s -->\n" % tag, "<!-- end %s -->" % tag
    if a in s:
        i, j = s.index(a), s.index(b)
        s = s[:i] + a + text + "\n" + s[j:]
    else:
        s = s.replace("@@%s@@" % tag, a + text + "\n" + b)


put("NA", "\n".join("* **%s** %s: %s" % (p["id"], p["title"], p["na"]) for p in ns["P"] if p["na"]))
d = json.load(open(V + "known_findings.json"))
k = [x for x in d if isinstance(d[x], list)][0]
put("FIXED", "\n".join("* " + re.sub("^fixed: property=(\\S+) (\\S+) ", r"\1 (`\2`): ", x["entry"]) for x in d[k] if x["status"] == "fixed"))
rows = []
for n in sorted(os.listdir(V + "seeded")):
    m = json.load(open(V + "seeded/%s/meta.json" % n))
    rows.append((m["property"], n, m["what_it_breaks"], m["needs"]))
put("SEEDS", "| caught by | seed | what it breaks | needs |\n|--|--|--|--|\n" + "\n".join("| %s | %s | %s | %s |" % r for r in sorted(rows)))
open(V + "DESIGN.md", "w").write(s)

"""refreshes the tables of DESIGN.md"""
import glob, json, os, re, sys
sys.path.insert(0, os.path.dirname(__file__))
import claims, findings
V = "/verif"
p = V + "/DESIGN.md"
s = open(p).read()


def put(tag, text):
    global s
    s = re.sub("<!--%s-->.*?<!--/%s-->" % (tag, tag), lambda m: "<!--%s-->\n%s\n<!--/%s-->" % (tag, text, tag), s, flags=re.S)


m = json.load(open(V + "/MANIFEST.json"))
put("NA", "\n".join("* **%s** %s" % (x.get("property") or x.get("id"), x["reason"]) for x in m["not_applicable"]))
put("FINDINGS", "Recorded, not repaired (the repair would change the format, a public signature or pinned behaviour):\n\n| property | rule | construct | what fails |\n|---|---|---|---|\n"
    + "\n".join("| %s | %s | %s | %s |" % x for x in findings.KNOWN)
    + "\n\nRepaired by `fix:` commits in /repo:\n\n| property | commit | what failed |\n|---|---|---|\n" + "\n".join("| %s | %s | %s |" % tuple(x) for x in findings.FIXED))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    x = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (d.split("/")[-2], x["property"], x["what_it_breaks"].replace("\n", " ").replace("|", "/"), x["needs"].replace("\n", " ").replace("|", "/")))
put("SEEDS", "| planted bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows))
open(p, "w").write(s)

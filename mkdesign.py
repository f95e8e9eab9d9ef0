"""fills the tables of DESIGN.md from properties.jsonl, checks.json and seeded/"""
import json, os, re
H = os.path.dirname(os.path.abspath(__file__))
s = open(H + "/DESIGN.md").read()
C = json.load(open(H + "/checks.json"))
t = "<!--T-->\n"
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)
    c = C.get(p["id"])
    t += "### %s %s\n%s\n\n" % (p["id"], p["title"], p["statement"] if "statement" in p else p.get("description", ""))
    if c:
        t += "*Decided by* (level %s): %s\n*Bounds*: %s. *Why beyond the tests*: %s\n\n" % (c["level"], c["explanation"], c["level_note"], p["why_tests_cant"])
t += "<!--/T-->"
u = "<!--S-->\n| change | property | caught by | needs |\n|---|---|---|---|\n"
res = json.load(open(H + "/seed_results.json")) if os.path.exists(H + "/seed_results.json") else {}
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % d))
    u += "| %s | %s | %s | %s |\n" % (d, m["property"], res.get(d, "?"), m["needs"].replace("|", "/").replace("\n", " "))
u += "<!--/S-->"
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", t).replace("@@SEEDS@@", u)
else:
    s = re.sub(r"<!--T-->.*<!--/T-->", lambda _: t, s, flags=re.S)
    s = re.sub(r"<!--S-->.*<!--/S-->", lambda _: u, s, flags=re.S)
open(H + "/DESIGN.md", "w").write(s)

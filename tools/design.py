"""Write DESIGN.md from design_head.md, the property list, the last evidence, and design_tail.md."""
import glob
import json
import os

from props import PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(name):
    with open(os.path.join(V, name)) as f:
        return f.read()


out = []
for p in sorted(PROPS, key=lambda p: p["meta"]["id"]):
    m = p["meta"]
    d = json.loads(read("evidence/%s.json" % m["id"]))
    c = d["coverage"]
    assert d["tier"] == "quick", m["id"]
    out.append("### %s %s\n" % (m["id"], m["title"]))
    out.append("*Enumerated and compared*: %s.\n" % c["rule"])
    out.append("*Bounds*: " + "; ".join("%s: %s" % (k, v if isinstance(v, str) else json.dumps(v)[:160])
                                         for k, v in c["bounds"].items()) + ".\n")
    if d["assumptions"]:
        out.append("*Assumptions*: " + "; ".join(d["assumptions"]) + ".\n")
    out.append("*Cost (quick)*: %d states, %d compared calls, about %d s on 8 cores.\n"
               % (c["states"], c["transitions"], max(1, round(d["wall_s"]))))
    out.append("*Oracle*: %s\n" % p["note"])
    out.append("*Beyond the tests*: %s\n" % m["why_tests_cant"])
tail = read("tools/design_tail.md")
fixed = json.loads(read("known/findings.json"))["fixed"]
tail = tail.replace("@@FIXED@@", "\n".join("* " + x.replace("fixed: property=", "") for x in fixed))
rows = ["| change | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    with open(f) as h:
        x = json.load(h)
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), x["property"], x["needs"]))
tail = tail.replace("@@SEEDS@@", "\n".join(rows))
with open(V + "/DESIGN.md", "w") as f:
    f.write(read("tools/design_head.md").rstrip() + "\n\n" + "\n".join(out) + "\n" + tail)

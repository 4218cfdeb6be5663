"""Regenerate DESIGN.md from props.py, the checks themselves and the notes in tools/ (run by hand, not by checks)."""
import glob, importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import paths
paths.setup_import()
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, root)
ns = {}
exec(open(os.path.join(here, "props.py")).read(), ns)
kf = json.load(open(os.path.join(root, "known_findings.json")))
text = lambda n: open(os.path.join(here, n)).read()
out = [text("design_head.md")]
out.append("| property | repaired defect (commit) |\n|---|---|")
for e in kf["fixed"]:
    _, p, c, rest = e.split(" ", 3)
    out.append("| %s | %s (%s) |" % (p.split("=")[1], rest, c))
out.append("")
out.append("| property | known finding (not repaired) |\n|---|---|")
for k in kf["findings"]:
    out.append("| %s | %s (probe `%s`) |" % (k["property"], k["what"], k["probe"]))
out.append("")
out.append("## The properties and how each is decided\n")
out.append("For each: what is generated and compared (the rule a case must meet to count as non-trivial comes last), the sub-checks with "
           "the number of cases quick / thorough, and the files checked. *Bounds* are those of the generators named; cost is about "
           "10 s per quick check on 8 cores and up to 14 minutes per thorough check.\n")
for p in ns["PROPS"]:
    f = sorted(glob.glob(os.path.join(root, "checks", p["id"].lower() + "_*.py")))
    if p["id"] in ns["NOT_APPLICABLE"] or not f:
        continue
    m = importlib.import_module("checks." + os.path.basename(f[0])[:-3])
    c = m.check
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("%s\n" % c.rule)
    out.append("* Oracle: %s." % p["oracle"])
    out.append("* Sub-checks: " + ", ".join("`%s` %d / %d" % (s.name, s.quick, s.thorough) for s in c.subs) + " (%d shards)." % c.shards)
    out.append("* Why tests cannot settle it: %s" % p["why"])
    out.append("* Code: " + ", ".join("`%s`" % x for x in p["files"]))
    for a in c.assumptions:
        out.append("* Assumption: %s" % a)
    if p.get("bounds"):
        out.append("* " + p["bounds"])
    out.append("")
out.append("## Planted bugs\n")
out.append("`seeded/<id>`: each keeps the stable tests passing and has a demonstration; it was written from the property and the code. "
           "`quick` is enough to catch every one listed as caught; where the first version of the check missed it, what was added is stated.\n")
out.append("| bug | property | needs | outcome |\n|---|---|---|---|")
notes = dict(l.rstrip("\n").split("\t") for l in open(os.path.join(here, "seeded.tsv")) if l.strip())
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    k = os.path.basename(os.path.dirname(d))
    j = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (k, j["property"], j["needs"], notes.get(k, "caught")))
out.append(text("design_tail.md"))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "parts")

#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md (between the markers) from properties.jsonl, MANIFEST.json, evidence/, known_findings.json, seeded/ and tools/caught.json"""
import glob, json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
M = json.load(open(HERE + "/MANIFEST.json"))


def table():
    note = {}
    src = open(HERE + "/tools/props.py").read() + open(HERE + "/tools/props_more.py").read()
    ns = {}
    import sys
    sys.path.insert(0, HERE + "/tools")
    import props
    for p in props.P:
        note[p["id"]] = p
    out = ["| id | property | what is symbolic | bounds | obligations | cost |", "|---|---|---|---|---|---|"]
    for p in P:
        n = note[p["id"]]
        e = json.load(open(HERE + "/evidence/%s.json" % p["id"])) if os.path.exists(HERE + "/evidence/%s.json" % p["id"]) else None
        c = e["coverage"] if e else {}
        out.append("| %s | %s | %s | %s | %s in %d cases | %s |" % (p["id"], p["title"], n["text"], n["note"], c.get("obligations_discharged", "?"), len(c.get("cases", [])), "%.0f s" % e["wall_s"] if e else "?"))
    return "\n".join(out)


def fixes():
    out = []
    for f in json.load(open(HERE + "/known_findings.json")):
        out.append("* %s `%s` %s" % (f["property"], f["commit"], f["what"]) if f["status"] == "fixed" else "* KNOWN %s %s" % (f["property"], f.get("what", f.get("line"))))
    return "\n".join(out)


def seeds():
    caught = json.load(open(HERE + "/tools/caught.json")) if os.path.exists(HERE + "/tools/caught.json") else {}
    out = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for d in sorted(glob.glob(HERE + "/seeded/S*")):
        i = os.path.basename(d)
        m = json.load(open(d + "/meta.json"))
        out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "?")))
    return "\n".join(out)


def na():
    return "\n".join("* %s: %s" % (n["property"], n["reason"]) for n in M.get("not_applicable", [])) or "(no listed property is not applicable)"


def main():
    f = HERE + "/DESIGN.md"
    s = open(f).read()
    for k, g in (("TABLE", table), ("FIXES", fixes), ("SEEDS", seeds), ("NA", na)):
        s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (k, k), lambda m: m.group(1) + g() + "\n" + m.group(2), s, flags=re.S)
    open(f, "w").write(s)


main()

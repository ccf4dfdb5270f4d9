"""Writes DESIGN.md: prose from design.md.in, bounds and techniques from the
check modules, so that both stay in step."""
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def block(pid):
    m = importlib.import_module("mc.checks.c" + pid[1:])
    out = ["*Deciding step* (level `%s`): %s." % (m.LEVEL, m.TECHNIQUE),
           "",
           "*Bounds, quick*: %s." % m.BOUND["quick"],
           "",
           "*Bounds, thorough*: %s." % m.BOUND["thorough"]]
    ass = getattr(m, "ASSUMPTIONS", None)
    if ass:
        out += ["", "*Assumptions*: %s." % "; ".join(ass)]
    return "\n".join(out)


def findings(status):
    out = []
    for e in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]:
        if e["status"] != status:
            continue
        if status == "fixed":
            out.append("- %s, `%s`: %s" % (e["property"], e["commit"], e["what"]))
        else:
            out.append("- %s, key `%s`: %s" % (e["property"], e["key"].replace("\n", "\\n"), e["what"]))
    return "\n".join(out)


def seeded():
    """Planted bugs and the checks which report them (tools/caught.json, from runs of the checks)."""
    caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
    out = ["| change | property | what it breaks | reported by |", "|---|---|---|---|"]
    d = os.path.join(ROOT, "seeded")
    for name in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, name, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (name, m["property"], m["what_it_breaks"].replace("|", "/"),
                                             ", ".join(caught.get(name, [])) or "none"))
    return "\n".join(out)


def main():
    titles = {}
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        titles[p["id"]] = p["title"]
    text = open(os.path.join(ROOT, "tools", "design.md.in")).read()
    text = re.sub(r"^@@title (C\d\d)$", lambda m: "### %s %s" % (m.group(1), titles[m.group(1)]), text, flags=re.M)
    text = re.sub(r"^@@bounds (C\d\d)$", lambda m: block(m.group(1)), text, flags=re.M)
    text = re.sub(r"^@@findings (\w+)$", lambda m: findings(m.group(1)), text, flags=re.M)
    text = text.replace("@@seeded", seeded())
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(text)


main()

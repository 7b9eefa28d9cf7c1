"""Write DESIGN.md: docs/head.md, a section per property, the planted bugs, what is not decided."""
import ast
import glob
import importlib
import json
import os
import re
import sys
import textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, "/repo/src"]
import spec  # noqa: E402


def cost(i):
    p = os.path.join(V, "evidence", i + ".json")
    if not os.path.exists(p):
        return ""
    e = json.load(open(p))
    c = e["coverage"]
    return "%d paths, %d obligations, %d queries, %.0f s" % (c["states"], c["obligations"], c["queries"], e["wall_s"])


def main():
    out = [open(os.path.join(V, "docs/head.md")).read().rstrip(), "", "## The properties", ""]
    known = json.load(open(os.path.join(V, "known_findings.json")))
    seeds = {}
    for p in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
        m = json.load(open(p))
        seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(p)), m))
    caught = json.load(open(os.path.join(V, "docs/seeds.json"))) if os.path.exists(os.path.join(V, "docs/seeds.json")) else {}
    for d, note, na in spec.PROPS:
        if na:
            continue
        m = importlib.import_module("props." + d["id"])
        out += ["### %s. %s" % (d["id"], d["title"]), ""]
        out += textwrap.wrap(d["statement"], 100) + [""]
        where = ", ".join("`%s`" % x["name"] for x in d["anchors"]["mechanism"])
        out += textwrap.wrap("*Code executed:* %s (%s)." % (where, ", ".join(d["anchors"]["files"])), 100, break_on_hyphens=False) + [""]
        out += textwrap.wrap("*Over:* %s. *Beyond the tests:* %s" % (d["quantifier"]["text"], d["why_tests_cant"]), 100) + [""]
        out.append("*Harnesses* (symbolic inputs; what z3 decides; bounds):")
        out.append("")
        tree = ast.parse(open(m.__file__).read())
        docs = {n.name: ast.get_docstring(n) for n in tree.body if isinstance(n, ast.FunctionDef)}
        names = dict(re.findall(r'H\("(\w+)", (\w+)', open(m.__file__).read()))
        for h in m.HARNESSES:
            doc = (docs.get(h.fn.__name__) or docs.get(names.get(h.name)) or "").strip().split("\n\n")[0]
            text = "`%s`: %s [%s%s]" % (h.name, " ".join(doc.split()) or "see props/%s.py" % d["id"], h.bounds or "no sizes", "; %d configurations" % len(h.configs) if len(h.configs) > 1 else "")
            out += textwrap.wrap(text, 100, initial_indent="* ", subsequent_indent="  ", break_on_hyphens=False, break_long_words=False)
        out.append("")
        a = getattr(m, "ASSUMPTIONS", [])
        more = [note.strip()] if note.strip() else []
        if a or more:
            out += textwrap.wrap("*Assumed:* " + "; ".join(a + more), 100) + [""]
        fixed = [x.split(" ", 2)[2] for x in known["fixed"] if "property=%s " % d["id"] in x]
        if fixed:
            out += textwrap.wrap("*Defects found and repaired:* " + "; ".join(x.split(" ", 1)[1] for x in fixed) + ".", 100) + [""]
        kf = [x["what"] for x in known["findings"] if x["property"] == d["id"]]
        if kf:
            out += textwrap.wrap("*Known finding:* " + "; ".join(kf) + ".", 100) + [""]
        if d["id"] in seeds:
            out += textwrap.wrap("*Planted:* " + "; ".join("%s (%s)" % (n, caught.get(n, "caught")) for n, _ in seeds[d["id"]]) + ".", 100) + [""]
        c = cost(d["id"])
        if c:
            out += ["*Cost (quick):* %s." % c, ""]
    out += ["## Planted bugs", "", "| bug | property | what it breaks | needs | reported by |", "|---|---|---|---|---|"]
    for i in sorted(seeds):
        for n, m in seeds[i]:
            out.append("| %s | %s | %s | %s | %s |" % (n, i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), caught.get(n, i)))
    tail = os.path.join(V, "docs/tail.md")
    if os.path.exists(tail):
        out += ["", open(tail).read().rstrip()]
    out += ["", "## Not applicable", ""]
    for d, note, na in spec.PROPS:
        if na:
            out += textwrap.wrap("**%s. %s** %s" % (d["id"], d["title"] + ".", na), 100, initial_indent="* ", subsequent_indent="  ") 
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()

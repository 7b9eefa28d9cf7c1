#!/usr/bin/env python3
"""Functions of glimpse that no check's last run executed symbolically (from evidence/)."""
import ast, glob, json, os
R = os.environ.get("GLIMPSE_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = set()
for f in glob.glob(V + "/evidence/*.json"):
    seen |= {x.split(".<locals>")[0] for x in json.load(open(f))["coverage"]["functions_encoded"]}
for p in sorted(glob.glob(R + "/src/glimpse/**/*.py", recursive=True)):
    rel = "glimpse/" + os.path.relpath(p, R + "/src/glimpse")

    def walk(node, prefix):
        for c in node.body:
            if isinstance(c, ast.ClassDef):
                walk(c, prefix + c.name + ".")
            elif isinstance(c, (ast.FunctionDef,)):
                k = rel + ":" + prefix + c.name
                if k not in seen:
                    print(k, c.end_lineno - c.lineno + 1)
    walk(ast.parse(open(p).read()), "")

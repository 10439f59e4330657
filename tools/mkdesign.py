#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md, where @@PROPS@@ and @@SEEDED@@ are filled from propdata, the harnesses and seeded/"""
import ast
import glob
import json
import os

from propdata import NOT_APPLICABLE, PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def literals(call, name, pos):
    for k in call.keywords:
        if k.arg == name:
            return ast.literal_eval(k.value) if isinstance(k.value, ast.Constant) else ""
    if len(call.args) <= pos:
        return ""
    a = call.args[pos]
    return ast.literal_eval(a.left) + "…" if isinstance(a, ast.BinOp) and isinstance(a.left, ast.Constant) else ast.literal_eval(a)


def main():
    out = []
    for p in PROPS:
        f = os.path.join(V, "props", p["id"].lower() + ".py")
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
        if not os.path.exists(f):
            continue
        tree = ast.parse(open(f).read())
        docs = {n.name: (ast.get_docstring(n) or "").split("\n\n")[0].replace("\n", " ") for n in tree.body if isinstance(n, ast.FunctionDef)}
        out.append("| case | what is encoded and asserted | bounds |\n|---|---|---|")
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Case":
                fn = n.args[1].id if isinstance(n.args[1], ast.Name) else ""
                out.append(f"| {literals(n, 'name', 0)} | {docs.get(fn, '')} | {literals(n, 'bounds', 9)} |".replace("\n", " "))
        for n in tree.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
                out.append("\nAssumed / outside: " + "; ".join(ast.literal_eval(n.value)) + ".")
        notes = os.path.join(V, "tools", "notes", p["id"] + ".md")
        if os.path.exists(notes):
            out.append("\n" + open(notes).read().strip())
        out.append("")
    for x in NOT_APPLICABLE:
        out.append(f"not applicable: {x['property']}: {x['reason']}\n")
    sd = ["## Planted bugs\n", "| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|"]
    rp = os.path.join(V, "tools", "seeded_results.json")
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        i = os.path.basename(d)
        sd.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(i, '?')} |")
    t = open(os.path.join(V, "tools", "design.md")).read()
    t = t.replace("@@PROPS@@", "## Properties\n\n" + "\n".join(out)).replace("@@SEEDED@@", "\n".join(sd))
    open(os.path.join(V, "DESIGN.md"), "w").write(t)


main()

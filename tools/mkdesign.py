"""Writes DESIGN.md (called by mkdocs.py)."""
import ast
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent


def subs(pid):
    for f in sorted((ROOT / "checks").glob(pid.lower() + "_*.py")):
        tree = ast.parse(f.read_text())
        rule = ""
        for node in tree.body:
            if isinstance(node, ast.Assign) and isinstance(node.value, ast.Call) and getattr(node.value.func, "id", "") == "Check":
                if len(node.value.args) > 1:
                    rule = ast.literal_eval(node.value.args[1])
                for k in node.value.keywords:
                    if k.arg == "rule":
                        rule = ast.literal_eval(k.value)
        out = []
        for node in tree.body:
            if not isinstance(node, ast.FunctionDef):
                continue
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "attr", "") == "given":
                    kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords if k.arg in ("quick", "thorough")}
                    out.append((node.name, " ".join((ast.get_docstring(node) or "").split()), kw.get("quick", 100), kw.get("thorough", 3000)))
        return f.name, rule, out
    return None, "", []


def write(props):
    t = [(ROOT / "tools/design/head.md").read_text(), "## The properties (*generated*)\n"]
    known = (ROOT / "known_findings.txt").read_text().splitlines()
    for p in props:
        f, rule, ss = subs(p["id"])
        t.append(f"### {p['id']} {p['title']}\n")
        t.append(p["statement"] + "\n")
        t.append(f"*Technique*: {p['technique']}. *Over*: {p['quantifier']}. *Why tests cannot*: {p['why']}. *Bounds*: {p['note']}\n")
        if f:
            t.append(f"`checks/{f}`; {rule}. Cases quick / thorough:\n")
            t += [f"* `{n}` ({q} / {th}): {d or 'see the code'}" for n, d, q, th in ss]
            t.append("")
        n = sum(k.startswith(f"fixed: property={p['id']} ") for k in known)
        fi = [k.split(" id=")[1] for k in known if k.startswith(f"finding: property={p['id']} ")]
        if n:
            t.append(f"Defects found and repaired: {n} (see below).")
        t += [f"Known finding: {k}" for k in fi]
        t.append("")
    t.append((ROOT / "tools/design/quirks.md").read_text())
    t.append("## Defects of mt_metadata found and repaired (*generated*)\n")
    t += [f"* {m[1]} ({m[2]}): {m[3]}" for k in known if (m := re.match(r"fixed: property=(\S+) (\S+) (.*)", k))]
    t.append("\n## Known findings (*generated*)\n")
    t += [f"* {m[1]} `{m[2]}`: {m[3]}" for k in known if (m := re.match(r"finding: property=(\S+) id=(\S+) (.*)", k))]
    t.append("\n## Planted bugs (*generated*)\n")
    t.append((ROOT / "tools/design/planted.md").read_text())
    caught = json.loads((ROOT / "tools/design/caught.json").read_text())
    t.append("| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
    for d in sorted((ROOT / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        row = [d.name, m["property"], m["what_it_breaks"], m["needs"], caught.get(d.name, "?")]
        t.append("| " + " | ".join(str(x).replace("|", "/").replace("\n", " ") for x in row) + " |")
    (ROOT / "DESIGN.md").write_text("\n".join(t) + "\n")

"""writes DESIGN.md"""
import ast, json, glob, re, textwrap
from pathlib import Path
R = Path(__file__).resolve().parent.parent
out = [(R / "tools/design/head.md").read_text()]
props = {}
for l in (R / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)
    props[p["id"]] = p
for f in sorted((R / "harness/checks").glob("c[0-9][0-9].py")):
    d = {}
    for n in ast.parse(f.read_text()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in (
                "PROP", "CASES", "RULE", "REQUIRED"):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    if d["PROP"] not in props:
        continue
    p = props[d["PROP"]]
    out.append(f"### {d['PROP']}: {p['title']}\n\n"
               f"{d['CASES']['quick']} cases quick, {d['CASES']['thorough']} "
               "thorough.\n" + "\n".join(textwrap.wrap(
                   d["RULE"][0].upper() + d["RULE"][1:] + ".", 79)) + "\n\n")
out.append((R / "tools/design/tail.md").read_text())
out.append("\n## Planted bugs\n\nAll are in `seeded/`, with demonstrations. "
           "`caught` is what the quick check does\nwith it; `first` says "
           "whether it did at the time it was planted.\n\n"
           "| bug | property | what is broken | caught | first |\n"
           "|---|---|---|---|---|\n")
for m in sorted((R / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    w = re.sub(r"\s+", " ", d["what_it_breaks"]).replace("|", "/")
    out.append(f"| {m.parent.name} | {d['property']} | {w} | "
               f"{d.get('caught', '?')} | {d.get('first', '?')} |\n")
(R / "DESIGN.md").write_text("".join(out))

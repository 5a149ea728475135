#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md from the scenario sources and the evidence of the last runs."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def functions(prop):
    """top level functions and scenarios: name -> (comment above, text)"""
    d = {}
    for p in sorted(glob.glob(f"{HERE}/harness/{prop.lower()}_*.cpp")):
        comment, name, text = [], None, []
        for l in open(p):
            s = l.rstrip()
            m = re.match(r"SCENARIO\((\w+),", s) or re.match(r"(?:static |inline )?[\w:<>&*]+ (\w+)\([^;]*$", s)
            if s.startswith("//"):
                if not re.match(r"// C\d\d\b", s): comment.append(s[2:].strip())
            elif m:
                name, text = m[1], [s]
                d[name] = (" ".join(comment), text)
                if not s.startswith("SCENARIO(") or s.endswith(")"): comment = []
            elif name:
                text.append(s)
                if s == "}": name, comment = None, []
            elif s: comment = []
    return {k: (c, "\n".join(t)) for k, (c, t) in d.items()}

def describe(name, d):
    comment, text = d.get(name, ("", ""))
    for h in d:
        if h != name and re.search(r"\b%s[<(]" % h, text):
            comment = comment or d[h][0]
            text += d[h][1]
    inputs = []
    for n, label in re.findall(r"mc::choose\(([^;]*?), \"([^\"]+)\"\)", text):
        i = f"{label} ({n})" if n.isdigit() else label
        if i not in inputs: inputs.append(i)
    return "; ".join(x for x in (comment, "inputs: " + ", ".join(inputs) if inputs else "") if x).replace("|", "/")

def main():
    out = []
    total = [0, 0]
    for l in open(f"{HERE}/properties.jsonl"):
        p = json.loads(l)
        path = f"{HERE}/evidence/{p['id']}.json"
        if not os.path.exists(path): continue
        e = json.load(open(path))
        d = functions(p["id"])
        total[0] += len(e["coverage"]["scenarios"])
        total[1] += e["coverage"]["executions_started"]
        out.append(f"\n### {p['id']} {p['title']}\n")
        out.append(f"{e['coverage']['executions_started']} executions, {e['wall_s']:.0f} s.\n")
        out.append("| scenario | what | interleavings | T/S | executions |")
        out.append("|---|---|---|---|---|")
        for s in e["coverage"]["scenarios"]:
            b = "all" if s["all_interleavings"] else f"<= {s['bound_completed']} preemptions"
            out.append(f"| {s['scenario']} | {describe(s['scenario'], d)} | {b} | {s['timer_budget']}/{s['spurious_budget']} | {s['executions']} |")
    f = f"{HERE}/DESIGN.md"
    t = open(f).read()
    a, b = "<!-- generated: scenarios -->", "<!-- end -->"
    i, j = t.index(a) + len(a), t.index(b)
    open(f, "w").write(t[:i] + f"\n{total[0]} scenarios, {total[1]} executions in the quick tier.\n" + "\n".join(out) + "\n" + t[j:])

main()

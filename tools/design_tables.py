"""Rewrites the generated tables of DESIGN.md (between the <!-- gen:NAME --> marks)."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import props

def functions(path, seen=None):
    out, seen = [], seen if seen is not None else set()
    if path in seen:
        return out
    seen.add(path)
    if not os.path.exists(os.path.join(ROOT, "specs", path)):
        path = "prelude/" + path
    for line in open(os.path.join(ROOT, "specs", path)):
        line = line.strip()
        m = re.match(r"//@include\s+(\S+)", line)
        if m:
            out += functions(m.group(1), seen)
        m = re.match(r"//@fn\s+(\S+)\s+(.*)", line)
        if m:
            t = re.split(r"\s+=>|\s+//@", m.group(2))[0].strip()
            out.append(t.split("::")[-1].strip() if "::" in t else re.sub(r"^fn\s+", "", t))
    return out

def coverage():
    rows = ["| | property | functions cut out of /repo and put under contract | assumed (besides the preludes) |", "|-|-|-|-|"]
    for k in sorted(props.PROPS):
        p = props.PROPS[k]
        v = p["verus"] if isinstance(p["verus"], list) else [p["verus"]]
        fns = []
        for s in v:
            for f in functions(s + ".vrs"):
                if f not in fns:
                    fns.append(f)
        names = ", ".join(fns[:14]) + (f", … ({len(fns)} in all)" if len(fns) > 14 else "")
        rows.append(f"| {k} | {p['title']} | {names} | {'; '.join(a for a in p['assumptions'] if a)} |")
    return "\n".join(rows)

def seeds():
    rows = ["| planted bug | property | needs | caught |", "|-|-|-|-|"]
    res = {}
    f = os.path.join(ROOT, "tools", "seed_results.json")
    if os.path.exists(f):
        res = json.load(open(f))
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        rows.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, '?')} |")
    return "\n".join(rows)

p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
for name, f in (("coverage", coverage), ("seeds", seeds)):
    s = re.sub(rf"(<!-- gen:{name} -->\n).*?(\n<!-- end -->)", lambda m: m.group(1) + f() + m.group(2), s, flags=re.S)
open(p, "w").write(s)

"""Writes the per-property table and the table of planted bugs of DESIGN.md between its markers."""
import importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import symvm.boot  # noqa

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
how = {}
cur = None
for line in open(os.path.join(ROOT, "tools", "how.txt")):
    m = re.match(r"^(C\d\d): (.*)", line)
    if m:
        cur = m.group(1)
        how[cur] = m.group(2).strip()
    elif line.strip():
        how[cur] += " " + line.strip()
out = []
for p in props:
    i = p["id"]
    m = importlib.import_module("props." + i.lower())
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(how[i] + "\n")
    out.append("*Bounds.* %s  Quick: %s. Thorough: %s.\n" % (m.LEVEL_NOTE, m.BOUNDS["quick"], m.BOUNDS["thorough"]))
    out.append("*Assumed.* %s.\n" % "; ".join(m.ASSUMES))
rows = []
MISSED = set("S01 S06 S09 S10 S14 S18 S26 S31 S46 S48 S51 S53 S60 S61 S68 S69 S70 S71 S76 S84 S85 S87 S88 S89 S91".split())
MISSED |= set(open(os.path.join(ROOT, "tools", "missed.txt")).read().split())
for d in ("seeded", "seeded_examples"):
    for s in sorted(os.listdir(os.path.join(ROOT, d))):
        m = json.load(open(os.path.join(ROOT, d, s, "meta.json")))
        rows.append("| %s%s | %s | %s | %s |" % (s, " (example)" if d != "seeded" else "", m["property"], m["what_it_breaks"].replace("|", "/"),
                                            "after strengthening" if s in MISSED else "yes"))
table = ["| change | check | what it breaks | caught |", "|---|---|---|---|"] + rows
text = open(os.path.join(ROOT, "DESIGN.md")).read()


def put(text, mark, body):
    a, b = "<!-- %s -->" % mark, "<!-- end %s -->" % mark
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + "\n" + text[j:]


text = put(text, "properties", "\n".join(out))
text = put(text, "seeded", "\n".join(table))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)

"""Fills the generated tables of DESIGN.md (rules, sizes, planted bugs, repaired defects)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
j = os.path.join


def rules():
    out = ["| property | rule | obligations | seconds (quick) |", "|---|---|---|---|"]
    for f in sorted(glob.glob(j(HERE, "evidence", "C??.json"))):
        e = json.load(open(f))
        first = True
        for n, r in e["coverage"]["rules"].items():
            out.append(f"| {e['property'] if first else ''} | `{n}`: {r['text']} | {r['instances']} | {round(e['wall_s'], 1) if first else ''} |")
            first = False
    return out


def seeds():
    out = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
    for f in sorted(glob.glob(j(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        cut = lambda s: s.replace("|", "/").replace("\n", " ")
        out.append(f"| {f.split('/')[-2]} | {m['property']} | {cut(m['what_it_breaks'])} | {cut(str(m['needs']))} |")
    return out


def findings(status):
    fs = [x for x in json.load(open(j(HERE, "known_findings.json")))["findings"] if x["status"] == status]
    return [f"* {x['property']}{' ' + x['commit'] if 'commit' in x else ''}: {x['what']}" for x in sorted(fs, key=lambda x: x["property"])]


def main():
    p = j(HERE, "DESIGN.md")
    s = open(p).read()
    for name, lines in (("rules", rules()), ("seeds", seeds()), ("fixed", findings("fixed")), ("known", findings("known"))):
        s = re.sub(rf"(<!-- {name} -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(lines) + "\n" + m.group(2), s, flags=re.S)
    open(p, "w").write(s)


main()

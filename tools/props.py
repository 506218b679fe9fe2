#!/usr/bin/env python3
"""The properties: generates properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NOT = [], []


def P(id, title, statement, over, text, why, files, mech, design, observe=(), claimed=True):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None),
                      design=design))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k != "design"}) + "\n")
checks = [dict(property=p["id"], quick_cmd=f"python3 run_check.py {p['id']} quick", thorough_cmd=f"python3 run_check.py {p['id']} thorough",
               evidence_file=f"evidence/{p['id']}.json", technique=p["design"]["technique"], level="exploration", level_note=p["design"]["note"]) for p in PROPS]
man = dict(version=1, setup_cmd="true", hooks=dict(guard="none", enable="no hooks: the harnesses compile /repo's sources unmodified", source_commits=[]),
           checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NOT],
           notes="Every check compiles the needed modules of /repo's working tree with ninja under /verif/build (sanitizers on) together with a "
                 "harness in /verif/harness, runs generated cases in forked workers and shrinks failures to a replay file in /verif/replays. "
                 "'python3 run_check.py ID --replay FILE' re-runs one. VERIF_SEED selects the seed.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
a, b = "<!-- properties:begin -->", "<!-- properties:end -->"
out = []
for p in PROPS:
    out.append(f"### {p['id']} {p['title']}\n\n{p['design']['text'].strip()}\n")
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + s[s.index(b):]
open(d, "w").write(s)
print(len(PROPS), "properties")

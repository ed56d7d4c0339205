"""Write DESIGN.md: fixed text plus what the property list, the specs, the claims and the seeded changes say."""
import json, os, re, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from tools.claims import CLAIMED, NOT_APPLICABLE, COMMON
import specs
from importlib import import_module
HEAD = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
HOW = json.load(open(os.path.join(ROOT, 'tools', 'design_how.json')))
CAUGHT = json.load(open(os.path.join(ROOT, 'tools', 'design_seeds.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
units = {}; mods = {}
for m in specs.SPECS:
    for u in import_module('specs.' + m).UNITS: units.setdefault(u['prop'], []).append(u['name']); mods.setdefault(u['prop'], []).append(m) if m not in mods.get(u['prop'], []) else None
out = [HEAD, '## Properties\n']
for p in props:
    i = p['id']; out.append(f'### {i} {p["title"]}\n')
    if i not in CLAIMED: out.append('Not applicable: ' + NOT_APPLICABLE.get(i, 'not reached') + '\n'); continue
    out.append(HOW[i] + '\n')
    out.append(f'*Specified in* {", ".join(f"`specs/{m}.py`" for m in mods.get(i, []))}; {len(units.get(i, []))} units. *Oracle*: the operations `{i.lower()}.*` of the harness of the same name, run on enumerated small and seeded random inputs (numbers of cases in the evidence), labelled bounded. *Limits*: ' + CLAIMED[i].replace(COMMON, '') + (' ' if CLAIMED[i] != COMMON else 'none beyond the common ones. ') + '*Why not tests*: ' + p['why_tests_cant'] + '\n')
    if specs.NOTES.get(i): out.append('Assumed: ' + '; '.join(specs.NOTES[i]) + '.\n')
out.append('## Seeded changes\n\nResult of the last recorded run of the check of the change\'s own property (quick tier). "n failed obligations" means the verifier refuted n obligations, "failing input" that at least one VIOLATION names an input that fails on the compiled code (the replayed countermodel or an input of the oracle), "oracle" that no obligation was refuted and only the bounded oracle fails.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', 's*'))):
    m = json.load(open(d + '/meta.json')); s = os.path.basename(d); out.append(f'| {s} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {CAUGHT.get(s, "")} |')
out.append('\n## Defects found and repaired\n\nViolations on the tree as handed over that are genuine; each is repaired by a `fix:` commit in /repo and listed in `known_findings.txt`. There is no open known finding.\n')
for l in open(os.path.join(ROOT, 'known_findings.txt')):
    m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
    if m: out.append(f'- {m.group(1)} `{m.group(2)}` {m.group(3)}')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')

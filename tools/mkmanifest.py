#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the rule modules present and properties.jsonl"""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
have = {}
for f in sorted(os.listdir(H + '/rules')):
    if f.endswith('.py'):
        s = open(H + '/rules/' + f).read()
        for m in re.finditer(r'^def ([A-Z]\d\d)\(ctx\):\n(?:    """(.*?)""")?', s, re.M | re.S): have[m.group(1)] = (f, (m.group(2) or '').strip())
NA = json.load(open(H + '/tools/not_applicable.json'))
TECH = json.load(open(H + '/tools/technique.json'))
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    if i not in have:
        NA[i] = 'No sound static rule has been built for this property yet.'; continue
    t, note = TECH.get(i, ['dataflow analysis of type-checked MIR (gated value numbering, path conditions as BDDs)', 'Decides the obligations listed in DESIGN.md for every input of the anchored functions; calls into dependencies are opaque.'])
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i, technique=t, level='other', level_note=note))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())]), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')

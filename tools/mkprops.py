#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from this table and props/*.py"""
import json, os, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
def P(id, title, statement, over, q, why, files, mech, state=(), observe=(), na=None):
    assert len(title) <= 80
    R.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)), na))
T = 'src/bin_xml_types.cpp'; U = 'src/utils.cpp'; M = 'src/missings.cpp'; W = 'src/bin_write_plugin.cpp'; B = 'src/bin_xml.cpp'; C = 'src/bin_xml_creator.cpp'; J = 'src/jsmn/jsmn.c'
exec(open(os.path.join(V, 'tools', 'props_table.py')).read())
claimed = {f[:-3] for f in os.listdir(os.path.join(V, 'props')) if f.endswith('.py')}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for r, na in R:
        f.write(json.dumps(r) + '\n')
m = dict(version=1, setup_cmd='python3 tools/vc.py setup', checks=[], not_applicable=[],
         notes='One runner, tools/vc.py: it extracts the functions of /repo to C (tools/cxx2c.py, from the clang AST, on every run), discharges the obligations of props/<id>.py with CBMC and replays counterexamples on the g++ build of the same sources.')
sys.path.insert(0, os.path.join(V, 'tools'))
NOTES = {}
exec(open(os.path.join(V, 'tools', 'level_notes.py')).read())
for r, na in R:
    if r['id'] in claimed:
        m['checks'].append(dict(property=r['id'], quick_cmd='python3 tools/vc.py run ' + r['id'], thorough_cmd='VERIF_TIER=thorough python3 tools/vc.py run ' + r['id'], evidence_file='evidence/%s.json' % r['id'],
                                technique='contract-based deductive verification: contracts on the functions extracted mechanically from /repo, obligations discharged by CBMC (SAT/SMT back ends)',
                                level=LEVEL.get(r['id'], 'proof'), level_note=NOTES[r['id']]))
    else:
        m['not_applicable'].append(dict(property=r['id'], reason=na or 'no check has been built for it yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(R), 'properties,', len(m['checks']), 'claimed')

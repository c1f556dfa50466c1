#!/usr/bin/env python3
"""Single source for properties.jsonl, checks.json and MANIFEST.json: python3 tools/spec.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'src/libzt/'
SPEC = []; NA = []
def at(f): return f if f.startswith(('src', 'compat')) else L + f
def prop(id, title, statement, over, q, why, files, mech, harness, note='', technique='random generation against a reference model', **kw):
    SPEC.append(dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=[at(f) for f in files.split()], mech=mech, harness=harness, note=note, technique=technique, kw=kw))

exec(open(os.path.join(V, 'tools', 'props.py')).read())

def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in SPEC + NA:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': at(w)} for n, w in p['mech']], 'observe_at': ['public API'], 'hook_needed': None}}) + '\n')
    json.dump({p['id']: dict(harness=p['harness'], **{k.rstrip('_'): v for k, v in p['kw'].items()}) for p in SPEC}, open(V + '/checks.json', 'w'), indent=1)
    m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
         'notes': 'No hooks are needed in /repo. Every check rebuilds the library from the current tree with sanitizers into /verif/.build and runs generated cases in forked children; the thorough tier multiplies the case counts and, where listed in checks.json, adds a libFuzzer campaign over the same oracle. Replay a failure: python3 run.py --replay FILE.'}
    for p in SPEC:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'property-based testing: ' + p['technique'], 'level': 'exploration', 'level_note': p['note'] or 'Generated search: no absence proof; sizes and counts are in the evidence file.'})
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
main()

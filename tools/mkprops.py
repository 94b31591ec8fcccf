#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    lines = []; checks = []
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        for f in p['files']: assert os.path.exists('/repo/'+f), (p['id'], f)
        lines.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['st'], 'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}))
        if p['id'] in NA: continue
        if not os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')): print('no check for', p['id'], file=sys.stderr); lines.pop(); continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'], 'technique': p['tech'], 'level': p['level'], 'level_note': p['note']})
    open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
    m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()], 'notes': NOTES}
    open(os.path.join(V, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
main()

# the tables in DESIGN.md
import glob, os, re
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'DESIGN.md'); s = open(D).read()
esc = lambda x: x.replace('|', '\\|')
rows = ['| id | property | bounds | code |', '|---|---|---|---|'] + ['| %s | %s | %s | %s |' % (p['id'], esc(p['title']), esc(p['q']), esc(', '.join(p['files']))) for p in PROPS]
s = re.sub(r'(<!-- props -->\n).*?(<!-- /props -->)', lambda m: m.group(1) + '\n' + '\n'.join(rows) + '\n\n' + m.group(2), s, flags=re.S)
rows = ['| change | property | what it breaks | caught |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(os.path.dirname(D), 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], esc(m['what_it_breaks']), m.get('caught', 'yes')))
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m.group(1) + '\n' + '\n'.join(rows) + '\n\n' + m.group(2), s, flags=re.S)
open(D, 'w').write(s)

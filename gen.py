#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the property section of DESIGN.md from catalog.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from catalog import CAT
with open(V + '/properties.jsonl', 'w') as f:
    for c in CAT:
        f.write(json.dumps(dict(id=c['id'], title=c['title'], statement=c['statement'], quantifier=dict(over=c['over'], text=c['text']), why_tests_cant=c['tests'],
                                anchors=dict(files=c['files'], mechanism=[dict(name=a, where=b) for a, b in c['mech']], observe_at=c['observe'], hook_needed=None)), ensure_ascii=False) + '\n')
json.dump(dict(version=1, setup_cmd='python3 check.py setup',
               checks=[dict(property=c['id'], quick_cmd='python3 check.py %s quick' % c['id'], thorough_cmd='python3 check.py %s thorough' % c['id'], technique=c['tech'], level='exploration',
                            level_note=('Held on every execution observed (counts in the evidence file). ' + c['note'] + (' Assumes: ' + '; '.join(c['assume']) + '.' if c['assume'] else '') + (' The storage and wire-format libraries are stand-ins from /verif/shim.' if any(p['h'] in DN for p in c['parts']) else '')).strip())
                       for c in CAT for DN in [('dn', 'qry', 'dec', 'mrg', 'cli', 'thr')]], not_applicable=[]), open(V + '/MANIFEST.json', 'w'), indent=1)
d = V + '/DESIGN.md'
if os.path.exists(d):
    t = open(d).read()
    a, b = '<!-- catalog begin -->', '<!-- catalog end -->'
    if a in t and b in t:
        s = ''
        for c in CAT:
            s += '\n### %s %s\n\n%s\n\n*Over:* %s (%s). *Monitors:* %s. *Runs (quick/thorough cases):* %s.%s\n' % (
                c['id'], c['title'], c['design'], ', '.join(c['over']), c['text'], c['tech'], '; '.join('%s/%s %s %d/%d' % (p['h'], p['mode'], p.get('san', 'asan'), *p['n']) for p in c['parts']),
                ' *Limits:* ' + '; '.join(c['assume']) + '.' if c['assume'] else '')
        open(d, 'w').write(t[:t.index(a) + len(a)] + '\n' + s + '\n' + t[t.index(b):])


def fill(tag, s):
    t = open(d).read()
    a, b = '<!-- %s begin -->' % tag, '<!-- %s end -->' % tag
    open(d, 'w').write(t[:t.index(a) + len(a)] + '\n' + s + '\n' + t[t.index(b):])


if os.path.exists(d):
    fill('findings', '\n'.join('- ' + (f['line'] if f['status'] == 'fixed' else 'known: property=%s %s — %s' % (f['property'], f['key'], f['what'])) for f in json.load(open(V + '/known_findings.json'))['findings']))
    rows = []
    for s in sorted(os.listdir(V + '/seeded')):
        if os.path.exists(V + '/seeded/%s/meta.json' % s):
            m = json.load(open(V + '/seeded/%s/meta.json' % s))
            rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], ', '.join(m.get('caught_by', []))))
    fill('seeded', '| change | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows))

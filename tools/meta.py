#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}
def prop(id, title, statement, over, text, why, files, mech, observe, note=None, level='proof', technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
    P[-1]['_note'] = note; P[-1]['_level'] = level; P[-1]['_tech'] = technique
def na(id, reason): NA[id] = reason
exec(open(os.path.join(V, 'tools', 'props.py')).read())
ids = [p['id'] for p in P]
assert len(ids) == len(set(ids))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
have = set()
for c in glob.glob(os.path.join(V, 'contracts', '*.c')):
    for m in re.finditer(r'@proof .*?props=(\S+)', open(c).read(), re.S):
        have |= set(m.group(1).split(','))
checks = []
for p in P:
    if p['id'] in NA: continue
    assert p['id'] in have, p['id']
    checks.append(dict(property=p['id'], quick_cmd='python3 vf.py check ' + p['id'],
        thorough_cmd='VERIF_TIER=thorough python3 vf.py check ' + p['id'],
        technique=p['_tech'] or 'function contracts on the real C code, discharged by CBMC (goto-instrument --dfcc)',
        level=p['_level'], level_note=p['_note']))
man = dict(version=1, setup_cmd='python3 vf.py setup', checks=checks,
    not_applicable=[dict(property=i, reason=r) for i, r in NA.items()],
    notes='No hooks: the contracts live in /verif/contracts and are attached to the unmodified /repo sources, which every run '
          'preprocesses afresh. known-findings.txt lists findings and repairs; vf.py replay <file> re-runs a counterexample.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')

# ---- generated parts of DESIGN.md
def cell(s): return s.replace('|', '/').replace('\n', ' ')
proofs = {}
stubs = {}
for c in sorted(glob.glob(os.path.join(V, 'contracts', '*.c'))):
    t = open(c).read()
    for m in re.finditer(r'/\*\s*@proof\s+(.*?)\*/', t, re.S):
        w = m.group(1).split()
        o = dict(x.split('=', 1) if '=' in x else (x, '1') for x in w[1:])
        for i in o.get('props', '').split(','):
            proofs.setdefault(i, []).append((w[0], o, os.path.basename(c)))
    for m in re.finditer(r'@stub\s+(.*?)\s*\*/', t, re.S):
        stubs.setdefault(m.group(1).strip(), set()).add(os.path.basename(c))
out = []
for p in P:
    if p['id'] in NA: continue
    out.append('\n**%s %s**\n' % (p['id'], p['title']))
    by = {}
    for n, o, c in proofs.get(p['id'], []):
        f = o.get('enforce') or ('(harness ' + o.get('harness', '?') + ')')
        by.setdefault((c, f), []).append((n, o))
    for (c, f), l in by.items():
        b = sorted(set(o['bounded'].replace('_', ' ') for n, o in l if 'bounded' in o))
        ti = [n for n, o in l if o.get('tier') == 'thorough']; fb = [n for n, o in l if o.get('tier') == 'fallback']
        out.append('* `%s` (%s, %d proof%s%s)%s' % (f, c, len(l), 's' if len(l) > 1 else '',
            ', of which %s' % ', '.join(x for x in ('%d thorough only' % len(ti) if ti else '', '%d fallback only' % len(fb) if fb else '') if x) if ti or fb else '',
            '; BOUNDED: ' + '; '.join(b) if b else ''))
gen = {'proofs': '\n'.join(out),
  'stubs': '\n'.join('* %s (%s)' % (s, ', '.join(sorted(f))) for s, f in sorted(stubs.items()) if ':' in s or '(' in s),
  'fixes': '\n'.join('* ' + cell(l[7:]) for l in open(os.path.join(V, 'known-findings.txt')).read().split('\n') if l.startswith('fixed:')),
  'na': '\n'.join('* **%s** %s: %s' % (i, next(p['title'] for p in P if p['id'] == i), r) for i, r in NA.items())}
rows = ['| bug | property | needs | breaks | caught |', '|---|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], cell(j['needs']), cell(j['what_it_breaks']), j.get('caught', 'yes')))
gen['seeded'] = '\n'.join(rows)
dp = os.path.join(V, 'DESIGN.md')
d = open(dp).read()
for k, v in gen.items():
    d = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (k, k), lambda m: m.group(1) + v + '\n' + m.group(2), d, flags=re.S)
open(dp, 'w').write(d)

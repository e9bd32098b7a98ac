#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here); sys.dont_write_bytecode = True
import jobs, props, design_text as T
V = os.path.join(here, '..')
out = []
for p in props.P:
    i = p['id']; out.append('### %s %s\n' % (i, p['title']))
    if i in jobs.PROPS:
        J = jobs.PROPS[i]
        out.append('*Harness* %s — %s\n' % (', '.join(sorted({'`harness/%s`' % j['harness'] for j in J['jobs']})), T.HOW[i]))
        out.append('*Bounds:* %s.\n' % J['bounds']); out.append('*Outside:* %s.\n' % J['outside'])
        q = [j for j in J['jobs'] if j.get('tier') != 'thorough']; out.append('*Cost:* %d jobs quick (%s), %d more thorough.\n' % (len(q), T.COST.get(i, '?'), len(J['jobs']) - len(q)))
    else: out.append('Not claimed: %s\n' % getattr(jobs, 'NOT_APPLICABLE', {}).get(i, 'no harness yet'))
F = json.load(open(V + '/known_findings.json'))['findings']
fi = '\n'.join('* %s%s' % ('' if f['status'] == 'fixed' else 'KNOWN (not repaired) %s: ' % f['property'], f['what']) for f in F)
sd = ['| change | property | needs | caught by |', '|---|---|---|---|']
S = V + '/seeded'
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(S + '/' + d + '/meta.json')); sd.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), T.CAUGHT.get(d, '(see below)')))
t = open(here + '/DESIGN.tmpl.md').read()
t = t.replace('{PROPS}', '\n'.join(out)).replace('{FINDINGS}', fi).replace('{EXTRA}', T.EXTRA.strip()).replace('{SEEDS}', '\n'.join(sd) + '\n\n' + T.SEEDNOTES.strip())
open(V + '/DESIGN.md', 'w').write(t)

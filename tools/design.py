"""fills the generated parts of DESIGN.md from the property list, the seeds and the history"""
import json, os, re, subprocess
R = '/verif/'
src = open(R + 'tools/design.in').read()
P = [json.loads(l) for l in open(R + 'properties.jsonl')]
M = json.load(open(R + 'MANIFEST.json'))
how = {c['property']: c for c in M['checks']}; na = {x['property']: x for x in M['not_applicable']}
extra = json.load(open(R + 'tools/design.json'))
t = []
for p in P:
    if p['id'] in na: continue
    c = how[p['id']]; x = extra.get(p['id'], {})
    t.append('### %s %s\n*%s.* %s\n\n%s%s' % (p['id'], p['title'], c['technique'][0].upper() + c['technique'][1:], c['level_note'], x.get('how', ''), ('\nCost: %s.' % x['cost']) if x.get('cost') else ''))
n = ['* **%s %s** – %s' % (p['id'], p['title'], na[p['id']]['reason']) for p in P if p['id'] in na]
fx = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    if ' fix: ' in l: fx.append('* ' + l)
sd = ['| seed | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(R + 'seeded')):
    m = json.load(open(R + 'seeded/%s/meta.json' % s)); sd.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], m.get('caught', m['property'])))
for k, v in (('TABLE', t), ('NA', n or ['(nothing)']), ('FIXES', fx), ('SEEDS', sd)): src = src.replace('@@%s@@' % k, ('\n\n' if k == 'TABLE' else '\n').join(v))
open(R + 'DESIGN.md', 'w').write(src)

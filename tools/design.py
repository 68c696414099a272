#!/usr/bin/env python3
"""developer aid: write DESIGN.md from the text below, the property table, the rules of the checks, the planted bugs and the findings file"""
import ast, glob, json, os, re
from props import PROPS, NA
from designtext import HEAD, HOW, TAIL
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rules(pid):
    out = []
    t = ast.parse(open(os.path.join(HERE, 'checks', pid.lower() + '.py')).read())
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule' and len(n.args) >= 2 and all(isinstance(a, ast.Constant) for a in n.args[:2]):
            out.append((n.lineno, n.args[0].value, n.args[1].value))
    return [(a, b) for _, a, b in sorted(out)]


seeds = {}
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    seeds.setdefault(m['property'], []).append((os.path.basename(d), m))
finds = [l.strip() for l in open(os.path.join(HERE, 'known_findings.txt')) if l.strip() and not l.startswith('#')]
n_var = {}
for f in glob.glob(os.path.join(HERE, 'tools', 'variants', '*.txt')):
    for k, p in re.findall(r'(?m)^@(bug|ok) (P\d+)', open(f).read()):
        n_var.setdefault(p, {'bug': 0, 'ok': 0})[k] += 1
out = [HEAD]
for q in PROPS:
    pid = q['id']
    if not os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        continue
    out.append('### %s — %s\n' % (pid, q['title']))
    out.append('%s\n' % q['statement'])
    out.append('**Anchors.** %s (%s)\n' % ('; '.join(q['mech']), ', '.join(q['files'])))
    out.append('**Method.** %s.\n' % q['technique'])
    out.append('%s\n' % HOW.get(pid, '').strip())
    out.append('Rules:\n')
    for a, b in rules(pid):
        out.append('- `%s`: %s' % (a, b))
    out.append('')
    out.append('**Why tests cannot settle it.** %s\n' % q['why'])
    v = n_var.get(pid, {'bug': 0, 'ok': 0})
    out.append('**Tried on.** %d broken and %d equivalent rewritings (tools/variants/%s.txt), all judged as expected. Planted bugs: %s.\n' % (
        v['bug'], v['ok'], pid.lower(), '; '.join('%s (%s)' % (n, m['what_it_breaks']) for n, m in seeds.get(pid, [])) or 'none'))
    fs = [f for f in finds if 'property=%s ' % pid in f]
    if fs:
        out.append('**Found in the code.**\n')
        for f in fs:
            out.append('- %s' % f.replace('property=%s ' % pid, ''))
        out.append('')
out.append('## Properties this family cannot decide here\n')
for q in NA:
    out.append('- **%s %s** — %s' % (q['id'], q['title'], q['reason']))
done = {q['id'] for q in PROPS}
rest = [f for f in finds if re.search(r'property=(P\d+)', f).group(1) not in done]
if rest:
    out.append('\n## Further repairs\n')
    out += ['- %s' % f for f in rest]
out.append(TAIL)
out.append('## Which checks catch which planted bugs\n')
out.append('| planted bug | property | needs | caught by |')
out.append('|---|---|---|---|')
for p in sorted(seeds):
    for n, m in seeds[p]:
        out.append('| %s | %s | %s | %s |' % (n, p, m['needs'].replace('|', '/'), m.get('caught_by', 'check %s' % p)))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')

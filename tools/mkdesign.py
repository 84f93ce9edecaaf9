#!/usr/bin/env python3
# Regenerates DESIGN.md.
import json, os, re, textwrap
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda f: open(os.path.join(root, f)).read()
checks = json.loads(read('checks.json'))
na = json.loads(read('tools/na.json'))

def ladder(l):
    return '; '.join(','.join('%s=%s' % kv for kv in r.items()) or 'fixed' for r in l)

def wrap(s, first, rest):
    return textwrap.fill(s, 79, initial_indent=first, subsequent_indent=rest, break_long_words=False, break_on_hyphens=False)

def bounds(i):
    c = checks[i]
    out = []
    for h in c['harnesses']:
        t = ladder(h.get('thorough') or h['quick'])
        q = ladder(h['quick'])
        out.append(wrap('`%s` %s: %s%s' % (h['func'], h['bound'], q, '' if q == t else ' [%s]' % t), '  - ', '    '))
    out.append(wrap('outside: ' + c['outside'], '  - ', '    '))
    return '\n'.join(out)

def findings():
    out = {'fixed': [], 'known': []}
    for l in read('known_findings.jsonl').splitlines():
        if l.strip():
            f = json.loads(l)
            out[f['status']].append(wrap('**%s** %s%s' % (f['property'], f['what'].rstrip('.'), ' (%s).' % f['commit'] if f.get('commit') else '.'), '* ', '  '))
    return 'Repaired in `/repo`:\n\n' + '\n'.join(out['fixed']) + '\n\nRecorded (see `known_findings.jsonl`):\n\n' + '\n'.join(out['known'])

def seeded():
    out = ['| change | property | caught |', '|---|---|---|']
    for l in read('tools/seeded.tsv').splitlines():
        if l.strip():
            out.append('| %s |' % ' | '.join(l.split('\t')))
    return '\n'.join(out)

s = read('tools/design.md.in')
s = s.replace('{{FINDINGS}}', findings()).replace('{{SEEDED}}', seeded())
s = re.sub(r'\{\{NA:(\w+)\}\}', lambda m: wrap(na[m.group(1)] if isinstance(na, dict) else m.group(1), '', '  ').strip(), s)
s = re.sub(r'\{\{(\w+)\}\}', lambda m: bounds(m.group(1)), s)
open(os.path.join(root, 'DESIGN.md'), 'w').write(s)

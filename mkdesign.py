#!/usr/bin/env python3
# refreshes the generated tables of DESIGN.md from known_findings.jsonl and seeded/*/meta.json
import collections, glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)))
fixed = collections.OrderedDict(); known = []
for l in open('known_findings.jsonl'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    elif l.strip(): known.append(json.loads(l))
n = sum(len(v) for v in fixed.values())
t = ["%d genuine defects were repaired (one `fix:` commit each, in `/repo`); the list is in `known_findings.jsonl`. By property: " % n + ", ".join("%s %d" % (k, len(fixed[k])) for k in sorted(fixed)) + "."]
k = ["- %s `%s`: %s" % (e['property'], e['key'], e['what']) for e in known]
catch = json.load(open('caught.json')) if os.path.exists('caught.json') else {}
s = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob('seeded/*/meta.json')):
    i = f.split('/')[1]; e = json.load(open(f))
    s.append("| %s | %s | %s | %s |" % (i, e['property'], e['needs'].replace('|', '/').replace('\n', ' '), catch.get(i, e['property'])))
d = open('DESIGN.md').read()
for name, rows in (('defects', t), ('known', k), ('seeded', s)):
    d = re.sub(r'<!-- %s -->\n(?:.*?<!-- /%s -->\n)?' % (name, name), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->\n' % (name, '\n'.join(rows), name), d, flags=re.S)
open('DESIGN.md', 'w').write(d)

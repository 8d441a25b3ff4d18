#!/usr/bin/env python3
"""Puts DESIGN.md together (run with /opt/venv/bin/python from /verif)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from jv.boot import boot  # noqa


def seeds():
    res = {}
    root = os.path.join(HERE, 'seeded')
    for n in sorted(os.listdir(root)):
        meta = json.load(open(os.path.join(root, n, 'meta.json')))
        res.setdefault(meta['property'], []).append((n, meta))
    return res


def main():
    boot()
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
    planted = seeds()
    tools = os.path.join(HERE, 'tools')
    out = [open(os.path.join(tools, 'design_head.md')).read().rstrip() + '\n']
    for p in props:
        pid = p['id']
        P = importlib.import_module('jv.props.' + pid.lower()).PROP
        out.append('### %s %s\n' % (pid, p['title']))
        out.append(p['statement'] + '\n')
        out.append('* *Over:* %s. *Anchored in:* %s.' % (p['quantifier']['text'].rstrip('.'), ', '.join(p['anchors']['files'])))
        out.append('* *Why tests cannot settle it:* ' + p['why_tests_cant'])
        out.append('* *Technique and oracle:* %s. %s' % (checks[pid]['technique'], checks[pid]['level_note']))
        out.append('* *Generated:* ' + P.rule)
        for a in P.assumptions:
            out.append('* *Domain:* ' + a)
        out.append('* *Cases (quick / thorough):* ' + ', '.join('%s %d / %d' % (f.name, f.quick, f.thorough) for f in P.facets))
        out.append('* *Planted bugs caught:* ' + (', '.join(n for n, _ in planted.get(pid, [])) or 'throw-away mutants only') + '\n')
    table = ['| bug | property = check that catches it | breaks | needs |', '|---|---|---|---|']
    for pid in sorted(planted):
        for n, m in planted[pid]:
            table.append('| %s | %s | %s | %s |' % (n, pid, m['what_it_breaks'], m['needs']))
    out.append(open(os.path.join(tools, 'design_tail.md')).read().lstrip().replace('SEEDED', '\n'.join(table)))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))
    print('DESIGN.md: %d properties, %d planted bugs' % (len(props), sum(map(len, planted.values()))))


main()

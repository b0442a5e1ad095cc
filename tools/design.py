#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, then one section per property."""
import ast
import json
import os
import textwrap

import props
from props import HERE, P, NA


def consts(pid):
    fn = os.path.join(HERE, 'rules', pid.lower() + '.py')
    out = {}
    for n in ast.parse(open(fn).read()).body:
        if isinstance(n, ast.Assign):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    return out


def seeds():
    d = {}
    base = os.path.join(HERE, 'seeded')
    for s in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, s, 'meta.json')))
        d.setdefault(m['property'], []).append((s, m))
    return d


def mutants():
    d = {}
    base = os.path.join(HERE, 'mutants')
    quiet = 0
    for f in sorted(os.listdir(base)):
        for line in open(os.path.join(base, f)):
            if line.startswith('=== '):
                name, _, ids = [x.strip() for x in line[4:].split('|')]
                if ids == '-':
                    quiet += 1
                for i in ids.split(','):
                    d.setdefault(i.strip(), []).append(name)
    return d, quiet


def wrap(s, ind=''):
    return textwrap.fill(' '.join(s.split()), 78, initial_indent=ind,
                         subsequent_indent=ind)


def known():
    d = {}
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        if line.startswith(('known:', 'fixed:')):
            pid = line.split('property=')[1].split()[0]
            d.setdefault(pid, []).append(line.strip())
    return d


def main():
    out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip()]
    sd, (mu, quiet), kn = seeds(), mutants(), known()
    missed = {}
    fn = os.path.join(HERE, 'tools', 'missed.txt')
    if os.path.exists(fn):
        for line in open(fn):
            if '|' in line:
                a, b = line.split('|', 1)
                missed[a.strip()] = b.strip()
    out.append('\n## Properties\n')
    for x in P:
        r, c = x['rec'], x['check']
        if not c:
            continue
        k = consts(r['id'])
        out.append('### %s %s\n' % (r['id'], r['title']))
        out.append(wrap(r['statement']) + '\n')
        out.append(wrap('*Decided by* ' + c['technique'] + '. ' + k.get(
            'EXPLANATION', '')) + '\n')
        out.append(wrap('*Covers* ' + r['quantifier']['text'] + '. *Bounds:* '
                        + c['level_note']) + '\n')
        out.append(wrap('*Tests cannot:* ' + r['why_tests_cant']) + '\n')
        if k.get('ASSUMPTIONS'):
            out.append(wrap('*Relies on:* ' + '; '.join(k['ASSUMPTIONS'])
                            + '.') + '\n')
        s = ['%s (%s)' % (n, 'missed: ' + missed[n] if n in missed
                          else 'caught') for n, m in sd.get(r['id'], [])]
        if s:
            out.append(wrap('*Planted bugs:* ' + '; '.join(s) + '.') + '\n')
        if mu.get(r['id']):
            out.append(wrap('*Mutants reported:* ' + ', '.join(
                mu[r['id']]) + '.') + '\n')
        for line in kn.get(r['id'], []):
            out.append(wrap('* ' + line))
        if kn.get(r['id']):
            out.append('')
    out.append(wrap('%d further mutants are behaviour-preserving rewrites on '
                    'which every check stays quiet.' % quiet) + '\n')
    out.append('## Not applicable\n')
    for x in P:
        if x['check']:
            continue
        r = x['rec']
        reason = [n['reason'] for n in NA if n['property'] == r['id']][0]
        out.append(wrap('* **%s %s** - %s Why not: %s' % (
            r['id'], r['title'], r['statement'], reason)))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out).rstrip() + '\n')


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
PY = 'python3'


def prop(pid, title, statement, over, text, why, files, mech,
         technique, note):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(
        rec=dict(id=pid, title=title, statement=' '.join(statement.split()),
                 quantifier=dict(over=over, text=text),
                 why_tests_cant=' '.join(why.split()),
                 anchors=dict(files=files, mechanism=[
                     dict(name=n, where=w) for n, w in mech])),
        check=dict(property=pid,
                   quick_cmd='%s check.py %s' % (PY, pid),
                   thorough_cmd='VERIF_TIER=thorough %s check.py %s' % (
                       PY, pid),
                   technique=technique, level='other',
                   level_note=' '.join(note.split()))))


def na(pid, title, statement, over, text, why, files, mech, reason):
    prop(pid, title, statement, over, text, why, files, mech, '', '')
    P[-1]['check'] = None
    NA.append(dict(property=pid, reason=' '.join(reason.split())))


from props_list import define  # noqa: E402
define(prop, na)


def main():
    ids = [x['rec']['id'] for x in P]
    assert len(ids) == len(set(ids))
    P.sort(key=lambda x: (x['check'] is None, x['rec']['id']))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x['rec'], sort_keys=False) + '\n')
    man = dict(
        version=1,
        setup_cmd='python3 check.py --selftest',
        checks=[x['check'] for x in P if x['check']],
        not_applicable=NA,
        notes='Static analysis only: check.py parses /repo (SA_REPO '
              'overrides) with the standard library ast module on every run; '
              'exit 2 means the analysis could not find what it needs. '
              'Known findings: known_findings.txt. tools/props.py '
              'regenerates this file and properties.jsonl.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(man['checks']), 'claimed', len(NA), 'not applicable')


if __name__ == '__main__':
    main()

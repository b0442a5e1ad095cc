#!/usr/bin/env python3
"""seed.py [pattern]: builds /verif/seeded/<id>/ from tools/seeds.txt after
confirming, in a scratch copy, that the demonstration passes on the unchanged
tree and fails with the change, and that the stable tests still pass.

Format: === id | property | file   (blocks as in mutants/*.txt)
needs: ...      breaks: ...      demo: (python until the next ===)"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd /repo
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def load():
    txt = open(os.path.join(HERE, 'tools', 'seeds.txt')).read()
    for part in re.split(r'(?m)^=== ', txt)[1:]:
        head, rest = part.split('\n', 1)
        sid, prop, f = [x.strip() for x in head.split('|')]
        body, demo = re.split(r'(?m)^demo:\n', rest, maxsplit=1)
        eds = []
        cur = f
        for m in re.finditer(r'(?ms)^@ (\S+)$|^<<<\n(.*?)\n---\n(.*?)\n?>>>$',
                             body):
            if m.group(1):
                cur = m.group(1)
            else:
                eds.append((cur, m.group(2), m.group(3)))
        needs = re.search(r'(?m)^needs: (.*)$', body).group(1)
        br = re.search(r'(?m)^breaks: (.*)$', body).group(1)
        yield sid, prop, eds, needs, br, demo


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    base = json.load(open('/opt/vp/BASELINE.json'))
    for sid, prop, eds, needs, br, demo in load():
        if not re.search(pat, sid):
            continue
        out = os.path.join(HERE, 'seeded', sid)
        d = tempfile.mkdtemp(prefix='seed.')
        try:
            r = os.path.join(d, 'repo')
            shutil.copytree('/repo', r, symlinks=True)
            os.makedirs(out, exist_ok=True)
            open(out + '/demo.py', 'w').write(demo)
            open(out + '/demo.sh', 'w').write(SH)
            os.chmod(out + '/demo.sh', 0o755)
            c = subprocess.run(['bash', out + '/demo.sh'], cwd=r,
                               capture_output=True, text=True)
            bad = None
            for f, old, new in eds:
                p = os.path.join(r, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = '%d matches in %s' % (s.count(old), f)
                    break
                open(p, 'w').write(s.replace(old, new))
            if bad:
                print(sid, 'BADEDIT', bad)
                continue
            diff = subprocess.run(['git', 'diff', '--', 'svgpy'], cwd=r,
                                  capture_output=True, text=True).stdout
            open(out + '/patch.diff', 'w').write(diff)
            m = subprocess.run(['bash', out + '/demo.sh'], cwd=r,
                               capture_output=True, text=True)
            t = subprocess.run(
                ['bash', '-c', 'sed -e s#/repo#%s#g -e "s#PYTHONPATH\\$#'
                 '; export PYTHONPATH=%s#" /opt/vp/test.sh > %s/t.sh;'
                 ' bash %s/t.sh %s/o.json' % (r, r, d, d, d)],
                cwd=r, capture_output=True, text=True)
            try:
                got = set(json.load(open(d + '/o.json'))['passed'])
                miss = [x for x in base['stable'] if x not in got]
            except Exception as e:
                miss = ['no result: %s %s' % (e, t.stderr[-300:])]
            json.dump(dict(property=prop, needs=needs, what_it_breaks=br),
                      open(out + '/meta.json', 'w'), indent=1)
            ok = c.returncode == 0 and m.returncode != 0 and not miss
            print(sid, 'OK' if ok else 'FAIL', 'clean', c.returncode,
                  'patched', m.returncode, 'missing tests', miss[:3],
                  c.stderr[-300:] if c.returncode else '',
                  m.stderr.strip().split('\n')[-1][:120])
            if not ok:
                shutil.rmtree(out)
        finally:
            shutil.rmtree(d)


main()

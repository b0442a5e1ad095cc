#!/usr/bin/env python3
"""mut.py [pattern]: applies each mutant of mutants/*.txt to a scratch copy of
the package and reports which checks fire. Development aid, not a check.

Format of an entry:
=== name | file | expected ids (comma separated; - for none: a refactoring)
<<<
old text
---
new text
>>>
(several <<< blocks per entry allowed; 'file' may be overridden by '@ file'
line before a block)"""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    d = os.path.join(HERE, 'mutants')
    for fn in sorted(os.listdir(d)):
        cur = None
        lines = open(os.path.join(d, fn)).read().split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('=== '):
                if cur:
                    yield cur
                name, f, exp = [x.strip() for x in l[4:].split('|')]
                cur = dict(name=name, exp=[] if exp == '-' else
                           [x.strip() for x in exp.split(',')], ed=[])
                cf_ = f
            elif l.startswith('@ '):
                cf_ = l[2:].strip()
            elif l == '<<<':
                j = i + 1
                while lines[j] != '---':
                    j += 1
                k = j + 1
                while lines[k] != '>>>':
                    k += 1
                cur['ed'].append((cf_, '\n'.join(lines[i + 1:j]),
                                  '\n'.join(lines[j + 1:k])))
                i = k
            i += 1
        if cur:
            yield cur


DEPS = tempfile.mkdtemp(prefix='mutdeps.')


def depends(ids):
    """Which modules each check interprets on the unchanged tree."""
    if ids == ['all']:
        ids = [f[:-3].upper() for f in sorted(os.listdir(HERE + '/rules'))
               if f.endswith('.py') and f[0] != '_']

    def one(i):
        subprocess.run([sys.executable, 'check.py', i], cwd=HERE,
                       env=dict(os.environ, SA_DEPS=DEPS, SA_EVDIR=DEPS),
                       capture_output=True)
        try:
            return i, [x.strip() for x in open(os.path.join(DEPS, i))]
        except OSError:
            return i, None
    with cf.ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, ids))


def relevant(m, deps):
    files = {f for f, _, _ in m['ed']}
    return [i for i, fs in deps.items() if i in m['exp'] or fs is None or
            any(x.endswith(f) for x in fs for f in files)]


def run(m, ids):
    d = tempfile.mkdtemp(prefix='mut.')
    try:
        shutil.copytree('/repo/svgpy', d + '/svgpy')
        for f, old, new in m['ed']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return m, 'BADEDIT %d matches in %s' % (s.count(old), f), []
            open(p, 'w').write(s.replace(old, new))
        env = dict(os.environ, SA_REPO=d, SA_EVDIR=d + '/ev')
        r = subprocess.run([sys.executable, 'check.py'] + ids, cwd=HERE,
                           env=env, capture_output=True, text=True)
        fired = re.findall(r'VIOLATION property=(\S+)', r.stdout)
        broken = re.findall(r'ANALYSIS-BROKEN property=(\S+)', r.stdout)
        err = r.stderr.strip()
        return m, ('STDERR ' + err[-800:]) if err else '', \
            (fired, broken, r.stdout)
    finally:
        shutil.rmtree(d)


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    only = '-1' in sys.argv
    verbose = '-v' in sys.argv
    ms = [m for m in load() if re.search(pat, m['name'])]
    bad = 0
    deps = depends(os.environ.get('MUT_IDS', 'all').split())
    shutil.rmtree(DEPS)
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(run, m, (m['exp'] if only and m['exp'] else
                                 relevant(m, deps)))
              for m in ms]
        for f in fs:
            m, msg, r = f.result()
            if not r:
                print('%-44s %s' % (m['name'], msg))
                bad += 1
                continue
            fired, broken, out = r
            miss = [x for x in m['exp'] if x not in fired]
            extra = [x for x in fired if x not in m['exp']]
            ok = not miss and not broken and (m['exp'] or not extra)
            bad += not ok
            print('%-44s %s%s%s%s %s' % (
                m['name'], 'ok' if ok else 'FAIL',
                ' missed ' + ','.join(miss) if miss else '',
                ' extra ' + ','.join(extra) if extra else '',
                ' BROKEN ' + ','.join(broken) if broken else '', msg))
            if verbose or (not ok):
                for l in out.split('\n'):
                    if l.startswith('  ') or 'BROKEN' in l:
                        print('     ', l[:300])
    print('%d mutants, %d unexpected' % (len(ms), bad))


if __name__ == '__main__':
    main()

"""Check context: obligations, floors, known findings, evidence."""

import json
import os
import sys
import time
import traceback

from .project import AnalysisBroken, Project

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')


class Ctx:
    def __init__(self, pid, tier, project):
        self.pid = pid
        self.tier = tier
        self.p = project
        self.obls = []        # (rule, construct, ok, msg, where)
        self._seen = {}
        self.floors = []
        self.notes = []
        self.functions = set()
        self.paths = 0
        self.engines = []
        self.broken = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def obl(self, rule, construct, ok, msg='', where=''):
        """One obligation: rule applied to a named construct."""
        key = (rule, construct)
        old = self._seen.get(key)
        if old is not None:
            # several sites/paths of one construct: worst result wins
            if old[2] and not ok:
                self._seen[key] = (rule, construct, False, msg, where)
            return
        self._seen[key] = (rule, construct, bool(ok), msg, where)

    def bad(self, rule, construct, msg, where=''):
        self.obl(rule, construct, False, msg, where)

    def ok(self, rule, construct, where=''):
        self.obl(rule, construct, True, '', where)

    def floor(self, what, count, minimum):
        self.floors.append((what, count, minimum))

    def note(self, s):
        self.notes.append(s)

    def engine(self, **kw):
        from .engine import Engine
        kw.setdefault('loop_bound', 3 if self.thorough else 2)
        self.p.mixins = kw.pop('mixins', False)
        e = Engine(self.p, **kw)
        self.engines.append(e)
        return e

    def run(self, eng, *a, **kw):
        outs = eng.run(*a, **kw)
        self.paths += len(outs)
        return outs


def load_known():
    path = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known: '):
                    continue
                # known: property=<id> key=<rule>|<construct> :: text
                head, _, text = line[7:].partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split(' ', 1))
                out[(d['property'], d['key'])] = text
    return out


def run_check(pid, module, tier, seed):
    t0 = time.time()
    evdir = os.environ.get('SA_EVDIR') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    code = 0
    lines = []
    try:
        project = Project(REPO)
        ctx = Ctx(pid, tier, project)
        module.check(ctx)
        for what, count, minimum in ctx.floors:
            if count < minimum:
                ctx.broken.append('%s: %d instances analysed, at least %d '
                                  'expected' % (what, count, minimum))
    except AnalysisBroken as e:
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    obls = list(ctx._seen.values())
    known = load_known()
    viol = []
    kn = []
    for rule, construct, ok, msg, where in obls:
        if ok:
            continue
        k = (pid, '%s|%s' % (rule, construct))
        text = '%s|%s at %s: %s' % (rule, construct, where, msg)
        if k in known:
            kn.append((k, text))
        else:
            viol.append(text)
    for k, text in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if not viol and ctx.broken:
        for b in ctx.broken:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, b))
        return 2
    if not obls:
        print('ANALYSIS-BROKEN property=%s no obligations' % pid)
        return 2
    analysed = set(ctx.functions)
    for e in ctx.engines:
        analysed |= e.analysed
    if os.environ.get('SA_DEPS'):      # development aid (tools/mut.py)
        with open(os.path.join(os.environ['SA_DEPS'], pid), 'w') as f:
            f.write('\n'.join(sorted(
                {m.path for m in project.modules.values()
                 if any(n.startswith(m.name + '.') for n in analysed)})))
    rules = {}
    for rule, construct, ok, msg, where in obls:
        r = rules.setdefault(rule, {'obligations': 0, 'held': 0})
        r['obligations'] += 1
        r['held'] += bool(ok)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': module.EXPLANATION,
            'rules': rules,
            'obligations': len(obls),
            'discharged': sum(1 for o in obls if o[2]),
            'modules_parsed': len(project.modules),
            'functions_analysed': len(analysed),
            'paths_analysed': ctx.paths,
            'instance_floors': [
                {'what': w, 'count': c, 'minimum': m}
                for w, c, m in ctx.floors],
            'samples': [{'rule': o[0], 'construct': o[1], 'held': o[2],
                         'where': o[4]} for o in obls[:12]],
            'notes': ctx.notes,
            'known_findings': [t for _, t in kn],
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
    }
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d modules, %d functions, %d paths, %d obligations, '
          '%d held, %d known, %d violated (%.1fs)' % (
              pid, len(project.modules), len(analysed), ctx.paths,
              len(obls), sum(1 for o in obls if o[2]), len(kn), len(viol),
              time.time() - t0))
    if viol:
        rp = os.path.join(evdir, pid + '.violations.txt')
        with open(rp, 'w') as f:
            f.write('\n'.join(viol) + '\n')
        for v in viol:
            print('  ' + v)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0

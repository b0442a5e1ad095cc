"""C05: media queries match by the value of the features they name."""
from fractions import Fraction
import itertools

from ._geo import *
from ._path import sequence
from .c01 import entries

EXPLANATION = (
    'mediaquery.parse and mediaquery.match are interpreted for the queries '
    'of every media feature: alone, with = (plain), min-, max- and every '
    'order of the range notation, with one and two bounds, for values that '
    'are less, equal and greater; every media type; conjunctions, '
    'disjunctions and lists of conditions that do and do not hold. The '
    'result must be the truth value Media Queries gives the query. '
    'MediaQueryList.matches is interpreted to show that each feature has '
    'the value of the window, viewport and screen that it is named after.')
ASSUMPTIONS = ['queries negating more than one condition, nesting '
               'conditions in parentheses, or mixing and with or are left '
               'open', 'comparison of lengths is that of SVGLength (L02)']
MQ = 'svgpy.css.mediaquery.'
RANGE = ['width', 'height', 'resolution', 'color', 'color-index',
         'monochrome', 'device-width', 'device-height']
RATIO = ['aspect-ratio', 'device-aspect-ratio']
DISCRETE = {
    'orientation': ['portrait', 'landscape'],
    'scan': ['interlace', 'progressive'],
    'update': ['none', 'slow', 'fast'],
    'overflow-block': ['none', 'scroll'],
    'overflow-inline': ['none', 'scroll'],
    'color-gamut': ['srgb', 'p3', 'rec2020'],
    'pointer': ['none', 'coarse', 'fine'], 'hover': ['none', 'hover'],
    'any-pointer': ['none', 'fine'], 'any-hover': ['none', 'hover'],
}
TYPES = ['all', 'print', 'screen', 'speech']
COMPARE = {'=': lambda c: c == 0, '<': lambda c: c < 0, '>': lambda c: c > 0,
           '<=': lambda c: c <= 0, '>=': lambda c: c >= 0}
FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
ORDER = ['1', '2', '3']


class Compare(object):
    """The comparison function: orders the texts 1, 2 and 3; 'bad' raises
    ValueError."""

    def __call__(self, eng, fn, args, kw, st, node):
        if fn is S('param', 'compare'):
            a, b = args[0], args[1]
            a, b = [x.v if isinstance(x, Const) else None for x in (a, b)]
            if a not in ORDER or b not in ORDER:
                return [(st, eng.raise_(st, 'ValueError', node))]
            return [(st, C((a > b) - (a < b)))]
        if isinstance(fn, Sym) and fn.op == 'attr' and fn.args[1] == 'debug':
            return [(st, NONE)]             # logging raises nothing
        if isinstance(fn, ExtV) and fn.name == 'fractions.Fraction' and \
                len(args) == 1 and isinstance(args[0], Const):
            try:
                return [(st, C(Fraction(args[0].v)))]
            except ValueError:
                return [(st, eng.raise_(st, 'ValueError', node))]
        return None


def matches(ctx, eng, p, query, conds):
    """[truth value or text of the exit]"""
    st = State()
    parse = p.func(MQ + 'parse')
    match = p.func(MQ + 'match')
    cmp_ = S('param', 'compare')
    st.facts[cmp_] = True
    out = []
    for o in eng.run(parse, args={'query': C(query)}, st=st):
        if o.kind == 'raise':
            out.append('raises %s' % (exc_name(o),))
            continue
        d = eng._outside(lambda: eng.new_dict(
            o.st, [(C(k), C(v)) for k, v in conds.items()], match.node))
        for r in eng.run(match, args={
                'node_list': o.value, 'conditions': d,
                'compare_func': cmp_, 'user_data': NONE}, st=o.st):
            if r.kind == 'raise':
                out.append('raises %s' % (exc_name(r),))
                continue
            pair = sequence(eng, r.st, r.value)
            v = pair[0] if pair else None
            if v is not None and not isinstance(v, Const):
                d = eng.decide(r.st, v)
                v = C(d) if d is not None else v
            out.append(bool(v.v) if isinstance(v, Const) else 'unknown')
    return out


def queries(thorough):
    """(query, conditions, truth value)"""
    out = []
    base = {'media': 'screen'}
    for q in (TYPES + ['tty', 'tv', 'unknown', 'or-foo']):
        for m in TYPES[1:]:
            holds = q == m or q == 'all'
            out += [(q, {'media': m}, holds),
                    ('only ' + q, {'media': m}, holds),
                    ('not ' + q, {'media': m}, not holds),
                    (q.upper(), {'media': m}, holds),
                    ('  %s\n' % q, {'media': m}, holds)]
    for f in RANGE:
        for have in ORDER:
            c = dict(base, **{f: have})
            out += compare_rows(f, have, ORDER, c)
        out += two_bounds(f, thorough)
        out += [('(%s: bad)' % f, dict(base, **{f: '2'}), False),
                ('(%s: 2)' % f, base, False), ('(%s >= 2)' % f, base, False),
                ('(2 >= %s)' % f, base, False)]
    ratios = ['4/3', '16/9', '2/1']
    ratios.sort(key=Fraction)
    for f in RATIO:
        for have in ratios + ['2', '8/6']:
            out += compare_rows(f, have, ratios, dict(base, **{f: have}),
                                Fraction)
            for lo, hi in itertools.product(ratios, repeat=2):
                for op in ('<', '<='):
                    holds = COMPARE[op]((Fraction(lo) > Fraction(have)) -
                                        (Fraction(lo) < Fraction(have))) and \
                        COMPARE[op]((Fraction(have) > Fraction(hi)) -
                                    (Fraction(have) < Fraction(hi)))
                    c = dict(base, **{f: have})
                    out += [('(%s %s %s %s %s)' % (lo, op, f, op, hi), c,
                             holds),
                            ('(%s %s %s %s %s)' % (hi, FLIP[op], f, FLIP[op],
                                                   lo), c, holds)]
        out.append(('(%s: 1/1)' % f, base, False))
    for f, vals in DISCRETE.items():
        for have in vals:
            out += [('(%s %s %s)' % (f, op, have), dict(base, **{f: have}),
                     False) for op in '<>']
            h = have + '-primary' if f == 'orientation' else have
            c = dict(base, **{f: h})
            out += [('(%s: %s)' % (f, v), c, v == have) for v in vals]
            out += [('( %s : %s )' % (f, vals[0]), c, vals[0] == have),
                    ('( %s )' % f, c, f in ('orientation', 'scan',
                                            'color-gamut') or
                     have != 'none'),
                    ('(%s:%s)' % (f.upper(), vals[0]), c, vals[0] == have)]
            out.append(('(%s)' % f, c, f in ('orientation', 'scan',
                                             'color-gamut') or
                        have != 'none'))
        out += [('(%s)' % f, base, False),
                ('(%s: %s)' % (f, vals[0]), base, False)]
    for f in ('color', 'color-index', 'monochrome'):
        out += [('(%s)' % f, dict(base, **{f: n}), n > 0) for n in (0, 1, 8)]
        out.append(('(%s)' % f, base, False))
    out += [('(grid)', dict(base, grid=n), n == 1) for n in (0, 1)]
    out += [('(grid)', base, False)]
    for f in ('width', 'height', 'aspect-ratio', 'device-width',
              'resolution'):
        out += [('(%s)' % f, base, False),
                ('(%s)' % f, dict(base, **{f: '1'}), True)]
    out += [('(unknown)', base, False), ('(unknown: 1)', base, False),
            ('(unknown < 1)', base, False), ('', base, False),
            ('not (unknown)', base, True)]
    return out


def compare_rows(f, have, vals, conds, key=lambda x: x):
    out = []
    for v in vals:
        c = (key(have) > key(v)) - (key(have) < key(v))
        out += [('(%s: %s)' % (f, v), conds, c == 0),
                ('( %s:%s )' % (f, v), conds, c == 0),
                ('(min-%s: %s)' % (f, v), conds, c >= 0),
                ('(max-%s: %s)' % (f, v), conds, c <= 0),
                ('not (min-%s: %s)' % (f, v), conds, c < 0)]
        for op in FLIP:
            out += [('(%s %s %s)' % (f, op, v), conds, COMPARE[op](c)),
                    ('(%s %s %s)' % (v, FLIP[op], f), conds,
                     COMPARE[op](c)),
                    ('(%s%s%s)' % (f, op, v), conds, COMPARE[op](c))]
    return out


def two_bounds(f, thorough):
    out = []
    for lo, hi in [('1', '3'), ('1', '2'), ('2', '3'), ('1', '1'),
                   ('2', '2')]:
        for have in ORDER:
            c = {'media': 'screen', f: have}
            for o1, o2 in itertools.product(('<', '<='), repeat=2):
                left = (lo > have) - (lo < have)
                right = (have > hi) - (have < hi)
                holds = COMPARE[o1](left) and COMPARE[o2](right)
                out += [('(%s %s %s %s %s)' % (lo, o1, f, o2, hi), c, holds),
                        ('(%s %s %s %s %s)' % (hi, FLIP[o2], f, FLIP[o1],
                                               lo), c, holds)]
    return out if thorough or f in ('width', 'color') else out[::9]


def combined(thorough):
    """Conjunctions, disjunctions and lists of aa, bb and cc."""
    out = []
    names = ['aa', 'bb', 'cc']
    for n in (1, 2, 3):
        for bits in itertools.product((0, 1), repeat=n):
            c = {k: '1' for k, b in zip(names, bits) if b}
            c['media'] = 'screen'
            terms = ['(%s)' % k for k in names[:n]]
            out += [(' and '.join(terms), c, all(bits)),
                    (' or '.join(terms), c, any(bits)),
                    (', '.join(terms), c, any(bits)),
                    (',,'.join(terms) + ',', c, any(bits)),
                    (' AND '.join(terms), c, all(bits))]
            for t in ('screen', 'all', 'only screen', 'print'):
                holds = t != 'print' and all(bits)
                out.append(('%s and %s' % (t, ' and '.join(terms)), c,
                            holds))
                out.append(('print, %s and %s' % (t, ' and '.join(terms)),
                            c, holds))
            out.append(('print and %s, speech' % (terms[0],), c, False))
            out.append(('not print, ' + terms[0], c, True))
            out.append(('not all, ' + terms[0], c, bool(bits[0])))
            out.append(('not ' + terms[0], c, not bits[0]))
            if n == 3:
                out += [('(aa) and (bb) or (cc)', c, False),
                        ('(aa) or (bb) and (cc)', c, False)]
            if n == 2:
                out += [('%s and (%s: 1)' % (terms[0], 'width'),
                         dict(c, width='1'), bool(bits[0])),
                        ('(width > 1) and ' + terms[0], dict(c, width='1'),
                         False),
                        ('(width >= 1) and ' + terms[0], dict(c, width='1'),
                         bool(bits[0])),
                        ('(width > 1) or ' + terms[0], dict(c, width='1'),
                         bool(bits[0])),
                        ('%s or (width > 1)' % (terms[0],),
                         dict(c, width='1'), bool(bits[0]))]
    return out


def check(ctx):
    p = ctx.p
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=60,
                     on_call=Compare(), max_depth=30, recursion=5)
    n = 0
    where = p.func(MQ + 'match').where()
    rows = queries(ctx.thorough) + combined(ctx.thorough)
    seen = set()
    for q, c, want in rows:
        key = (q, tuple(sorted(c.items())))
        if key in seen:
            continue
        seen.add(key)
        got = matches(ctx, eng, p, q, c)
        n += 1
        rest = ', '.join('%s=%s' % kv for kv in sorted(c.items()))
        ctx.obl('matches', '%s with %s' % (q.strip(), rest), got == [want],
                'is %s' % (got,), where)
    ctx.floor('queries', n, 800)
    feature_values(ctx)


# what the window and the screen have, and what a query must see of it
WINDOW = {'inner_width': 1024, 'inner_height': 500, 'device_pixel_ratio': 2}
SCREEN = {'width': 1600, 'height': 1200, 'color_depth': 8, 'monochrome': 3,
          'media': 'print', 'scan': 'interlace', 'update': 'slow',
          'color_gamut': 'p3'}
SEEN = {'media': 'print', 'orientation': 'portrait-secondary',
        'resolution': '2dppx', 'scan': 'interlace', 'update': 'slow',
        'color': 8, 'color-index': 256, 'monochrome': 3, 'grid': 0,
        'color-gamut': 'p3', 'device-width': '1600px',
        'device-height': '1200px', 'device-aspect-ratio': '4/3'}


class Capture(object):
    """Keeps what match() is called with; sizes and lengths are numbers."""

    def __init__(self, size):
        self.size = size
        self.got = []

    def __call__(self, eng, fn, args, kw, st, node):
        if isinstance(fn, FnV) and fn.fi.name == 'match':
            self.got.append((st, list(args), dict(kw)))
            return [(st, T((S('matched'), NONE)))]
        if isinstance(fn, Sym) and fn.op == 'attr':
            if fn.args[1] == 'get_viewport_size':
                return [(st, T(tuple(self.size)))]
            if fn.args[1] == 'value' and fn.args[0] in self.size:
                return [(st, C(800 if fn.args[0] is self.size[2] else 600))]
        if isinstance(fn, ExtV) and fn.name == 'fractions.Fraction' and \
                all(isinstance(x, Const) for x in args):
            return [(st, C(Fraction(*[x.v for x in args])))]
        return None


def feature_values(ctx):
    """MediaQueryList.matches asks for the values of its window."""
    p = ctx.p
    ci = p.cls('svgpy.window.MediaQueryList')
    fi = p.find_member(ci, 'matches')[0].getter
    bc = S('browsing_context')
    doc, win, screen, turn, root = [
        S('the', x) for x in ('document', 'window', 'screen', 'orientation',
                              'root')]
    n = 0
    for rooted in (True, False):
        cap = Capture([S('size', x) for x in 'xywh'])
        eng = ctx.engine(mixins=True, on_call=cap, max_depth=10)
        st = State()
        for o, vals in ((win, WINDOW), (screen, SCREEN),
                        (turn, {'type': SEEN['orientation']})):
            for k, v in vals.items():
                st.fields[(o, k)] = C(v)
        st.fields[(win, 'screen')] = screen
        st.fields[(screen, 'orientation')] = turn
        st.fields[(bc, 'document')] = doc
        st.fields[(bc, 'window')] = win
        st.fields[(doc, 'document_element')] = root if rooted else NONE
        for x in (bc, doc, win, screen, turn, root):
            st.facts[x] = True
            st.facts[S('is', x, NONE)] = False
        me = eng._outside(lambda: eng.instantiate(
            ci, [bc, C('(color)')], {}, st, None))
        st, me = me[0]
        outs = eng._outside(lambda: eng.read(st, me, 'matches'))
        w, h = ('800', '600') if rooted else ('1024', '500')
        want = dict(SEEN, width=w + 'px', height=h + 'px')
        want['aspect-ratio'] = str(Fraction(int(w), int(h)))
        what = 'of a document with%s an element' % ('' if rooted else 'out')
        ok = len(cap.got) == 1 and bool(outs) and \
            all(v.value is S('matched') for v in outs)
        ctx.obl('matches', what, ok, 'result of one match() expected',
                fi.where())
        if not ok:
            continue
        s, args, kw = cap.got[0]
        got = dict(zip(('node_list', 'conditions', 'compare_func',
                        'user_data'), args), **kw)
        ctx.obl('matches', 'context of lengths ' + what,
                got.get('user_data', NONE) is (root if rooted else NONE),
                'is %r' % (got.get('user_data'),), fi.where())
        d = got.get('conditions')
        for k, v in sorted(want.items()):
            n += 1
            r = eng._outside(lambda: eng.getitem(s, d, C(k), None))
            r = r[0][1] if len(r) == 1 else None
            txt = r.v if isinstance(r, Const) else r
            if k.endswith('aspect-ratio') and isinstance(txt, str):
                v, txt = Fraction(v), Fraction(txt)
            ctx.obl('value', '%s %s' % (k, what), txt == v,
                    'is %r, not %r' % (txt, v), fi.where())
    ctx.floor('feature values', n, 15)
    compare(ctx, fi)


class Length(object):
    """SVGLength(x, context) of a number is the number."""

    def __init__(self):
        self.contexts = []

    def __call__(self, eng, fn, args, kw, st, node):
        if isinstance(fn, ClsV) and fn.ci.name == 'SVGLength':
            self.contexts.append(kw.get('context', NONE))
            return [(st, args[0])]
        return None


def compare(ctx, where):
    fi = ctx.p.func('svgpy.window._mql_compare')
    for a, b in itertools.product((1, 2, 3), repeat=2):
        h = Length()
        eng = ctx.engine(mixins=True, on_call=h)
        outs = eng.run(fi, args={'left': C(a), 'right': C(b),
                                 'user_data': S('user')}, st=State())
        vals = [o.value.v if isinstance(o.value, Const) else None
                for o in outs if o.kind == 'return']
        ctx.obl('compare', '%d with %d' % (a, b), len(outs) == 1 and
                len(vals) == 1 and isinstance(vals[0], int) and
                (vals[0] > 0) - (vals[0] < 0) == (a > b) - (a < b) and
                h.contexts == [S('user')] * 2, 'is %s' % (vals,),
                fi.where())

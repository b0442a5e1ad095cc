"""P04: cubic curves (points, extremes, length) and boxes of paths."""
import itertools

from sa import arrays
from ._path import *

EXPLANATION = (
    'A cubic Bezier curve of unknown points is interpreted. point(t) is '
    'compared, as a polynomial in the coordinates and t, with the Bernstein '
    'form; the function get_length integrates from 0 to 1 must be the root '
    'of the squared derivative. With unknown coefficients, for every sign '
    'of the leading coefficients and the discriminant of the derivative '
    'get_roots must yield every parameter where the derivative vanishes '
    'when it lies in [0, 1] and none outside; the box must be the minimum '
    'and maximum of the coordinates of the end points and the points at '
    'these parameters. The box of a path in the base set is computed for '
    'sequences of commands with the corners in every order that matters '
    '(weak orders; the box of a curve is an unknown box around its ends) '
    'and must be the smallest one around all that is drawn.')
ASSUMPTIONS = ['floating point rounding is not modelled',
               'scipy.integrate.quad integrates',
               'rule G05 for rectangles']
HALF = S('op', '/', C(1), C(2))


def curve(eng, st, cls):
    pts = [[num(st, 'x%d' % i), num(st, 'y%d' % i)] for i in range(4)]
    arr = [arrays.make(eng, st, (2,), xs, cls.node) for xs in pts]
    res = build(eng, st, cls, arr, {})
    if not res:
        raise AnalysisBroken('construction of a curve')
    return res[0][0], res[0][1], pts


def total(*terms):
    r = ZERO
    for t in terms:
        r = op('+', r, t)
    return r


def bernstein(pts, i, t):
    u = op('-', ONE, t)
    p0, p1, p2, p3 = [q[i] for q in pts]
    pw = lambda v, k: op('**', v, C(k))  # noqa: E731
    return total(times(pw(u, 3), p0),
                 times(3, times(times(pw(u, 2), t), p1)),
                 times(3, times(times(u, pw(t, 2)), p2)),
                 times(pw(t, 3), p3))


def derivative(pts, i, t):
    u = op('-', ONE, t)
    p0, p1, p2, p3 = [q[i] for q in pts]
    sq = lambda v: op('**', v, C(2))  # noqa: E731
    return total(times(3, times(sq(u), op('-', p1, p0))),
                 times(6, times(times(u, t), op('-', p2, p1))),
                 times(3, times(sq(t), op('-', p3, p2))))


def check(ctx):
    p = ctx.p
    cls = p.cls(PX + 'CubicBezierCurve')
    n = points(ctx, cls)
    n += lengths(ctx, cls)
    n += roots(ctx, cls)
    n += boxes(ctx, cls)
    n += paths(ctx, cls)
    ctx.floor('exits compared', n, 300)


def points(ctx, cls):
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=4)
    st, c, pts = curve(eng, State(), cls)
    t = num(st, 't')
    fi, _ = ctx.p.find_member(cls, 'point')
    outs = method_call(eng, st, c, 'point', [t])
    for o in outs:
        got = items(eng, o.st, o.value) if o.kind == 'return' else None
        alg = alg_of(o.st)
        ctx.obl('point', 'of a cubic curve', got is not None and len(
            got) == 2 and all(alg.equal(got[i], bernstein(pts, i, t))
                              for i in range(2)),
                'is not on the curve: %s' % show(o.value), fi.where())
    return len(outs)


def items(eng, st, v):
    if isinstance(v, Obj) and arrays.is_array(v):
        r = arrays.shape_items(eng, st, v)
        return list(r[1]) if r is not None else None
    return sequence(eng, st, v)


class Quad:
    """Stands in for scipy's integration."""

    def __init__(self):
        self.calls = []

    def __call__(self, eng, fn, args, kw, st, node):
        if isinstance(fn, ExtV) and fn.name.startswith('scipy.integrate.') \
                and args:
            lo = args[1] if len(args) > 1 else kw.get('a', NONE)
            hi = args[2] if len(args) > 2 else kw.get('b', NONE)
            extra = args[3] if len(args) > 3 else kw.get('args', T([]))
            t = num(st, 't')
            more = sequence(eng, st, extra)
            for s, v in eng.call(args[0], [t] + (more or []), {}, st.fork(),
                                 node):
                self.calls.append((s, lo, hi, v))
            area = num(st, 'area')
            return [(st, T([area, num(st, 'error')]))]
        return None


def lengths(ctx, cls):
    q = Quad()
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=4, on_call=q)
    st, c, pts = curve(eng, State(), cls)
    fi, _ = ctx.p.find_member(cls, 'get_length')
    outs = method_call(eng, st, c, 'get_length', [])
    area = S('param', 'area')
    t = S('param', 't')
    for o in outs:
        alg = alg_of(o.st)
        ctx.obl('length', 'result', o.kind == 'return' and alg.equal(
            o.value, area) if o.kind == 'return' else False,
            'is %s' % show(o.value), fi.where())
    want = total(*[op('**', derivative(pts, i, t), C(2)) for i in range(2)])
    for s, lo, hi, v in q.calls:
        alg = alg_of(s)
        ok = alg.is_const(lo, 0) and alg.is_const(hi, 1)
        ctx.obl('length', 'bounds', ok, 'are %s, %s' % (show(lo), show(hi)),
                fi.where())
        sq = op('**', v, C(2))
        try:
            same = not isinstance(v, Raised) and alg.equal(sq, want)
        except NotNumber:
            same = False
        ctx.obl('length', 'integrand', same, 'is %s' % show(v), fi.where())
    ctx.obl('length', 'integral', len(q.calls) > 0, 'is not computed',
            fi.where())
    return len(outs) + len(q.calls)


class Roots:
    """Signs of the coefficients of the derivative, and where in [0, 1] its
    roots lie."""

    def __init__(self, fi):
        self.fi = fi
        self.at = None
        self.signs = []
        self.coeffs = None
        self.alg = None

    def set(self, axes, at):
        self.alg = Algebra()
        self.alg.signs = []
        self.at = at
        for (a, b, c), (sa, sb, sd) in axes:
            if sa == 0:
                self.alg.equation(a, ZERO)
            if sb == 0:
                self.alg.equation(b, ZERO)
        for (a, b, c), (sa, sb, sd) in axes:
            d = op('-', op('**', b, C(2)), times(times(3, a), c))
            for v, s in ((a, sa), (b, sb), (d, sd)):
                x = self.alg.poly(v)
                if self.alg._const(x) is None:
                    self.alg.signs.append((x, s))
        self.alg.cache.clear()

    def decide(self, eng, st, v):
        if self.alg is None:
            return None
        if v.op in ('param', 'op', 'neg', 'call') and eng.is_num(st, v):
            r = self.decide(eng, st, S('eq', v, ZERO))
            return None if r is None else not r
        if v.op not in ('lt', 'le', 'eq', 'gt'):
            return None
        a, b = v.args
        try:
            pa, pb = self.alg.poly(a), self.alg.poly(b)
            s = self.alg.sign(self.alg.sub(pa, pb))
            if s is None:
                ca, cb = self.alg._const(pa), self.alg._const(pb)
                if (ca is None) == (cb is None):
                    return None
                if v.op == 'eq' and (ca if cb is None else cb) not in (0, 1):
                    return None
                if not self.quotient(b if ca is not None else a):
                    return None
                x = self.at if ca is None else ca
                y = self.at if cb is None else cb
                s = (x > y) - (x < y)
        except NotNumber:
            return None
        return {'lt': s < 0, 'le': s <= 0, 'eq': s == 0, 'gt': s > 0}[v.op]

    @staticmethod
    def quotient(v):
        from sa.values import subterms
        return any(isinstance(x, Sym) and x.op == 'op' and x.args[0] == '/'
                   for x in subterms(v))

    def __call__(self, eng, fn, args, kw, st, node):
        if self.coeffs is not None and getattr(fn, 'fi', None) is self.fi:
            arr = [arrays.make(eng, st, (2,), list(c), node)
                   for c in self.coeffs]
            return [(st, T(arr))]
        if isinstance(fn, ExtV) and fn.name == 'builtins.filter' and \
                len(args) == 2:
            its = items(eng, st, args[1])
            if its is None:
                return None
            worlds = [(st, [])]
            for x in its:
                nxt = []
                for s, acc in worlds:
                    for s2, v in eng.call(args[0], [x], {}, s, node):
                        d = None if isinstance(v, Raised) else \
                            eng.decide(s2, v)
                        for take in ((True, False) if d is None else (d,)):
                            nxt.append((s2.fork() if d is None else s2,
                                        acc + [x] * take))
                worlds = nxt
            return [(s, eng.new_list(s, acc, node)) for s, acc in worlds]
        return None


def axis_cases():
    for sa in (1, -1):
        for sb in (1, 0, -1):
            for sd in (1, 0, -1):
                yield sa, sb, sd
    for sb in (1, 0, -1):
        yield 0, sb, abs(sb)


def wanted(a, b, c, signs):
    """Parameters where 3a t^2 + 2b t + c vanishes."""
    sa, sb, sd = signs
    if sa == 0:
        if sb == 0:
            return []
        return [op('/', S('neg', c), times(2, b))]
    if sd < 0:
        return []
    root = S('call', X('math.sqrt'), op('-', op('**', b, C(2)),
                                        times(times(3, a), c)))
    if sd == 0:
        return [(op('/', S('neg', b), times(3, a)),
                 op('/', op('-', root, b), times(3, a)),
                 op('/', op('-', op('-', ZERO, root), b), times(3, a)))]
    return [op('/', op('-', root, b), times(3, a)),
            op('/', op('-', op('-', ZERO, root), b), times(3, a))]


def roots(ctx, cls):
    gc, _ = ctx.p.find_member(cls, 'get_coefficients')
    fi, _ = ctx.p.find_member(cls, 'get_roots')
    r = Roots(gc)
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=6, on_call=r,
                     on_decide=lambda e, s, v: r.decide(e, s, v))
    st, cv, pts = curve(eng, State(), cls)
    r.coeffs = [[num(st, k + ax) for ax in 'xy'] for k in 'abcd']
    axes = [tuple(r.coeffs[k][i] for k in range(3)) for i in range(2)]
    n = 0
    none = (0, 0, 0)
    every = list(axis_cases())
    pairs = [(x, none) for x in every] + [(none, x) for x in every] + \
        [(every[i], every[-i]) for i in range(len(every))]
    if ctx.thorough:
        pairs = list(itertools.product(every, every))
    from fractions import Fraction
    for pair in pairs:
        for at in (Fraction(1, 2), 0, 1, -1, 2):
            r.set(list(zip(axes, pair)), at)
            lab = 'x %s, y %s, at %s' % (pair + (at,))
            outs = method_call(eng, st.fork(), cv, 'get_roots', [])
            for o in outs:
                n += 1
                got = items(eng, o.st, o.value) if o.kind == 'return' \
                    else None
                if got is None:
                    ctx.bad('extremes', lab, 'gives %s' % show(o.value),
                            fi.where())
                    continue
                if not 0 <= at <= 1:
                    # a double root at b = c = 0 is at 0 whatever the rest
                    ctx.obl('extremes', lab, all(
                        r.alg.is_const(g, 0) for g in got),
                        'outside the curve', fi.where())
                    continue
                missing = []
                for (a, b, c), s in zip(axes, pair):
                    for w in wanted(a, b, c, s):
                        alts = w if isinstance(w, tuple) else (w,)
                        if not any(r.alg.equal(g, x) for g in got
                                   for x in alts):
                            missing.append(alts[0])
                ctx.obl('extremes', lab, not missing, 'lacks %s' % [
                    show(m) for m in missing], fi.where())
    r.alg = None
    return n


def boxes(ctx, cls):
    """Box of a curve: ends and extremes."""
    gr, _ = ctx.p.find_member(cls, 'get_roots')
    fi, _ = ctx.p.find_member(cls, 'get_bbox')
    n = 0
    for k in range(5):
        ts = [S('param', 't%d' % i) for i in range(k)]

        def found(eng, fn, args, kw, st, node):
            if getattr(fn, 'fi', None) is gr:
                for t in ts:
                    num(st, t.args[0])
                return [(st, eng.new_list(st, list(ts), node))]
            return None
        eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=6,
                         on_call=found)
        st, c, pts = curve(eng, State(), cls)
        for o in method_call(eng, st, c, 'get_bbox', []):
            n += 1
            if o.kind == 'raise':
                ctx.bad('curve box', '%d extremes' % k, 'raises', fi.where())
                continue
            alg = alg_of(o.st)
            bad = []
            for i, (lo, size) in enumerate((('x', 'width'),
                                            ('y', 'height'))):
                vals = [pts[0][i], pts[3][i]] + [bernstein(pts, i, t)
                                                 for t in ts]
                least = S('call', X('builtins.min'), *vals)
                most = S('call', X('builtins.max'), *vals)
                g = component(eng, o.st, o.value, lo)
                if g is None or not alg.equal(g, least):
                    bad.append(lo)
                g = component(eng, o.st, o.value, size)
                if g is None or not alg.equal(g, op('-', most, least)):
                    bad.append(size)
            ctx.obl('curve box', '%d extremes' % k, not bad,
                    'has another %s' % ' '.join(bad), fi.where())
    return n


# -- boxes of paths ---------------------------------------------------------
SEQS = ['M', 'ML', 'MLZ', 'MLL', 'MLLZ', 'MM', 'MML', 'MLM', 'MLZL', 'MLZLZ',
        'MLML', 'MLZML', 'MC', 'MCZ', 'MCL', 'MLC', 'MLZC', 'MLMZ', 'MLMLZ',
        'MZ', 'MZL', 'MLMZL', 'MLZMZL', 'MLZMLZ']


def orders(k, thorough):
    """Rank tuples of k values: all for few, samples in all rotations for
    more."""
    if k <= 3:
        yield from weak_orders(k)
        return
    if k == 4 and thorough:
        yield from weak_orders(4)
        return
    base = [tuple(range(k)), tuple(reversed(range(k))),
            tuple(i % 2 * k + i for i in range(k)), (0,) * k,
            tuple(i // 2 for i in range(k)), tuple(i % 2 for i in range(k)),
            tuple(i % 3 for i in range(k))]
    for b in base:
        for i in range(k):
            yield b[i:] + b[:i]


class CurveBox:
    def __init__(self, fi, rect):
        self.fi = fi
        self.rect = rect
        self.box = None

    def __call__(self, eng, fn, args, kw, st, node):
        if self.box is not None and getattr(fn, 'fi', None) is self.fi:
            l, t, r, b = self.box
            return eng.instantiate(self.rect, [l, t, op('-', r, l),
                                               op('-', b, t)], {}, st, node)
        return None


def paths(ctx, cls):
    p = ctx.p
    seg = segment_class(p)
    pp = p.cls(PX + 'PathParser')
    rect = p.cls(RX + 'DOMRect')
    cb = CurveBox(p.find_member(cls, 'get_bbox')[0], rect)
    eng = ctx.engine(max_states=6000, mixins=True, keep_facts=True,
                     loop_bound=8, on_call=cb)
    n = 0
    for seq in SEQS:
        st = State()
        segs, drawn = [], []
        coords = []         # points in order of appearance, (x, y)
        cp = start = None
        last = None
        cb.box = None
        inner = []
        for i, t in enumerate(seq):
            vals = names(t, 'abcdefgh'[i])
            st, s = segment(eng, st, seg, t, vals)
            segs.append(s)
            pt = tuple(vals[-2:]) if vals else None
            if pt:
                coords.append(pt)
            if t == 'M':
                if last in (None, 'M'):
                    drawn.append(pt)
                if last != 'M':
                    start = pt
            elif t == 'Z':
                drawn += [cp, start]
                pt = start
            else:
                drawn += [cp, pt]
            if t == 'C':
                cb.box = [num(st, 'c' + k) for k in 'ltrb']
                inner = [cb.box[0], cb.box[2]], [cb.box[1], cb.box[3]]
                ends = (cp, pt)
            cp = pt
            last = t
        lst = eng._outside(lambda: eng.new_list(st, segs, seg.node))
        ranks = list(orders(len(coords), ctx.thorough))
        for i, rx in enumerate(ranks):
            ry = ranks[(i * 5 + 2) % len(ranks)]
            groups = []
            for ax, q in ((0, rx), (1, ry)):
                g = [(c[ax], 2 * q[j]) for j, c in enumerate(coords)]
                if inner:
                    e = [2 * q[coords.index(x)] for x in ends]
                    g += [(inner[ax][0], min(e) - (i % 3 > 0)),
                          (inner[ax][1], max(e) + (i % 2))]
                groups.append(g)
            order = Order(*groups)
            eng.on_decide = order
            outs, fi = call_static(eng, p, pp, 'get_bbox', [lst], {},
                                   st.fork())
            eng.on_decide = None
            lab = '%s, corners in order %s %s' % (seq, rx, ry)
            for o in outs:
                n += 1
                if o.kind == 'raise':
                    ctx.bad('path box', lab, 'raises', fi.where())
                    continue
                want = {}
                for ax, (lo, size) in enumerate((('x', 'width'),
                                                 ('y', 'height'))):
                    vals = dict((id(d[ax]), d[ax]) for d in drawn)
                    vals = list(vals.values())
                    if inner:
                        vals += inner[ax]
                    rank = dict((x, r) for x, r in groups[ax])
                    least = min(vals, key=lambda x: rank[x])
                    most = max(vals, key=lambda x: rank[x])
                    want[lo] = least
                    want[size] = op('-', most, least)
                bad = []
                for k in want:
                    g = component(eng, o.st, o.value, k)
                    if g is None or not order.equal(g, want[k]):
                        bad.append(k)
                ctx.obl('path box', lab, not bad, 'has another %s: %s' % (
                    ' '.join(bad), [show(component(eng, o.st, o.value, k))
                                    for k in bad]), fi.where())
    return n

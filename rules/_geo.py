"""Matrices and rectangles with unknown entries."""
from sa.algebra import Algebra, NotNumber, show_poly
from ._common import *

MX = 'svgpy.geometry.matrix.'
RX = 'svgpy.geometry.rect.'
NAMES = ['m%d%d' % (i, j) for i in range(1, 5) for j in range(1, 5)]
THREE_D = ['m13', 'm14', 'm23', 'm24', 'm31', 'm32', 'm33', 'm34', 'm43',
           'm44']
TWO_D = {'a': 'm11', 'b': 'm12', 'c': 'm21', 'd': 'm22', 'e': 'm41',
         'f': 'm42'}
IDENT = {n: C(1 if n in ('m11', 'm22', 'm33', 'm44') else 0) for n in NAMES}


def num(st, name):
    v = S('param', name)
    st.types[v] = (ExtClass('builtins.float'), True)
    st.facts[S('is', v, NONE)] = False
    return v


def build(eng, st, cls, args, kw, node=None):
    """Constructs an object; the one non-raising result."""
    node = node or cls.node
    res = eng._outside(lambda: eng.instantiate(cls, list(args), dict(kw), st,
                                               node))
    res = [(s, v) for s, v in res if not isinstance(v, Raised)]
    return res


def matrix(eng, cls, flat=True, pre='', st=None):
    """(state, matrix object, {component: value}) of a matrix made from a
    sequence of 6 (flat) or 16 unknown numbers."""
    st = st or State()
    if flat:
        vals = {n: IDENT[n] for n in NAMES}
        seq = []
        for k in 'abcdef':
            v = num(st, pre + k)
            vals[TWO_D[k]] = v
            seq.append(v)
    else:
        seq = [num(st, pre + n) for n in NAMES]
        vals = dict(zip(NAMES, seq))
    lst = eng._outside(lambda: eng.new_list(st, seq, cls.node))
    res = build(eng, st, cls, [lst], {})
    if len(res) != 1:
        raise AnalysisBroken('construction of %s from %d numbers: %d results'
                             % (cls.name, len(seq), len(res)))
    return res[0][0], res[0][1], vals


def component(eng, st, obj, name):
    """The one value attribute `name` of obj has."""
    outs = eng.read(st, obj, name)
    vals = {o.value for o in outs if o.kind == 'return'}
    if len(vals) != 1 or any(o.kind == 'raise' for o in outs):
        return None
    return next(iter(vals))


def components(eng, st, obj):
    return {n: component(eng, st, obj, n) for n in NAMES}


def flag(eng, st, obj):
    """The flag: True, False or None (unknown)."""
    v = component(eng, st, obj, 'is2d')
    return None if v is None else eng.decide(st, v)


def mul(x, y):
    """Component dicts: x post-multiplied by y (column vectors)."""
    def times(a, b):
        if isinstance(a, Const) and a.v == 0 or \
                isinstance(b, Const) and b.v == 0:
            return C(0)
        return S('op', '*', a, b)
    r = {}
    for i in range(1, 5):        # column of the result
        for j in range(1, 5):    # row of the result
            acc = C(0)
            for k in range(1, 5):
                acc = S('op', '+', acc,
                        times(x['m%d%d' % (k, j)], y['m%d%d' % (i, k)]))
            r['m%d%d' % (i, j)] = acc
    return r


def factor(**kw):
    d = dict(IDENT)
    d.update(kw)
    return d


def method_call(eng, st, obj, name, args, kw=None):
    """Outcomes of obj.name(*args)."""
    fns = eng.read(st, obj, name)
    out = []
    for o in fns:
        if o.kind == 'raise':
            out.append(o)
        else:
            out.extend(eng.call_fn(o.value, args, kw or {}, o.st))
    return out


def differ(alg, got, want):
    """Names of components whose normal forms differ."""
    bad = []
    for n in want:
        g = got.get(n)
        if g is None or not alg.equal(g, want[n]):
            bad.append(n)
    return bad


def alg_of(st):
    return Algebra(st.eqs)


# -- relative positions of edges on an axis --------------------------------
def weak_orders(k):
    """Rank tuples of k items, one per weak ordering."""
    import itertools
    for r in itertools.product(range(k), repeat=k):
        if set(r) == set(range(max(r) + 1)):
            yield r


def interval_orders(valid=True, second=True):
    """Weak orderings of (l1, r1, l2, r2) with proper intervals."""
    for r in weak_orders(4):
        if valid and not r[0] < r[1]:
            continue
        if second and not r[2] < r[3]:
            continue
        yield r


class Order:
    """Decides comparisons of terms from the order of named points: groups
    are lists of (term, rank), one list per axis."""

    def __init__(self, *groups):
        self.alg = Algebra()
        self.alg.signs = []
        # coinciding points are one point
        for g in groups:
            for i, (t, r) in enumerate(g):
                for u, q in g[:i]:
                    if r == q:
                        self.alg.equation(t, u)
        for g in groups:
            ps = [(self.alg.poly(t), r) for t, r in g]
            for a, r in ps:
                for b, q in ps:
                    d = self.alg.sub(a, b)
                    if d and r > q:
                        self.alg.signs.append((d, 1))
        self.alg.cache.clear()

    def __call__(self, eng, st, v):
        if v.op in ('param', 'op', 'neg', 'call') and eng.is_num(st, v):
            r = self(eng, st, S('eq', v, C(0)))
            return None if r is None else not r
        if v.op not in ('lt', 'le', 'eq', 'gt'):
            return None
        try:
            d = self.alg.sub(self.alg.poly(v.args[0]),
                             self.alg.poly(v.args[1]))
        except NotNumber:
            return None
        s = self.alg.sign(d)
        if s is None:
            return None
        return {'lt': s < 0, 'le': s <= 0, 'eq': s == 0, 'gt': s > 0}[v.op]

    def equal(self, a, b):
        """Same value under the order."""
        try:
            d = self.alg.sub(self.alg.poly(a), self.alg.poly(b))
        except NotNumber:
            return a is b
        return not d or self.alg.sign(d) == 0


def plus(a, b):
    return S('op', '+', a, b)


def minus(a, b):
    return S('op', '-', a, b)


def pair_order(rx, ry, o='o'):
    """Order of two rectangles x,y,width,height and o-prefixed ones."""
    P = lambda n: S('param', n)  # noqa: E731
    return Order(
        list(zip((P('x'), plus(P('x'), P('width')), P(o + 'x'),
                  plus(P(o + 'x'), P(o + 'width'))), rx)),
        list(zip((P('y'), plus(P('y'), P('height')), P(o + 'y'),
                  plus(P(o + 'y'), P(o + 'height'))), ry)))


def by_algebra(eng, st, v):
    """Decides an equation of numbers from the equations and inequations of
    the path."""
    if v.op in ('param', 'op', 'neg', 'call') and eng.is_num(st, v):
        r = by_algebra(eng, st, S('eq', v, C(0)))
        return None if r is None else not r
    if v.op != 'eq' or not (eng.is_num(st, v.args[0])
                            or isinstance(v.args[0], Sym)
                            and v.args[0].op in ('op', 'neg', 'call')):
        return None
    if isinstance(v.args[1], Const) and not isinstance(v.args[1].v,
                                                       (int, float)):
        return None
    alg = Algebra(st.eqs)
    try:
        d = alg.sub(alg.poly(v.args[0]), alg.poly(v.args[1]))
        c = alg._const(d)
        if c is not None:
            return c == 0
        for f, val in st.facts.items():
            if val is False and isinstance(f, Sym) and f.op == 'eq' and \
                    f is not v:
                try:
                    e = alg.sub(alg.poly(f.args[0]), alg.poly(f.args[1]))
                except NotNumber:
                    continue
                if alg.ratio(d, e) is not None:
                    return False
    except NotNumber:
        pass
    return None

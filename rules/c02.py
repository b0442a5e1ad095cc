"""C02: types of numeric CSS values form the algebra of CSS Typed OM."""
import itertools

from ._geo import *
from .c01 import TX, decimals, entries, static

EXPLANATION = (
    'CSSNumericType.add_types, multiply_types and apply_percent_hint are '
    'interpreted for every pair of a set of types (powers of base types and '
    'of percent, each absent, zero or not, with and without percent hint) '
    'and compared with the algorithms of CSS Typed OM; neither operand may '
    'change. The constructors of the math value classes are interpreted for '
    'arguments of every combination of units and of products and inverses '
    'of them: the type must be the sum of the argument types for sum, min, '
    'max and clamp, the product for product, the negated powers for invert '
    'and the same for negate, incompatible arguments must be refused with '
    'ValueError, and operator must be that of the class.')
ASSUMPTIONS = ['a percentage plus a number is left open (the specification '
               'refuses it, the test suite wants it)']
BASES = ['length', 'angle', 'time', 'frequency', 'resolution', 'flex']
HINT = 'percent_hint'


def powers(t):
    return {k: v for k, v in t.items() if k != HINT and v}


def norm(t):
    return None if t is None else (powers(t), t.get(HINT))


def apply(t, hint):
    t = dict(t)
    t.setdefault(hint, 0)
    if 'percent' in t:
        t[hint] += t['percent']
        t['percent'] = 0
    t[HINT] = hint
    return t


def unify(a, b):
    h, k = a.get(HINT), b.get(HINT)
    if h and k and h != k:
        return None
    if h and not k:
        b = apply(b, h)
    elif k and not h:
        a = apply(a, k)
    return a, b


def add(a, b):
    """Normal form of the sum; None: refused; '?': open"""
    if a is None or b is None:
        return None
    u = unify(a, b)
    if u is None:
        return None
    a, b = u
    if powers(a) == powers(b):
        return dict(powers(a), **{HINT: a.get(HINT)})
    keys = set(powers(a)) | set(powers(b))
    if 'percent' not in keys:
        return None
    if keys == {'percent'}:
        return None if powers(a) and powers(b) else '?'
    for h in BASES:
        x, y = apply(a, h), apply(b, h)
        if powers(x) == powers(y):
            return dict(powers(x), **{HINT: h})
    return None


def multiply(a, b):
    if a is None or b is None:
        return None
    u = unify(a, b)
    if u is None:
        return None
    a, b = u
    r = {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b) if k != HINT}
    r[HINT] = a.get(HINT)
    return r


def all_types(thorough):
    """Types over length, angle and percent."""
    out = []
    no = None
    ls = (no, 0, 1, 2) if not thorough else (no, 0, 1, -1, 2)
    for l, a, pc, h in itertools.product(
            ls, (no, 1) if not thorough else (no, 0, 1, -1),
            (no, 0, 1, 2) if thorough else (no, 0, 1, -1),
            (no, 'length', 'angle')):
        if h and (pc or {'length': l, 'angle': a}[h] is no):
            continue
        t = {}
        for k, v in (('length', l), ('angle', a), ('percent', pc),
                     (HINT, h)):
            if v is not no:
                t[k] = v
        out.append(t)
    return out


def make_type(eng, st, p, t):
    ci = p.cls(TX + 'CSSNumericType')
    res = build(eng, st, ci, [], {})
    if len(res) != 1:
        raise AnalysisBroken('construction of CSSNumericType')
    st, o = res[0]
    st.cont[o] = ('dict', tuple((C(k), C(v)) for k, v in t.items()), None)
    return st, o


def name(t):
    return '{%s}' % ', '.join('%s: %s' % x for x in t.items())


def check(ctx):
    p = ctx.p
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=60,
                     on_call=decimals)
    n = pairs(ctx, eng, p) + hints(ctx, eng, p) + values(ctx, eng, p)
    ctx.floor('exits compared', n, 3000)


def pairs(ctx, eng, p):
    n = 0
    ts = all_types(ctx.thorough)
    rows = list(itertools.product(ts, ts))
    for b in BASES + ['percent']:
        for c in BASES + ['percent']:
            for i, j in ((1, 1), (1, 2), (-1, 1)):
                rows.append(({b: i}, {c: j}))
            if b != 'percent' != c:
                rows += [({b: 1, c: 1}, {b: 1, 'percent': 1}),
                         ({b: 1, c: 1, 'percent': 1}, {b: 1, c: 2}),
                         ({b: 1, HINT: b}, {c: 1, HINT: c}),
                         ({b: 1, HINT: b}, {c: 1}),
                         ({b: 1, HINT: b}, {b: 1, 'percent': 1})]
    where = p.cls(TX + 'CSSNumericType').where()
    for a, b in rows:
        for op_, want in (('add_types', add(a, b)),
                          ('multiply_types', multiply(a, b))):
            if want == '?':
                continue
            st = State()
            st, x = make_type(eng, st, p, a)
            st, y = make_type(eng, st, p, b)
            for s, v in static(eng, p, 'CSSNumericType', op_, [x, y], st):
                n += 1
                got = None if v is NONE else entries(eng, s, v)
                ok = v is NONE if want is None else \
                    got is not None and norm(got) == norm(want)
                ok = ok and entries(eng, s, x) == a and \
                    entries(eng, s, y) == b and v is not x and v is not y
                ctx.obl(op_, '%s, %s' % (name(a), name(b)), ok,
                        'is not %s' % (want,), where)
    return n


def hints(ctx, eng, p):
    n = 0
    for a in all_types(False) + [{'time': 1}, {'flex': 1, 'percent': 2}]:
        for h in BASES:
            st, x = make_type(eng, State(), p, a)
            for s, v in static(eng, p, 'CSSNumericType',
                               'apply_percent_hint', [x, C(h)], st):
                n += 1
                got = entries(eng, s, v) if isinstance(v, Obj) else None
                ctx.obl('apply_percent_hint', '%s, %s' % (name(a), h),
                        got is not None and norm(got) == norm(apply(a, h))
                        and v is x, 'is not %s' % apply(a, h),
                        p.cls(TX + 'CSSNumericType').where())
    return n


# argument: text, type
ARGS = {
    'number': {}, 'px': {'length': 1}, 'em': {'length': 1},
    'percent': {'percent': 1}, 'deg': {'angle': 1}, 's': {'time': 1},
    'hz': {'frequency': 1}, 'dpi': {'resolution': 1}, 'fr': {'flex': 1},
    'px*px': {'length': 2}, '1/px': {'length': -1},
    'px+percent': {'length': 1, HINT: 'length'},
    'percent*px': {'percent': 1, 'length': 1},
    '1/(px+percent)': {'length': -1, HINT: 'length'},
}
KIND = {'Sum': add, 'Product': multiply, 'Min': add, 'Max': add}


def new(eng, st, p, cls, args):
    ci = p.cls(TX + cls)
    return eng._outside(lambda: eng.instantiate(ci, list(args), {}, st,
                                                ci.node))


class NoValue(AnalysisBroken):
    pass


def one(res):
    res = [(s, v) for s, v in res if not isinstance(v, Raised)]
    if len(res) != 1:
        raise NoValue('construction of an argument')
    return res[0]


def argument(eng, st, p, a, i=''):
    """A numeric value: units joined by an operator."""
    def unit(st, u):
        return one(new(eng, st, p, 'CSSUnitValue',
                       [num(st, '%s%s' % (u, i)), C(u)]))
    if a == '1/(px+percent)':
        st, v = argument(eng, st, p, 'px+percent', i)
        return one(new(eng, st, p, 'CSSMathInvert', [v]))
    if a == '1/px':
        st, v = unit(st, 'px')
        return one(new(eng, st, p, 'CSSMathInvert', [v]))
    for sign, cls in (('*', 'CSSMathProduct'), ('+', 'CSSMathSum')):
        if sign in a:
            u, w = a.split(sign)
            st, x = unit(st, u)
            st, y = unit(st, w)
            return one(new(eng, st, p, cls, [x, y]))
    return unit(st, a)


def type_of(eng, st, v):
    outs = method_call(eng, st, v, 'type', [])
    if len(outs) != 1 or outs[0].kind != 'return':
        return None
    return entries(eng, outs[0].st, outs[0].value)


def values(ctx, eng, p):
    n = 0
    names = []
    for k in ARGS:
        try:
            st, v = argument(eng, State(), p, k)
        except NoValue:
            ctx.obl('type of', k, False, 'is refused',
                    p.cls(TX + 'CSSMathValue').where())
            continue
        names.append(k)
        got = type_of(eng, st, v)
        n += 1
        ctx.obl('type of', k, got is not None and
                norm(got) == norm(ARGS[k]), 'is %s' % got,
                p.cls(TX + 'CSSMathValue').where())
        for cls, want in (
                ('Negate', ARGS[k]),
                ('Invert', {b: (x if b == HINT else -x)
                            for b, x in ARGS[k].items()})):
            for s, w in new(eng, st.fork(), p, 'CSSMath' + cls, [v]):
                n += 1
                ok = isinstance(w, Obj)
                ok = ok and norm(type_of(eng, s, w)) == norm(want) and \
                    norm(type_of(eng, s, v)) == norm(ARGS[k])
                ctx.obl('type of', '%s %s' % (cls, k), ok,
                        'is not %s' % (want,),
                        p.cls(TX + 'CSSMath' + cls).where())
    triples = [(a, b) for a in names for b in names]
    triples += [(a, b, c) for a in ('px', 'percent', 'number')
                for b in ('px', 'percent', 'deg')
                for c in ('em', 'percent', 's', 'px+percent')
                if c in names]
    triples += [(a,) for a in names]
    for args in triples:
        for cls, f in KIND.items():
            n += one_value(ctx, eng, p, cls, f, args)
        if len(args) == 3:
            n += one_value(ctx, eng, p, 'Clamp', add, args)
    for cls in KIND:
        for s, v in new(eng, State(), p, 'CSSMath' + cls, []):
            n += 1
            ctx.obl('type of', '%s of nothing' % cls, isinstance(v, Raised)
                    and str(v).endswith('ValueError)'), 'is not refused',
                    p.cls(TX + 'CSSMath' + cls).where())
    for cls in ('Sum', 'Product', 'Min', 'Max', 'Negate', 'Invert', 'Clamp'):
        st = State()
        k = 3 if cls == 'Clamp' else 1
        for s, v in new(eng, st, p, 'CSSMath' + cls, [num(st, 'x')] * k):
            for o in eng.read(s, v, 'operator') if isinstance(v, Obj) \
                    else [None]:
                n += 1
                want = eng.read(s, K(p.cls(TX + 'CSSMathOperator')),
                                cls.upper())[0].value
                ctx.obl('operator', cls, o is not None and
                        o.kind == 'return' and o.value is want,
                        'is not %s' % cls.upper(),
                        p.cls(TX + 'CSSMath' + cls).where())
    return n


def one_value(ctx, eng, p, cls, f, args):
    st = State()
    objs = []
    want = ARGS[args[0]]
    for i, a in enumerate(args):
        st, v = argument(eng, st, p, a, i)
        objs.append(v)
        if i and want not in (None, '?'):
            want = f(want, ARGS[a])
    if want == '?':
        return 0
    n = 0
    for s, v in new(eng, st, p, 'CSSMath' + cls, objs):
        n += 1
        if want is None:
            ok = isinstance(v, Raised) and str(v).endswith('ValueError)')
        else:
            ok = isinstance(v, Obj)
            got = type_of(eng, s, v) if ok else None
            ok = got is not None and norm(got) == norm(want)
            ok = ok and all(norm(type_of(eng, s, x)) == norm(ARGS[a])
                            for x, a in zip(objs, args))
        ctx.obl('type of', '%s of %s' % (cls, ', '.join(args)), ok,
                'is not %s' % (want,), p.cls(TX + 'CSSMath' + cls).where())
    return n

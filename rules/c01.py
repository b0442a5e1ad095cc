"""C01: every CSS unit has its type, canonical unit and conversion ratio."""
import math

from sa.algebra import RAD
from ._geo import *
from .p03 import called

EXPLANATION = (
    'CSSNumericType.create_type, UnitType.get_canonical_unit, the '
    'construction of CSSUnitValue, its to, create_sum_value and comparison '
    'operators and the factories of CSS are interpreted for every unit of '
    'CSS Values in lower, upper and mixed case, every pair of units and '
    'unknown numbers. The type must be the base type of the unit with power '
    '1; conversion must multiply the number by the quotient of the sizes of '
    'CSS Values and must be refused exactly between units that have no fixed '
    'ratio; comparison must compare the numbers after conversion. Text that '
    'is no unit must be refused.')
ASSUMPTIONS = ['Decimal and float rounding is not modelled; ratios are '
               'compared to nine digits']
TX = 'svgpy.css.types.'
SIZE = {
    'px': ('length', 1), 'in': ('length', 96), 'cm': ('length', 96 / 2.54),
    'mm': ('length', 96 / 25.4), 'q': ('length', 96 / 101.6),
    'pt': ('length', 96 / 72), 'pc': ('length', 16),
    'deg': ('angle', 1), 'grad': ('angle', .9),
    'rad': ('angle', 180 / math.pi), 'turn': ('angle', 360),
    'ms': ('time', 1), 's': ('time', 1000),
    'hz': ('frequency', 1), 'khz': ('frequency', 1000),
    'dppx': ('resolution', 1), 'dpi': ('resolution', 1 / 96),
    'dpcm': ('resolution', 2.54 / 96),
    'number': (None, 1),
}
CANONICAL = {'length': 'px', 'angle': 'deg', 'time': 'ms',
             'frequency': 'hz', 'resolution': 'dppx', None: 'number'}
BASE = {u: t for u, (t, _) in SIZE.items()}
BASE.update(dict.fromkeys('em ex ch ic rem lh rlh vw vh vi vb vmin '
                          'vmax'.split(), 'length'), fr='flex',
            percent='percent')
UNITS = sorted(BASE)
NO_UNIT = ['', 'foo', 'p', 'pxx', ' px', 'px ', 'percentage', 'length',
           'num', 'unknown', 'xpx', 'none']
VAL, OTHER = 'VALUE', 'OTHER'


def spellings(u):
    return [u, u.upper(), u.title()]


def decimals(eng, fn, args, kw, st, node):
    """Decimal(x) stands for x."""
    if isinstance(fn, ExtV) and fn.name in (
            'decimal.Decimal', 'builtins.float') and len(args) == 1:
        a = args[0]
        if isinstance(a, Const) and isinstance(a.v, str):
            try:
                return [(st, C(float(a.v)))]
            except ValueError:
                return None
        return [(st, a)]
    r = called(fn)
    if r is not None and r[1] == 'normalize' and not args and \
            eng.is_num(st, r[0]):
        return [(st, r[0])]
    return None


def make(eng, st, p, v, unit):
    return eng._outside(lambda: eng.instantiate(
        p.cls(TX + 'CSSUnitValue'), [v, C(unit)], {}, st,
        p.cls(TX + 'CSSUnitValue').node))


def entries(eng, st, v):
    """A type as {name: constant}, or None"""
    c = eng.cont(st, v) if isinstance(v, Obj) else None
    if c is None or c[0] != 'dict' or c[2] is not None:
        return None
    if not all(isinstance(k, Const) and isinstance(x, Const)
               for k, x in c[1]):
        return None
    return {k.v: x.v for k, x in c[1]}


def ratio(st, v, atom):
    """k if v is k times the unknown atom, else None"""
    try:
        d = alg_of(st).poly(v)
        a = alg_of(st).poly(atom)
    except NotNumber:
        return None
    if len(d) != 1 or len(a) != 1:
        return None
    (m, k), (m2, k2) = next(iter(d.items())), next(iter(a.items()))
    for atom, e in m:
        if atom == RAD:
            k = float(k) * (math.pi / 180) ** e
    if tuple(x for x in m if x[0] != RAD) != m2:
        return None
    return float(k) / float(k2)


def close(a, b):
    return a is not None and math.isclose(a, b, rel_tol=1e-9)


def the_unit(eng, st, obj):
    u = component(eng, st, obj, 'unit')
    return u.v if isinstance(u, Const) else None


def check(ctx):
    p = ctx.p
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=60,
                     on_call=decimals)
    n = types(ctx, eng, p) + conversions(ctx, eng, p)
    n += comparisons(ctx, eng, p) + factories(ctx, eng, p)
    ctx.floor('exits compared', n, 2000)


def static(eng, p, cls, name, args, st=None):
    ci = p.cls(TX + cls)
    fi, _ = p.find_member(ci, name)
    st = st or State()
    return eng._outside(lambda: eng.call(F(fi), args, {}, st, ci.node))


def types(ctx, eng, p):
    n = 0
    t = p.cls(TX + 'CSSNumericType')
    u = p.cls(TX + 'UnitType')
    for unit in UNITS:
        want = {BASE[unit]: 1} if BASE[unit] else {}
        can = CANONICAL[BASE[unit]] if unit in SIZE else None
        for sp in spellings(unit):
            for s, v in static(eng, p, 'CSSNumericType', 'create_type',
                               [C(sp)]):
                n += 1
                ctx.obl('type', sp, not isinstance(v, Raised) and
                        entries(eng, s, v) == want, 'is not %s' % want,
                        t.where())
            for s, v in static(eng, p, 'UnitType', 'get_canonical_unit',
                               [C(sp)]):
                n += 1
                ctx.obl('canonical unit', sp, v is C(can),
                        'is not %s' % can, u.where())
            st = State()
            for s, v in make(eng, st, p, num(st, VAL), sp):
                n += 1
                ok = not isinstance(v, Raised)
                if ok:
                    ok = the_unit(eng, s, v) == unit and close(
                        ratio(s, component(eng, s, v, 'value'),
                              num(s, VAL)), 1)
                    for o in method_call(eng, s, v, 'type', []):
                        ok = ok and o.kind == 'return' and entries(
                            eng, o.st, o.value) == want
                ctx.obl('new', sp, ok, 'is not a value of this unit',
                        t.where())
    for text in NO_UNIT:
        for s, v in static(eng, p, 'CSSNumericType', 'create_type',
                           [C(text)]):
            n += 1
            ctx.obl('type', repr(text), isinstance(v, Raised) and
                    exc_of(v) == 'ValueError', 'is not refused', t.where())
        st = State()
        for s, v in make(eng, st, p, num(st, VAL), text):
            n += 1
            ctx.obl('new', repr(text), isinstance(v, Raised) and
                    exc_of(v) == 'ValueError', 'is not refused', t.where())
    return n


def exc_of(v):
    x = v.exc if hasattr(v, 'exc') else None
    t = getattr(x, 'args', [None])
    return str(v).split('.')[-1].rstrip(')')


def conversions(ctx, eng, p):
    n = 0
    cls = p.cls(TX + 'CSSUnitValue')
    for a in UNITS:
        can = CANONICAL[BASE[a]] if a in SIZE else a
        st = State()
        for s, v in make(eng, st, p, num(st, VAL), a):
            if isinstance(v, Raised):
                continue
            for o in method_call(eng, s, v, 'create_sum_value', []):
                n += 1
                ctx.obl('sum value', a, sum_is(
                    eng, o, [(SIZE.get(a, (0, 1))[1], {} if can == 'number'
                              else {can: 1})]),
                    'is not %s %s' % (SIZE.get(a, (0, 1))[1], can),
                    cls.where())
        for b in UNITS:
            fixed = a == b or a in SIZE and b in SIZE and BASE[a] == BASE[b]
            for sp in (b, b.upper()):
                st = State()
                for s, v in make(eng, st, p, num(st, VAL), a):
                    if isinstance(v, Raised):
                        continue
                    for o in method_call(eng, s, v, 'to', [C(sp)]):
                        n += 1
                        ctx.obl('to', '%s to %s' % (a, sp), converted(
                            eng, o, v, a, b, fixed),
                            'is not %s' % (
                                'VALUE * %.10g %s' % (times(a, b), b)
                                if fixed else 'refused'), cls.where())
    return n


def times(a, b):
    return SIZE[a][1] / SIZE[b][1] if a != b else 1


def converted(eng, o, me, a, b, fixed):
    if not fixed:
        return o.kind == 'raise' and exc_name(o) == 'ValueError'
    return o.kind == 'return' and isinstance(o.value, Obj) and \
        o.value is not me and the_unit(eng, o.st, o.value) == b and \
        close(ratio(o.st, component(eng, o.st, o.value, 'value'),
                    num(o.st, VAL)), times(a, b)) and \
        the_unit(eng, o.st, me) == a and close(ratio(
            o.st, component(eng, o.st, me, 'value'), num(o.st, VAL)), 1)


def sum_is(eng, o, want):
    """Is the value returned the sum value [(factor of VALUE, units)]?"""
    if o.kind != 'return':
        return False
    items = sequence(eng, o.st, o.value)
    if items is None or len(items) != len(want):
        return False
    for it, (k, units) in zip(items, want):
        pair = sequence(eng, o.st, it)
        if pair is None or len(pair) != 2 or entries(
                eng, o.st, pair[1]) != units or not close(
                ratio(o.st, pair[0], num(o.st, VAL)), k):
            return False
    return True


def sequence(eng, st, v):
    from ._path import sequence as f
    return f(eng, st, v)


class Order:
    """Sign of VALUE a - OTHER b and outcome of the tolerance test."""

    def __init__(self):
        self.case = None      # (k, sign, close): OTHER b is OTHER * k a

    def __call__(self, eng, st, v):
        if self.case is None or len(v.args) < 2:
            return None
        k, sign, near = self.case
        test = v.op == 'call' and v.args[0] is X('math.isclose')
        if not test and v.op not in ('lt', 'le', 'eq', 'gt', 'ge'):
            return None
        x, y = v.args[1:3] if test else v.args[:2]
        alg = alg_of(st)
        try:
            d = alg.sub(alg.poly(x), alg.poly(y))
        except NotNumber:
            return None
        c = []
        for name in (VAL, OTHER):
            m = next(iter(alg.poly(S('param', name))))
            c.append(factor_of(d, m))
        if len(d) != 2 or None in c or not close(-c[1] / c[0], k):
            return None
        if test:
            return near
        s = sign if c[0] > 0 else -sign
        return {'lt': s < 0, 'le': s <= 0, 'eq': s == 0, 'gt': s > 0,
                'ge': s >= 0}[v.op]


def factor_of(d, m):
    """The coefficient of monomial m in d"""
    for m1, k in d.items():
        k = float(k)
        for atom, e in m1:
            if atom == RAD:
                k *= (math.pi / 180) ** e
        if tuple(x for x in m1 if x[0] != RAD) == m:
            return k
    return None


HOLDS = {'__eq__': lambda s, c: c, '__lt__': lambda s, c: s < 0 and not c,
         '__gt__': lambda s, c: s > 0 and not c,
         '__le__': lambda s, c: s <= 0 or c,
         '__ge__': lambda s, c: s >= 0 or c}
NOTIMPL = X('builtins.NotImplemented')


def comparisons(ctx, eng, p):
    """Exactly one of <, ==, > holds, after conversion."""
    n = 0
    cls = p.cls(TX + 'CSSUnitValue')
    order = Order()
    eng.on_decide = order
    pairs = [(a, b) for a in UNITS for b in UNITS
             if a == b or a in SIZE and b in SIZE and BASE[a] == BASE[b]]
    for a, b in pairs + [('number', None)]:
        st = State()
        x, y = num(st, VAL), num(st, OTHER)
        for s, v in make(eng, st, p, x, a):
            others = [(s, y)] if b is None else make(eng, s, p, y, b)
            for s2, w in others:
                if isinstance(v, Raised) or isinstance(w, Raised):
                    continue
                for name, holds in HOLDS.items():
                    for sign, near in ((-1, False), (-1, True), (0, True),
                                       (1, True), (1, False)):
                        order.case = (1 if b is None else times(b, a), sign,
                                      near)
                        for o in method_call(eng, s2.fork(), v, name, [w]):
                            n += 1
                            ok = o.kind == 'return' and eng.decide(
                                o.st, o.value) is holds(sign, near)
                            ctx.obl('compare', '%s %s %s' % (a, name, b), ok,
                                    'is not that of the sizes', cls.where())
    order.case = None
    for other in (C('1px'), NONE, S('param', 'thing')):
        st = State()
        st.types[S('param', 'thing')] = (p.cls(TX + 'CSSKeywordValue'), True)
        for s, v in make(eng, st, p, num(st, VAL), 'px'):
            for name in HOLDS:
                for o in method_call(eng, s.fork(), v, name, [other]):
                    n += 1
                    ctx.obl('compare', '%s %s' % (name, show(other)),
                            o.kind == 'return' and o.value is NOTIMPL,
                            'is not NotImplemented', cls.where())
    eng.on_decide = None
    return n


NAMES = {u: {'in': 'in_'}.get(u, u) for u in UNITS}


def factories(ctx, eng, p):
    n = 0
    ci = p.cls('svgpy.css.CSS')
    for unit, name in NAMES.items():
        fi, _ = p.find_member(ci, name)
        if not isinstance(fi, FuncInfo):
            ctx.bad('factory', unit, 'CSS.%s is missing' % name, ci.where())
            continue
        st = State()
        for s, v in eng._outside(lambda: eng.call(
                F(fi), [num(st, VAL)], {}, st, ci.node)):
            n += 1
            ctx.obl('factory', unit, isinstance(v, Obj) and
                    the_unit(eng, s, v) == unit and close(ratio(
                        s, component(eng, s, v, 'value'), num(s, VAL)), 1),
                    'is not the given number of %s' % unit, fi.where())
    return n

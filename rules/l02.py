"""L02: arithmetic and comparison of lengths."""
from .l01 import *
from .l01 import size_of, default_size, make
from sa.values import FnV  # noqa: F401

EXPLANATION = (
    'Lengths of unknown numbers in pairs of units, without an element and '
    'with one, are combined with every operator. Sum and difference, '
    'products with numbers, negation and absolute value must have the '
    'algebraic value, in every unit they are read in (so the element and '
    'percentage direction are kept), in the unit of the left operand (of the '
    'right one when the left has none); in-place operators return the '
    'receiver, the others a new length, with the operands as before. '
    'Comparisons are interpreted for every outcome of the tolerance test '
    'and every order of the two values: exactly one of <, ==, > holds, with '
    '<= and >= following from them. Other operands give NotImplemented.')
ASSUMPTIONS = ['Decimal and float rounding is not modelled',
               'math.isclose is the tolerance test']
NOTIMPL = X('builtins.NotImplemented')
PAIRS = [(a, b) for a in (None, 'px', 'cm', 'em', '%', 'vmin')
         for b in (None, 'mm', '%', 'em', 'ex')] + [
    ('dpi', 'dppx'), ('dppx', 'dpcm'), ('', 'in')]


class Compare:
    """Order of two values and outcome of the tolerance test."""

    def __init__(self):
        self.case = None      # (a, b, sign of a - b, close)

    def __call__(self, eng, st, v):
        if self.case is None:
            return None
        a, b, sign, close = self.case
        if v.op == 'call' and v.args[0] is X('math.isclose'):
            alg = Algebra()
            try:
                d = alg.sub(alg.poly(v.args[1]), alg.poly(v.args[2]))
                e = alg.sub(alg.poly(a), alg.poly(b))
            except NotNumber:
                return None
            return close if alg.ratio(d, e) or self.factor(alg, d, e) \
                else None
        if v.op in ('lt', 'le', 'eq', 'gt', 'ge'):
            alg = Algebra()
            try:
                d = alg.sub(alg.poly(v.args[0]), alg.poly(v.args[1]))
                e = alg.sub(alg.poly(a), alg.poly(b))
                k = alg.ratio(d, e)
            except NotNumber:
                return None
            if k is None and not (len(d) == len(e) == 2):
                return None
            if k is None:
                # a common positive factor (a unit size)
                k = self.factor(alg, d, e)
                if k is None:
                    return None
            s = sign * (1 if k > 0 else -1)
            return {'lt': s < 0, 'le': s <= 0, 'eq': s == 0, 'gt': s > 0,
                    'ge': s >= 0}[v.op]
        return None

    @staticmethod
    def factor(alg, d, e):
        """Sign of a monomial m with d = m*e."""
        for m1, c1 in d.items():
            for m2, c2 in e.items():
                q = alg.mul(e, alg.mul({m1: c1}, {tuple(
                    (x, -n) for x, n in m2): 1 / c2}))
                if q == d:
                    return c1 / c2
        return None


def check(ctx):
    p = ctx.p
    cls = p.cls(CX + 'SVGLength')
    default = default_size(ctx)
    h = Context(p)
    cmp = Compare()
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=4, on_call=h,
                     on_decide=cmp)
    n = 0
    for s in SETTINGS[:2]:
        h.parent, h.box = s.parent, s.box
        for ua, ub in PAIRS:
            if ub == 'ex' and s.ctx is not NONE:
                continue
            for d in (None, H) if '%' in (ua, ub) else (None,):
                st = State()
                x, y = num(st, 'x'), num(st, 'y')
                for st, a in make(eng, st, cls, x, ua, s, d):
                    for st2, b in make(eng, st, cls, y, ub, s, d):
                        n += sums(ctx, eng, cls, st2, a, b, x, y, ua, ub, d,
                                  s, default)
                        n += orders(ctx, eng, cls, cmp, st2, a, b, x, y, ua,
                                    ub, d, s, default)
            if ub is None:
                for d in (None, H) if ua == '%' else (None,):
                    n += unary(ctx, eng, cls, ua, d, s, default)
    n += others(ctx, eng, h, cls)
    ctx.floor('exits compared', n, 800)


def reads(ua):
    return ['dppx', 'dpi'] if ua in RES else ['px', ua, 'cm', 'em']


def value_is(ctx, eng, rule, lab, o, obj, want, unit, d, s, default, fi):
    """The length obj is `want` pixels (dpi)."""
    u = component(eng, o.st, obj, 'unit')
    ctx.obl(rule, lab + ', unit', u is C(unit or None),
            'is %s' % show(u), fi.where())
    for to in reads(unit):
        for o2 in method_call(eng, o.st.fork(), obj, 'value', [C(to)]):
            alg = alg_of(o2.st)
            if o2.kind == 'raise':
                ctx.bad(rule, lab, 'has no value', fi.where())
                continue
            w = op('/', want(alg), size_of(to, d, s, default, alg))
            try:
                same = alg.equal(o2.value, w)
            except NotNumber:
                same = False
            ctx.obl(rule, lab + ', in %s' % to, same,
                    'is %s' % show(o2.value), fi.where())


def same_length(ctx, eng, rule, lab, o, obj, n, unit, fi):
    """An operand is as it was."""
    u = component(eng, o.st, obj, 'unit')
    vals = method_call(eng, o.st.fork(), obj, 'value', [C(unit)])
    ctx.obl(rule, lab + ' operand', u is C(unit or None) and bool(vals)
            and all(v.kind == 'return' and alg_of(v.st).equal(v.value, n)
                    for v in vals), 'changed', fi.where())


def sums(ctx, eng, cls, st, a, b, x, y, ua, ub, d, s, default):
    n = 0
    for name, sign, inplace in (('__add__', '+', False),
                                ('__sub__', '-', False),
                                ('__iadd__', '+', True),
                                ('__isub__', '-', True)):
        fi, _ = ctx.p.find_member(cls, name)
        lab = '%s %s%s %s, %s, direction %s' % (
            ua, sign, '=' * inplace, ub, s.label, d)
        unit = ua if ua is not None else ub
        for o in method_call(eng, st.fork(), a, name, [b]):
            n += 1
            if o.kind == 'raise':
                ctx.bad('sum', lab, 'raises %s' % exc_name(o), fi.where())
                continue
            r = o.value
            ctx.obl('sum', lab, isinstance(r, Obj) and (r is a) == inplace
                    and r is not b, 'gives %s' % show(r), fi.where())
            if not isinstance(r, Obj):
                continue

            def want(alg):
                return op(sign, times(x, size_of(ua, d, s, default, alg)),
                          times(y, size_of(ub, d, s, default, alg)))
            if ua is None and unit:
                unit_ = component(eng, o.st, r, 'unit')
                ctx.obl('sum', lab, unit_ is C(unit), 'is in %s' % show(
                    unit_), fi.where())
            value_is(ctx, eng, 'sum', lab, o, r, want, unit, d, s, default,
                     fi)
            same_length(ctx, eng, 'sum', lab, o, b, y, ub, fi)
            if not inplace:
                same_length(ctx, eng, 'sum', lab, o, a, x, ua, fi)
    return n


def unary(ctx, eng, cls, ua, d, s, default):
    n = 0
    st = State()
    x, k = num(st, 'x'), num(st, 'k')
    absolute = S('call', X('builtins.abs'), x)
    for st, a in make(eng, st, cls, x, ua, s, d):
        for name, args, val, inplace in (
                ('__neg__', [], S('neg', x), False), ('__pos__', [], x, False),
                ('__abs__', [], absolute, False),
                ('__mul__', [k], times(x, k), False),
                ('__rmul__', [k], times(x, k), False),
                ('__mul__', [C(2)], times(2, x), False),
                ('__truediv__', [k], op('/', x, k), False),
                ('__truediv__', [C(4)], op('/', x, C(4)), False),
                ('__imul__', [k], times(x, k), True),
                ('__itruediv__', [k], op('/', x, k), True)):
            fi, _ = ctx.p.find_member(cls, name)
            lab = '%s of %s, %s, direction %s' % (name, ua, s.label, d)
            for o in method_call(eng, st.fork(), a, name, list(args)):
                n += 1
                r = o.value
                if o.kind == 'raise' or not isinstance(r, Obj) or \
                        (r is a) != inplace:
                    ctx.bad('scale', lab, 'gives %s' % show(r)
                            if o.kind != 'raise' else 'raises', fi.where())
                    continue
                value_is(ctx, eng, 'scale', lab, o, r, lambda alg: times(
                    val, size_of(ua, d, s, default, alg)), ua, d, s, default,
                    fi)
                if not inplace:
                    same_length(ctx, eng, 'scale', lab, o, a, x, ua, fi)
    return n


def orders(ctx, eng, cls, cmp, st, a, b, x, y, ua, ub, d, s, default):
    n = 0
    alg = Algebra()
    sa, sb = [size_of(u, d, s, default, alg) for u in (ua, ub)]
    for sign in (-1, 0, 1):
        for close in (True, False):
            if sign == 0 and not close:
                continue
            for name, want in (('__eq__', close),
                               ('__lt__', not close and sign < 0),
                               ('__gt__', not close and sign > 0),
                               ('__le__', close or sign < 0),
                               ('__ge__', close or sign > 0)):
                fi, _ = ctx.p.find_member(cls, name)
                lab = '%s %s %s, %s' % (ua, name, ub, s.label)
                cmp.case = (times(x, sa), times(y, sb), sign, close)
                for o in method_call(eng, st.fork(), a, name, [b]):
                    n += 1
                    got = eng.decide(o.st, o.value) if o.kind == 'return' \
                        else None
                    ctx.obl('order', lab, got is want,
                            'is %s for %s, tolerance test %s' % (
                                show(o.value) if got is None and
                                o.kind == 'return' else got,
                                {-1: 'a smaller', 0: 'an equal',
                                 1: 'a greater'}[sign] + ' value', close),
                            fi.where())
                cmp.case = None
    return n


def others(ctx, eng, h, cls):
    n = 0
    names = ['__add__', '__sub__', '__iadd__', '__isub__', '__mul__',
             '__truediv__', '__imul__', '__itruediv__', '__eq__', '__lt__',
             '__le__', '__gt__', '__ge__']
    st0 = State()
    x = num(st0, 'x')
    for st, a in make(eng, st0, cls, x, 'px', SETTINGS[0], None):
        for name in names:
            fi, _ = ctx.p.find_member(cls, name)
            for arg in (C('1px'), NONE):
                for o in method_call(eng, st.fork(), a, name, [arg]):
                    n += 1
                    ctx.obl('operand', '%s %s' % (name, show(arg)),
                            o.kind == 'return' and o.value is NOTIMPL,
                            'is accepted', fi.where())
                    same_length(ctx, eng, 'operand', name, o, a, x, 'px', fi)
    return n

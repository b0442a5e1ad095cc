"""V01: the viewport transformation is the SVG equivalent transform."""
from ._path import *
from .l01 import Context, const, ABS
from .v02 import written

EXPLANATION = (
    'SVGGraphicsElement.get_viewport_transformation_matrix is interpreted '
    'for a viewport at an unknown position with an unknown size, with and '
    'without a view box of unknown numbers, for every align value (also the '
    'unknown one), meet, slice and unknown, every order of the two scale '
    'factors and with lengths in equal and in mixed units. The 6 components '
    'of the result are compared, as polynomials, with the "equivalent '
    'transform of an SVG viewport" of SVG 2.')
ASSUMPTIONS = ['sizes of the viewport and the view box are positive',
               'floating point rounding is not modelled',
               'the sizes themselves are rule V03\'s']
BX = 'svgpy.base.'
MYSELF = S('param', 'self')
NAMES8 = ['ex', 'ey', 'ew', 'eh', 'vbx', 'vby', 'vbw', 'vbh']
ALIGNS = [(0, 0.5, 0.5), (1, None, None), (2, 0, 0), (3, 0.5, 0), (4, 1, 0),
          (5, 0, 0.5), (6, 0.5, 0.5), (7, 1, 0.5), (8, 0, 1), (9, 0.5, 1),
          (10, 1, 1)]
MIXED = {'ex': 'px', 'ey': 'cm', 'ew': 'cm', 'eh': 'in', 'vbx': None,
         'vby': None, 'vbw': None, 'vbh': None}


class View(Context):
    """get_viewport_size and get_view_box of the element."""

    def __init__(self, p, cls):
        super().__init__(p)
        self.size, _ = p.find_member(cls, 'get_viewport_size')
        self.vb, _ = p.find_member(cls, 'get_view_box')
        self.answer = self.box_answer = None
        self.recursive, self.sizes = [], []

    def __call__(self, eng, fn, args, kw, st, node):
        fi = getattr(fn, 'fi', None)
        if fi is self.size:
            self.sizes.append(args[0] if args else kw.get('recursive', TRUE))
            return [(st, self.answer)]
        if fi is self.vb:
            self.recursive.append(args[0] if args else kw.get('recursive',
                                                              TRUE))
            return [(st, self.box_answer)]
        return super().__call__(eng, fn, args, kw, st, node)


def numbers(rel):
    """The sizes in pixels, the two scale factors and what is known of
    them: the viewport is as large as the view box times a factor."""
    P = {k: S('param', k) for k in NAMES8 + ['rx', 'ry']}
    rx, ry = P['rx'], P['rx' if rel == '=' else 'ry']
    P['ew'], P['eh'] = times(P['vbw'], rx), times(P['vbh'], ry)
    rank = {'<': (1, 2), '=': (1, 1), '>': (2, 1)}[rel]
    order = Order([(C(0), 0), (rx, rank[0]), (ry, rank[1])])
    area = times(P['vbw'], P['vbh'])
    more = [(P['vbw'], 1), (P['vbh'], 1)]
    if rel != '=':
        more.append((times(area, minus(rx, ry)), 1 if rel == '>' else -1))
    for t, sign in more:
        order.alg.signs.append((order.alg.poly(t), sign))
    order.alg.cache.clear()
    return P, rx, ry, order


def check(ctx):
    p = ctx.p
    cls = p.cls(BX + 'SVGGraphicsElement')
    length = p.cls('svgpy.core.SVGLength')
    par = p.cls(BX + 'SVGPreserveAspectRatio')
    h = View(p, cls)
    fi, _ = p.find_member(cls, 'get_viewport_transformation_matrix')
    n = 0
    for units in (dict.fromkeys(NAMES8), MIXED):
        ulab = 'mixed units' if units is MIXED else 'user units'
        for rel in '<=>':
            px_, rx, ry, order = numbers(rel)
            eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=10,
                             on_call=h, on_decide=order)
            for align, fx, fy in ALIGNS:
                for mos in (0, 1, 2):
                    if units is MIXED and mos == 0:
                        continue
                    big = (rel == '<') == (mos == 2)
                    sx, sy = rx, ry
                    if fx is not None:
                        sx = sy = (ry if big else rx)
                    tx = minus(px_['ex'], times(px_['vbx'], sx))
                    ty = minus(px_['ey'], times(px_['vby'], sy))
                    if fx:
                        tx = plus(tx, times(C(fx), minus(
                            px_['ew'], times(px_['vbw'], sx))))
                    if fy:
                        ty = plus(ty, times(C(fy), minus(
                            px_['eh'], times(px_['vbh'], sy))))
                    want = factor(m11=sx, m22=sy, m41=tx, m42=ty)
                    lab = 'align %d, meetOrSlice %d, %s, width ratio %s ' \
                        'height ratio' % (align, mos, ulab, rel)
                    n += one_case(ctx, eng, h, fi, cls, length, par, units, px_,
                                  (align, mos), want, lab)
        # no view box: only the position counts
        eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=10,
                         on_call=h)
        n += one_case(ctx, eng, h, fi, cls, length, par, units, px_, None,
                      factor(m41=px_['ex'], m42=px_['ey']),
                      'no view box, %s' % ulab)
    n += ownership(ctx, h, fi, cls, length)
    ctx.floor('matrices compared', n, 150)


def setting(eng, h, cls, length, par, units, px_, ratio):
    st = State()
    st.types[MYSELF] = (cls, False)
    vals = {}
    for k in NAMES8:
        v = px_[k]
        if units[k] is not None:
            v = op('/', v, const(ABS[units[k]]))
        st.types[v] = (ExtClass('builtins.float'), True)
        st.facts[S('is', v, NONE)] = False
        args = [v] + ([C(units[k])] if units[k] is not None else [])
        res = build(eng, st, length, args, {})
        if len(res) != 1:
            raise AnalysisBroken('construction of a length')
        st, vals[k] = res[0]
    h.answer = T([vals[k] for k in NAMES8[:4]])
    if ratio is None:
        h.box_answer = NONE
    else:
        res = build(eng, st, par, [], {})
        if len(res) != 1:
            raise AnalysisBroken('construction of preserveAspectRatio')
        st, a = res[0]
        for name, v in zip(('align', 'meet_or_slice'), ratio):
            st = written(eng, st, a, name, C(v))
            if component(eng, st, a, name) is not C(v):
                raise AnalysisBroken('setting of ' + name)
        h.box_answer = T([vals[k] for k in NAMES8[4:]] + [a])
    return st


def one_case(ctx, eng, h, fi, cls, length, par, units, px_, ratio, want,
             lab):
    st = setting(eng, h, cls, length, par, units, px_, ratio)
    n = 0
    outs = method_call(eng, st, MYSELF, fi.name, [], {'recursive': FALSE})
    for o in outs:
        n += 1
        if o.kind == 'raise':
            ctx.obl('matrix', lab, False, 'raises %s' % exc_name(o),
                    fi.where())
            continue
        got = components(eng, o.st, o.value) if isinstance(o.value, Obj) \
            else {}
        bad = differ(alg_of(o.st), got, want)
        ctx.obl('matrix', lab, not bad, 'components %s are not those of the '
                'equivalent transform' % bad[:4], fi.where())
    if not outs:
        ctx.obl('matrix', lab, False, 'no exit', fi.where())
    return n


def ownership(ctx, h, fi, cls, length):
    """The view box of an ancestor counts only when it is asked for."""
    eng = ctx.engine(mixins=True, keep_facts=True, on_call=h)
    n = 0
    for r in (TRUE, FALSE):
        st = setting(eng, h, cls, length, None, dict.fromkeys(NAMES8),
                     numbers('<')[0], None)
        h.recursive.clear()
        h.sizes.clear()
        method_call(eng, st, MYSELF, fi.name, [], {'recursive': r})
        n += 1
        ctx.obl('ownership', 'recursive=%s' % r.v,
                h.recursive == [r] or (r is TRUE and not h.recursive),
                'does not look for the view box this way', fi.where())
        ctx.obl('ownership', 'viewport size, recursive=%s' % r.v,
                set(h.sizes) <= {TRUE}, 'the size of the viewport is not '
                'that within its ancestors', fi.where())
    return n

"""G05: rectangle edges, union, intersection and transformation."""
from ._geo import *

EXPLANATION = (
    'Rectangles with unknown position and size are built; edges, coordinate '
    'tuples and the effect of every in-place operation are compared, as '
    'polynomials, with their definition. contains, unite, intersect and '
    'normalize only compare edges, so they are interpreted once for every '
    'weak ordering of the edges of the two rectangles on each axis (an '
    'exhaustive finite domain), with the order deciding comparisons; the '
    'result must have the minimum and maximum edges that ordering gives. '
    'transform is compared with the bounding box of the four mapped '
    'corners.')
ASSUMPTIONS = ['floating point rounding is not modelled',
               'DOMRect.intersect leaves a rectangle that does not overlap '
               'the other one unchanged (the tests fix that)']

RECT = ('x', 'y', 'width', 'height')


def make(eng, cls, pre='', st=None):
    st = st or State()
    vals = [num(st, pre + k) for k in RECT]
    res = build(eng, st, cls, vals, {})
    if len(res) != 1:
        raise AnalysisBroken('construction of ' + cls.name)
    return res[0][0], res[0][1], dict(zip(RECT, vals))


def edges(v):
    return {'left': v['x'], 'top': v['y'], 'right': plus(v['x'], v['width']),
            'bottom': plus(v['y'], v['height'])}


def after(eng, st, obj):
    return {k: component(eng, st, obj, k) for k in RECT}


def expect(ctx, eng, rule, name, outs, obj, want, where, same=None):
    n = 0
    if not outs:
        ctx.bad(rule, name, 'has no exit', where)
    for o in outs:
        n += 1
        if o.kind == 'raise':
            ctx.bad(rule, name, 'raises %s' % exc_name(o), where)
            continue
        got = after(eng, o.st, obj)
        eq = same or alg_of(o.st).equal
        bad = [k for k in RECT if got[k] is None or not (
            got[k] is want[k] or eq(got[k], want[k]))]
        ctx.obl(rule, name, not bad, '%s is %s' % (bad[:1], show(
            got[bad[0]]) if bad and got[bad[0]] is not None else ''), where)
    return n


def box(lx, ty, rx, by):
    return {'x': lx, 'y': ty, 'width': minus(rx, lx),
            'height': minus(by, ty)}


def pick(order, f, a, b):
    """min/max of two terms under the order."""
    lt = order(None, None, S('lt', a, b))
    if f == 'min':
        return a if lt else b
    return b if lt else a


def check(ctx):
    p = ctx.p
    ro, rw = p.cls(RX + 'DOMRectReadOnly'), p.cls(RX + 'DOMRect')
    eng = ctx.engine(max_states=6000)
    n = 0
    # edges and tuples
    for cls in (ro, rw):
        st, r, v = make(eng, cls)
        w = cls.where()
        alg = alg_of(st)
        e = edges(v)
        for k in RECT:
            x = component(eng, st, r, k)
            ctx.obl('edge', '%s.%s' % (cls.name, k), x is not None
                    and alg.equal(x, v[k]), 'wrong value', w)
        for k in e:
            x = component(eng, st, r, k)
            ctx.obl('edge', '%s.%s' % (cls.name, k), x is not None
                    and alg.equal(x, e[k]), 'wrong value', w)
        for meth, want in (
                ('get_coords', [e['left'], e['top'], e['right'],
                                e['bottom']]),
                ('get_rect', [v[k] for k in RECT]),
                ('get_size', [v['width'], v['height']])):
            for o in method_call(eng, st.fork(), r, meth, []):
                its = eng.known_items(o.st, o.value) \
                    if o.kind == 'return' else None
                ctx.obl('edge', '%s.%s' % (cls.name, meth),
                        its is not None and len(its) == len(want) and all(
                            alg.equal(a, b) for a, b in zip(its, want)),
                        'gives %s' % show(o.value), w)
                n += 1
        for o in method_call(eng, st.fork(), r, 'tojson', []):
            c = eng.cont(o.st, o.value) if o.kind == 'return' and isinstance(
                o.value, Obj) else None
            d = {k.v: x for k, x in c[1] if isinstance(k, Const)} \
                if c is not None else {}
            ctx.obl('edge', cls.name + '.tojson', all(
                k in d and alg.equal(d[k], v[k]) for k in RECT),
                'wrong contents', w)
        # without a position
        res = build(eng, State(), cls, [], {})
        for s, r0 in res:
            bad = [k for k in ('x', 'y', 'left', 'top', 'right', 'bottom')
                   if component(eng, s, r0, k) is not NONE]
            bad += [k for k in ('width', 'height') if not alg.is_const(
                component(eng, s, r0, k), 0)]
            ctx.obl('edge', cls.name + '()', not bad, '%s' % bad, w)
        for k in RECT:
            m, _ = p.find_member(cls, k)
            ok = isinstance(m, PropInfo) and (
                (m.setter is None) == (cls is ro))
            ctx.obl('setter', '%s.%s' % (cls.name, k), ok,
                    'can be assigned' if cls is ro else 'cannot be assigned',
                    w)
            if cls is rw and ok:
                s = st.fork()
                nv = num(s, 'v')
                n += expect(ctx, eng, 'setter', 'DOMRect.%s=' % k,
                            eng.call_fn(F(m.setter, r), [nv], {}, s), r,
                            dict(v, **{k: nv}), m.setter.where())
        # validity on every sign of the sizes
        for sx in (-1, 0, 1):
            for sy in (-1, 0, 1):
                for pos in (True, False):
                    st, r, v = make(eng, cls)
                    if not pos:
                        res = build(eng, st, cls, [
                            NONE, NONE, v['width'], v['height']], {})
                        st, r = res[0]
                    eng.on_decide = Order(
                        [(v['width'], sx), (C(0), 0)],
                        [(v['height'], sy), (C(0), 0)])
                    good = sx > 0 and sy > 0 and pos
                    for meth, want in (('isvalid', good),
                                       ('isempty', not good)):
                        for o in method_call(eng, st.fork(), r, meth, []):
                            ctx.obl('validity', '%s.%s' % (cls.name, meth),
                                    o.kind == 'return' and eng.decide(
                                        o.st, o.value) is want,
                                    'not %s with width%s0, height%s0%s' % (
                                        want, '<=>'[sx + 1], '<=>'[sy + 1],
                                        '' if pos else ', no position'), w)
                            n += 1
                    eng.on_decide = None
    # in-place operations
    P = [S('param', 'p%d' % i) for i in range(4)]
    a, b, c, d = P

    def call(meth, args, want, rule='operation', order=None, label=''):
        st, r, v = make(eng, rw)
        for x in args:
            if isinstance(x, Sym):
                num(st, x.args[0])
        fi, _ = p.find_member(rw, meth)
        if not isinstance(fi, FuncInfo):
            ctx.bad(rule, 'DOMRect.' + meth, 'is missing', rw.where())
            return 0
        eng.on_decide = order
        outs = method_call(eng, st, r, meth, args)
        k = expect(ctx, eng, rule, 'DOMRect.' + meth + label, outs, r,
                   want(v), fi.where(),
                   None if order is None else order.equal)
        eng.on_decide = None
        return k

    n += call('move_to', [a, b], lambda v: dict(v, x=a, y=b))
    n += call('set_coords', [a, b, c, d], lambda v: box(a, b, c, d))
    n += call('set_rect', [a, b, c, d], lambda v: dict(
        zip(RECT, (a, b, c, d))))
    n += call('set_size', [a, b], lambda v: dict(v, width=a, height=b))
    n += call('translate_self', [a, b], lambda v: dict(
        v, x=plus(v['x'], a), y=plus(v['y'], b)))
    n += call('transpose_self', [], lambda v: dict(
        v, width=v['height'], height=v['width']))
    wd, ht = S('param', 'width'), S('param', 'height')
    for sx in (-1, 0, 1):
        for sy in (-1, 0, 1):
            ordr = Order([(wd, sx), (C(0), 0)], [(ht, sy), (C(0), 0)])
            valid = sx > 0 and sy > 0

            def adj(v):
                e = edges(v)
                return box(plus(e['left'], a), plus(e['top'], b),
                           plus(e['right'], c), plus(e['bottom'], d)) \
                    if valid else v
            n += call('adjust_self', P, adj, 'operation', ordr,
                      '' if valid else ' on an empty rectangle')
            # normalize
            for cls in (ro, rw):
                st, r, v = make(eng, cls)
                fi, _ = p.find_member(cls, 'normalize')
                e = edges(v)
                want = {
                    'x': e['right'] if sx < 0 else e['left'],
                    'y': e['bottom'] if sy < 0 else e['top'],
                    'width': S('neg', wd) if sx < 0 else wd,
                    'height': S('neg', ht) if sy < 0 else ht}
                eng.on_decide = ordr
                for o in method_call(eng, st, r, 'normalize', []):
                    n += 1
                    if o.kind == 'raise' or not isinstance(o.value, Obj):
                        ctx.bad('normalize', cls.name, 'no result',
                                fi.where())
                        continue
                    got = after(eng, o.st, o.value)
                    bad = [k for k in RECT if got[k] is None or
                           not ordr.equal(got[k], want[k])]
                    ctx.obl('normalize', cls.name, not bad, '%s with '
                            'width%s0, height%s0' % (
                                bad, '<=>'[sx + 1], '<=>'[sy + 1]),
                            fi.where())
                eng.on_decide = None
    # two rectangles in every relative position
    orders = list(interval_orders())
    fi_i, _ = p.find_member(rw, 'intersect_self')
    fi_u, _ = p.find_member(rw, 'unite_self')
    fi_c, _ = p.find_member(ro, 'contains')
    for rx in orders:
        for ry in orders:
            order = pair_order(rx, ry)
            st, r, v = make(eng, rw)
            st, r2, v2 = make(eng, ro, 'o', st)
            e, e2 = edges(v), edges(v2)
            eng.on_decide = order
            over = rx[0] < rx[3] and rx[2] < rx[1] and ry[0] < ry[3] and \
                ry[2] < ry[1]
            lab = position(rx, ry)

            def bound(f, g):
                return box(pick(order, f, e['left'], e2['left']),
                           pick(order, f, e['top'], e2['top']),
                           pick(order, g, e['right'], e2['right']),
                           pick(order, g, e['bottom'], e2['bottom']))
            n += expect(ctx, eng, 'intersection', lab, method_call(
                eng, st.fork(), r, 'intersect_self', [r2]), r,
                bound('max', 'min') if over else v, fi_i.where(),
                order.equal)
            n += expect(ctx, eng, 'union', lab, method_call(
                eng, st.fork(), r, 'unite_self', [v2[k] for k in RECT]), r,
                bound('min', 'max'), fi_u.where(), order.equal)
            inside = rx[0] <= rx[2] and rx[3] <= rx[1] and \
                ry[0] <= ry[2] and ry[3] <= ry[1]
            for o in method_call(eng, st.fork(), r, 'contains',
                                 [v2[k] for k in RECT]):
                n += 1
                ctx.obl('contains', 'rectangle ' + lab, o.kind == 'return'
                        and eng.decide(o.st, o.value) is inside,
                        'not %s' % inside, fi_c.where())
            eng.on_decide = None
    # rectangles without width or height
    flat_ = [r for r in interval_orders(False, False)
             if r[0] <= r[1] and r[2] <= r[3]]
    for rx in flat_:
        for ry in flat_:
            if rx in orders and ry in orders or not (
                    ctx.thorough or rx in orders or ry in orders):
                continue
            order = pair_order(rx, ry)
            st, r, v = make(eng, rw)
            st, r2, v2 = make(eng, ro, 'o', st)
            e, e2 = edges(v), edges(v2)
            eng.on_decide = order
            n += expect(ctx, eng, 'union', 'of ' + position(rx, ry),
                        method_call(eng, st.fork(), r, 'unite_self',
                                    [v2[k] for k in RECT]), r,
                        box(pick(order, 'min', e['left'], e2['left']),
                            pick(order, 'min', e['top'], e2['top']),
                            pick(order, 'max', e['right'], e2['right']),
                            pick(order, 'max', e['bottom'], e2['bottom'])),
                        fi_u.where(), order.equal)
            eng.on_decide = None
    # points
    X1, Y1 = S('param', 'x'), S('param', 'y')
    for rx in weak_orders(3):
        for ry in weak_orders(3):
            if rx[0] >= rx[1] or ry[0] >= ry[1]:
                continue
            order = Order(list(zip((X1, plus(X1, wd), a), rx)),
                          list(zip((Y1, plus(Y1, ht), b), ry)))
            st, r, v = make(eng, rw)
            num(st, 'p0')
            num(st, 'p1')
            e = edges(v)
            eng.on_decide = order
            inside = rx[0] <= rx[2] <= rx[1] and ry[0] <= ry[2] <= ry[1]
            lab = 'point %s' % position(rx, ry)
            for o in method_call(eng, st.fork(), r, 'contains', [a, b]):
                n += 1
                ctx.obl('contains', lab, o.kind == 'return' and eng.decide(
                    o.st, o.value) is inside, 'not %s' % inside,
                    fi_c.where())
            n += expect(ctx, eng, 'union', lab, method_call(
                eng, st.fork(), r, 'unite_self', [a, b]), r, box(
                    pick(order, 'min', e['left'], a),
                    pick(order, 'min', e['top'], b),
                    pick(order, 'max', e['right'], a),
                    pick(order, 'max', e['bottom'], b)), fi_u.where(),
                order.equal)
            eng.on_decide = None
    # an empty receiver takes over the other rectangle, contains nothing
    for sw, sh, (s, r) in [(a_, b_, x) for a_ in (0, 1) for b_ in (0, 1)
                           for x in build(eng, State(), rw, [], {})]:
        one = Order([(S('param', 'owidth'), sw), (C(0), 0)],
                    [(S('param', 'oheight'), sh), (C(0), 0)])
        s, r2, v2 = make(eng, ro, 'o', s)
        eng.on_decide = one
        n += expect(ctx, eng, 'union', 'with a rectangle without position',
                    method_call(eng, s.fork(), r, 'unite_self',
                                [v2[k] for k in RECT]), r, v2, fi_u.where(),
                    one.equal)
        for o in method_call(eng, s.fork(), r, 'contains',
                             [v2[k] for k in RECT]):
            ctx.obl('contains', 'in a rectangle without position',
                    o.kind == 'return' and eng.decide(
                        o.st, o.value) is False, 'not False', fi_c.where())
        eng.on_decide = None
    # transformation
    fi, _ = p.find_member(rw, 'transform_self')
    mcls = p.cls(MX + 'DOMMatrix')
    for flat, sw, sh in [(f, a, b) for f in (True, False)
                         for a in (1, 0) for b in (1, 0)]:
        pos = Order([(wd, sw), (C(0), 0)], [(ht, sh), (C(0), 0)])
        lab = 'by a %s matrix' % ('2-D' if flat else '3-D')
        if not sw or not sh:
            lab += ', no ' + ' and no '.join(
                q for q, z in (('width', sw), ('height', sh)) if not z)
        st, r, v = make(eng, rw)
        st, m, mv = matrix(eng, mcls, flat, 'm', st)
        e = edges(v)

        def image(x, y, row):
            acc = mv['m4%d' % row]
            for k, t in ((1, x), (2, y)):
                acc = plus(acc, S('op', '*', mv['m%d%d' % (k, row)], t))
            return acc
        pts = [(e[a], e[b]) for a in ('left', 'right')
               for b in ('top', 'bottom')]
        ext = {}
        for row in (1, 2):
            q = [image(x, y, row) for x, y in pts]
            ext[row] = (S('call', X('builtins.min'), *q),
                        S('call', X('builtins.max'), *q))
        want = box(ext[1][0], ext[2][0], ext[1][1], ext[2][1])
        eng.on_decide = pos
        n += expect(ctx, eng, 'transform', lab, method_call(
            eng, st, r, 'transform_self', [m]), r, want, fi.where(),
            None if sw and sh else pos.equal)
        eng.on_decide = None
    ctx.floor('exits examined', n, 300)


def position(rx, ry):
    names = ('l', 'r', 'L', 'R') if len(rx) == 4 else ('l', 'r', 'p')

    def word(r):
        out = []
        for k in range(max(r) + 1):
            out.append('='.join(n for n, q in zip(names, r) if q == k))
        return '<'.join(out)
    return 'x:%s y:%s' % (word(rx), word(ry))

"""G01: read-only geometry operations give what the in-place ones do."""
from .g04 import cases
from ._geo import *

EXPLANATION = (
    'Self-composition: every operation of DOMMatrixReadOnly and '
    'DOMRectReadOnly that has an in-place counterpart (and the operators) is '
    'interpreted on an object with unknown values; in the state of each of '
    'its exits the in-place counterpart is interpreted on a mutable copy '
    'with the same arguments. The result must be a new mutable object with '
    'algebraically the same values and flag; the receiver and the arguments '
    'keep their values. In-place operations return their receiver. The '
    'in-place operators leave read-only objects and other objects alone.')
ASSUMPTIONS = ['floating point rounding is not modelled']

RECT = ('x', 'y', 'width', 'height')


def values(eng, st, obj, cls):
    if 'Matrix' in cls.name:
        d = components(eng, st, obj)
        d['is2d'] = component(eng, st, obj, 'is2d')
        return d
    return {k: component(eng, st, obj, k) for k in RECT}


def same(alg, a, b):
    bad = []
    for k in b:
        if a.get(k) is b[k] and b[k] is not None:
            continue
        if a.get(k) is None or b[k] is None or not alg.equal(a[k], b[k]):
            bad.append(k)
    return bad


def rect(eng, cls, pre='', st=None, empty=False):
    st = st or State()
    vals = [num(st, pre + k) for k in RECT]
    if empty:
        vals[0] = vals[1] = NONE
    res = build(eng, st, cls, vals, {})
    if len(res) != 1:
        raise AnalysisBroken('construction of ' + cls.name)
    return res[0][0], res[0][1]


def compare(ctx, eng, ro, rw, st, recv, meth, args, other, oargs, name,
            where, argobjs=()):
    """meth on recv against `other` on a mutable copy."""
    before = values(eng, st, recv, rw)
    abefore = [values(eng, st, a, rw) for a in argobjs]
    outs = method_call(eng, st.fork(), recv, meth, args)
    n = 0
    for o in outs:
        if o.kind == 'raise':
            continue
        n += 1
        alg = alg_of(o.st)
        t = eng.ctype(o.st, o.value)
        ctx.obl('new-object', name, isinstance(o.value, Obj)
                and o.value is not recv and o.value not in argobjs
                and t is not None and t[0] is rw,
                'gives %s' % show(o.value), where)
        bad = same(alg, values(eng, o.st, recv, rw), before)
        ctx.obl('receiver', name, not bad, 'changes %s of the receiver'
                % bad[:4], where)
        for a, b in zip(argobjs, abefore):
            bad = same(alg, values(eng, o.st, a, rw), b)
            ctx.obl('argument', name, not bad, 'changes %s of the argument'
                    % bad[:4], where)
        if t is None or t[0] is not rw or other is None:
            continue
        got = values(eng, o.st, o.value, rw)
        # a mutable copy with the receiver's values
        if 'Matrix' in rw.name:
            flat = eng.decide(o.st, before['is2d'])
            seq = [before[TWO_D[k]] for k in 'abcdef'] if flat else [
                before[k] for k in NAMES]
            lst = eng._outside(lambda: eng.new_list(o.st, seq, rw.node))
            cp = build(eng, o.st, rw, [lst], {})
        else:
            cp = build(eng, o.st, rw, [before[k] for k in RECT], {})
        for s, c in cp:
            for o2 in method_call(eng, s, c, other, oargs):
                if o2.kind == 'raise':
                    ctx.bad('same-result', name, other + ' raises', where)
                    continue
                bad = same(alg_of(o2.st), got, values(eng, o2.st, c, rw))
                ctx.obl('same-result', name, not bad,
                        '%s differ from %s' % (bad[:4], other), where)
    return n


def returns_self(ctx, eng, st, obj, meth, args, name, where):
    for o in method_call(eng, st.fork(), obj, meth, args):
        if o.kind == 'return':
            ctx.obl('returns-self', name, o.value is obj,
                    'returns %s' % show(o.value), where)


def check(ctx):
    p = ctx.p
    eng = ctx.engine(max_states=6000, keep_facts=True, on_decide=by_algebra)
    ro, rw = p.cls(MX + 'DOMMatrixReadOnly'), p.cls(MX + 'DOMMatrix')
    n = 0
    for cls in (ro, rw):
        for flat in (True, False):
            st0, m0, _ = matrix(eng, cls, flat)
            sw, mw, _ = matrix(eng, rw, flat)
            k = '%s %s' % ('2-D' if flat else '3-D', cls.name)

            def go(meth, label, args, other, oargs, argobjs=(), st=None):
                fi, _ = p.find_member(ro, meth)
                if not isinstance(fi, FuncInfo):
                    ctx.bad('operation', meth, 'is missing', ro.where())
                    return 0
                st = (st or st0).fork()
                for a in args:
                    if isinstance(a, Sym):
                        num(st, a.args[0])
                return compare(ctx, eng, ro, rw, st, m0, meth, args, other,
                               oargs, '%s(%s) of a %s' % (meth, label, k),
                               fi.where(), argobjs)
            for meth, label, args, _f in cases(eng, rw):
                n += go(meth[:-5], label, args, meth, args)
                if cls is rw:
                    fi, _ = p.find_member(rw, meth)
                    st = sw.fork()
                    for a in args:
                        if isinstance(a, Sym):
                            num(st, a.args[0])
                    returns_self(ctx, eng, st, mw, meth, args, '%s(%s)' % (
                        meth, label), fi.where())
            for meth in ('translate', 'scale', 'scale3d', 'rotate',
                         'rotate_axis_angle', 'rotate_from_vector'):
                n += go(meth, 'no arguments', [], meth + '_self', [])
            n += go('inverse', '', [], 'invert_self', [])
            n += go('flip_x', '', [], 'scale_self', [C(-1), C(1)])
            n += go('flip_y', '', [], 'scale_self', [C(1), C(-1)])
            for flat2 in (True, False):
                st, m2, _ = matrix(eng, ro, flat2, 'n', st0.fork())
                lab = '2-D' if flat2 else '3-D'
                n += go('multiply', lab, [m2], 'multiply_self', [m2], (m2,),
                        st)
                n += go('__mul__', lab, [m2], 'multiply_self', [m2], (m2,),
                        st)
            if cls is rw:
                fi, _ = p.find_member(rw, 'invert_self')
                returns_self(ctx, eng, sw, mw, 'invert_self', [],
                             'invert_self', fi.where())
                returns_self(ctx, eng, sw, mw, 'clear', [], 'clear',
                             rw.where())
                st, m2, _ = matrix(eng, ro, False, 'n', sw.fork())
                returns_self(ctx, eng, st, mw, 'multiply_self', [m2],
                             'multiply_self', fi.where())
                returns_self(ctx, eng, st, mw, '__imul__', [m2],
                             'DOMMatrix *=', fi.where())
                for o in method_call(eng, st.fork(), mw, '__imul__', [m2]):
                    s2 = st.fork()
                    for o2 in method_call(eng, s2, mw, 'multiply_self',
                                          [m2]):
                        bad = same(alg_of(o2.st), values(
                            eng, o.st, mw, rw), values(
                                eng, o2.st, mw, rw))
                        ctx.obl('same-result', 'DOMMatrix *= (%s)' % k,
                                not bad, '%s' % bad[:4], rw.where())
            # operators refuse other types
            for opn in ('__mul__', '__imul__'):
                m, owner = p.find_member(cls, opn)
                if not isinstance(m, FuncInfo):
                    continue
                before = values(eng, st0, m0, rw)
                for arg in (C(2), C('x'), NONE):
                    for o in method_call(eng, st0.fork(), m0, opn, [arg]):
                        bad = same(alg_of(o.st), values(
                            eng, o.st, m0, rw), before)
                        ctx.obl('refusal', '%s.%s with %r' % (
                            cls.name, opn, arg.v), not bad and (
                            o.kind == 'raise' or o.value in (
                                NONE, X('builtins.NotImplemented'))),
                            'not refused', m.where())
    m, owner = p.find_member(ro, '__imul__')
    st0, m0, _ = matrix(eng, ro, False)
    st, m2, _ = matrix(eng, ro, False, 'n', st0)
    if isinstance(m, FuncInfo):
        before = values(eng, st, m0, rw)
        for o in method_call(eng, st.fork(), m0, '__imul__', [m2]):
            bad = same(alg_of(o.st), values(eng, o.st, m0, rw), before)
            ctx.obl('receiver', 'DOMMatrixReadOnly *=', not bad,
                    'changes %s' % bad[:4], m.where())
    # rectangles
    orders = list(interval_orders())
    if not ctx.thorough:
        orders = orders[::2]
    ro, rw = p.cls(RX + 'DOMRectReadOnly'), p.cls(RX + 'DOMRect')
    P = [S('param', 'p%d' % i) for i in range(4)]
    for cls in (ro, rw):
        for empty in (False, True):
            st0, r0 = rect(eng, cls, empty=empty)
            for v in P:
                num(st0, v.args[0])
            st0, r2 = rect(eng, ro, 'o', st0)
            st0, mx, _ = matrix(eng, p.cls(MX + 'DOMMatrix'), True, 'm', st0)
            k = cls.name + (' without position' if empty else '')
            nums = [component(eng, st0, r2, a) for a in RECT]
            todo = [('adjust', 'adjust_self', P, P),
                    ('transform', 'transform_self', [mx], [mx]),
                    ('transpose', 'transpose_self', [], []),
                    ('normalize', None, [], [])]
            if not empty:
                todo.append(('translate', 'translate_self', P[:2], P[:2]))
            pair = [('intersect', 'intersect_self', [r2], [r2]),
                    ('__and__', 'intersect_self', [r2], [r2]),
                    ('unite', 'unite_self', nums, nums),
                    ('unite', 'unite_self', nums[:2], nums[:2]),
                    ('__or__', 'unite_self', [r2], nums)]
            if empty:
                todo += pair
            else:
                for rx in orders:
                    for ry in orders:
                        eng.on_decide = pair_order(rx, ry)
                        for meth, other, args, oargs in pair:
                            fi, _ = p.find_member(cls, meth)
                            n += compare(
                                ctx, eng, ro, rw, st0, r0, meth, args,
                                other, oargs, '%s(%d) of a %s' % (
                                    meth, len(args), k), fi.where(),
                                tuple(a for a in args if a is r2))
                eng.on_decide = by_algebra
            for meth, other, args, oargs in todo:
                fi, _ = p.find_member(cls, meth)
                if not isinstance(fi, FuncInfo):
                    ctx.bad('operation', meth, 'is missing', ro.where())
                    continue
                objs = tuple(a for a in args if a is r2)
                n += compare(ctx, eng, ro, rw, st0, r0, meth, args, other,
                             oargs, '%s(%d) of a %s' % (meth, len(args), k),
                             fi.where(), objs)
                if cls is rw and other is not None:
                    fi, _ = p.find_member(rw, other)
                    returns_self(ctx, eng, st0, r0, other, oargs, other,
                                 fi.where())
    for meth, k in (('move_to', 2), ('set_coords', 4), ('set_rect', 4),
                    ('set_size', 2)):
        st0, r0 = rect(eng, rw)
        for v in P:
            num(st0, v.args[0])
        returns_self(ctx, eng, st0, r0, meth, P[:k], meth, rw.where())
    for opn, other in (('__iand__', 'intersect_self'),
                       ('__ior__', 'unite_self')):
        for cls in (ro, rw):
            m, owner = p.find_member(cls, opn)
            if not isinstance(m, FuncInfo):
                continue
            st0, r0 = rect(eng, cls)
            st0, r2 = rect(eng, rw, 'o', st0)
            eng.on_decide = pair_order((0, 2, 1, 3), (1, 2, 0, 3))
            before = values(eng, st0, r0, rw)
            for o in method_call(eng, st0.fork(), r0, opn, [r2]):
                if cls is rw:
                    ctx.obl('returns-self', '%s.%s' % (cls.name, opn),
                            o.kind == 'return' and o.value is r0,
                            'does not return the receiver', m.where())
                else:
                    bad = same(alg_of(o.st), values(eng, o.st, r0, rw),
                               before)
                    ctx.obl('receiver', '%s.%s' % (cls.name, opn), not bad,
                            'changes %s' % bad, m.where())
            eng.on_decide = by_algebra
    ctx.floor('exits compared', n, 100)

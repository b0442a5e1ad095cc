"""T01: transform functions have the matrix, type, values and angle they name."""
from ._geo import *
from .g04 import axis_factor, scaling, translation, trig

EXPLANATION = (
    'Every way of making an SVGTransform (constructor, set, the set_* '
    'methods, from_matrix) is interpreted with unknown amounts, with and '
    'without the optional ones, starting from a fresh transform and from one '
    'of every other type. At every exit type, values and angle are compared '
    'with the SVG table, and the 16 components of `matrix`, as polynomials '
    'over trigonometric atoms, with the transformation matrix the SVG '
    'specification gives for the function (rotation about a point is '
    'translate * rotate * translate back). Unknown types and 3-D matrices '
    'must be refused on every path, leaving the transform as it was. The '
    'text form is followed through the number formatter: it starts with the '
    'name of the function, lists the values in order, and leaves values out '
    'only on paths where the formatted text makes them redundant. Parsing '
    'that name gives back the type.')
ASSUMPTIONS = ['floating point rounding is not modelled',
               'rule G04 for the matrix operations used']
TX = 'svgpy.transform.'
TYPES = {'UNKNOWN': 0, 'MATRIX': 1, 'TRANSLATE': 2, 'SCALE': 3, 'ROTATE': 4,
         'SKEWX': 5, 'SKEWY': 6}
NAME = {'MATRIX': 'matrix', 'TRANSLATE': 'translate', 'SCALE': 'scale',
        'ROTATE': 'rotate', 'SKEWX': 'skewX', 'SKEWY': 'skewY'}
P = lambda n: S('param', n)  # noqa: E731
ZERO, ONE = C(0), C(1)


def table(pre=''):
    """(type, setter, args, values, angle, factor)"""
    a, b, c, d, e, f = [P(pre + x) for x in 'abcdef']
    tx, ty, sx, sy = P(pre + 'tx'), P(pre + 'ty'), P(pre + 'sx'), P(pre + 'sy')
    an, cx, cy = P(pre + 'an'), P(pre + 'cx'), P(pre + 'cy')
    rot = axis_factor(ZERO, ZERO, ONE, an)
    yield ('MATRIX', None, [a, b, c, d, e, f], [a, b, c, d, e, f], ZERO,
           factor(m11=a, m12=b, m21=c, m22=d, m41=e, m42=f))
    yield ('TRANSLATE', 'set_translate', [tx, ty], [tx, ty], ZERO,
           translation(tx, ty))
    yield ('TRANSLATE', 'set_translate', [tx], [tx, ZERO], ZERO,
           translation(tx, ZERO))
    yield ('SCALE', 'set_scale', [sx, sy], [sx, sy], ZERO,
           scaling(sx, sy, ONE, ZERO, ZERO, ZERO))
    yield ('SCALE', 'set_scale', [sx], [sx, sx], ZERO,
           scaling(sx, sx, ONE, ZERO, ZERO, ZERO))
    yield 'ROTATE', 'set_rotate', [an], [an, ZERO, ZERO], an, rot
    yield ('ROTATE', 'set_rotate', [an, cx, cy], [an, cx, cy], an,
           mul(mul(translation(cx, cy), rot), translation(
               S('neg', cx), S('neg', cy))))
    yield 'SKEWX', 'set_skew_x', [an], [an], an, factor(m21=trig('tan', an))
    yield 'SKEWY', 'set_skew_y', [an], [an], an, factor(m12=trig('tan', an))


def numbers(st, args):
    for a in args:
        if isinstance(a, Sym):
            num(st, a.args[0])


def state_of(eng, st, t):
    """(type, values, angle) of a transform; None where unknown."""
    ty = component(eng, st, t, 'type')
    v = component(eng, st, t, 'values')
    its = None if v is None or v is NONE else eng.known_items(st, v)
    return ty, (NONE if v is NONE else its), component(eng, st, t, 'angle')


def verify(ctx, eng, st, t, row, label, where, mx=True):
    kind, _, args, vals, angle, fac = row
    alg = alg_of(st)
    ty, v, an = state_of(eng, st, t)
    ctx.obl('type', label, ty is C(TYPES[kind]), 'is %s' % (
        None if ty is None else show(ty)), where)
    ok = isinstance(v, (list, tuple)) and len(v) == len(vals) and all(
        alg.equal(x, y) for x, y in zip(v, vals))
    ctx.obl('values', label, ok, 'are %s' % (
        [show(x) for x in v] if isinstance(v, (list, tuple)) else v), where)
    ctx.obl('angle', label, an is not None and alg.equal(an, angle),
            'is %s' % (None if an is None else show(an)), where)
    if not mx:
        return 0
    n = 0
    for o in eng.read(st.fork(), t, 'matrix'):
        n += 1
        if o.kind == 'raise' or not isinstance(o.value, Obj):
            ctx.bad('matrix', label, 'no matrix', where)
            continue
        bad = differ(alg_of(o.st), components(eng, o.st, o.value), fac)
        ctx.obl('matrix', label, not bad, 'components %s' % bad[:4], where)
        ctx.obl('matrix', label, flag(eng, o.st, o.value) is True,
                'is not flagged 2-D', where)
    return n


def check(ctx):
    p = ctx.p
    eng = ctx.engine(max_states=6000, mixins=True, keep_facts=True,
                     on_decide=by_algebra)
    cls = p.cls(TX + 'SVGTransform')
    w = cls.where()
    n = 0
    for k, v in TYPES.items():
        got = eng.class_const(cls, 'SVG_TRANSFORM_' + k)
        ctx.obl('constant', 'SVG_TRANSFORM_' + k, got is C(v), 'is %s' % (
            None if got is None else show(got)), w)
    rows = list(table())
    olds = list(table('o'))
    for row in rows:
        kind, setter, args, vals, angle, fac = row
        lab = '%s(%d)' % (kind, len(args))
        # constructor
        st = State()
        numbers(st, args)
        res = build(eng, st, cls, [C(TYPES[kind])] + args, {})
        ctx.obl('construct', lab, bool(res), 'raises', w)
        for s, t in res:
            n += verify(ctx, eng, s, t, row, 'SVGTransform(%s)' % lab, w)
        # over every former state
        for old in [None] + olds:
            for via in ('set', setter):
                if via is None or (via == 'set' and old is not None and
                                   old[0] == kind):
                    continue
                st = State()
                numbers(st, args)
                pre = []
                if old is not None:
                    numbers(st, old[2])
                    pre = [C(TYPES[old[0]])] + old[2]
                fi, _ = p.find_member(cls, via)
                if not isinstance(fi, FuncInfo):
                    ctx.bad('setter', via, 'is missing', w)
                    continue
                for s, t in build(eng, st, cls, pre, {}):
                    full = args if via != 'set' else [C(TYPES[kind])] + args
                    for o in method_call(eng, s, t, via, full):
                        n += 1
                        l2 = '%s(%s) on %s' % (via, lab, old[0] if old
                                               else 'a fresh transform')
                        if o.kind == 'raise':
                            ctx.bad('setter', l2, 'raises', fi.where())
                            continue
                        verify(ctx, eng, o.st, t, row, l2, fi.where(),
                               old is None)
        # from a matrix
    mcls = p.cls(MX + 'DOMMatrix')
    ro = p.cls(MX + 'DOMMatrixReadOnly')
    mrow = rows[0]
    for c in (mcls, ro):
        for flat in (True, False):
            st, m, vals = matrix(eng, c, flat)
            fi, _ = p.find_member(cls, 'from_matrix')
            lst = p.cls(TX + 'SVGTransformList')
            f2, _ = p.find_member(lst, 'create_svg_transform_from_matrix')
            for f in (fi, f2):
                for o in eng.call_fn(F(f), [m], {}, st.fork()):
                    n += 1
                    lab = '%s of a %s %s' % (f.name, '2-D' if flat else
                                             '3-D', c.name)
                    if not flat:
                        ctx.obl('refuse', lab, exc_name(o) == 'ValueError',
                                'is accepted', f.where())
                    elif o.kind == 'raise' or not isinstance(o.value, Obj):
                        ctx.bad('setter', lab, 'gives no transform',
                                f.where())
                    else:
                        verify(ctx, eng, o.st, o.value, mrow, lab, f.where())
            # on a transform that had a value
            old = olds[1]
            s = st.fork()
            numbers(s, old[2])
            fi, _ = p.find_member(cls, 'set_matrix')
            for s, t in build(eng, s, cls, [C(TYPES[old[0]])] + old[2], {}):
                for o in method_call(eng, s, t, 'set_matrix', [m]):
                    n += 1
                    lab = 'set_matrix(%s %s)' % ('2-D' if flat else '3-D',
                                                 c.name)
                    if flat:
                        if o.kind == 'raise':
                            ctx.bad('setter', lab, 'raises', fi.where())
                        else:
                            verify(ctx, eng, o.st, t, mrow, lab, fi.where())
                        continue
                    ctx.obl('refuse', lab, exc_name(o) == 'ValueError',
                            'is accepted', fi.where())
                    verify(ctx, eng, o.st, t, old, lab + ' refused',
                           fi.where(), False)
    # unknown
    for old in [None] + olds:
        st = State()
        pre = []
        if old is not None:
            numbers(st, old[2])
            pre = [C(TYPES[old[0]])] + old[2]
        for s, t in build(eng, st, cls, pre, {}):
            for via, args in (('set_unknown', []), ('set', [ZERO])):
                for o in method_call(eng, s.fork(), t, via, args):
                    n += 1
                    lab = '%s on %s' % (via, old[0] if old else 'a fresh '
                                        'transform')
                    ty, v, an = state_of(eng, o.st, t)
                    mm = component(eng, o.st, t, 'matrix')
                    ctx.obl('unknown', lab, o.kind == 'return' and
                            ty is ZERO and v is NONE and an is not None and
                            alg_of(o.st).is_const(an, 0) and mm is NONE,
                            'leaves a value', w)
            for bad in (C(7), C(-1), C('rotate'), NONE):
                for o in method_call(eng, s.fork(), t, 'set', [bad, ONE]):
                    n += 1
                    lab = 'set(%s) on %s' % (show(bad), old[0] if old else
                                             'a fresh transform')
                    ctx.obl('refuse', lab, exc_name(o) == 'ValueError',
                            'is accepted', w)
                    if old is not None:
                        verify(ctx, eng, o.st, t, old, lab, w, False)
    text(ctx, eng, cls, rows)
    ctx.floor('exits compared', n, 150)


def text(ctx, eng, cls, rows):
    p = ctx.p
    fi, _ = p.find_member(cls, 'tostring')
    pf, _ = p.find_member(p.cls(TX + 'SVGTransformList'), 'parse')
    ctx.floor('texts of known values', known_text(ctx, eng, cls, fi), 100)
    for row in rows:
        kind, _, args, vals, angle, fac = row
        if len(args) != len(vals):
            continue
        for delim in (None, ',', ' '):
            st = State()
            numbers(st, args)
            for s, t in build(eng, st, cls, [C(TYPES[kind])] + args, {}):
                for o in method_call(eng, s, t, 'tostring', [] if delim is
                                     None else [C(delim)]):
                    lab = '%s text' % kind
                    if o.kind == 'raise':
                        ctx.bad('text', lab, 'raises', fi.where())
                        continue
                    from .g02 import in_order
                    leaves = in_order(o.value)
                    first = next((x.v for x in leaves if isinstance(
                        x, Const) and isinstance(x.v, str) and x.v.strip()),
                        None)
                    ctx.obl('text', lab, first is not None and
                            first.split('(')[0] == NAME[kind],
                            'starts with %r' % first, fi.where())
                    ok, seen = listed(o.st, kind, vals, leaves)
                    ctx.obl('text', lab, ok, 'lists %s' % [
                        show(x) for x in seen], fi.where())
        # the name is read back
        nm = NAME[kind] + '(' + ' '.join(
            str(i + 2) for i in range(len(args))) + ')'
        for t in (nm, ' ' + nm + ' ', nm.replace(' ', ',')):
            for o in eng.call_fn(F(pf), [C(t)], {}, State()):
                ok = False
                if o.kind == 'return':
                    its = items_of(eng, o.st, o.value)
                    if its is not None and len(its) == 1:
                        ty, v, _ = state_of(eng, o.st, its[0])
                        ok = ty is C(TYPES[kind]) and isinstance(
                            v, (list, tuple)) and [
                            x.v if isinstance(x, Const) else None
                            for x in v] == [i + 2 for i in range(len(v))]
                ctx.obl('parse', 'parse(%s)' % nm, ok,
                        'does not give the function', pf.where())


def items_of(eng, st, lst):
    """Items of a transform list, by index."""
    n = None
    for o in method_call(eng, st.fork(), lst, '__len__', []):
        if o.kind == 'return' and isinstance(o.value, Const):
            n = o.value.v
    if n is None:
        return None
    out = []
    for i in range(n):
        vs = {o.value for o in method_call(eng, st.fork(), lst,
                                           '__getitem__', [C(i)])
              if o.kind == 'return'}
        if len(vs) != 1:
            return None
        out.append(next(iter(vs)))
    return out


def single(a, b):
    """Equal sequences have equal items."""
    x, y = a, b
    while isinstance(x, Sym) and x.op in ('list', 'tuple') and \
            isinstance(y, Sym) and y.op == x.op and len(x.args) == 1:
        x, y = x.args[0], y.args[0]
    if isinstance(x, Tup) and isinstance(y, Tup) and \
            len(x.items) == len(y.items):
        return [f for p, q in zip(x.items, y.items) for f in single(p, q)]
    return [S('eq', a, b)]


def meaning(text):
    """(function, values) of one transform function, by the grammar of SVG,
    omitted values filled in; None when it is not one."""
    import re
    m = re.match(r'(\w+)\(([^()]*)\)$', text)
    if m is None:
        return None
    try:
        v = [float(x) for x in re.split(r'[,\s]+', m.group(2).strip())]
    except ValueError:
        return None
    f, n = m.group(1), len(v)
    if f == 'translate' and n == 1:
        v.append(0.0)
    elif f == 'scale' and n == 1:
        v.append(v[0])
    elif f == 'rotate' and n == 1:
        v += [0.0, 0.0]
    if len(v) != {'matrix': 6, 'translate': 2, 'scale': 2, 'rotate': 3,
                  'skewX': 1, 'skewY': 1}.get(f):
        return None
    return f, v


def known_text(ctx, eng, cls, fi):
    """Texts of known values, read back by the grammar."""
    import itertools
    n = 0
    sizes = {'TRANSLATE': 2, 'SCALE': 2, 'ROTATE': 3, 'SKEWX': 1, 'SKEWY': 1}
    cases = [(k, v) for k, m in sizes.items() for v in itertools.product(
        (0, 1, 2.5, -1), repeat=m)]
    cases += [('MATRIX', v) for v in (
        (1, 0, 0, 1, 0, 0), (0, 0, 0, 0, 0, 0), (1, 2, 3, 4, 5, 6),
        (1, 1, 1, 1, 1, 1), (2, 0, 0, 2, 0, 0), (0, -1, 1, 0, 0.5, 0))]
    for kind, vals in cases:
        for delim in (None, ' ', ','):
            for s, t in build(eng, State(), cls, [C(TYPES[kind])] + [
                    C(v) for v in vals], {}):
                for o in method_call(eng, s, t, 'tostring', [] if delim is
                                     None else [C(delim)]):
                    if o.kind == 'return' and not isinstance(o.value, Const):
                        continue    # decided with unknown values
                    n += 1
                    got = meaning(o.value.v) if o.kind == 'return' and \
                        isinstance(o.value.v, str) else None
                    ctx.obl('text', '%s%s' % (NAME[kind], tuple(vals)),
                            got == (NAME[kind], [float(v) for v in vals]),
                            'is %r' % (o.value.v,) if o.kind == 'return'
                            else 'raises', fi.where())
    return n


def listed(st, kind, vals, leaves):
    """Whether the text lists the values in order; a value may be missing
    where the path found its own text to be zero or repeated."""
    eqs = [f for e, v in st.facts.items() if v and e.op == 'eq'
           for f in single(*e.args)]
    zero = {v for v in vals for f in eqs for a, b in (f.args, f.args[::-1])
            if v in subterms(a) and b in (C('0'), C('-0'))}
    seen = [x for x in leaves if x in vals]
    for k in (len(vals), 1):
        # a text known to be zero may appear as that constant
        if seen != [v for v in vals[:k] if v not in zero or v in seen]:
            continue
        if k == len(vals):
            return True, seen
        if kind in ('ROTATE', 'TRANSLATE') and all(
                v in zero for v in vals[1:]):
            return True, seen
        if kind == 'SCALE' and (set(vals) <= zero or any(
                vals[0] in subterms(f) and vals[1] in subterms(f)
                for f in eqs)):
            return True, seen
    return False, seen

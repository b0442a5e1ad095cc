"""G04: matrix operations multiply by the transformation they name."""
from ._geo import *

EXPLANATION = (
    'A matrix of 6 and of 16 unknown numbers is built and every `_self` '
    'operation of DOMMatrix is interpreted on it with unknown amounts. On '
    'every path the 16 components afterwards are compared, as polynomials '
    'over the unknowns, sines, cosines, tangents and roots (modulo the '
    'equations the path assumes), with the old matrix post-multiplied by the '
    'transformation matrix the Geometry Interfaces and CSS Transforms '
    'specifications give for the operation. transform_point is compared the '
    'same way with matrix times column vector.')
ASSUMPTIONS = ['floating point rounding is not modelled',
               'numpy.dot is matrix multiplication']


def trig(f, deg):
    return S('call', X('math.' + f), S('call', X('math.radians'), deg))


def op(o, a, b):
    return S('op', o, a, b)


def neg(a):
    return S('neg', a)


def axis_factor(x, y, z, deg):
    """Rodrigues matrix for a unit axis (column vectors)."""
    s, c = trig('sin', deg), trig('cos', deg)
    k = op('-', C(1), c)

    def t(a, b, sgn=None, ax=None):
        v = op('*', op('*', a, b), k)
        if sgn is None:
            return op('+', v, c)
        w = op('*', ax, s)
        return op('+' if sgn > 0 else '-', v, w)
    return factor(
        m11=t(x, x), m12=t(x, y, 1, z), m13=t(x, z, -1, y),
        m21=t(x, y, -1, z), m22=t(y, y), m23=t(y, z, 1, x),
        m31=t(x, z, 1, y), m32=t(y, z, -1, x), m33=t(z, z))


def translation(tx, ty, tz=C(0)):
    return factor(m41=tx, m42=ty, m43=tz)


def scaling(sx, sy, sz, ox, oy, oz):
    m = mul(translation(ox, oy, oz), factor(m11=sx, m22=sy, m33=sz))
    return mul(m, translation(neg(ox), neg(oy), neg(oz)))


def cases(eng, cls):
    """(method, label, argument names/values, keyword, expected factor)."""
    P = lambda n: S('param', n)  # noqa: E731
    tx, ty, tz = P('tx'), P('ty'), P('tz')
    sx, sy, sz = P('sx'), P('sy'), P('sz')
    ox, oy, oz = P('ox'), P('oy'), P('oz')
    a, x, y, z = P('angle'), P('x'), P('y'), P('z')
    rx, ry = P('rx'), P('ry')
    zero, one = C(0), C(1)
    L = S('call', X('math.sqrt'), op('+', op('+', op('*', x, x),
                                             op('*', y, y)), op('*', z, z)))
    ux, uy, uz = op('/', x, L), op('/', y, L), op('/', z, L)
    X_, Y_, Z_ = ((one, zero, zero), (zero, one, zero), (zero, zero, one))
    rot = mul(mul(axis_factor(*Z_, a), axis_factor(*Y_, ry)),
              axis_factor(*X_, rx))
    vec = S('call', X('math.degrees'), S('call', X('math.atan2'), y, x))
    yield 'translate_self', '', [tx, ty], translation(tx, ty)
    yield 'translate_self', '3', [tx, ty, tz], translation(tx, ty, tz)
    yield 'translate_self', '1', [tx], translation(tx, zero)
    yield 'scale_self', '1', [sx], scaling(sx, sx, one, zero, zero, zero)
    yield 'scale_self', '2', [sx, sy], scaling(sx, sy, one, zero, zero, zero)
    yield 'scale_self', '3', [sx, sy, sz], scaling(
        sx, sy, sz, zero, zero, zero)
    yield 'scale_self', '2+origin', [sx, sy, one, ox, oy], scaling(
        sx, sy, one, ox, oy, zero)
    yield 'scale_self', '3+origin', [sx, sy, sz, ox, oy, oz], scaling(
        sx, sy, sz, ox, oy, oz)
    yield 'scale3d_self', '1', [sx], scaling(sx, sx, sx, zero, zero, zero)
    yield 'scale3d_self', '1+origin', [sx, ox, oy, oz], scaling(
        sx, sx, sx, ox, oy, oz)
    yield 'rotate_self', 'z', [zero, zero, a], axis_factor(*Z_, a)
    yield 'rotate_self', 'y', [zero, ry, zero], axis_factor(*Y_, ry)
    yield 'rotate_self', 'x', [rx, zero, zero], axis_factor(*X_, rx)
    yield 'rotate_self', 'xyz', [rx, ry, a], rot
    yield 'rotate_axis_angle_self', 'z', [zero, zero, one, a], \
        axis_factor(*Z_, a)
    yield 'rotate_axis_angle_self', 'y', [zero, one, zero, a], \
        axis_factor(*Y_, a)
    yield 'rotate_axis_angle_self', 'x', [one, zero, zero, a], \
        axis_factor(*X_, a)
    yield 'rotate_axis_angle_self', 'xyz', [x, y, z, a], \
        axis_factor(ux, uy, uz, a)
    yield 'rotate_from_vector_self', '', [x, y], axis_factor(*Z_, vec)
    yield 'skew_x_self', '', [a], factor(m21=trig('tan', a))
    yield 'skew_y_self', '', [a], factor(m12=trig('tan', a))


def check(ctx):
    p = ctx.p
    cls = p.cls(MX + 'DOMMatrix')
    eng = ctx.engine(max_states=6000)
    n = 0
    for flat in (True, False):
        kind = '6' if flat else '16'
        st0, m0, vals0 = matrix(eng, cls, flat)
        for meth, label, args, fac in cases(eng, cls):
            fi, _ = p.find_member(cls, meth)
            if not isinstance(fi, FuncInfo):
                ctx.bad('factor', meth, 'no such operation', cls.where())
                continue
            st = st0.fork()
            for a in args:
                if isinstance(a, Sym):
                    num(st, a.args[0])
            want = mul(vals0, fac)
            name = '%s(%s) on %s components' % (meth, label, kind)
            outs = method_call(eng, st, m0, meth, args)
            ctx.paths += len(outs)
            done = 0
            for o in outs:
                if o.kind == 'raise':
                    ctx.bad('factor', name, 'raises', fi.where())
                    continue
                done += 1
                alg = alg_of(o.st)
                # a zero axis or vector leaves the matrix alone
                got = components(eng, o.st, m0)
                exp = want
                if meth == 'rotate_axis_angle_self' and label == 'xyz' and \
                        zero_axis(alg):
                    exp = vals0
                bad = differ(alg, got, exp)
                ctx.obl('factor', name, not bad,
                        'components %s differ from the product with the '
                        'transformation matrix' % ', '.join(bad[:4]),
                        fi.where())
                n += 1
            if not done:
                ctx.bad('factor', name, 'never returns', fi.where())
        # multiply, invert
        st, m2, vals2 = matrix(eng, cls, flat, 'n', st0.fork())
        fi, _ = p.find_member(cls, 'multiply_self')
        for o in method_call(eng, st, m0, 'multiply_self', [m2]):
            bad = ['raises'] if o.kind == 'raise' else differ(
                alg_of(o.st), components(eng, o.st, m0), mul(vals0, vals2))
            ctx.obl('product', 'multiply_self on %s components' % kind,
                    not bad, 'components %s' % bad[:4], fi.where())
            n += 1
    # points
    base = p.cls(MX + 'DOMMatrixReadOnly')
    fi, _ = p.find_member(base, 'transform_point')
    for flat in (True, False):
        for na in (2, 3, 4):
            st, m0, v = matrix(eng, base, flat)
            args = [num(st, q) for q in ('px', 'py', 'pz', 'pw')[:na]]
            full = args + [C(0), C(1)][na - 2:] if na < 4 else args
            want = []
            for r in range(1, 5):
                acc = C(0)
                for k in range(1, 5):
                    acc = op('+', acc, op('*', v['m%d%d' % (k, r)],
                                          full[k - 1]))
                want.append(acc)
            name = 'transform_point of %d numbers on %s components' % (
                na, '6' if flat else '16')
            for o in method_call(eng, st, m0, 'transform_point', args):
                n += 1
                if o.kind == 'raise':
                    ctx.bad('point', name, 'raises', fi.where())
                    continue
                its = eng.known_items(o.st, o.value)
                alg = alg_of(o.st)
                ok = its is not None and len(its) in (2, 4) and (
                    flat or len(its) == 4) and all(
                    alg.equal(a, b) for a, b in zip(its, want))
                if na == 2 and flat:
                    ok = ok and len(its) == 2
                ctx.obl('point', name, ok, 'returns %s' % show(o.value),
                        fi.where())
    ctx.floor('operation paths compared', n, 50)


def zero_axis(alg):
    try:
        return alg.poly(S('call', X('math.sqrt'), op('+', op(
            '+', op('*', S('param', 'x'), S('param', 'x')),
            op('*', S('param', 'y'), S('param', 'y'))),
            op('*', S('param', 'z'), S('param', 'z'))))) == {}
    except NotNumber:
        return False

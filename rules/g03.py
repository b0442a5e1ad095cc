"""G03: a matrix flagged 2-D has no 3-D component."""
from .g04 import cases
from ._geo import *

EXPLANATION = (
    'Every operation, component setter and constructor keyword is '
    'interpreted on a 2-D matrix of 6 and a 3-D matrix of 16 unknown '
    'numbers. At every exit where the matrix is flagged 2-D its ten 3-D '
    'components must be, algebraically under the path\'s equations, those of '
    'the identity; a matrix flagged 3-D is never flagged 2-D again except '
    'by clear; and an operation given only 2-D amounts leaves the flag of a '
    '2-D matrix set. Products are 2-D exactly when both factors are.')
ASSUMPTIONS = ['the inverse of a matrix in 2-D form is in 2-D form']

ONLY_2D = {('translate_self', ''), ('translate_self', '1'),
           ('scale_self', '1'), ('scale_self', '2'),
           ('scale_self', '2+origin'), ('rotate_self', 'z'),
           ('rotate_axis_angle_self', 'z'), ('rotate_from_vector_self', ''),
           ('skew_x_self', ''), ('skew_y_self', '')}


def alg_facts(st):
    """Normal forms modulo the path's equations and its falsy numbers."""
    alg = alg_of(st)
    for v, val in list(st.facts.items()):
        if val is False and isinstance(v, Sym):
            t = st.types.get(v)
            if t and isinstance(t[0], ExtClass) and \
                    t[0].name == 'builtins.float' or v.op == 'call' and \
                    v.args[0] is X('builtins.float'):
                try:
                    alg.equation(v, C(0))
                except NotNumber:
                    pass
    return alg


def consistent(ctx, eng, st, obj, name, where, was_2d, must_2d=None):
    f = flag(eng, st, obj)
    if f is None:
        ctx.bad('flag', name, 'the flag is neither True nor False', where)
        return
    if f:
        ctx.obl('never-back', name, was_2d, 'a 3-D matrix becomes 2-D',
                where)
        got = components(eng, st, obj)
        alg = alg_facts(st)
        bad = differ(alg, {k: got[k] for k in THREE_D},
                     {k: IDENT[k] for k in THREE_D})
        ctx.obl('flag', name, not bad,
                'still flagged 2-D with other %s' % ', '.join(bad), where)
    elif must_2d and was_2d:
        ctx.bad('stays-2d', name, 'the flag is lost', where)
    if must_2d and was_2d and f:
        ctx.ok('stays-2d', name, where)


def check(ctx):
    p = ctx.p
    rw = p.cls(MX + 'DOMMatrix')
    ro = p.cls(MX + 'DOMMatrixReadOnly')
    eng = ctx.engine(max_states=6000)
    n = 0
    for flat in (True, False):
        kind = '2-D' if flat else '3-D'
        st0, m0, vals = matrix(eng, rw, flat)
        for meth, label, args, _ in cases(eng, rw):
            fi, _ = p.find_member(rw, meth)
            st = st0.fork()
            for a in args:
                if isinstance(a, Sym):
                    num(st, a.args[0])
            name = '%s(%s) on a %s matrix' % (meth, label, kind)
            for o in method_call(eng, st, m0, meth, args):
                n += 1
                if o.kind == 'return':
                    consistent(ctx, eng, o.st, m0, name, fi.where(), flat,
                               (meth, label) in ONLY_2D)
        fi, _ = p.find_member(rw, 'invert_self')
        for o in method_call(eng, st0.fork(), m0, 'invert_self', []):
            if o.kind == 'return':
                n += 1
                consistent(ctx, eng, o.st, m0,
                           'invert_self on a %s matrix' % kind, fi.where(),
                           flat, True)
        for flat2 in (True, False):
            st, m2, _ = matrix(eng, rw, flat2, 'n', st0.fork())
            name = '%s matrix times %s matrix' % (
                kind, '2-D' if flat2 else '3-D')
            fi, _ = p.find_member(rw, 'multiply_self')
            for o in method_call(eng, st, m0, 'multiply_self', [m2]):
                n += 1
                if o.kind == 'return':
                    consistent(ctx, eng, o.st, m0, name, fi.where(), flat,
                               flat2)
        for k in NAMES + list(TWO_D):
            m, _ = p.find_member(rw, k)
            if not isinstance(m, PropInfo) or m.setter is None:
                continue
            st = st0.fork()
            v = num(st, 'v')
            three = TWO_D.get(k, k) in THREE_D
            name = 'DOMMatrix.%s= on a %s matrix' % (k, kind)
            for o in eng.call_fn(F(m.setter, m0), [v], {}, st):
                n += 1
                if o.kind == 'return':
                    consistent(ctx, eng, o.st, m0, name, m.setter.where(),
                               flat, not three)
            if three:
                # the value it already has does not make it 3-D
                for o in eng.call_fn(F(m.setter, m0), [IDENT[k]], {},
                                     st0.fork()):
                    n += 1
                    if o.kind == 'return':
                        consistent(ctx, eng, o.st, m0, name + ' as it is',
                                   m.setter.where(), flat, True)
    for cls in (ro, rw):
        for k in NAMES + list(TWO_D):
            for k2 in ('', 'm11', 'm33', 'm14'):
                st = State()
                kw = {k: num(st, 'v')}
                if k2 and k2 != TWO_D.get(k, k):
                    kw[k2] = num(st, 'w')
                for s, o in build(eng, st, cls, [], kw):
                    n += 1
                    consistent(ctx, eng, s, o, '%s(%s)' % (
                        cls.name, ', '.join(x + '=' for x in sorted(kw))),
                        cls.where(), True,
                        not any(TWO_D.get(x, x) in THREE_D for x in kw))
    ctx.floor('exits examined', n, 200)

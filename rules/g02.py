"""G02: components, keywords and sequences address the same matrix entries."""
from ._geo import *

EXPLANATION = (
    'DOMMatrixReadOnly and DOMMatrix are constructed with sequences of 6 and '
    '16 unknown numbers and with every keyword; the 22 component attributes, '
    'tolist, to_float_array, tojson and the flag are then read and compared '
    'with the component table of the Geometry Interfaces specification '
    '(a=m11, b=m12, c=m21, d=m22, e=m41, f=m42). Every component setter is '
    'interpreted with an unknown number: exactly that component (and its '
    'alias) changes. Conflicting aliases, 3-D values for a 2-D matrix, '
    'unknown keywords and sequences of other lengths must be refused. '
    'transform_point of the unknown matrix ties the components to their '
    'place in the product (rule G04).')
ASSUMPTIONS = ['floating point rounding is not modelled']


def default(name):
    return IDENT[TWO_D.get(name, name)]


def check_values(ctx, eng, st, obj, want, flat, name, where):
    alg = alg_of(st)
    got = components(eng, st, obj)
    bad = differ(alg, got, want)
    ctx.obl('component', name, not bad, 'components %s' % bad[:4], where)
    al = [a for a, m in TWO_D.items()
          if not alg.equal(component(eng, st, obj, a) or NONE, want[m])]
    ctx.obl('alias', name, not al, 'components %s' % al, where)
    ctx.obl('flag', name, flag(eng, st, obj) is flat,
            'is2d is not %s' % flat, where)


def seq_of(eng, st, v):
    return eng.known_items(st, v) if v is not None else None


def check_lists(ctx, eng, st, obj, want, flat, name, where):
    alg = alg_of(st)
    full = [want[n] for n in NAMES]
    six = [want[TWO_D[k]] for k in 'abcdef']

    def same(v, exp):
        its = seq_of(eng, v[0], v[1])
        return its is not None and len(its) == len(exp) and all(
            alg.equal(a, b) for a, b in zip(its, exp))

    for meth, exp in (('tolist', six if flat else full),
                      ('to_float_array', full)):
        outs = method_call(eng, st.fork(), obj, meth, [])
        ok = bool(outs) and all(
            o.kind == 'return' and same((o.st, o.value), exp) for o in outs)
        ctx.obl('sequence', '%s of %s' % (meth, name), ok,
                'not the components in order', where)
    outs = method_call(eng, st.fork(), obj, 'tojson', [])
    ok = bool(outs)
    msg = ''
    for o in outs:
        d = None
        if o.kind == 'return' and isinstance(o.value, Obj):
            c = eng.cont(o.st, o.value)
            if c is not None and c[0] == 'dict' and c[2] is None:
                d = {k.v: v for k, v in c[1] if isinstance(k, Const)}
        if d is None:
            ok, msg = False, 'result unknown'
            continue
        keys = set(TWO_D.values()) if flat else set(NAMES)
        for k in keys:
            if k not in d or not alg.equal(d[k], want[k]):
                ok, msg = False, 'key ' + k
        if 'is2d' not in d or eng.decide(o.st, d['is2d']) is not flat:
            ok, msg = False, 'key is2d'
        for k in set(d) - keys - {'is2d'}:
            if TWO_D.get(k, k) not in want or not alg.equal(
                    d[k], want[TWO_D.get(k, k)]):
                ok, msg = False, 'key ' + k
    ctx.obl('json', 'tojson of ' + name, ok, msg, where)


def in_order(v, out=None):
    """Leaves of a term, left to right, first occurrences."""
    if out is None:
        out = []
    if isinstance(v, Sym) and v.op != 'param':
        for a in v.args:
            if isinstance(a, Val):
                in_order(a, out)
    elif isinstance(v, Tup):
        for a in v.items:
            in_order(a, out)
    elif isinstance(v, BoundV):
        in_order(v.recv, out)
    elif v not in out:
        out.append(v)
    return out


def check(ctx):
    p = ctx.p
    eng = ctx.engine(max_states=6000)
    ro, rw = p.cls(MX + 'DOMMatrixReadOnly'), p.cls(MX + 'DOMMatrix')
    n = 0
    for cls in (ro, rw):
        w = cls.where()
        for flat in (True, False):
            st, m0, vals = matrix(eng, cls, flat)
            nm = '%s of %d numbers' % (cls.name, 6 if flat else 16)
            check_values(ctx, eng, st, m0, vals, flat, nm, w)
            check_lists(ctx, eng, st, m0, vals, flat, nm, w)
            n += 1
            # the factory function
            st = State()
            seq = [num(st, x) for x in (list('abcdef') if flat else NAMES)]
            lst = eng._outside(lambda: eng.new_list(st, seq, cls.node))
            fi, _ = p.find_member(cls, 'from_float_array')
            for o in eng.call_fn(F(fi), [lst], {}, st):
                t = None if o.kind == 'raise' else eng.ctype(o.st, o.value)
                ok = t is not None and t[0] is cls
                ctx.obl('factory', '%s.from_float_array of %d' % (
                    cls.name, len(seq)), ok, 'gives %s' % show(
                        o.value) if o.kind == 'return' else 'raises',
                    fi.where())
                if ok:
                    check_values(ctx, eng, o.st, o.value, vals, flat,
                                 '%s.from_float_array of %d' % (
                                     cls.name, len(seq)), fi.where())
        # identity
        st = State()
        res = build(eng, st, cls, [], {})
        for s, v in res:
            check_values(ctx, eng, s, v, IDENT, True, cls.name + '()', w)
        # other lengths
        for k in (0, 1, 4, 5, 7, 9, 15, 17):
            st = State()
            seq = [num(st, 'v%d' % i) for i in range(k)]
            lst = eng._outside(lambda: eng.new_list(st, seq, cls.node))
            ctx.obl('length', '%s of %d numbers' % (cls.name, k),
                    not build(eng, st, cls, [lst], {}), 'accepted', w)
        # single keywords
        for k in NAMES + list(TWO_D):
            st = State()
            v = num(st, 'v')
            want = dict(IDENT)
            want[TWO_D.get(k, k)] = v
            res = build(eng, st, cls, [], {k: v})
            ok = bool(res)
            ctx.obl('keyword', '%s(%s=)' % (cls.name, k), ok,
                    'refused', w)
            n += 1
            for s, o in res:
                alg = alg_of(s)
                bad = differ(alg, components(eng, s, o), want)
                ctx.obl('keyword', '%s(%s=)' % (cls.name, k), not bad,
                        'components %s' % bad[:4], w)
                if TWO_D.get(k, k) in THREE_D:
                    f = flag(eng, s, o)
                    d = default(k)
                    ok = f is False or f is True and alg.equal(v, d)
                    ctx.obl('flag', '%s(%s=)' % (cls.name, k), ok,
                            'is2d of a matrix with %s' % k, w)
                else:
                    ctx.obl('flag', '%s(%s=)' % (cls.name, k),
                            flag(eng, s, o) is True, 'is2d is not set', w)
        # pairs of aliases
        for a, m in TWO_D.items():
            for va, vb, good in ((C(3), C(4), False), (C(0), C(2), False),
                                 (C(3), C(3), True), (C(1), C(0), False)):
                res = build(eng, State(), cls, [], {a: va, m: vb})
                ctx.obl('alias-conflict', '%s(%s=%r, %s=%r)' % (
                    cls.name, a, va.v, m, vb.v), bool(res) == good,
                    'refused' if good else 'accepted', w)
                for s, o in res if good else []:
                    bad = differ(alg_of(s), components(eng, s, o),
                                 dict(IDENT, **{m: va}))
                    ctx.obl('keyword', '%s(%s=, %s=)' % (cls.name, a, m),
                            not bad, 'components %s' % bad, w)
        # the flag keyword
        for k in NAMES + list(TWO_D):
            three = TWO_D.get(k, k) in THREE_D
            d = default(k).v
            for fl in (True, False):
                res = build(eng, State(), cls, [], {k: C(d + 5),
                                                    'is2d': C(fl)})
                nm = '%s(%s=, is2d=%s)' % (cls.name, k, fl)
                if fl and three:
                    ctx.obl('flag-conflict', nm, not res, 'accepted', w)
                    continue
                ctx.obl('keyword', nm, bool(res), 'refused', w)
                want = dict(IDENT)
                want[TWO_D.get(k, k)] = C(d + 5)
                for s, o in res:
                    bad = differ(alg_of(s), components(eng, s, o), want)
                    ctx.obl('keyword', nm, not bad, 'components %s' % bad, w)
                    ctx.obl('flag', nm, flag(eng, s, o) is fl, 'is2d', w)
        for k in ('m15', 'x', 'M11', 'is_2d'):
            ctx.obl('unknown-keyword', '%s(%s=)' % (cls.name, k),
                    not build(eng, State(), cls, [], {k: C(1)}),
                    'accepted', w)
            ctx.obl('unknown-keyword', '%s(a=, %s=)' % (cls.name, k),
                    not build(eng, State(), cls, [], {'a': C(1), k: C(1)}),
                    'accepted', w)
    # setters
    for k in NAMES + list(TWO_D):
        m, _ = p.find_member(ro, k)
        ctx.obl('read-only', 'DOMMatrixReadOnly.' + k,
                isinstance(m, PropInfo) and m.setter is None,
                'can be assigned', ro.where())
        m, _ = p.find_member(rw, k)
        if not isinstance(m, PropInfo) or m.setter is None:
            ctx.bad('setter', 'DOMMatrix.' + k, 'cannot be assigned',
                    rw.where())
            continue
        for flat in (True, False):
            st, obj, vals = matrix(eng, rw, flat)
            v = num(st, 'v')
            want = dict(vals)
            want[TWO_D.get(k, k)] = v
            nm = 'DOMMatrix.%s= on %s' % (k, '2-D' if flat else '3-D')
            for o in eng.call_fn(F(m.setter, obj), [v], {}, st):
                n += 1
                if o.kind == 'raise':
                    ctx.bad('setter', nm, 'raises', m.setter.where())
                    continue
                bad = differ(alg_of(o.st), components(eng, o.st, obj), want)
                ctx.obl('setter', nm, not bad, 'components %s' % bad[:4],
                        m.setter.where())
    # clear
    fi, _ = p.find_member(rw, 'clear')
    for flat in (True, False):
        for arg in (None, True, False):
            st, obj, vals = matrix(eng, rw, flat)
            args = [] if arg is None else [C(arg)]
            for o in method_call(eng, st, obj, 'clear', args):
                nm = 'clear(%s) of a %s matrix' % (
                    '' if arg is None else arg, '2-D' if flat else '3-D')
                ok = o.kind == 'return' and not differ(
                    alg_of(o.st), components(eng, o.st, obj), IDENT)
                ctx.obl('clear', nm, ok, 'not the identity', fi.where())
                ctx.obl('clear', nm, o.kind == 'return' and flag(
                    eng, o.st, obj) is (flat if arg is None else arg),
                    'is2d', fi.where())
    # isidentity
    for flat in (True, False):
        for k in [None] + (list(TWO_D.values()) if flat else NAMES):
            st = State()
            vals = dict(IDENT)
            if k:
                vals[k] = C(2)
            seq = [vals[TWO_D[x]] for x in 'abcdef'] if flat else [
                vals[x] for x in NAMES]
            lst = eng._outside(lambda: eng.new_list(st, seq, ro.node))
            for s, o in build(eng, st, ro, [lst], {}):
                v = component(eng, s, o, 'isidentity')
                nm = 'isidentity of %s' % ('the identity' if k is None
                                           else 'the identity but ' + k)
                ctx.obl('identity', nm, v is not None and eng.decide(
                    s, v) is (k is None), 'wrong answer', ro.where())
    # text
    fi, _ = p.find_member(ro, 'tostring')
    eng = ctx.engine(opaque=lambda f: f.module.name == 'svgpy.formatter')
    for flat in (True, False):
        st, obj, vals = matrix(eng, ro, flat)
        want = [vals[TWO_D[k]] for k in 'abcdef'] if flat else [
            vals[k] for k in NAMES]
        nm = 'tostring of a %s matrix' % ('2-D' if flat else '3-D')
        for o in method_call(eng, st, obj, 'tostring', []):
            if o.kind == 'raise':
                ctx.bad('text', nm, 'raises', fi.where())
                continue
            seen = [x for x in in_order(o.value) if x in want]
            first = next((x.v for x in in_order(o.value) if isinstance(
                x, Const) and isinstance(x.v, str) and x.v), None)
            ok = seen == want and first is not None and first.startswith(
                'matrix(' if flat else 'matrix3d(')
            ctx.obl('text', nm, ok, 'gives %s' % show(o.value), fi.where())
    ctx.floor('constructions and assignments', n, 80)

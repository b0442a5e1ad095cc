"""Small numpy arrays of unknown entries: construction, entry access,
element-wise arithmetic, products. Anything else stays an unknown value."""

from .values import B, C, NONE, Const, ExtV, Obj, S, Sym, T, Tup, X

KIND = 'ndarray'


def is_array(v):
    return isinstance(v, Obj) and v.kind == KIND


def make(eng, st, shape, items, node):
    o = eng.alloc(st, KIND, node)
    st.cont[o] = (KIND, tuple(items), None)
    st.fields[(o, '@shape')] = C(tuple(shape))
    return o


def shape_items(eng, st, v):
    """(shape, flat items) of an array, list, tuple or scalar; or None."""
    v = st.eqs.get(v, v)
    if is_array(v):
        c = eng.cont(st, v)
        sh = eng.field(st, v, '@shape')
        if c is None or sh is None:
            return None
        return sh.v, c[1]
    rows = None
    if isinstance(v, Tup):
        rows = v.items
    elif isinstance(v, Obj):
        c = eng.cont(st, v)
        if c is None or c[0] != 'list' or c[2] is not None:
            return None
        rows = c[1]
    if rows is None:
        if isinstance(v, Const) and not isinstance(v.v, (int, float)):
            return None
        if isinstance(v, (Const, Sym)):
            return (), (v,)
        return None
    subs = [shape_items(eng, st, r) for r in rows]
    if not subs or any(s is None for s in subs) or \
            len({s[0] for s in subs}) != 1:
        return None
    flat = []
    for s in subs:
        flat.extend(s[1])
    return (len(subs),) + subs[0][0], tuple(flat)


def negated(eng, st, v, node):
    shape, items = shape_items(eng, st, v)
    return make(eng, st, shape, [
        C(-x.v) if isinstance(x, Const) else
        x.args[0] if isinstance(x, Sym) and x.op == 'neg' else S('neg', x)
        for x in items], node)


def _arith(eng, st, op, a, b, node):
    import ast
    r = eng.binop(st, {'+': ast.Add(), '-': ast.Sub(), '*': ast.Mult(),
                       '/': ast.Div()}[op], a, b, node)
    return r[0][1]


def binop(eng, st, sym, a, b, node):
    """Element-wise arithmetic; None when not applicable."""
    if sym == '@':
        return dot(eng, st, a, b, node)
    if sym not in ('+', '-', '*', '/'):
        return None
    x, y = shape_items(eng, st, a), shape_items(eng, st, b)
    if x is None or y is None:
        return None
    (sa, ia), (sb, ib) = x, y
    if sa == sb:
        its = [_arith(eng, st, sym, p, q, node) for p, q in zip(ia, ib)]
        sh = sa
    elif sb == ():
        its = [_arith(eng, st, sym, p, ib[0], node) for p in ia]
        sh = sa
    elif sa == ():
        its = [_arith(eng, st, sym, ia[0], q, node) for q in ib]
        sh = sb
    else:
        return None
    return make(eng, st, sh, its, node)


def _sum(eng, st, xs, node):
    acc = None
    for x in xs:
        acc = x if acc is None else _arith(eng, st, '+', acc, x, node)
    return acc if acc is not None else C(0)


def _mul(eng, st, a, b, node):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and isinstance(x.v, (int, float)):
            if x.v == 0:
                return C(0.0)
            if x.v == 1:
                return y
    return _arith(eng, st, '*', a, b, node)


def _dotsum(eng, st, ps, node):
    xs = [_mul(eng, st, p, q, node) for p, q in ps]
    xs = [x for x in xs if not (isinstance(x, Const) and x.v == 0)]
    return _sum(eng, st, xs, node) if xs else C(0.0)


def dot(eng, st, a, b, node):
    x, y = shape_items(eng, st, a), shape_items(eng, st, b)
    if x is None or y is None:
        return None
    (sa, ia), (sb, ib) = x, y
    if len(sa) == 2 and len(sb) == 2 and sa[1] == sb[0]:
        n, k, m = sa[0], sa[1], sb[1]
        its = [_dotsum(eng, st, [(ia[r * k + i], ib[i * m + c])
                                 for i in range(k)], node)
               for r in range(n) for c in range(m)]
        return make(eng, st, (n, m), its, node)
    if len(sa) == 2 and len(sb) == 1 and sa[1] == sb[0]:
        n, k = sa
        return make(eng, st, (n,), [
            _dotsum(eng, st, [(ia[r * k + i], ib[i]) for i in range(k)],
                    node) for r in range(n)], node)
    if len(sa) == 1 and len(sb) == 1 and sa == sb:
        return _dotsum(eng, st, list(zip(ia, ib)), node)
    return None


def _zero(v):
    return isinstance(v, Const) and v.v == 0


def _one(v):
    return isinstance(v, Const) and v.v == 1


def inv(eng, st, a, node):
    """Inverse of a square matrix: entries are terms over the argument; a
    matrix in 2-D affine form keeps that form."""
    x = shape_items(eng, st, a)
    if x is None or len(x[0]) != 2 or x[0][0] != x[0][1]:
        return None
    n = x[0][0]
    it = x[1]
    key = T(it)
    out = [[S('minv', key, r, c) for c in range(n)] for r in range(n)]
    # rows/columns that are those of the identity keep their form
    for r in range(n):
        row = [it[r * n + c] for c in range(n)]
        if all(_one(v) if c == r else _zero(v) for c, v in enumerate(row)):
            for c in range(n):
                out[r][c] = C(1.0 if c == r else 0.0)
        col = [it[c * n + r] for c in range(n)]
        if all(_one(v) if c == r else _zero(v) for c, v in enumerate(col)):
            for c in range(n):
                out[c][r] = C(1.0 if c == r else 0.0)
    return make(eng, st, (n, n), [v for r in out for v in r], node)


def ext_call(eng, name, args, kw, st, node):
    """numpy functions; list of results or None."""
    f = name.split('.', 1)[1] if '.' in name else ''
    r = None
    if f == 'asarray' and args and is_array(args[0]):
        return [(st, args[0])]
    if f in ('array', 'asarray', 'matrix') and args:
        x = shape_items(eng, st, args[0])
        if x is not None and x[0] != ():
            r = make(eng, st, x[0], x[1], node)
    elif f in ('dot', 'matmul') and len(args) == 2:
        r = dot(eng, st, args[0], args[1], node)
    elif f == 'linalg.inv' and args:
        r = inv(eng, st, args[0], node)
    elif f in ('identity', 'eye') and args and isinstance(args[0], Const) \
            and len(args) == 1:
        n = args[0].v
        r = make(eng, st, (n, n), [C(1.0 if i == j else 0.0)
                                   for i in range(n) for j in range(n)],
                 node)
    elif f in ('zeros', 'ones') and args:
        v = C(0.0 if f == 'zeros' else 1.0)
        a = args[0]
        dims = [a] if isinstance(a, Const) else eng.known_items(st, a)
        if dims and all(isinstance(d, Const) for d in dims):
            n = 1
            for d in dims:
                n *= d.v
            r = make(eng, st, [d.v for d in dims], [v] * n, node)
    elif f in ('copy',) and args:
        x = shape_items(eng, st, args[0])
        if x is not None:
            r = make(eng, st, x[0], x[1], node)
    elif f in ('array_equal', 'allclose') and len(args) >= 2:
        return [(st, S('call', X(name), eng.freeze(st, args[0]),
                       eng.freeze(st, args[1])))]
    elif f in ('transpose',) and args:
        r = transpose(eng, st, args[0], node)
    if r is None:
        return None
    return [(st, r)]


def transpose(eng, st, a, node):
    x = shape_items(eng, st, a)
    if x is None or len(x[0]) != 2:
        return None
    n, m = x[0]
    return make(eng, st, (m, n), [x[1][r * m + c] for c in range(m)
                                  for r in range(n)], node)


def index(eng, st, o, k):
    """Flat positions and result shape selected by subscript k, or None."""
    sh = eng.field(st, o, '@shape').v
    ks = list(k.items) if isinstance(k, Tup) else [k]
    if len(ks) > len(sh):
        return None
    ks += [None] * (len(sh) - len(ks))
    sel = []
    out = []
    for d, kk in zip(sh, ks):
        if kk is None:
            sel.append(list(range(d)))
            out.append(d)
        elif isinstance(kk, Const) and isinstance(kk.v, int) and \
                -d <= kk.v < d:
            sel.append([kk.v % d])
        elif isinstance(kk, Sym) and kk.op == 'slicespec' and \
                all(isinstance(a, Const) for a in kk.args):
            r = list(range(d))[slice(*[a.v for a in kk.args])]
            sel.append(r)
            out.append(len(r))
        else:
            return None
    pos = [0]
    for d, s in zip(sh, sel):
        pos = [p * d + i for p in pos for i in s]
    return pos, tuple(out)


def getitem(eng, st, o, k, node):
    ix = index(eng, st, o, k)
    if ix is None:
        return None
    its = eng.cont(st, o)[1]
    pos, sh = ix
    if sh == ():
        return [(st, its[pos[0]])]
    r = make(eng, st, sh, [its[p] for p in pos], node)
    if all(x is None or isinstance(x, (Const, Sym)) for x in (
            k.items if isinstance(k, Tup) else [k])):
        # a view: assignments to it reach the array
        st.fields[(r, '@base')] = T([o, C(tuple(pos))])
    return [(st, r)]


def setitem(eng, st, o, k, v, node):
    ix = index(eng, st, o, k)
    c = eng.cont(st, o)
    if ix is None:
        st.cont[o] = (KIND, tuple(S('modified', x, id(node))
                                  for x in c[1]), None)
        return
    pos, sh = ix
    l = list(c[1])
    x = shape_items(eng, st, v)
    if x is not None and x[0] == ():
        vals = [x[1][0]] * len(pos)
    elif x is not None and len(x[1]) == len(pos):
        vals = x[1]
    else:
        vals = [S('modified', l[p], id(node)) for p in pos]
    for p, w in zip(pos, vals):
        l[p] = w
    st.cont[o] = (KIND, tuple(l), None)
    base = st.fields.get((o, '@base'))
    while base is not None:
        b, where = base.items
        m = list(eng.cont(st, b)[1])
        for i, p in enumerate(where.v):
            m[p] = l[i]
        st.cont[b] = (KIND, tuple(m), None)
        l, base = m, st.fields.get((b, '@base'))


def attribute(eng, st, o, name, node):
    if name == 'T':
        r = transpose(eng, st, o, node)
        return None if r is None else [(st, r)]
    if name == 'shape':
        return [(st, T([C(d) for d in eng.field(st, o, '@shape').v]))]
    if name == 'size':
        return [(st, C(len(eng.cont(st, o)[1])))]
    if name == 'ndim':
        return [(st, C(len(eng.field(st, o, '@shape').v)))]
    return [(st, B(o, name))]


def method(eng, o, name, args, kw, st, node):
    its = eng.cont(st, o)[1]
    sh = eng.field(st, o, '@shape').v
    if name == 'item' and len(args) == 1 and isinstance(args[0], Const):
        i = args[0].v
        if -len(its) <= i < len(its):
            return [(st, its[i])]
    if name == 'item' and not args and len(its) == 1:
        return [(st, its[0])]
    if name == 'item' and len(args) > 1:
        return getitem(eng, st, o, T(args), node)
    if name in ('copy', 'astype', '__copy__'):
        return [(st, make(eng, st, sh, its, node))]
    if name in ('flatten', 'ravel'):
        return [(st, make(eng, st, (len(its),), its, node))]
    if name == 'reshape':
        a = args[0] if len(args) == 1 else T(args)
        dims = [a] if isinstance(a, Const) else eng.known_items(st, a)
        if dims and all(isinstance(d, Const) for d in dims):
            n = 1
            for d in dims:
                n *= d.v
            if n == len(its):
                return [(st, make(eng, st, [d.v for d in dims], its, node))]
    if name == 'tolist':
        def rec(d, items):
            if len(d) == 1:
                return eng.new_list(st, items, node)
            k = len(items) // d[0]
            return eng.new_list(st, [rec(d[1:], items[i * k:(i + 1) * k])
                                     for i in range(d[0])], node)
        return [(st, rec(sh, its))]
    if name == 'dot' and len(args) == 1:
        r = dot(eng, st, o, args[0], node)
        return None if r is None else [(st, r)]
    if name == 'transpose' and not args:
        r = transpose(eng, st, o, node)
        return None if r is None else [(st, r)]
    if name in ('fill',) and args:
        st.cont[o] = (KIND, (args[0],) * len(its), None)
        return [(st, NONE)]
    if name in ('all', 'any'):
        return [(st, S('call', S('attr', eng.freeze(st, o), name)))]
    return None

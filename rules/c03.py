"""C03: math values have the sum value and conversions of their meaning."""
import itertools

from .c02 import *
from .c02 import one as only
from .c01 import SIZE, CANONICAL, BASE, RAD, close, exc_of, math, the_unit
from ._path import op, sequence

EXPLANATION = (
    'Trees of unit values with unknown numbers and of sum, product, negate, '
    'invert, min, max and clamp are built by the constructors, and '
    'create_sum_value, to, to_sum, add and equals are interpreted on them. '
    'The sum value must be the list of products of numbers and canonical '
    'units that the tree stands for, in polynomial normal form, values of '
    'equal units added up; to and to_sum must give these numbers in the '
    'units asked for and refuse everything else; add must stand for the sum; '
    'equals must hold exactly for trees of the same classes, units and '
    'numbers. No operation may change its operands.')
ASSUMPTIONS = ['rules C01, C02', 'numbers inverted are not zero',
               'Decimal and float rounding is not modelled; ratios are '
               'compared to nine digits']


def leaf(u, i):
    return ('unit', u, i)


def tree_name(t):
    if t[0] == 'unit':
        return '%s%s' % (t[2], t[1])
    return '%s(%s)' % (t[0], ', '.join(map(tree_name, t[1:])))


def make_tree(eng, st, p, t):
    """[(state, value or Raised)]"""
    if t[0] == 'unit':
        v = num(st, t[2])
        st.facts[v] = True
        st.facts[S('eq', v, C(0))] = False
        return new(eng, st, p, 'CSSUnitValue', [v, C(t[1])])
    cur = [(st, [])]
    for x in t[1:]:
        nxt = []
        for s, vs in cur:
            for s2, v in make_tree(eng, s, p, x):
                nxt.append((s2, v if isinstance(v, Raised) else vs + [v]))
        cur = [(s, v) for s, v in nxt if not isinstance(v, Raised)]
        if not cur:
            return [(s, v) for s, v in nxt]
    out = []
    for s, vs in cur:
        out += new(eng, s, p, 'CSSMath' + t[0], vs)
    return out


def type_ref(t):
    if t[0] == 'unit':
        return {BASE[t[1]]: 1} if BASE[t[1]] else {}
    a = [type_ref(x) for x in t[1:]]
    if '?' in a:
        return '?'
    if None in a:
        return None
    if t[0] == 'Negate':
        return a[0]
    if t[0] == 'Invert':
        return {k: v if k == HINT else -v for k, v in a[0].items()}
    f = multiply if t[0] == 'Product' else add
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
        if r in (None, '?'):
            return r
    return r


def sum_ref(t):
    """[(term, {unit: power})] or None"""
    if t[0] == 'unit':
        k, can = 1, t[1]
        if t[1] in SIZE:
            k, can = SIZE[t[1]][1], CANONICAL[BASE[t[1]]]
        v = S('param', t[2])
        if k != 1:
            v = op('*', v, C(k))
        return [(v, {} if can == 'number' else {can: 1})]
    if t[0] == 'Clamp':
        return None
    a = [sum_ref(x) for x in t[1:]]
    if None in a:
        return None
    if t[0] == 'Negate':
        return [(op('-', C(0), v), m) for v, m in a[0]]
    if t[0] == 'Invert':
        if len(a[0]) != 1:
            return None
        return [(op('/', C(1), v), {u: -k for u, k in m.items()})
                for v, m in a[0]]
    if t[0] == 'Product':
        r = [(C(1), {})]
        for x in a:
            r = [(op('*', v, w), {u: m.get(u, 0) + n.get(u, 0)
                                  for u in set(m) | set(n)
                                  if m.get(u, 0) + n.get(u, 0)})
                 for v, m in r for w, n in x]
        return r
    if t[0] == 'Sum':
        r = []
        for x in a:
            for v, m in x:
                for i, (w, n) in enumerate(r):
                    if n == m:
                        r[i] = (op('+', w, v), n)
                        break
                else:
                    r.append((v, m))
        return r
    if any(len(x) != 1 or x[0][1] != a[0][0][1] for x in a):
        return None
    vals = [x[0][0] for x in a]
    if len(vals) == 1:
        return [(vals[0], a[0][0][1])]
    return [((t[0], vals), a[0][0][1])]


def plain(st, v):
    """{monomial without degrees: coefficient} or None"""
    try:
        d = alg_of(st).poly(v)
    except NotNumber:
        return None
    r = {}
    for m, k in d.items():
        k = float(k)
        for atom, e in m:
            if atom == RAD:
                k *= (math.pi / 180) ** e
        m = tuple(x for x in m if x[0] != RAD)
        r[m] = r.get(m, 0) + k
    return {m: k for m, k in r.items() if k}


def near(eng, st, got, want):
    if isinstance(want, tuple):
        f, vals = want
        # a choice among the values
        if isinstance(got, Sym) and got.op == 'call' and \
                got.args[0] is X('builtins.' + f.lower()):
            args = list(got.args[1:])
            if len(args) == 1:
                args = list(args[0].items) if isinstance(
                    args[0], Tup) else sequence(eng, st, args[0]) or (
                    args[0].args[0].items if isinstance(args[0], Sym) and
                    args[0].args and isinstance(args[0].args[0], Tup)
                    else None)
            if args is None or len(args) != len(vals):
                return False
            return all(any(near(eng, st, a, w) for a in args) for w in vals)
        return False
    a, b = plain(st, got), plain(st, want)
    return a is not None and b is not None and set(a) == set(b) and \
        all(close(a[m], b[m]) for m in a)


def same_sum(eng, st, v, want):
    if want is None:
        return v is NONE
    items = sequence(eng, st, v)
    if items is None or len(items) != len(want):
        return False
    left = list(want)
    for it in items:
        pair = sequence(eng, st, it)
        if pair is None or len(pair) != 2:
            return False
        units = entries(eng, st, pair[1])
        hit = [w for w in left if w[1] == units and
               near(eng, st, pair[0], w[0])]
        if not hit:
            return False
        left.remove(hit[0])
    return True


def trees(thorough):
    us = ['px', 'cm', 'em', 'number', 'percent', 'deg', 'turn']
    a = [leaf(u, 'a') for u in us]
    b = [leaf(u, 'b') for u in us]
    c = leaf('px', 'c')
    out = list(a)
    for f in ('Negate', 'Invert'):
        out += [(f, x) for x in a]
    two = [(f, x, y) for f in ('Sum', 'Product', 'Min', 'Max')
           for x in a for y in b]
    out += two
    out += [('Clamp', leaf('px', 'a'), leaf('cm', 'b'), c),
            ('Sum', ('Clamp', leaf('px', 'a'), leaf('cm', 'b'), c), c),
            ('Max', ('Sum', leaf('px', 'a'), leaf('em', 'b')), c),
            ('Product', ('Min', leaf('px', 'a'), leaf('em', 'b')), c),
            ('Max', leaf('px', 'a'), leaf('cm', 'b'), c),
            ('Min', leaf('px', 'a'), leaf('cm', 'b'), c),
            ('Sum', leaf('px', 'a')), ('Product', leaf('cm', 'a')),
            ('Min', leaf('cm', 'a')), ('Max', leaf('cm', 'a')),
            ('Invert', ('Invert', leaf('cm', 'a'))),
            ('Invert', ('Sum', leaf('px', 'a'), leaf('em', 'b'))),
            ('Negate', ('Negate', leaf('cm', 'a')))]
    last = [c, leaf('em', 'c'), leaf('number', 'c')]
    if thorough:
        last += [leaf('percent', 'c'), leaf('in', 'c'), leaf('turn', 'c')]
    for t in two:
        if t[0] in ('Min', 'Max') and not thorough:
            continue
        if {t[1][1], t[2][1]} - {'px', 'cm', 'em', 'number', 'percent'} \
                and not thorough:
            continue
        for x in last:
            out += [('Sum', t, x), ('Product', t, x), ('Sum', x, t),
                    ('Product', x, t), ('Negate', t)]
            if len(sum_ref(t) or ()) == 1 and t[0] == 'Product':
                out += [('Product', x, ('Invert', t)), ('Invert', t),
                        ('Sum', x, ('Negate', t))]
    px, em = leaf('px', 'a'), leaf('em', 'b')
    out += [('Sum', ('Product', px, px, em), ('Product', px, em, em)),
            ('Sum', ('Product', px, px, em), ('Product', em, px, px)),
            ('Product', ('Sum', px, em), ('Sum', px, em)),
            ('Sum', ('Sum', px, em), ('Negate', ('Sum', em, px)))]
    return [t for t in dict.fromkeys(out) if not inverts_sum(t)]


def inverts_sum(t):
    """Inverse of a sum or choice that is one value: not compared"""
    if t[0] == 'unit':
        return False
    if t[0] == 'Invert' and any_choice(t[1]) and \
            len(sum_ref(t[1]) or ()) == 1:
        return True
    return any(inverts_sum(x) for x in t[1:])


def any_choice(t):
    return t[0] != 'unit' and (t[0] in ('Sum', 'Min', 'Max') or
                               any(any_choice(x) for x in t[1:]))


def check(ctx):
    p = ctx.p
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=60,
                     on_call=decimals, max_depth=30, recursion=6)
    eng.on_decide = Numbers()
    n = sums(ctx, eng, p)
    n += adds(ctx, eng, p) + equal(ctx, eng, p)
    ctx.floor('exits compared', n, 1500)


def nested_choice(t, top=True):
    """min and max below another operator: value not compared"""
    if t[0] == 'unit':
        return False
    if t[0] in ('Min', 'Max') and len(t) > 2 and not top:
        return True
    return any(nested_choice(x, False) for x in t[1:])


def sums(ctx, eng, p):
    n = 0
    for t in trees(ctx.thorough):
        want_type = type_ref(t)
        if want_type in (None, '?') or nested_choice(t):
            continue
        lab = tree_name(t)
        where = p.cls(TX + ('CSSUnitValue' if t[0] == 'unit' else
                            'CSSMath' + t[0])).where()
        want = sum_ref(t)
        for st, v in make_tree(eng, State(), p, t):
            if isinstance(v, Raised):
                ctx.bad('sum value', lab, 'cannot be constructed', where)
                continue
            before = snapshot(eng, st, v)
            for o in method_call(eng, st.fork(), v, 'create_sum_value', []):
                n += 1
                ctx.obl('sum value', lab, o.kind == 'return' and same_sum(
                    eng, o.st, o.value, want) and
                    snapshot(eng, o.st, v) == before, 'is not %s' % (
                        want and [(told(w), m) for w, m in want],), where)
            if t[0] != 'unit':
                n += converts(ctx, eng, p, t, lab, st, v, want, where)
    return n


def snapshot(eng, st, v):
    """What the tree consists of."""
    out = []
    for name in ('unit', 'value', 'values', 'min', 'val', 'max'):
        ci = st.types.get(v)
        if ci is None or not isinstance(eng.p.find_member(
                ci[0], name)[0], PropInfo):
            continue
        x = component(eng, st, v, name)
        if x is None:
            continue
        if isinstance(x, Obj):
            items = sequence(eng, st, x)
            x = tuple(snapshot(eng, st, y) for y in items) \
                if items is not None else snapshot(eng, st, x)
        out.append((name, x))
    return ci and ci[0].name, tuple(out)


def told(w):
    return '%s of %s' % (w[0], ', '.join(map(show, w[1]))) \
        if isinstance(w, tuple) else show(w)


def fixed(want, unit):
    """The number of `unit` the single item stands for, or None"""
    if want is None or len(want) != 1:
        return None
    v, m = want[0]
    return item_in(v, m, unit)


def item_in(v, m, unit):
    if len(m) > 1 or any(k != 1 for k in m.values()):
        return None
    have = next(iter(m), 'number')
    if have == unit:
        return v
    if unit not in SIZE or have not in SIZE or BASE[have] != BASE[unit]:
        return None
    if isinstance(v, tuple):
        return '?'
    return op('*', v, C(SIZE[have][1] / SIZE[unit][1]))


UNITS = ['px', 'CM', 'em', 'number', 'percent', 'turn', 'deg']
LISTS = [(), ('px',), ('px', 'em'), ('em', 'cm'), ('number',), ('percent',),
         ('percent', 'px'), ('deg',), ('px', 'em', 'number')]


def converts(ctx, eng, p, t, lab, st, v, want, where):
    n = 0
    for u in UNITS:
        w = fixed(want, u.lower())
        if w == '?':
            continue
        for o in method_call(eng, st.fork(), v, 'to', [C(u)]):
            n += 1
            if w is None:
                ok = o.kind == 'raise' and exc_name(o) == 'ValueError'
            else:
                ok = is_value(eng, o, w, u.lower())
            ctx.obl('to', '%s to %s' % (lab, u), ok, 'is not %s' % (
                'refused' if w is None else told(w),), where)
    if want is None:
        return n
    for us in LISTS:
        exp = split(want, us)
        if exp == '?' or any(add(type_of_unit(a), type_of_unit(b)) in (
                None, '?') for a, b in itertools.combinations(us, 2)):
            continue
        for o in method_call(eng, st.fork(), v, 'to_sum',
                             [C(u) for u in us]):
            n += 1
            if exp is None:
                ok = o.kind == 'raise' and exc_name(o) == 'ValueError'
            else:
                ok = is_list(eng, o, exp)
            ctx.obl('to_sum', '%s to %s' % (lab, ', '.join(us)), ok,
                    'is not %s' % ('refused' if exp is None else [
                        (u, told(w))
                        for u, w in exp],), where)
    return n


def type_of_unit(u):
    return {BASE[u]: 1} if BASE[u] else {}


def split(want, us):
    """[(unit, term)], None: refused, '?': open"""
    if any(len(m) > 1 or any(k != 1 for k in m.values()) for _, m in want):
        return None
    items = [(next(iter(m), 'number'), v) for v, m in want]
    if len({u for u, _ in items}) < len(items):
        return '?'
    if not us:
        return sorted(items, key=lambda x: x[0])
    out = []
    for u in us:
        acc = C(0)
        for it in list(items):
            w = item_in(it[1], {} if it[0] == 'number' else {it[0]: 1}, u)
            if w is not None:
                if w == '?' or isinstance(w, tuple):
                    return '?'
                acc = op('+', acc, w)
                items.remove(it)
        out.append((u, acc))
    return None if items else out


def is_value(eng, o, w, unit):
    return o.kind == 'return' and isinstance(o.value, Obj) and \
        the_unit(eng, o.st, o.value) == unit and \
        near(eng, o.st, component(eng, o.st, o.value, 'value'), w)


def is_list(eng, o, exp):
    if o.kind != 'return' or not isinstance(o.value, Obj):
        return False
    items = sequence(eng, o.st, component(eng, o.st, o.value, 'values'))
    if items is None or len(items) != len(exp):
        return False
    return all(the_unit(eng, o.st, x) == u and near(
        eng, o.st, component(eng, o.st, x, 'value'), w)
        for x, (u, w) in zip(items, exp))


def adds(ctx, eng, p):
    n = 0
    us = ['px', 'cm', 'em', 'number', 'percent', 'deg']
    rows = [(leaf(a, 'a'), [leaf(b, 'b')]) for a in us for b in us]
    rows += [(leaf(a, 'a'), [leaf(b, 'b'), leaf(c, 'c')])
             for a in ('px', 'em') for b in ('px', 'cm', 'percent')
             for c in ('px', 'em')]
    rows += [(('Sum', leaf('px', 'a'), leaf('em', 'b')), [leaf('px', 'c')]),
             (('Sum', leaf('px', 'a'), leaf('px', 'b')), [leaf('px', 'c')]),
             (('Negate', leaf('px', 'a')), [leaf('px', 'c')]),
             (leaf('px', 'a'), [('Sum', leaf('em', 'b'), leaf('px', 'c'))]),
             (('Product', leaf('number', 'a'), leaf('px', 'b')),
              [leaf('em', 'c')])]
    where = p.cls(TX + 'CSSNumericValue').where()
    for t, others in rows:
        full = ('Sum', t) + tuple(others)
        want_type = type_ref(full)
        if want_type == '?':
            continue
        want = sum_ref(full)
        lab = '%s.add(%s)' % (tree_name(t), ', '.join(map(tree_name,
                                                          others)))
        for st, v in make_tree(eng, State(), p, t):
            args = []
            for x in others:
                st, w = only(make_tree(eng, st, p, x))
                args.append(w)
            before = [snapshot(eng, st, x) for x in [v] + args]
            for o in method_call(eng, st, v, 'add', args):
                n += 1
                if want_type is None:
                    ok = o.kind == 'raise' and exc_name(o) == 'ValueError'
                    ctx.obl('add', lab, ok, 'is not refused', where)
                    continue
                ok = o.kind == 'return' and isinstance(o.value, Obj) and \
                    [snapshot(eng, o.st, x) for x in [v] + args] == before
                if ok:
                    for o2 in method_call(eng, o.st, o.value,
                                          'create_sum_value', []):
                        ok = ok and o2.kind == 'return' and same_sum(
                            eng, o2.st, o2.value, want)
                    flat = list(t[1:]) if t[0] == 'Sum' else [t]
                    units = {x[1] if x[0] == 'unit' else None
                             for x in flat + others}
                    flat = ok and len(units) == 1 and None not in units
                    if flat:
                        ok = the_unit(eng, o.st, o.value) in units
                    kept = not ok or flat or o.st.types.get(o.value) == (
                        p.cls(TX + 'CSSMathSum'), True)
                    ok = ok and kept
                ctx.obl('add', lab, ok, 'is not the sum', where)
    # plain numbers
    for u in ('number', 'px'):
        st = State()
        k = num(st, 'k')
        for s, v in make_tree(eng, st, p, leaf(u, 'a')):
            for o in method_call(eng, s, v, 'add', [k]):
                n += 1
                if u == 'px':
                    ok = o.kind == 'raise' and exc_name(o) == 'ValueError'
                else:
                    ok = is_value(eng, o, op('+', S('param', 'a'), k),
                                  'number')
                ctx.obl('add', '%s and a number' % u, ok, 'is not the sum',
                        where)
    for bad in (C('1px'), NONE):
        for s, v in make_tree(eng, State(), p, leaf('px', 'a')):
            for o in method_call(eng, s, v, 'add', [bad]):
                n += 1
                ctx.obl('add', 'px and %s' % show(bad), o.kind == 'raise'
                        and exc_name(o) == 'TypeError', 'is not refused',
                        where)
    return n


class Numbers:
    """Are the numbers a.. and A.. equal?"""
    equal = frozenset()

    def __call__(self, eng, st, v):
        if v.op != 'eq':
            return None
        try:
            alg = alg_of(st)
            d = alg.sub(alg.poly(v.args[0]), alg.poly(v.args[1]))
        except NotNumber:
            return None
        if not d:
            return True
        if v.args[1] is C(0) and len(d) == 1:
            return False        # products of numbers that are not zero
        names = {x.args[0] for y in v.args for x in subterms(y)
                 if isinstance(x, Sym) and x.op == 'param'}
        if len(names) != 2 or len(d) != 2:
            return None
        return len({x.lower() for x in names}) == 1 and \
            names.pop().lower() in self.equal


def upper(t):
    if t[0] == 'unit':
        return ('unit', t[1], t[2].upper())
    return (t[0],) + tuple(upper(x) for x in t[1:])


def shape(t):
    if t[0] == 'unit':
        return ('unit', t[1], t[2].lower())
    return (t[0],) + tuple(shape(x) for x in t[1:])


def leaves(t):
    return {t[2]} if t[0] == 'unit' else set().union(*map(leaves, t[1:]))


def equal(ctx, eng, p):
    n = 0
    dec = eng.on_decide
    a, b, c = leaf('px', 'a'), leaf('px', 'b'), leaf('px', 'c')
    ts = [a, leaf('cm', 'a'), leaf('number', 'a')]
    ts += [(f, a) for f in ('Sum', 'Product', 'Min', 'Max', 'Negate',
                            'Invert')]
    ts += [(f, a, b) for f in ('Sum', 'Product', 'Min', 'Max')]
    ts += [('Sum', b, a), ('Sum', a, b, c), ('Clamp', a, b, c),
           ('Clamp', b, a, c), ('Sum', ('Negate', a), b),
           ('Sum', ('Product', leaf('number', 'a'), b), c),
           ('Sum', a, ('Sum', b, c)), ('Negate', ('Invert', a)),
           ('Invert', ('Negate', a))]
    where = p.cls(TX + 'CSSNumericValue').where()
    for x in ts:
        for y in ts:
            names = sorted(leaves(x) & leaves(y))
            cases = [frozenset(names)]
            if shape(x) == shape(y):
                cases += [frozenset(names) - {k} for k in names]
            for eq in cases:
                dec.equal = eq
                want = shape(x) == shape(y) and eq >= leaves(x)
                st, v = only(make_tree(eng, State(), p, x))
                st, w = only(make_tree(eng, st, p, upper(y)))
                for o in method_call(eng, st, v, 'equals', [w]):
                    n += 1
                    ctx.obl('equals', '%s, %s' % (tree_name(x),
                                                  tree_name(y)),
                            o.kind == 'return' and eng.decide(
                                o.st, o.value) is want,
                            'is not %s' % want, where)
    dec.equal = frozenset('ab')
    for args, want in (([], True), ([a], True), ([a, a], True),
                       ([a, c], False), ([c, a], False)):
        st, v = only(make_tree(eng, State(), p, leaf('px', 'a')))
        objs = []
        for x in args:
            st, w = only(make_tree(eng, st, p, x))
            objs.append(w)
        for o in method_call(eng, st, v, 'equals', objs):
            n += 1
            ctx.obl('equals', 'a, %s' % ', '.join(map(tree_name, args)),
                    o.kind == 'return' and eng.decide(o.st, o.value) is want,
                    'is not %s' % want, where)
    return n

"""T02: a transform list is a list of transforms, applied in order."""
from ._geo import *
from .t01 import TX, TYPES, items_of, numbers, state_of, table

EXPLANATION = (
    'Transform lists of unknown transforms are built from the constructor '
    'and interpreted. Order: for every ordered pair of transform functions '
    'and triples with unknown amounts the 16 components of `matrix`, of '
    '`transform` and of the transform consolidate leaves are compared, as '
    'polynomials, with the product of the single matrices, first function '
    'leftmost. Operations: every list operation, its SVG DOM alias and the '
    'operators are interpreted at every position of lists of 0 to 3 items '
    'and the items afterwards compared with the sequence the operation '
    'names. Types: every operation that takes an item is given a text, None '
    'and a matrix; each path must raise TypeError and leave the items as '
    'they were.')
ASSUMPTIONS = ['floating point rounding is not modelled',
               'collections.abc.MutableSequence mix-in methods are as '
               'documented (bodies in sa/prelude)']


def transforms(eng, cls, st, rows):
    """every (state, transforms) the constructions end in"""
    worlds = [(st, [])]
    for row in rows:
        nxt = []
        for s, ts in worlds:
            s = s.fork()
            numbers(s, row[2])
            for s2, t in build(eng, s, cls, [C(TYPES[row[0]])] + row[2], {}):
                nxt.append((s2, ts + [t]))
        worlds = nxt
    if not worlds:
        raise AnalysisBroken('construction of a transform')
    return worlds


def make(eng, lst, st, ts):
    st = st.fork()
    arg = eng._outside(lambda: eng.new_list(st, ts, lst.node))
    res = build(eng, st, lst, [arg] if ts else [], {})
    if not res:
        raise AnalysisBroken('construction of a list of %d transforms'
                             % len(ts))
    return res


def lists(eng, cls, lst, rows, size=None):
    """every (state, transforms, list of the first `size` of them)"""
    for st, ts in transforms(eng, cls, State(), rows):
        for s, l in make(eng, lst, st, ts[:size]):
            yield s, list(ts), l


def check(ctx):
    p = ctx.p
    eng = ctx.engine(max_states=6000, mixins=True, keep_facts=True,
                     on_decide=by_algebra, loop_bound=4)
    cls, lst = p.cls(TX + 'SVGTransform'), p.cls(TX + 'SVGTransformList')
    w = lst.where()
    n = 0

    def rows(pre):
        return [r for r in table(pre) if len(r[2]) == len(r[3])]
    seqs = [(a, b) for a in rows('') for b in rows('o')]
    third = rows('q')
    seqs += [(a,) for a in rows('')]
    seqs += [(rows('')[i], rows('o')[(i + 1) % 6], third[(i + 2) % 6])
             for i in range(6)]
    for seq in seqs:
        want = IDENT
        for r in seq:
            want = mul(want, r[5])
        lab = ' '.join(r[0].lower() for r in seq)
        for st, ts, l in lists(eng, cls, lst, seq):
            for o in eng.read(st.fork(), l, 'matrix'):
                n += 1
                bad = ['none'] if not isinstance(o.value, Obj) else differ(
                    alg_of(o.st), components(eng, o.st, o.value), want)
                ctx.obl('matrix', lab, not bad, 'components %s differ from the '
                        'product in order' % bad[:4], w)
            for o in eng.read(st.fork(), l, 'transform'):
                n += 1
                ctx.obl('transform', lab, isinstance(o.value, Obj) and one(
                    eng, o.st, o.value, want), 'is not the product', w)
            fi, _ = p.find_member(lst, 'consolidate')
            for o in method_call(eng, st.fork(), l, 'consolidate', []):
                n += 1
                its = items_of(eng, o.st, l)
                ok = o.kind == 'return' and its is not None and \
                    len(its) == 1 and its[0] is o.value
                ctx.obl('consolidate', lab, ok, 'does not leave the one '
                        'transform it returns', fi.where())
                if ok:
                    ctx.obl('consolidate', lab, one(eng, o.st, its[0], want),
                            'is not the product', fi.where())
    # the empty list
    for s, l in build(eng, State(), lst, [], {}):
        for a in ('matrix', 'transform'):
            ctx.obl('empty', a, component(eng, s, l, a) is NONE,
                    'is not None', w)
        for o in method_call(eng, s.fork(), l, 'consolidate', []):
            its = items_of(eng, o.st, l)
            ctx.obl('empty', 'consolidate', o.kind == 'return' and
                    o.value is NONE and its == [], 'gives a transform', w)
    n += operations(ctx, eng, cls, lst, rows)
    n += histories(ctx, eng, cls, lst, rows)
    n += types(ctx, eng, cls, lst, rows)
    ctx.floor('exits compared', n, 200)


def one(eng, st, t, want):
    ms = [o for o in eng.read(st.fork(), t, 'matrix')]
    return bool(ms) and component(eng, st, t, 'type') is C(1) and all(
        isinstance(o.value, Obj) and not differ(alg_of(o.st), components(
            eng, o.st, o.value), want) for o in ms)


def operations(ctx, eng, cls, lst, rows):
    p = ctx.p
    n = 0
    base = rows('')
    for size, st, ts, l in [
            (size,) + w for size in range(4)
            for w in lists(eng, cls, lst, base[:size] + rows('o')[3:5],
                           size)]:
        new, new2 = ts[size:]
        ts = ts[:size]
        its = items_of(eng, st, l)
        ctx.obl('construct', 'list of %d' % size, its == ts,
                'has other items', lst.where())

        def run(name, args, after, result=None, raises=None):
            fi = p.find_member(lst, name)[0]
            where = fi.where() if isinstance(fi, FuncInfo) else lst.where()
            k = 0
            outs = method_call(eng, st.fork(), l, name, args)
            lab = '%s(%s) on %d' % (name, ', '.join(
                show(a) for a in args if isinstance(a, Const)), size)
            ctx.obl('operation', lab, bool(outs), 'no result', where)
            for o in outs:
                k += 1
                if raises:
                    ctx.obl('operation', lab, exc_name(o) == raises,
                            'does not raise ' + raises, where)
                elif o.kind == 'raise':
                    ctx.bad('operation', lab, 'raises %s' % exc_name(o), where)
                    continue
                elif result is not None:
                    ctx.obl('operation', lab, o.value is result,
                            'returns %s' % show(o.value), where)
                got = items_of(eng, o.st, l)
                ctx.obl('operation', lab, got == after, 'leaves %s' % (
                    got and [('new' if x is new else 'new2' if x is new2 else
                              ts.index(x) if x in ts else '?')
                             for x in got]), where)
            return k

        n += run('append', [new], ts + [new])
        n += run('append_item', [new], ts + [new], new)
        n += run('initialize', [new], [new], new)
        n += run('clear', [], [])
        n += run('__len__', [], ts, C(size))
        for i in range(-size - 1, size + 2):
            exp = list(ts)
            exp.insert(i, new)
            n += run('insert', [C(i), new], exp)
            n += run('insert_item_before', [new, C(i)], exp, new)
            inside = -size <= i < size
            rep = list(ts)
            rem = list(ts)
            if inside:
                rep[i] = new
                del rem[i]
            err = None if inside else 'IndexError'
            item = ts[i] if inside else None
            n += run('__setitem__', [C(i), new], rep, None, err)
            n += run('replace_item', [new, C(i)], rep,
                     new if inside else None, err)
            n += run('__delitem__', [C(i)], rem, None, err)
            n += run('remove_item', [C(i)], rem, item, err)
            n += run('pop', [C(i)], rem, item, err)
            n += run('__getitem__', [C(i)], ts, item, err)
            n += run('get_item', [C(i)], ts, item, err)
        for a in ('length', 'number_of_items'):
            v = component(eng, st, l, a)
            ctx.obl('operation', '%s of %d' % (a, size), v is C(size),
                    'is %s' % (None if v is None else show(v)), lst.where())
        # several at once
        s2 = st.fork()
        more = eng._outside(lambda: eng.new_list(s2, [new, new2], lst.node))
        for s2, other, what, arg in [
                (s3, other) + c for s3, other in make(eng, lst, s2,
                                                      [new, new2])
                for c in (('a list', more), ('a transform list', other))]:
            for name in ('extend', '__iadd__'):
                for o in method_call(eng, s2.fork(), l, name, [arg]):
                    n += 1
                    ctx.obl('operation', '%s(%s) on %d' % (name, what, size),
                            o.kind == 'return' and items_of(
                                eng, o.st, l) == ts + [new, new2] and
                            (name == 'extend' or o.value is l),
                            'leaves other items', lst.where())
            for o in method_call(eng, s2.fork(), l, '__add__', [arg]):
                n += 1
                lab = 'list of %d + %s' % (size, what)
                ok = o.kind == 'return' and isinstance(o.value, Obj) and \
                    o.value is not l and o.value is not arg
                got = items_of(eng, o.st, o.value) if ok else None
                ctx.obl('operation', lab, got is not None and
                        len(got) == size + 2 and all(
                            alike(eng, o.st, x, y) for x, y in
                            zip(got, ts + [new, new2])),
                        'is not the concatenation', lst.where())
                ctx.obl('operation', lab, items_of(eng, o.st, l) == ts and
                        items_of(eng, o.st, other) == [new, new2],
                        'changes an operand', lst.where())
    return n


def histories(ctx, eng, cls, lst, rows):
    """Lists with an item twice, lists made of lists, items changed while
    they are in a list, slices."""
    p = ctx.p
    n = 0
    r1, r2, r3 = rows('')[1], rows('o')[4], rows('q')[2]
    f1, f2 = r1[5], r2[5]

    def after(o, l, want, what):
        ctx.obl('history', what, o.kind == 'return' and items_of(
            eng, o.st, l) == want, 'leaves other items' if o.kind ==
            'return' else 'raises %s' % exc_name(o), lst.where())

    def product(st, l, want, what):
        for o in eng.read(st.fork(), l, 'matrix'):
            ctx.obl('history', what, isinstance(o.value, Obj) and not differ(
                alg_of(o.st), components(eng, o.st, o.value), want),
                'is not the product of the matrices', lst.where())
    for st, (a, b, c) in transforms(eng, cls, State(), (r1, r2, r3)):
        for s, l in make(eng, lst, st, [a, b, a]):
            for i, want in ((0, [b, a]), (1, [a, a]), (2, [a, b]),
                            (-1, [a, b]), (-3, [b, a])):
                for name in ('remove_item', '__delitem__', 'pop'):
                    for o in method_call(eng, s.fork(), l, name, [C(i)]):
                        n += 1
                        after(o, l, want, '%s(%d) of an item that is there '
                              'twice' % (name, i))
                want = [a, b, a]
                want[i] = c
                for o in method_call(eng, s.fork(), l, 'replace_item',
                                     [c, C(i)]):
                    n += 1
                    after(o, l, want, 'replace_item(%d) of an item that is '
                          'there twice' % i)
            for i, j in ((0, 0), (0, 3), (1, 2), (1, 3), (2, 1), (-1, 3)):
                for new in ([], [c], [c, b]):
                    want = [a, b, a]
                    want[i:j] = new
                    for o in method_call(eng, s.fork(), l, '__setitem__', [
                            S('slicespec', C(i), C(j), NONE), T(new)]):
                        n += 1
                        after(o, l, want, 'assigning %d items to [%d:%d]' % (
                            len(new), i, j))
        for s, l in make(eng, lst, st, [a, a]):
            for o in method_call(eng, s.fork(), l, 'consolidate', []):
                n += 1
                its = items_of(eng, o.st, l)
                ctx.obl('history', 'consolidating a list of one item twice',
                        o.kind == 'return' and its is not None and
                        its == [o.value] and one(eng, o.st, its[0],
                                                 mul(f1, f1)),
                        'is not the product', lst.where())
        for s, l in make(eng, lst, st, [a, b]):
            # a list made of a list is another list
            for s2, k in build(eng, s.fork(), lst, [l], {}):
                after(one_of(s2), k, [a, b], 'list made of a list')
                for x, y, what in ((k, l, 'a copy'), (l, k, 'an original')):
                    for o in method_call(eng, s2.fork(), x, 'append', [c]):
                        n += 1
                        after(o, x, [a, b, c], what + ' that is changed')
                        after(o, y, [a, b], what + ' whose other is changed')
                    for o in method_call(eng, s2.fork(), x, 'clear', []):
                        n += 1
                        after(o, y, [a, b], what + ' whose other is cleared')
            # items changed, and lists changed, after a look at the matrix
            for o in eng.read(s.fork(), l, 'matrix'):
                if o.kind != 'return':
                    continue
                q = num(o.st, 'later')
                for o2 in method_call(eng, o.st.fork(), a, 'set_translate',
                                      [q]):
                    n += 1
                    product(o2.st, l, mul(factor(m41=q), f2),
                            'item changed after reading the matrix')
                for name, args, want in (
                        ('append', [a], mul(mul(f1, f2), f1)),
                        ('insert', [C(0), b], mul(f2, mul(f1, f2))),
                        ('pop', [C(0)], f2),
                        ('__setitem__', [C(0), b], mul(f2, f2)),
                        ('reverse', [], mul(f2, f1))):
                    for o2 in method_call(eng, o.st.fork(), l, name, args):
                        n += 1
                        product(o2.st, l, want, '%s after reading the matrix'
                                % name)
                # the matrix handed out is not part of the list
                if isinstance(o.value, Obj):
                    for o2 in method_call(eng, o.st.fork(), o.value,
                                          'translate_self', [q]):
                        n += 1
                        product(o2.st, l, mul(f1, f2),
                                'the matrix read before is changed')
    return n


def one_of(st):
    return Outcome('return', NONE, st, ())


def alike(eng, st, x, y):
    alg = alg_of(st)
    a, b = state_of(eng, st, x), state_of(eng, st, y)
    return a[0] is b[0] and isinstance(a[1], (list, tuple)) and \
        isinstance(b[1], (list, tuple)) and len(a[1]) == len(b[1]) and all(
            alg.equal(u, v) for u, v in zip(a[1], b[1]))


def types(ctx, eng, cls, lst, rows):
    p = ctx.p
    n = 0
    mcls = p.cls(MX + 'DOMMatrix')
    for st, ts, l in lists(eng, cls, lst, rows('')[:2] + rows('o')[3:4], 2):
        n += refused(ctx, eng, mcls, lst, st, ts, l)
    return n


def refused(ctx, eng, mcls, lst, st, ts, l):
    p = ctx.p
    n = 0
    new = ts.pop()
    st, m, _ = matrix(eng, mcls, True, 'm', st)
    for bad, what in ((C('rotate(1)'), 'a text'), (NONE, 'None'),
                      (m, 'a matrix'), (C(1), 'a number')):
        calls = [('append', [bad]), ('append_item', [bad]),
                 ('insert', [C(0), bad]), ('insert', [C(2), bad]),
                 ('insert_item_before', [bad, C(1)]),
                 ('replace_item', [bad, C(0)]),
                 ('__setitem__', [C(1), bad]),
                 ('__setitem__', [S('slicespec', C(0), C(1), NONE), bad])]
        s = st.fork()
        for seq in ([new, bad], [bad, new], [new, new, bad],
                    [new, bad, new]):
            for kind in ('list', 'tuple'):
                q = T(seq) if kind == 'tuple' else eng._outside(
                    lambda: eng.new_list(s, seq, lst.node))
                calls.append(('__setitem__', [
                    S('slicespec', C(0), C(2), NONE), q]))
        for name, args in calls:
            outs = method_call(eng, s.fork(), l, name, args)
            fi = p.find_member(lst, name)[0]
            where = fi.where() if isinstance(fi, FuncInfo) else lst.where()
            lab = '%s with %s' % (name, what)
            ctx.obl('type', lab, bool(outs), 'no result', where)
            for o in outs:
                n += 1
                ctx.obl('type', lab, exc_name(o) == 'TypeError',
                        'is accepted', where)
                ctx.obl('type', lab, items_of(eng, o.st, l) == ts,
                        'changes the list', where)
        for name in ('extend', '__iadd__', '__add__'):
            for seq in ([bad], [new, bad]):
                s2 = s.fork()
                q = eng._outside(lambda: eng.new_list(s2, seq, lst.node))
                for o in method_call(eng, s2, l, name, [q]):
                    n += 1
                    ctx.obl('type', '%s with %s' % (name, what),
                            exc_name(o) == 'TypeError', 'is accepted',
                            lst.where())
        res = eng._outside(lambda: eng.instantiate(lst, [q], {}, s2.fork(),
                                                   lst.node))
        for s3, v in res:
            n += 1
            ctx.obl('type', 'SVGTransformList of ' + what, isinstance(
                v, Raised) and v.cls is not None and
                v.cls.fq.endswith('TypeError'), 'is accepted', lst.where())
    return n

"""P01: path segments store, convert and write what their command means."""
import re

from ._path import *

EXPLANATION = (
    'Every path segment type is built with unknown values and interpreted. '
    'Setters: type letter and values are compared with the arguments in the '
    'order of the SVG grammar. Conversion to absolute, to the base set '
    '(M, L, C, Z) and mapping through a 2-D matrix are compared, as '
    'polynomials over trigonometric atoms of the bearing and the entries of '
    'the matrix, with the coordinates SVG defines (relative coordinates are '
    'rotated by the bearing and added to the current point; quadratic curves '
    'are raised to cubic ones). The text form is followed through the number '
    'formatter: command letter, then the values in order with separators in '
    'between. The number of values each command takes is read off the parser '
    'for every letter.')
ASSUMPTIONS = ['floating point rounding is not modelled',
               'rule G04 for the matrix operations used']
SETTERS = {'A': 'elliptical_arc', 'B': 'bearing', 'C': 'curveto',
           'H': 'horizontal_lineto', 'L': 'lineto', 'M': 'moveto',
           'Q': 'quadratic_curveto', 'S': 'smooth_curveto',
           'T': 'smooth_quadratic_curveto', 'V': 'vertical_lineto'}


def both(letters=LETTERS):
    for c in letters:
        yield c
        yield c.lower()


def check(ctx):
    p = ctx.p
    eng = ctx.engine(max_states=6000, mixins=True, keep_facts=True,
                     on_decide=by_algebra, loop_bound=4, recursion=2)
    cls = segment_class(p)
    n = setters(ctx, eng, cls)
    n += conversions(ctx, eng, cls)
    n += text(ctx, eng, cls)
    n += grammar(ctx, eng, cls)
    ctx.floor('exits compared', n, 200)


def setters(ctx, eng, cls):
    p = ctx.p
    n = 0
    for t in both():
        lab = "'%s'" % t
        vals = names(t, 'v')
        ways = []
        st = State()
        s, seg = segment(eng, st, cls, t, vals)
        ways.append(('constructor', s, seg))
        if t in 'Zz':
            pass
        else:
            st2, old = segment(eng, State(), cls, 'L', names('L', 'o'))
            for v in vals:
                num(st2, v.args[0])
            name = 'set_%s_%s' % (SETTERS[t.upper()],
                                  'abs' if t.isupper() else 'rel')
            for o in method_call(eng, st2, old, name, vals):
                if o.kind == 'raise':
                    ctx.bad('setter', name, 'raises', cls.where())
                else:
                    ways.append((name, o.st, old))
        for via, s, seg in ways:
            n += 1
            got = read_segment(eng, s, seg)
            alg = alg_of(s)
            want = [S('call', X('builtins.int'), v) if via != 'constructor'
                    and t in 'Aa' and i in (3, 4) else v
                    for i, v in enumerate(vals)]
            ok = got is not None and got[0] == t and (
                same_segment(alg, got, (t, want))
                or same_segment(alg, got, (t, vals)))
            ctx.obl('store', lab + ' by ' + via, ok, 'holds '
                    + show_segment(got), cls.where())
            for q, exp in (('isabsolute', t.isupper()),
                           ('isrelative', t.islower()), ('isvalid', True)):
                for o in method_call(eng, s.fork(), seg, q, []):
                    n += 1
                    ctx.obl('kind', '%s %s' % (lab, q), o.kind == 'return'
                            and eng.decide(o.st, o.value) is exp,
                            'is not %s' % exp, cls.where())
            e = sequence(eng, s, component(eng, s, seg, 'end'))
            up = t.upper()
            if up in 'BZ':
                exp = [NONE, NONE]
            elif up == 'H':
                exp = [vals[0], NONE if t == 'H' else ZERO]
            elif up == 'V':
                exp = [NONE if t == 'V' else ZERO, vals[0]]
            else:
                exp = vals[-2:]
            n += 1
            ctx.obl('end', lab, e is not None and len(e) == 2 and all(
                a is b if b is NONE else a is not NONE and alg.equal(a, b)
                for a, b in zip(e, exp)), 'is not the end point', cls.where())
    # comparison
    for a, b in (('L', 'L'), ('L', 'M')):
        st, x = segment(eng, State(), cls, a, names(a, 'v'))
        for pre in 'vo':
            s, y = segment(eng, st.fork(), cls, b, names(b, pre))
            for o in method_call(eng, s, x, '__eq__', [y]):
                n += 1
                d = eng.decide(o.st, o.value) if o.kind == 'return' else None
                ok = d is (a == b and pre == 'v') if (a != b or pre == 'v') \
                    else o.kind == 'return' and d is not True or all(
                        alg_of(o.st).equal(u, v) for u, v in zip(
                            names(a, 'v'), names(b, pre)))
                ctx.obl('equal', '%s and %s' % (a, b), ok, 'are compared '
                        'wrongly', cls.where())
    return n


def conversions(ctx, eng, cls):
    p = ctx.p
    ps = p.cls(PX + 'PathSegment')
    mcls = p.cls(MX + 'DOMMatrix')
    n = 0
    cp = (S('param', 'cpx'), S('param', 'cpy'))
    ctrl = (S('param', 'px1'), S('param', 'py1'))
    b = S('param', 'bearing')
    for t in both():
        vals = names(t, 'v')
        for bearing in (None, b):
            st = State()
            for v in cp + ctrl + (b,):
                num(st, v.args[0])
            st, seg = segment(eng, st, cls, t, vals)
            if bearing is None:
                args = [seg, cp[0], cp[1], ZERO]
            else:
                args = [seg, cp[0], cp[1], b]
                st.facts[S('eq', b, ZERO)] = False
            up, av = absolute(t, vals, cp, bearing)
            lab = "'%s' %s" % (t, 'with a bearing' if bearing else '')

            def compare(rule, outs, fi, want):
                k = 0
                if not outs:
                    ctx.bad(rule, lab, 'no result', fi.where())
                for o in outs:
                    k += 1
                    if o.kind == 'raise':
                        ctx.bad(rule, lab, 'raises ' + exc_name(o),
                                fi.where())
                        continue
                    if rule == 'normalize':
                        got = read_path(eng, o.st, o.value)
                        ok = got is not None and len(got) == len(want) and \
                            all(same_segment(alg_of(o.st), g, w)
                                for g, w in zip(got, want))
                    else:
                        got = read_segment(eng, o.st, o.value)
                        ok = any(same_segment(alg_of(o.st), got, w)
                                 for w in want)
                        got = [got]
                    ctx.obl(rule, lab, ok, 'gives %s' % (
                        None if got is None else [show_segment(g)
                                                  for g in got]), fi.where())
                return k
            outs, fi = call_static(eng, p, ps, 'toabsolute', args, {},
                                   st.fork())
            n += compare('toabsolute', outs, fi, [(up, av)])
            ctx.obl('toabsolute', lab, all(
                o.kind == 'raise' or o.value is not seg for o in outs),
                'is the segment itself', fi.where())
            if up != 'A':
                want = [] if up == 'B' else [as_cubic(up, av, cp, ctrl)]
                outs, fi = call_static(
                    eng, p, ps, 'normalize', args,
                    {'x1': ctrl[0], 'y1': ctrl[1]}, st.fork())
                n += compare('normalize', outs, fi, want)
            if up not in 'AB':
                s, m, comp = matrix(eng, mcls, True, 'm', st.fork())
                outs, fi = call_static(eng, p, ps, 'transform', args + [m],
                                       {}, s)
                n += compare('transform', outs, fi, mapped(up, av, cp, comp))
    return n


def through(comp, x, y):
    return (op('+', op('+', times(comp['m11'], x), times(comp['m21'], y)),
               comp['m41']),
            op('+', op('+', times(comp['m12'], x), times(comp['m22'], y)),
               comp['m42']))


def mapped(up, av, cp, comp):
    """The forms an absolute segment may have after a matrix."""
    if up == 'H':
        up, av = 'L', [av[0], cp[1]]
    elif up == 'V':
        up, av = 'L', [cp[0], av[0]]
    vals = list(av)
    for i, j in PAIRS.get(up, []):
        vals[i], vals[j] = through(comp, av[i], av[j])
    out = [(up, vals)]
    if up == 'Z':
        out.append(('z', vals))
    return out


def numbers_in(leaves, vals, zero):
    """Whether the leaves are the letter, then the values in order with
    separators in between."""
    seen = []
    gap = True
    for x in leaves[1:]:
        if isinstance(x, Const) and isinstance(x.v, str):
            if x.v in ('0', '-0'):
                seen.append(None)
                gap = False
            elif x.v.strip(' ,') == '':
                gap = gap or bool(x.v)
            elif x.v:
                return False
        elif x in vals:
            if not gap:
                return False
            seen.append(x)
            gap = False
    return len(seen) == len(vals) and all(
        a is v or a is None and v in zero for a, v in zip(seen, vals))


def text(ctx, eng, cls):
    n = 0
    fi, _ = ctx.p.find_member(cls, 'tostring')
    for t in both():
        vals = names(t, 'v')
        st, seg = segment(eng, State(), cls, t, vals)
        for o in method_call(eng, st, seg, 'tostring', []):
            n += 1
            lab = "'%s'" % t
            if o.kind == 'raise':
                ctx.bad('text', lab, 'raises ' + exc_name(o), fi.where())
                continue
            leaves = pieces(o.value)
            first = leaves[0].v if leaves and isinstance(
                leaves[0], Const) else None
            from sa.values import subterms
            zero = {v for v in vals for f, b in o.st.facts.items()
                    if b and isinstance(f, Sym) and f.op == 'eq'
                    and v in subterms(f.args[0])}
            ctx.obl('text', lab, first == t and numbers_in(
                leaves, vals, zero), 'reads %s' % [show(x) for x in leaves],
                fi.where())
    return n


def pieces(v):
    """The parts of a text term in order: constants and numbers (a number
    stands for its formatted text), the command letter split off."""
    from sa.values import subterms
    flat = []

    def walk(x):
        if isinstance(x, Const):
            flat.append(x)
            return
        if isinstance(x, Sym) and x.op in ('cat', 'concat'):
            for y in x.args:
                walk(y)
            return
        if isinstance(x, Sym) and x.op == 'op' and x.args[0] == '+':
            walk(x.args[1])
            walk(x.args[2])
            return
        ps = {y for y in subterms(x) if isinstance(y, Sym)
              and y.op == 'param'}
        flat.append(next(iter(ps)) if len(ps) == 1 else x)
    walk(v)
    out = []
    for x in flat:
        if isinstance(x, Const) and isinstance(x.v, str) and not out and \
                len(x.v) > 1:
            out.append(C(x.v[0]))
            x = C(x.v[1:])
        # a zero that was written as such stands between separators
        out.extend(C(y) for y in re.split('([ ,]+)', x.v) if y) \
            if isinstance(x, Const) and isinstance(x.v, str) and out else \
            out.append(x)
    return out


def grammar(ctx, eng, cls):
    p = ctx.p
    n = 0
    pp = p.cls(PX + 'PathParser')
    for t in both('ACHLMQSTVZ'):
        k = COUNT[t.upper()]
        nums = [str(i + 2) for i in range(2 * k)]
        text_ = t + ' '.join(nums)
        outs, fi = call_static(eng, p, pp, 'parse', [C(text_)], {}, State())
        for o in outs:
            n += 1
            got = read_path(eng, o.st, o.value) if o.kind == 'return' else \
                None
            want = [(t, [C(float(i + 2 + j * k)) for i in range(k)])
                    for j in range(2 if k else 1)]
            ctx.obl('values', "'%s'" % t, got is not None and len(got) ==
                    len(want) and all(same_segment(alg_of(o.st), g, w)
                                      for g, w in zip(got, want)),
                    'does not take %d values' % k, fi.where())
    for text_, want in TEXTS:
        outs, fi = call_static(eng, p, pp, 'parse', [C(text_)], {}, State())
        for o in outs:
            n += 1
            got = read_path(eng, o.st, o.value) if o.kind == 'return' else \
                None
            if got is not None and all(isinstance(v, Const) for _, vs in got
                                       for v in vs):
                got = [(t, *[v.v for v in vs]) for t, vs in got]
            ctx.obl('grammar', repr(text_), got == want, 'reads as %s' % (
                got,), fi.where())
    return n


# texts of path data and the commands in them; what does not make a whole
# set of values ends the command
TEXTS = [
    ('', []),
    ('  M1,2\tL\n3 4 ', [('M', 1, 2), ('L', 3, 4)]),
    ('M1-2', [('M', 1, -2)]),
    ('M+1+2', [('M', 1, 2)]),
    ('M.5.25', [('M', .5, .25)]),
    ('M1.5.25-.5-1', [('M', 1.5, .25), ('M', -.5, -1)]),
    ('M1e2-2E-1', [('M', 100, -.2)]),
    ('M1e+2,.5e1', [('M', 100, 5)]),
    ('M 1 , 2 3,4', [('M', 1, 2), ('M', 3, 4)]),
    ('M1 2L3 4 5', [('M', 1, 2), ('L', 3, 4)]),
    ('M1 2L3 4 5z', [('M', 1, 2), ('L', 3, 4), ('z',)]),
    ('M1 2C1 2 3 4 5', [('M', 1, 2)]),
    ('M1 2ZL3 4', [('M', 1, 2), ('Z',), ('L', 3, 4)]),
    ('m0 0h1v-1Hz', [('m', 0, 0), ('h', 1), ('v', -1), ('z',)]),
    ('M0 0zz', [('M', 0, 0), ('z',), ('z',)]),
    ('M10 20', [('M', 10, 20)]),
    ('M0,0A5,6 30 1 0 7,8', [('M', 0, 0), ('A', 5, 6, 30, 1, 0, 7, 8)]),
]

"""P03: the basic shapes are the paths SVG says they are."""
import itertools

from sa.values import BoundV

from ._path import *

EXPLANATION = (
    'get_computed_geometry and get_path_data of every basic shape are '
    'interpreted with every attribute missing, "auto" where SVG has it, or '
    'an unknown text, whose used value is an unknown number that depends on '
    'the text and on the axis percentages refer to. For every sign and order '
    'of sizes and radii (all weak orders, so that no comparison is left '
    'open) the path is compared, as polynomials, with the equivalent path of '
    'the SVG specification; attributes the specification does not name are '
    'not read. Points attributes are an unknown list of 0 to 4 pairs. '
    'Conversion to the base set must happen exactly when the settings ask '
    'for it, unless the path is in the base set already.')
ASSUMPTIONS = ['the used value of a length is SVGLength.value() (not '
               'decided here)', 'rule P02 for PathParser.normalize']
EX = 'svgpy.element.'
H, V, U = 1, 2, 0
AXIS = {'x': H, 'y': V, 'width': H, 'height': V, 'rx': H, 'ry': V, 'cx': H,
        'cy': V, 'r': U, 'x1': H, 'y1': V, 'x2': H, 'y2': V}
SHAPES = {
    'SVGRectElement': ['x', 'y', 'width', 'height', 'rx', 'ry'],
    'SVGCircleElement': ['cx', 'cy', 'r'],
    'SVGEllipseElement': ['cx', 'cy', 'rx', 'ry'],
    'SVGLineElement': ['x1', 'y1', 'x2', 'y2'],
}
ME = S('param', 'self')


def used(name):
    """The used value of a length attribute."""
    return S('param', 'len:%s:%s' % (name, AXIS[name]))


def called(fn):
    """(receiver, name) of a method the package does not define."""
    if isinstance(fn, BoundV):
        return fn.recv, fn.name
    if isinstance(fn, Sym) and fn.op == 'attr':
        return fn.args[0], fn.args[1]
    return None


class World:
    """Attributes, lengths and points of the element."""

    def __init__(self, p):
        self.p = p
        self.length = p.cls('svgpy.core.SVGLength')
        self.value, _ = p.find_member(self.length, 'value')
        self.eq, _ = p.find_member(self.length, '__eq__')
        self.get_value, _ = p.find_member(p.cls('svgpy.core.CSSUtils'),
                                          'get_value')
        pp = p.cls(PX + 'PathParser')
        self.normalize, _ = p.find_member(pp, 'normalize')
        self.parse, _ = p.find_member(pp, 'parse')
        self.attrs = {}
        self.points = None
        self.order = None
        self.normalized = []

    def attr(self, st, name, default):
        v = self.attrs.get(name)
        if v is None:
            return default
        return v

    def decide(self, eng, st, v):
        return self.order(eng, st, v) if self.order is not None else None

    def __call__(self, eng, fn, args, kw, st, node):
        fi = getattr(fn, 'fi', None)
        if called(fn) == (ME, 'get') and args:
            k = args[0]
            if isinstance(k, Const):
                d = args[1] if len(args) > 1 else kw.get('default', NONE)
                return [(st, self.attr(st, k.v, d))]
        if fi is self.get_value and len(args) > 1 and \
                isinstance(args[1], Const):
            d = args[2] if len(args) > 2 else kw.get('default', NONE)
            v = self.attr(st, args[1].v, d)
            if v is C('auto') or isinstance(v, Const) and v.v == 'auto':
                v = C('0')
            return [(st, T([v, args[0]]))]
        if isinstance(fn, ClsV) and fn.ci is self.length:
            val = args[0] if args else kw.get('value', NONE)
            d = args[3] if len(args) > 3 else kw.get('direction', NONE)
            v = S('svglen', val, d)
            st.types[v] = (self.length, True)
            return [(st, v)]
        recv = getattr(fn, 'recv', None)
        if fi is self.value and isinstance(recv, Sym) and \
                recv.op == 'svglen':
            return [(st, self.number(st, recv, kw))]
        if fi is self.eq and isinstance(recv, Sym) and recv.op == 'svglen' \
                and isinstance(args[0], Sym) and args[0].op == 'svglen':
            return [(st, S('eq', self.number(st, recv, {}),
                           self.number(st, args[0], {})))]
        if fi is self.normalize:
            self.normalized.append(args[0])
            return [(st, S('normalized', args[0]))]
        if fi is self.parse:
            return [(st, S('parsed', args[0]))]
        if self.points is not None and called(fn) and \
                called(fn)[1] in ('finditer', 'group'):
            if called(fn)[1] == 'finditer':
                ms = [S('param', 'match%d' % i) for i in range(self.points)]
                return [(st, eng.new_list(st, ms, node))]
            m = called(fn)[0]
            if isinstance(m, Sym) and m.op == 'param':
                t = S('param', m.args[0].replace('match', 'number'))
                st.types[t] = (ExtClass('builtins.str'), True)
                return [(st, t)]
        return None

    def number(self, st, ln, kw):
        val, d = ln.args
        d = kw.get('direction', d)
        if isinstance(val, Const) and isinstance(val.v, str):
            try:
                return C(float(val.v))
            except ValueError:
                return S('param', 'len of %s' % val.v)
        if isinstance(val, Sym) and val.op == 'param' and \
                str(val.args[0]).startswith('@'):
            return num(st, 'len:%s:%s' % (
                val.args[0][1:], d.v if isinstance(d, Const) else '?'))
        return val


def element(ctx, cls, names_, auto=(), missing=()):
    st = State()
    st.types[ME] = (cls, False)
    attrs = {}
    for n in names_:
        if n in missing:
            continue
        if n in auto:
            attrs[n] = C('auto')
            continue
        t = S('param', '@' + n)
        st.types[t] = (ExtClass('builtins.str'), True)
        st.facts[t] = True
        for word in ('auto', 'none', 'inherit'):
            st.facts[S('eq', t, C(word))] = False
        st.facts[S('is', t, NONE)] = False
        attrs[n] = t
    return st, attrs


def check(ctx):
    p = ctx.p
    w = World(p)
    eng = ctx.engine(max_states=6000, mixins=True, keep_facts=True,
                     loop_bound=8, on_call=w,
                     on_decide=lambda e, s, v: w.decide(e, s, v))
    n = 0
    for name, attrs in SHAPES.items():
        n += shape(ctx, eng, w, p.cls(EX + name), attrs)
    for name in ('SVGPolygonElement', 'SVGPolylineElement'):
        n += pointed(ctx, eng, w, p.cls(EX + name))
    n += pathed(ctx, eng, w, p.cls(EX + 'SVGPathElement'))
    ctx.floor('paths compared', n, 150)


def amounts(attrs, given):
    """name -> used value, before clamping; None: auto"""
    out = {}
    for a in attrs:
        g = given.get(a)
        if g is None or isinstance(g, Const):
            out[a] = None if a in ('rx', 'ry') else ZERO
        else:
            out[a] = used(a)
    if 'rx' in out:
        x, y = out['rx'], out['ry']
        out['rx'] = x if x is not None else y if y is not None else ZERO
        out['ry'] = y if y is not None else x if x is not None else ZERO
    return out


def half(v):
    return op('/', v, C(2))


def cases(cls, val):
    """(label, Order) for all signs and orders of sizes and radii."""
    if cls.name == 'SVGLineElement':
        same = ('same', 'different')
        for a, b in itertools.product(same, same):
            yield 'x %s, y %s' % (a, b), Order(
                [(val['x1'], 0), (val['x2'], 0 if a == 'same' else 1)],
                [(val['y1'], 0), (val['y2'], 0 if b == 'same' else 1)])
        return
    sizes = {'SVGRectElement': ['width', 'height'],
             'SVGCircleElement': ['r'],
             'SVGEllipseElement': ['rx', 'ry']}[cls.name]
    for signs in itertools.product((-1, 0, 1), repeat=len(sizes)):
        if any(isinstance(val[s], Const) and r for s, r in zip(
                sizes, signs)):
            continue
        if len(sizes) == 2 and val[sizes[0]] is val[sizes[1]] and \
                signs[0] != signs[1]:
            continue
        groups = [[(ZERO, 0), (val[s], r)] for s, r in zip(sizes, signs)]
        lab = ', '.join('%s %s' % (s, {-1: 'negative', 0: 'zero',
                                       1: 'positive'}[r])
                        for s, r in zip(sizes, signs))
        if 'width' not in sizes or min(signs) < 1:
            yield lab, Order(*groups)
            continue
        a, b = half(val['width']), half(val['height'])
        if val['rx'] is val['ry']:
            r = val['rx']
            for q in weak_orders(4):
                if q[0] < q[1] and q[0] < q[2] and (
                        not isinstance(r, Const) or q[3] == q[0]):
                    yield '%s, order %s' % (lab, q), Order(
                        *groups, list(zip((ZERO, a, b, r), q)))
        else:
            for q in weak_orders(3):
                for s in weak_orders(3):
                    if q[0] < q[1] and s[0] < s[1]:
                        yield '%s, orders %s %s' % (lab, q, s), Order(
                            *groups, list(zip((ZERO, a, val['rx']), q)),
                            list(zip((ZERO, b, val['ry']), s)))


def sign(order, v):
    alg = order.alg
    return alg.sign(alg.poly(v))


def clamp(order, r, size):
    alg = order.alg
    s = alg.sign(alg.sub(alg.poly(r), alg.poly(half(size))))
    return half(size) if s is not None and s > 0 else r


def expected(cls, order, v):
    """(geometry, path) by the SVG specification."""
    v = dict(v)
    add = lambda a, b: op('+', a, b)  # noqa: E731
    sub = lambda a, b: op('-', a, b)  # noqa: E731

    def positive(x):
        return not (isinstance(x, Const) and x.v <= 0) and \
            (sign(order, x) or 0) > 0
    if cls.name == 'SVGLineElement':
        path = [('M', [v['x1'], v['y1']]), ('L', [v['x2'], v['y2']])]
        if order.equal(v['x1'], v['x2']) and order.equal(v['y1'], v['y2']):
            path = []
        return v, path

    def arc(x, y):
        return 'A', [rx, ry, ZERO, ZERO, ONE, x, y]
    if cls.name in ('SVGCircleElement', 'SVGEllipseElement'):
        cx, cy = v['cx'], v['cy']
        rx = v.get('rx', v.get('r'))
        ry = v.get('ry', v.get('r'))
        if not (positive(rx) and positive(ry)):
            return v, []
        return v, [('M', [add(cx, rx), cy]), arc(cx, add(cy, ry)),
                   arc(sub(cx, rx), cy), arc(cx, sub(cy, ry)),
                   arc(add(cx, rx), cy), ('Z', [])]
    x, y, w, h = v['x'], v['y'], v['width'], v['height']
    if not (positive(w) and positive(h)):
        return None, []
    rx = v['rx'] = clamp(order, v['rx'], w)
    ry = v['ry'] = clamp(order, v['ry'], h)
    r, b = add(x, w), add(y, h)
    if positive(rx) and positive(ry):
        return v, [('M', [add(x, rx), y]), ('H', [sub(r, rx)]),
                   arc(r, add(y, ry)), ('V', [sub(b, ry)]),
                   arc(sub(r, rx), b), ('H', [add(x, rx)]),
                   arc(x, sub(b, ry)), ('V', [add(y, ry)]),
                   arc(add(x, rx), y), ('Z', [])]
    return v, [('M', [x, y]), ('H', [r]), ('V', [b]), ('H', [x]),
               ('V', [y]), ('Z', [])]


def base_set(path):
    """Whether a path is in the base set; its lines written out."""
    return all(t in 'MLCZ' for t, _ in path)


def lined(path):
    """H and V written as lines."""
    w = Walk()
    out = []
    for t, v in path:
        if t in 'HV':
            out.append(as_cubic(t, v, w.cp, None))
        else:
            out.append((t, v))
        w.step(t, v)
    return out


def same_path(order, got, want):
    """Equal, up to lines written as H or V and a closing line."""
    if got is None:
        return False

    def plain(ps):
        ps = lined(ps)
        w = Walk()
        out = []
        for i, (t, v) in enumerate(ps):
            if t == 'L' and i + 1 < len(ps) and ps[i + 1][0] == 'Z' and \
                    w.start is not None and all(
                        order.equal(a, b) for a, b in zip(v, w.start)):
                w.step(t, v)
                continue
            w.step(t, v)
            out.append((t, v))
        return out
    got, want = plain(got), plain(want)
    return len(got) == len(want) and all(
        g[0] == t[0] and len(g[1]) == len(t[1]) and all(
            order.equal(a, b) for a, b in zip(g[1], t[1]))
        for g, t in zip(got, want))


def settings(eng, ctx, st, normalize):
    res = build(eng, st, ctx.p.cls('svgpy.base.SVGPathDataSettings'), [], {})
    out = []
    for s, o in res:
        for s2, _ in eng._outside(lambda: eng.setattr_(
                s, o, 'normalize', C(normalize), None)):
            out.append((s2, o))
    return out


def ways(eng, ctx, st):
    yield 'no settings', st.fork(), [], False
    yield 'settings None', st.fork(), [NONE], False
    for flag_ in (False, True):
        for s, o in settings(eng, ctx, st.fork(), flag_):
            yield 'normalize %s' % flag_, s, [o], flag_


def results(ctx, eng, w, st, cls, lab, order, want):
    fi, _ = ctx.p.find_member(cls, 'get_path_data')
    n = 0
    for way, s, args, norm in ways(eng, ctx, st):
        about = '%s %s' % (cls.name, lab)
        outs = method_call(eng, s, ME, 'get_path_data', args)
        if not outs:
            ctx.bad('path', about, 'no result', fi.where())
        for o in outs:
            n += 1
            if o.kind == 'raise':
                ctx.bad('path', about, 'raises %s' % exc_name(o), fi.where())
                continue
            v = o.value
            done = isinstance(v, Sym) and v.op == 'normalized'
            got = read_path(eng, o.st, v.args[0] if done else v)
            ctx.obl('path', about, same_path(order, got, want),
                    'is %s' % (got and [show_segment(g) for g in got]),
                    fi.where())
            if got is not None:
                ctx.obl('base set', '%s %s' % (cls.name, way),
                        done == norm or base_set(got) and not done or
                        base_set(got) and norm,
                        'is %sconverted' % ('' if done else 'not '),
                        fi.where())
    return n


def shape(ctx, eng, w, cls, attrs):
    n = 0
    if 'rx' in attrs:
        rest = [a for a in attrs if a not in ('rx', 'ry')]
        kinds = []
        for a, b in itertools.product(('given', 'auto', 'missing'),
                                      repeat=2):
            kinds.append(({x for x, k in (('rx', a), ('ry', b))
                           if k == 'auto'},
                          {x for x, k in (('rx', a), ('ry', b))
                           if k == 'missing'}))
        kinds.append((set(), set(rest)))
        if 'width' in attrs:
            kinds.append(({'width'}, set()))
            kinds.append(({'height'}, set()))
    else:
        kinds = [(set(), set())] + [(set(), {a}) for a in attrs]
    gfi, _ = ctx.p.find_member(cls, 'get_computed_geometry')
    for auto, missing in kinds:
        st, given = element(ctx, cls, attrs, auto, missing)
        w.attrs = given
        val = amounts(attrs, given)
        for a in attrs:
            if isinstance(val[a], Sym):
                num(st, val[a].args[0])
        for lab, order in cases(cls, val):
            w.order = order
            geo, path = expected(cls, order, val)
            about = '; '.join(
                ['auto ' + ' '.join(sorted(auto))] * bool(auto)
                + ['no ' + ' '.join(sorted(missing))] * bool(missing)
                + [lab])
            n += results(ctx, eng, w, st, cls, about, order, path)
            if geo is None:
                continue
            for o in method_call(eng, st.fork(), ME,
                                 'get_computed_geometry', []):
                n += 1
                lab2 = '%s %s' % (cls.name, about)
                if o.kind == 'raise':
                    ctx.bad('geometry', lab2, 'raises %s' % exc_name(o),
                            gfi.where())
                    continue
                got = entries(eng, o.st, o.value)
                bad = [a for a in geo if got is None or a not in got
                       or not order.equal(got[a], geo[a])]
                ctx.obl('geometry', lab2, not bad, 'has wrong %s: %s' % (
                    ' '.join(bad), [show(got[a]) for a in bad if got
                                    and a in got]), gfi.where())
        w.order = None
    return n


def entries(eng, st, v):
    c = eng.cont(st, v) if isinstance(v, Obj) else None
    if c is None or c[0] != 'dict':
        return None
    return {k.v: x for k, x in c[1] if isinstance(k, Const)}


def pointed(ctx, eng, w, cls):
    n = 0
    closed = cls.name == 'SVGPolygonElement'
    st, given = element(ctx, cls, ['points'])
    plain = Order()
    for k in (None, 0, 1, 2, 3, 4):
        w.attrs = given if k is not None else {}
        w.points = 2 * (k or 0)
        pts = [S('call', X('builtins.float'), S('param', 'number%d' % i))
               for i in range(2 * (k or 0))]
        want = []
        for i in range(k or 0):
            want.append(('L' if i else 'M', pts[2 * i:2 * i + 2]))
        if closed and len(want) > 1:
            want.append(('Z', []))
        lab = 'no points' if k is None else '%d points' % k
        n += results(ctx, eng, w, st, cls, lab, plain, want)
    w.points = None
    return n


def pathed(ctx, eng, w, cls):
    n = 0
    fi, _ = ctx.p.find_member(cls, 'get_path_data')
    for kind in ('missing', 'none', 'given'):
        st, given = element(ctx, cls, ['d'], missing=['d'] * (
            kind != 'given'))
        if kind == 'none':
            given['d'] = C('none')
        elif kind == 'given':
            ln = S('call', X('builtins.len'), given['d'])
            st.facts[S('eq', ln, C(0))] = False
        w.attrs = given
        for way, s, args, norm in ways(eng, ctx, st):
            for o in method_call(eng, s, ME, 'get_path_data', args):
                n += 1
                v = o.value if o.kind == 'return' else None
                if kind != 'given':
                    ok = sequence(eng, o.st, v) == [] if v is not None \
                        else False
                else:
                    if norm:
                        ok = isinstance(v, Sym) and v.op == 'normalized'
                        v = v.args[0] if ok else v
                    else:
                        ok = True
                    ok = ok and isinstance(v, Sym) and v.op == 'parsed' \
                        and v.args[0] is given['d']
                ctx.obl('path', '%s d %s, %s' % (cls.name, kind, way), ok,
                        'is %s' % show(o.value), fi.where())
    return n

"""P02: reading a path keeps track of the current point, the start of the
subpath, the bearing and the control point of smooth curves."""
import re

from sa import arrays
from ._path import *
from .p01 import both, through

EXPLANATION = (
    'Sequences of path segments with unknown coordinates are interpreted '
    'through the operations that read whole paths, and compared with a '
    'reading of the same sequence by the rules of SVG. Conversion to the '
    'base set must give the same segments, mapping through a 2-D matrix a '
    'path that reads as the mapped base set, and the total length the sum of '
    'the lengths of the base set, subpaths closed by straight lines; all '
    'compared as polynomials in the coordinates. A run of movetos is one '
    'moveto followed by lines, as everywhere in the library. The centre of '
    'an arc is not computed: the three outcomes SVG distinguishes (straight '
    'line, nothing, curve) are assumed in turn, and the point where the arc '
    'ends is what counts. The text of a sequence reads as the same '
    'commands: texts of paths with known coordinates are read back by the '
    'grammar of SVG.')
ASSUMPTIONS = ['floating point rounding is not modelled',
               'rule P01 for single segments',
               'the shape of arcs is not decided']
CURVES = 'CcSsQqTt'
# a bearing ends a curve, but leaves no trace in the mapped path
RESTARTED = re.compile('[CScs][Bb]+[Ss]|[QTqt][Bb]+[Tt]')


def sequences(thorough):
    """Letters of the paths that are read."""
    every = list(both())
    for a in every:
        for b in every:
            yield 'M' + a + b
    for a in every:
        for b in every:
            if a not in 'BbZz':
                yield 'M' + a + 'Z' + b
    for a in CURVES + 'LlAZ':
        for b in CURVES + 'HvAz':
            for c in 'sStTlh':
                yield 'M' + a + b + c
    for a in 'Bb':
        for b in 'Bb':
            for c in 'lhcZ':
                yield 'M' + a + b + c
                yield 'M' + a + c + b + 'l'
    for a in 'MmLlHhVvCcSs':
        yield 'm' + a + 'l' + 'z' + 'l'
        yield 'M' + 'b' + a + 'b' + a
        yield 'MLM' + a + 'zt'
        yield 'MLZM' + a + 'zs'
        yield 'MLz' + a + 'zl'
    if thorough:
        for a in every:
            for b in every:
                for c in every:
                    yield 'M' + a + b + c


class Arcs:
    """Stands in for the computation of the centre of an arc."""

    def __init__(self, fi, curve):
        self.fi = fi
        self.curve = curve
        self.case = None

    def __call__(self, eng, fn, args, kw, st, node):
        if getattr(fn, 'fi', None) is self.curve and fn.recv is not None:
            pts = control_points(eng, st, fn.recv, node)
            if pts is not None:
                v = S('length', *pts)
                st.types[v] = (ExtClass('builtins.float'), True)
                return [(st, v)]
        if self.case is None or getattr(fn, 'fi', None) is not self.fi:
            return None
        none3 = T([NONE, NONE, NONE])
        if self.case == 'line':
            return [(st, T([T([NONE, NONE]), T([ZERO, ZERO]), none3]))]
        if self.case == 'nothing':
            return [(st, T([T([NONE, NONE]), T([ONE, ONE]), none3]))]
        vals = []
        for k in ('cx', 'cy', 'rx', 'ry'):
            v = num(st, 'arc' + k)
            vals.append(v)
        return [(st, T([T(vals[:2]), T(vals[2:]), T([
            C(0), C(self.case), C(self.case)])]))]


def control_points(eng, st, curve, node):
    """x0 y0 ... x3 y3 of a curve, from its coefficients."""
    outs = eng.call_method(st.fork(), curve, 'get_coefficients', [], {}, node)
    if len(outs) != 1 or isinstance(outs[0][1], Raised):
        return None
    s, v = outs[0]
    parts = sequence(eng, s, v)
    if parts is None or len(parts) != 4:
        return None
    abcd = [array_items(eng, s, x) for x in parts]
    if any(x is None or len(x) != 2 for x in abcd):
        return None
    third = C(1 / 3)
    pts = []
    for i in range(2):
        a, b, c, d = [x[i] for x in abcd]
        p1 = op('+', d, op('*', third, c))
        p2 = op('+', d, op('*', third, op('+', b, times(2, c))))
        pts.append([d, p1, p2, op('+', op('+', a, b), op('+', c, d))])
    return [v for xy in zip(*pts) for v in xy]


def array_items(eng, st, v):
    if isinstance(v, Obj) and arrays.is_array(v):
        r = arrays.shape_items(eng, st, v)
        return list(r[1]) if r is not None else None
    return sequence(eng, st, v)


def check(ctx):
    p = ctx.p
    ps, pp = p.cls(PX + 'PathSegment'), p.cls(PX + 'PathParser')
    centre, _ = p.find_member(ps, 'get_center_of_arc')
    arcs = Arcs(centre, p.find_member(p.cls(PX + 'CubicBezierCurve'),
                                      'get_length')[0])
    eng = ctx.engine(max_states=6000, mixins=True, keep_facts=True,
                     on_decide=by_algebra, loop_bound=4, recursion=2,
                     on_call=arcs)
    cls = segment_class(p)
    n = 0
    seen = set()
    for seq in sequences(ctx.thorough):
        if seq in seen:
            continue
        seen.add(seq)
        cases = [None]
        if 'A' in seq or 'a' in seq:
            cases = ['line', 'nothing', 60.0] + (
                [-150.0] if len(seq) == 3 else [])
        for case in cases:
            n += one(ctx, eng, cls, ps, pp, arcs, seq, case)
    n += texts(ctx, eng, cls, pp)
    ctx.floor('paths read', n, 3000)


NUMBER = re.compile(r'[+-]?(?:\d+\.?\d*|\.\d+)(?:[Ee][+-]?\d+)?')


def svg_reading(text):
    """[(letter, values)] of a text by the SVG grammar, or None."""
    out = []
    for m in re.finditer('([A-Za-df-z])([^A-Za-df-z]*)', text):
        t, rest = m.groups()
        vals = [float(x) for x in NUMBER.findall(rest)]
        if NUMBER.sub('', rest).strip(' ,'):
            return None
        k = COUNT.get(t.upper())
        if k is None or (len(vals) if k == 0 else not vals or len(vals) % k):
            return None
        for i in range(max(1, len(vals) // k if k else 1)):
            out.append((t, vals[i * k:(i + 1) * k]))
    return out


def spelled(path):
    """A run of movetos is a moveto followed by lines; closing a closed
    path does nothing."""
    out = []
    last = None
    for t, vals in path:
        if t in 'Zz' and last is not None and last in 'Zz':
            continue
        out.append(({'M': 'L', 'm': 'l'}[t] if t in 'Mm' and last is not None
                    and last in 'Mm' else t, vals))
        last = t
    return out


def texts(ctx, eng, cls, pp):
    """The text of a path reads as its commands."""
    n = 0
    every = list(both())
    seqs = ['M' + a + b for a in every for b in every] + [
        a for a in every] + ['', 'mmm', 'MMM', 'mlL', 'MzM', 'zZz', 'MLLLL',
        'MLM', 'MLm', 'mlm', 'MMLM', 'mLmL', 'MlLl', 'MmL', 'mMl']
    for seq in seqs:
        st = State()
        segs, want = [], []
        k = 1
        for t in seq:
            vals = []
            for i in range(COUNT[t.upper()]):
                vals.append([k, -k, k + .5, 1, -.25][(k + len(seq)) % 5])
                k += 1
            if t in 'Aa':
                vals[3:5] = [k % 2, 1]
            st, s = segment(eng, st, cls, t, [C(v) for v in vals])
            segs.append(s)
            want.append((t, [float(v) for v in vals]))
        lst = eng._outside(lambda: eng.new_list(st, segs, cls.node))
        outs, fi = call_static(eng, ctx.p, pp, 'tostring', [lst], {}, st)
        for o in outs:
            n += 1
            got = None
            if o.kind == 'return' and isinstance(o.value, Const) and \
                    isinstance(o.value.v, str):
                got = svg_reading(o.value.v)
            ctx.obl('text', seq or 'no command', got is not None and
                    spelled(got) == spelled(want), 'reads %s' % (
                        show(o.value) if o.kind == 'return' else
                        'nothing: raises'), fi.where())
    return n


def one(ctx, eng, cls, ps, pp, arcs, seq, case):
    st = State()
    segs = []
    src = []
    ref = Walk()
    walk = []          # (absolute, cubic, point before)
    for i, t in enumerate(seq):
        vals = names(t, 'abcdefgh'[i])
        if t in 'Aa' and case == 'nothing':
            # ends where it begins
            vals[5:] = list(ref.cp) if t == 'A' else [ZERO, ZERO]
        st, s = segment(eng, st, cls, t, vals)
        segs.append(s)
        src.append((t, vals))
        before = ref.cp
        ab, cu = ref.step(t, vals)
        walk.append((ab, cu, before))
    lst = eng._outside(lambda: eng.new_list(st, segs, cls.node))
    arcs.case = case
    lab = seq
    try:
        n = normalized(ctx, eng, pp, st, lst, walk, lab, case)
        if case in (None, 'line'):
            n += transformed(ctx, eng, pp, st, lst, walk, lab)
        if case in (None, 'line', 'nothing'):
            n += length(ctx, eng, pp, st, lst, walk, lab, case)
    finally:
        arcs.case = None
    return n


def want_of(walk, case):
    """The base set, arcs as (letter None, end point)."""
    out = []
    for (t, v), cu, before in walk:
        if t == 'B':
            continue
        if t == 'A':
            if case == 'line':
                out.append(('L', v[5:]))
            elif case != 'nothing':
                out.append((None, v[5:]))
            continue
        out.append(cu)
    return out


def alike(alg, got, want):
    i = 0
    for w in want:
        if w[0] is None:
            # cubic curves up to the one that ends the arc
            while i < len(got) and got[i][0] == 'C' and not all(
                    alg.equal(a, b) for a, b in zip(got[i][1][4:], w[1])):
                i += 1
            if i == len(got) or got[i][0] != 'C':
                return False
        elif i == len(got) or not same_segment(alg, got[i], w):
            return False
        i += 1
    return i == len(got)


def shape(path):
    return 'nothing readable' if path is None else ' '.join(
        show_segment(s) for s in path)


def normalized(ctx, eng, pp, st, lst, walk, lab, case):
    outs, fi = call_static(eng, ctx.p, pp, 'normalize', [lst], {}, st.fork())
    want = want_of(walk, case)
    n = 0
    if not outs:
        ctx.bad('normalize', lab, 'no result', fi.where())
    for o in outs:
        n += 1
        if o.kind == 'raise':
            ctx.bad('normalize', lab, 'raises ' + str(exc_name(o)),
                    fi.where())
            continue
        got = read_path(eng, o.st, o.value)
        ctx.obl('normalize', lab, got is not None and alike(
            alg_of(o.st), got, want), 'gives ' + shape(got), fi.where())
    return n


def transformed(ctx, eng, pp, st, lst, walk, lab):
    s, m, comp = matrix(eng, ctx.p.cls(MX + 'DOMMatrix'), True, 'm',
                        st.fork())
    outs, fi = call_static(eng, ctx.p, pp, 'transform', [lst, m], {}, s)
    want = []
    arcs_ = []
    for (t, v), cu, before in walk:
        if t == 'B':
            continue
        if t == 'A':
            want.append(('A', list(through(comp, *v[5:]))))
            arcs_.append(v)
            continue
        vals = list(cu[1])
        for i in range(0, len(vals), 2):
            vals[i], vals[i + 1] = through(comp, vals[i], vals[i + 1])
        want.append((cu[0], vals))
    n = 0
    if not outs:
        ctx.bad('transform', lab, 'no result', fi.where())
    for o in outs:
        n += 1
        if o.kind == 'raise':
            ctx.bad('transform', lab, 'raises ' + str(exc_name(o)),
                    fi.where())
            continue
        got = read_path(eng, o.st, o.value)
        ok = got is not None
        if ok:
            ref = Walk()
            read = []
            for t, v in got:
                if len(v) != COUNT[t.upper()]:
                    ok = False
                    break
                ab, cu = ref.step(t, v)
                if ab[0] == 'A':
                    cu = ('A', ab[1][5:])
                if cu is not None:
                    read.append(cu)
            alg = alg_of(o.st)
            ok = ok and len(read) == len(want) and all(
                same_segment(alg, g, w) for g, w in zip(read, want))
        about = lab
        if RESTARTED.search(lab):
            about = 'smooth curve after a bearing'
        ctx.obl('transform', about, ok, 'gives ' + shape(got), fi.where())
        if ok and arcs_ and lab in ('MAL', 'MaL'):
            alg = alg_of(o.st)
            kept = [g[1] for g in got if g[0] in 'Aa']
            ctx.obl('transform', 'radii of an arc', not all(
                alg.equal(a, b) for g, v in zip(kept, arcs_)
                for a, b in zip(g[:2], v[:2])),
                'are not mapped', fi.where())
    return n


def length(ctx, eng, pp, st, lst, walk, lab, case):
    outs, fi = call_static(eng, ctx.p, pp, 'get_total_length', [lst], {},
                           st.fork())
    n = 0
    if not outs:
        ctx.bad('length', lab, 'no result', fi.where())
    for o in outs:
        n += 1
        if o.kind == 'raise':
            ctx.bad('length', lab, 'raises ' + str(exc_name(o)), fi.where())
            continue
        s = o.st.fork()
        total = ZERO
        last = None
        start = None
        for (t, v), cu, (x0, y0) in walk:
            one_ = None
            if t == 'A':
                cu = ('L', v[5:])
            if t == 'B':
                last = t
                continue
            if cu[0] == 'M':
                if last != 'M':
                    start = cu[1]
                else:
                    one_ = line(x0, y0, *cu[1])
            elif cu[0] == 'L':
                one_ = line(x0, y0, *cu[1])
            elif cu[0] == 'Z':
                one_ = line(x0, y0, *start)
            else:
                pts = [x0, y0] + list(cu[1])
                one_ = S('length', *pts)
            if one_ is not None:
                total = op('+', total, one_)
            last = t
        alg = lengths(eng, s)
        try:
            ok = alg.equal(o.value, total)
        except NotNumber:
            ok = False
        ctx.obl('length', lab, ok, 'is %s' % show(o.value), fi.where())
    return n


def line(x0, y0, x, y):
    return S('call', X('math.hypot'), op('-', x, x0), op('-', y, y0))


def lengths(eng, st):
    """Algebra where a length is an atom over the coordinates' normal
    forms."""
    alg = alg_of(st)

    def conv(v):
        if isinstance(v, Sym) and v.op == 'length':
            return alg.atom('length', *[alg.key(alg.poly(x))
                                        for x in v.args])
        return None
    alg.conv = conv
    return alg

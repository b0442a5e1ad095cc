"""L01: lengths in any unit stand for the length the CSS tables give."""
from ._path import *
from .p03 import called

EXPLANATION = (
    'SVGLength is constructed with an unknown number in every supported unit '
    'and value(), convert() and tostring() are interpreted for every target '
    'unit, every percentage direction, without an element and with one whose '
    'parent, view box, viewport, font and root font size are unknown. Each '
    'result is compared, in polynomial normal form, with the quotient of the '
    'two unit sizes of the CSS Values tables (absolute units, em, rem, ex, '
    'cap, ch, ic, viewport units with the least and greatest side, '
    'percentages of width, height, normalized diagonal or font size, '
    'resolutions). Resolutions and lengths must not convert to each other. '
    'Every unit belongs to exactly one of the absolute, relative and '
    'resolution groups.')
ASSUMPTIONS = ['the number formatter (tostring) formats the number it is '
               'given', 'Decimal and float rounding is not modelled',
               'conversion to ex, cap, ch and ic with an element is not '
               'decided (it loads the font again at another size)']

CX = 'svgpy.core.'
ABS = {None: 1, '': 1, 'px': 1, 'in': 96, 'cm': ('/', 96, '2.54'),
       'mm': ('/', 96, '25.4'), 'q': ('/', 96, '101.6'),
       'pt': ('/', 96, 72), 'pc': 16}
RES = {'dpi': 1, 'dpcm': '2.54', 'dppx': 96}
FONT = {'ex': 'x_height', 'cap': 'cap_height', 'ch': 'ch_advance',
        'ic': 'ic_advance'}
VIEW = ['vw', 'vh', 'vmin', 'vmax']
UNITS = list(ABS) + ['em', 'rem', '%'] + list(FONT) + VIEW + list(RES)
ME = S('param', 'element')
PARENT = S('param', 'parent')
ROOT = S('param', 'root')
FONTOBJ = S('param', 'font')
H, V, U = 1, 2, 0


def const(x):
    if isinstance(x, tuple):
        return op(x[0], const(x[1]), const(x[2]))
    return S('call', X('decimal.Decimal'), C(x)) if isinstance(x, str) \
        else C(x)


class Context:
    """Answers of the element, its ancestors, viewport and font."""

    def __init__(self, p):
        self.p = p
        self.fs, _ = p.find_member(p.cls(CX + 'CSSUtils'),
                                   'compute_font_size')
        self.font = p.cls(CX + 'Font')
        self.parent = PARENT
        self.box = True
        self.asked = []

    def __call__(self, eng, fn, args, kw, st, node):
        if isinstance(fn, ClsV) and fn.ci is self.font:
            ok = args == [ME] or kw.get('element') is ME
            st.facts[S('is', FONTOBJ, NONE)] = False
            return [(st, FONTOBJ if ok else S('param', 'other font'))]
        if getattr(fn, 'fi', None) is self.fs:
            x = args[0] if args else kw.get('element')
            if x is PARENT:
                return [(st, num(st, 'font-size of parent'))]
            if x is ROOT:
                return [(st, num(st, 'font-size of root'))]
            return [(st, num(st, 'font-size of another'))]
        if isinstance(fn, ExtV) and fn.name == 'decimal.Decimal' and \
                len(args) == 1 and (isinstance(args[0], Const) or
                                    eng.is_num(st, args[0])):
            if not isinstance(args[0], Const) or \
                    isinstance(args[0].v, int):
                return [(st, args[0])]
            v = S('call', fn, args[0])
            st.types[v] = (ExtClass('decimal.Decimal'), True)
            st.facts[S('is', v, NONE)] = False
            return [(st, v)]
        r = called(fn)
        if r is None:
            return None
        recv, name = r
        if name == 'normalize' and (eng.is_num(st, recv) or isinstance(
                recv, Sym) and recv.op == 'call' and
                recv.args[0] is X('decimal.Decimal')):
            return [(st, recv)]
        if recv is FONTOBJ:
            return [(st, NONE)]
        if recv is ME:
            if name == 'getparent':
                return [(st, self.parent)]
            if name == 'getroottree':
                return [(st, S('param', 'tree'))]
            if name == 'get_view_box':
                if not self.box:
                    return [(st, NONE)]
                return [(st, T([S('param', 'vb' + k) for k in
                                ('x', 'y', 'w', 'h', 'p')]))]
            if name == 'get_viewport_size':
                return [(st, T([S('param', 'vp' + k) for k in 'xywh']))]
        if recv is S('param', 'tree') and name == 'getroot':
            st.facts[S('is', ROOT, NONE)] = False
            return [(st, ROOT)]
        if name == 'value' and recv.op == 'param' and \
                recv.args[0][:2] in ('vb', 'vp') and not args and not kw:
            return [(st, num(st, recv.args[0] + ' size'))]
        return None


class Setting:
    def __init__(self, label, ctx, parent, box, metrics=True):
        self.label, self.ctx, self.parent, self.box = label, ctx, parent, box
        self.metrics = metrics


SETTINGS = [
    Setting('no element', NONE, NONE, False),
    Setting('an element', ME, PARENT, True),
    Setting('an element without view box', ME, PARENT, False),
    Setting('an element without parent', ME, NONE, True),
    Setting('an element, font without metrics', ME, PARENT, True, False),
]


def size_of(unit, direction, s, default, alg):
    """Pixels (or dpi for resolutions) per unit; None when not decided."""
    if unit in ABS:
        return const(ABS[unit])
    if unit in RES:
        return const(RES[unit])
    fs = default if s.ctx is NONE or s.parent is NONE else \
        S('param', 'font-size of parent')
    if unit == 'em':
        return fs
    if unit == 'rem':
        return default if s.ctx is NONE else S('param', 'font-size of root')
    if unit in FONT:
        if s.ctx is NONE:
            return op('/', fs, C(2))
        k = S('attr', FONTOBJ, FONT[unit]) if s.metrics else C(0)
        return fs if alg.is_const(k, 0) else k
    if s.ctx is NONE:
        w = h = C(100)
    else:
        pre = 'vb' if s.box else 'vp'
        w, h = [S('param', pre + k + ' size') for k in 'wh']
    if unit == '%' and direction is None:
        return op('/', fs, C(100))
    side = {'vw': w, 'vh': h,
            'vmin': S('call', X('builtins.min'), w, h),
            'vmax': S('call', X('builtins.max'), w, h)}.get(unit)
    if unit == '%':
        side = {H: w, V: h, U: S('call', X('math.sqrt'), op(
            '/', op('+', times(w, w), times(h, h)), C(2)))}[direction]
    return op('/', side, C(100))


def default_size(ctx):
    """Font.default_font_size."""
    eng = ctx.engine(mixins=True)
    f = ctx.p.cls(CX + 'Font')
    outs = eng.read(State(), K(f), 'default_font_size')
    if len(outs) == 1 and isinstance(outs[0].value, Const):
        return outs[0].value
    raise AnalysisBroken('default font size')


def make(eng, st, cls, n, unit, s, direction):
    st.facts[S('is', ME, NONE)] = False
    st.facts[S('is', PARENT, NONE)] = False
    for k in () if s.metrics else FONT.values():
        st.fields[(FONTOBJ, k)] = C(0)
    return build(eng, st, cls, [n, C(unit)] if unit is not None else [n],
                 {'context': s.ctx, 'direction': C(direction)})


def check(ctx):
    p = ctx.p
    cls = p.cls(CX + 'SVGLength')
    default = default_size(ctx)
    h = Context(p)
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=4, on_call=h)
    n = values(ctx, eng, h, cls, default)
    n += groups(ctx, eng, h, cls)
    n += texts(ctx, eng, h, cls)
    ctx.floor('conversions compared', n, 1500)


def targets(unit, s):
    if s.label == 'no element' or unit in ('em', 'px', '%'):
        return UNITS
    return [None, unit, 'cm', '%', 'vmin', 'dppx', 'rem', 'pt']


def values(ctx, eng, h, cls, default):
    n = 0
    fi, _ = ctx.p.find_member(cls, 'value')
    fc, _ = ctx.p.find_member(cls, 'convert')
    for s in SETTINGS:
        h.parent, h.box = s.parent, s.box
        for unit in UNITS:
            for direction in ((None, H, V, U) if unit == '%' else (None, H)):
                st = State()
                x = num(st, 'n')
                res = make(eng, st, cls, x, unit, s, direction)
                if len(res) != 1:
                    ctx.bad('value', '%s' % unit, 'construction has %d '
                            'outcomes' % len(res), fi.where())
                    continue
                st, obj = res[0]
                for to in targets(unit, s):
                    if to in FONT and s.ctx is not NONE and to != unit:
                        continue
                    n += one(ctx, eng, s, cls, st, obj, x, unit, to,
                             direction, default, fi, fc)
    return n


def one(ctx, eng, s, cls, st, obj, x, unit, to, direction, default, fi, fc):
    n = 0
    lab = '%s to %s, %s, direction %s' % (unit, to, s.label, direction)
    mixed = (unit in RES) != (to in RES)
    ways = [(direction, [C(to)], {})]
    if '%' in (unit, to):
        # the direction passed prevails over the one of the length
        ways += [(d, [C(to)], {'direction': C(d)}) for d in (H, V, U)]
    for d, args, kw in ways:
        for o in method_call(eng, st.fork(), obj, 'value', args, kw):
            n += 1
            if mixed and unit != to:
                ctx.obl('value', lab, o.kind == 'raise' and exc_name(
                    o) == 'ValueError', 'converts', fi.where())
                continue
            judge(ctx, eng, 'value', lab, o, lambda o: o.value, s, x, unit,
                  to, d, default, fi)
    for o in method_call(eng, st.fork(), obj, 'convert', [C(to)]):
        n += 1
        if o.kind == 'raise':
            ctx.obl('convert', lab, mixed and unit != to and component(
                eng, o.st, obj, 'unit') is component(eng, st, obj, 'unit'),
                'fails', fc.where())
            continue
        if mixed and unit != to:
            ctx.bad('convert', lab, 'mixes resolutions and lengths',
                    fc.where())
            continue
        u = component(eng, o.st, obj, 'unit')
        ctx.obl('convert', lab, u is not None and u is C(to or None),
                'the unit is %s' % show(u), fc.where())
        for o2 in method_call(eng, o.st, obj, 'value', [C(to)]):
            judge(ctx, eng, 'convert', lab, o2, lambda o: o.value, s, x, unit,
                  to, direction, default, fc)
    return n


def judge(ctx, eng, rule, lab, o, get, s, x, unit, to, d, default, fi):
    if o.kind == 'raise':
        ctx.bad(rule, lab, 'raises %s' % exc_name(o), fi.where())
        return
    alg = alg_of(o.st)
    if unit == to:
        want = x
    else:
        a = size_of(unit, d, s, default, alg)
        b = size_of(to, d, s, default, alg)
        want = op('/', times(x, a), b)
    try:
        same = alg.equal(get(o), want)
    except NotNumber:
        same = False
    ctx.obl(rule, lab, same, 'is %s' % show(get(o)), fi.where())


def groups(ctx, eng, h, cls):
    n = 0
    for unit in UNITS:
        st = State()
        x = num(st, 'n')
        for st, obj in make(eng, st, cls, x, unit, SETTINGS[0], None):
            want = 'isresolution' if unit in RES else \
                'isabsolute' if unit in ABS else 'isrelative'
            for name in ('isabsolute', 'isrelative', 'isresolution'):
                fi, _ = ctx.p.find_member(cls, name)
                for o in method_call(eng, st.fork(), obj, name, []):
                    n += 1
                    v = eng.decide(o.st, o.value) if o.kind == 'return' \
                        else None
                    ctx.obl('group', '%s of %s' % (name, unit),
                            v is (name == want), 'is %s' % v, fi.where())
    return n


def texts(ctx, eng, h, cls):
    """Texts: number and unit in any case; unknown units."""
    n = 0
    fi, _ = ctx.p.find_member(cls, '__init__')
    for unit in UNITS + ['furlong', 'p', 'pxx', 'mmm', 'emm', '%%']:
        for text in ('{}', ' {} '):
            for up in (False, True):
                u = unit or ''
                t = text.format('-2.5' + (u.upper() if up else u))
                res = eng._outside(lambda: eng.instantiate(
                    cls, [C(t)], {}, State(), fi.node))
                for st, obj in res:
                    n += 1
                    if unit not in UNITS and unit != '%%':
                        ctx.obl('text', repr(t), isinstance(obj, Raised),
                                'is accepted', fi.where())
                        continue
                    if unit == '%%':
                        continue
                    if isinstance(obj, Raised):
                        ctx.bad('text', repr(t), 'is refused', fi.where())
                        continue
                    v = component(eng, st, obj, 'unit')
                    ctx.obl('text', repr(t), v is C(unit or None),
                            'has unit %s' % show(v), fi.where())
                    for o in method_call(eng, st, obj, 'value',
                                         [C(unit or None)]):
                        ctx.obl('text', repr(t), o.kind == 'return' and
                                alg_of(o.st).is_const(o.value, -2.5),
                                'is %s' % show(o.value), fi.where())
    return n

"""V02: preserveAspectRatio and zoomAndPan keywords and their numbers."""
from ._path import *
from .p03 import called

EXPLANATION = (
    'SVGFitToViewBox.preserve_aspect_ratio, SVGPreserveAspectRatio (parse, '
    'constructor, tostring, ==) and SVGZoomAndPan.zoom_and_pan are '
    'interpreted for the attribute missing, every keyword of SVG alone and '
    'with meet, slice or another second word, and words SVG does not define. '
    'The numbers must be the SVG DOM constants, the text of each pair of '
    'numbers must be the keywords for it, and the zoomAndPan setter must '
    'write exactly the keyword of a known number and nothing otherwise.')
ASSUMPTIONS = ['the spelling of keywords and values of constants are those '
               'of SVG 2']
BX = 'svgpy.base.'
ME = S('param', 'self')
ALIGN = {'none': 1, 'xMinYMin': 2, 'xMidYMin': 3, 'xMaxYMin': 4,
         'xMinYMid': 5, 'xMidYMid': 6, 'xMaxYMid': 7, 'xMinYMax': 8,
         'xMidYMax': 9, 'xMaxYMax': 10}
SLICE = {'meet': 1, 'slice': 2}


class Attr:
    """The answer of self.get(name)."""

    def __init__(self):
        self.text = {}

    def __call__(self, eng, fn, args, kw, st, node):
        r = called(fn)
        if r is not None and r == (ME, 'get') and args:
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            k = args[0].v if isinstance(args[0], Const) else None
            return [(st, self.text.get(k, d))]
        return None


def texts():
    for a in list(ALIGN) + ['xmidymid', 'xMidYmid', 'XMaxYMin', 'XMINYMAX', 'None',
                            'center', '']:
        want = ALIGN.get(a, 6)
        for s in (None, 'meet', 'slice', 'Slice', 'none'):
            for sep in (' ', '  ', '\t'):
                if s is None and sep != ' ':
                    continue
                if a == '' and s is not None:
                    continue
                yield (a if s is None else a + sep + s), (
                    want, SLICE.get(s, 1))
    yield ' xMaxYMax slice ', (10, 2)


def pair(eng, st, obj):
    r = [component(eng, st, obj, n) for n in ('align', 'meet_or_slice')]
    return tuple(x.v if isinstance(x, Const) else None for x in r)


def check(ctx):
    p = ctx.p
    par = p.cls(BX + 'SVGPreserveAspectRatio')
    fit = p.cls(BX + 'SVGFitToViewBox')
    zoom = p.cls(BX + 'SVGZoomAndPan')
    h = Attr()
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=12, on_call=h)
    n = 0
    # the constants are the SVG DOM ones
    names = {'SVG_PRESERVEASPECTRATIO_UNKNOWN': 0,
             'SVG_MEETORSLICE_UNKNOWN': 0}
    names.update(('SVG_PRESERVEASPECTRATIO_' + k.upper(), v)
                 for k, v in ALIGN.items())
    names.update(('SVG_MEETORSLICE_' + k.upper(), v)
                 for k, v in SLICE.items())
    zooms = {'SVG_ZOOMANDPAN_UNKNOWN': 0, 'SVG_ZOOMANDPAN_DISABLE': 1,
             'SVG_ZOOMANDPAN_MAGNIFY': 2}
    for cls, table in ((par, names), (zoom, zooms)):
        for k, v in table.items():
            n += 1
            got = component(eng, State(), K(cls), k)
            ctx.obl('constant', k, isinstance(got, Const) and got.v == v,
                    'is not %d' % v, cls.where())
    # text -> numbers
    for text, want in list(texts()) + [(None, (6, 1))]:
        lab = repr(text) if text is not None else 'no attribute'
        st = State()
        st.types[ME] = (fit, False)
        h.text = {} if text is None else {'preserveAspectRatio': C(text)}
        for o in eng.read(st, ME, 'preserve_aspect_ratio'):
            n += 1
            ok = o.kind == 'return' and isinstance(o.value, Obj)
            ctx.obl('attribute', lab, ok and pair(
                eng, o.st, o.value) == want, 'is not %s' % (want,),
                par.where())
        if text is None:
            continue
        for st, a in build(eng, State(), par, [C(text)], {}) or [(0, 0)]:
            n += 1
            ctx.obl('parse', lab, a and pair(eng, st, a) == want,
                    'is not %s' % (want,), par.where())
    # numbers -> text, and equality
    h.text = {}
    pairs = [(a, s) for a in ALIGN.values() for s in SLICE.values()] + \
        [(0, 0), (0, 1), (6, 0), (0, 2), (1, 0)]
    for av, sv in pairs:
        st, x = given(eng, par, av, sv)
        for bv, tv in pairs:
            n += 1
            st2, y = given(eng, par, bv, tv, st.fork())
            outs = method_call(eng, st2, x, '__eq__', [y])
            eq = {eng.decide(o.st, o.value) if o.kind == 'return'
                  else None for o in outs}
            ctx.obl('equality', 'preserveAspectRatio', eq == {
                (av, sv) == (bv, tv)}, 'is wrong for %s and %s' % (
                    (av, sv), (bv, tv)), par.where())
    for a, av in ALIGN.items():
        for s, sv in SLICE.items():
            n += 1
            want = a if a == 'none' else '%s %s' % (a, s)
            st, x = given(eng, par, av, sv)
            outs = method_call(eng, st, x, 'tostring', [])
            got = {o.value.v if o.kind == 'return' and isinstance(
                o.value, Const) else None for o in outs}
            ok = got <= {want, '%s %s' % (a, s)} and len(got) == 1
            ctx.obl('tostring', a if a == 'xMinYMid' else want, ok,
                    'gives %s' % sorted(map(str, got)), par.where())
    n += zooming(ctx, eng, h, zoom)
    ctx.floor('exits compared', n, 300)


def given(eng, par, av, sv, st=None):
    res = build(eng, st or State(), par, [], {})
    if len(res) != 1:
        raise AnalysisBroken('construction of preserveAspectRatio')
    st, x = res[0]
    for name, v in (('align', av), ('meet_or_slice', sv)):
        st = written(eng, st, x, name, C(v))
    if pair(eng, st, x) != (av, sv):
        raise AnalysisBroken('setting of preserveAspectRatio')
    return st, x


def written(eng, st, x, name, v):
    outs = [o for o in eng.write(st, x, name, v) if o.kind == 'return']
    if len(outs) != 1:
        raise AnalysisBroken('setting of ' + name)
    return outs[0].st


def zooming(ctx, eng, h, zoom):
    n = 0
    words = {'disable': 1, 'magnify': 2, 'Magnify': 0, '': 0, 'zoom': 0}
    for text, want in list(words.items()) + [(None, 1)]:
        st = State()
        st.types[ME] = (zoom, False)
        h.text = {} if text is None else {'zoomAndPan': C(text)}
        for o in eng.read(st, ME, 'zoom_and_pan'):
            n += 1
            ctx.obl('attribute', 'zoomAndPan %r' % (text,),
                    o.kind == 'return' and isinstance(o.value, Const) and
                    o.value.v == want, 'is not %d' % want, zoom.where())
    h.text = {}
    for v, want in ((0, None), (1, 'disable'), (2, 'magnify'), (3, None),
                    (-1, None)):
        st = State()
        st.types[ME] = (zoom, False)
        for o in eng.write(st, ME, 'zoom_and_pan', C(v)):
            n += 1
            ev = [e for e in o.events if e.kind == 'call' and
                  e.name == 'set' and e.recv is ME]
            got = [tuple(a.v if isinstance(a, Const) else None
                         for a in e.args) for e in ev]
            ctx.obl('setter', 'zoomAndPan %d' % v, o.kind == 'raise' and
                    want is None and not got or got == (
                        [] if want is None else [('zoomAndPan', want)]),
                    'writes %s' % got, zoom.where())
    return n

"""R02: every element has the class and the categories of its name."""
from ._tree import *
from .r01 import EL

EXPLANATION = (
    'SVGElementClassLookup.lookup is interpreted for every element name of '
    'SVG 2 that the package implements, for names it does not know in each '
    'kind of namespace, and for comments, processing instructions and other '
    'nodes; the class must be the interface of that element. The predicates '
    'iscontainer, isgraphics, isrenderable, isshape, istext and '
    'istransformable are interpreted for every SVG element name and must '
    'hold for exactly the elements in the category of SVG 2.')
ASSUMPTIONS = ['textPath is no text content element, symbol and clipPath are '
               'not transformable here (documented restrictions)']
ME = S('param', 'self')
EX = 'svgpy.element.'
SVG = {n: 'SVG%sElement' % (c or n[0].upper() + n[1:]) for n, c in {
    'a': '', 'circle': '', 'defs': '', 'desc': '', 'ellipse': '', 'g': '',
    'hatch': '', 'hatchpath': '', 'line': '', 'linearGradient': '',
    'marker': '', 'meshgradient': 'MeshGradient', 'meshpatch': '',
    'meshrow': '', 'metadata': '', 'path': '', 'pattern': '', 'polygon': '',
    'polyline': '', 'radialGradient': '', 'rect': '', 'script': '',
    'solidcolor': '', 'stop': '', 'style': '', 'svg': 'SVG', 'symbol': '',
    'text': '', 'textPath': '', 'title': '', 'tspan': 'TSpan', 'use': '',
    'view': ''}.items()}
HTML = {'audio': 'HTMLAudioElement', 'canvas': 'HTMLCanvasElement',
        'iframe': 'HTMLIFrameElement', 'link': 'HTMLLinkElement',
        'video': 'HTMLVideoElement'}
XHTML = 'http://www.w3.org/1999/xhtml'
GRAPHICS = set('audio canvas circle ellipse foreignObject iframe image line '
               'mesh path polygon polyline rect text textPath tspan '
               'video'.split())
CATEGORY = {
    'iscontainer': set('a clipPath defs g marker mask pattern svg switch '
                       'symbol unknown'.split()),
    'isgraphics': GRAPHICS,
    'isrenderable': GRAPHICS | set('a g svg switch unknown use'.split()),
    'isshape': set('circle ellipse line mesh path polygon polyline '
                   'rect'.split()),
    'istext': {'text', 'tspan'},
    'istransformable': GRAPHICS | set('a defs g svg switch use'.split()),
}
OPEN = {('istransformable', 'symbol'), ('istransformable', 'clipPath'),
        ('istext', 'textPath')}
NAMES = sorted(set(SVG) | set(HTML) | GRAPHICS | set().union(
    *CATEGORY.values()) | set('animate animateMotion feBlend filter '
                              'discard set image foo Rect G'.split()))


def check(ctx):
    p = ctx.p
    n = lookups(ctx, p) + categories(ctx, p)
    ctx.floor('exits compared', n, 350)


def lookups(ctx, p):
    cls = p.cls(EX + 'SVGElementClassLookup')
    fi, _ = p.find_member(cls, 'lookup')
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=8)
    rows = []
    for ns in (NSURI, XHTML, None, 'urn:x'):
        dflt = p.cls('svgpy.base.' + (
            'HTMLElement' if ns == XHTML else 'SVGElement'))
        for name, c in list(SVG.items()) + list(HTML.items()):
            if ns == (XHTML if name in HTML else NSURI) or (
                    name in HTML and ns == NSURI):
                rows.append(('element', ns, name, p.cls(EX + c)))
        for name in ('foo', 'Rect', 'SVG', 'svg:rect', ''):
            rows.append(('element', ns, name, dflt))
    for kind, c in (('comment', 'Comment'), ('PI', 'ProcessingInstruction'),
                    ('entity', None)):
        rows.append((kind, None, None,
                     p.cls('svgpy.dom.' + c) if c else None))
    n = 0
    for kind, ns, name, want in rows:
        st = State()
        st.types[ME] = (cls, True)
        outs = method_call(eng, st, ME, 'lookup', [
            C(kind), S('param', 'document'), C(ns), C(name)])
        for o in outs or [None]:
            n += 1
            ctx.obl('class', '%s %s in %s' % (kind, name, ns),
                    o is not None and o.kind == 'return' and
                    o.value is (K(want) if want else NONE),
                    'is not %s' % (want.name if want else None), fi.where())
    return n


def categories(ctx, p):
    n = 0
    el = p.cls('svgpy.dom.Element')
    h = Tree(p)
    eng = h.engine(ctx)
    for pred, members in CATEGORY.items():
        fi, _ = p.find_member(el, pred)
        for name in NAMES:
            if (pred, name) in OPEN:
                continue
            h.set([(name, {}, el)])
            for o in method_call(eng, h.state(), elem(0), pred, []):
                n += 1
                ctx.obl(pred, name, o.kind == 'return' and eng.decide(
                    o.st, o.value) is (name in members),
                    'is not %s' % (name in members), fi.where())
    return n

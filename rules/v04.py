"""V04: the current transformation matrix composes every step."""
from ._tree import *

EXPLANATION = (
    'get_ctm and get_screen_ctm are interpreted for chains of up to 5 '
    'elements (nested svg, symbol, g, a and shape elements, with every '
    'choice of which of them have a transform) with unknown transforms, '
    'unknown viewport transformations and, on the outermost svg, an unknown '
    'current scale and translation. The 16 components of the result are '
    'compared, as polynomials, with the product from the outermost element '
    'in: zoom and pan (screen only), then for each element its transform and '
    'then, if it establishes a viewport, its viewport transformation.')
ASSUMPTIONS = ['rules V01 and T02 for the single matrices',
               'floating point rounding is not modelled']
BX = 'svgpy.base.'
VIEWPORTS = ('svg', 'symbol')
NO_TRANSFORM = ('symbol', 'title')
CHAINS = [
    ['svg'], ['svg', 'rect'], ['svg', 'g', 'rect'], ['svg', 'g', 'a', 'rect'],
    ['svg', 'svg'], ['svg', 'svg', 'rect'], ['svg', 'g', 'svg', 'rect'],
    ['svg', 'g', 'svg', 'g', 'rect'], ['svg', 'svg', 'svg', 'rect'],
    ['svg', 'symbol', 'rect'], ['svg', 'symbol', 'g', 'rect'],
    ['svg', 'g', 'symbol', 'rect'], ['svg', 'symbol'], ['svg', 'g', 'svg'],
    ['g', 'rect'], ['rect'], ['g', 'svg', 'rect'], ['g', 'svg', 'g', 'svg'],
]


class World(Tree):
    def __init__(self, p):
        super().__init__(p)
        gfx = p.cls(BX + 'SVGGraphicsElement')
        lst = p.cls('svgpy.transform.SVGTransformList')
        self.vtm, _ = p.find_member(gfx, 'get_viewport_transformation_matrix')
        self.parse, _ = p.find_member(lst, 'parse')
        self.lst = lst
        self.matrix = p.cls(MX + 'DOMMatrix')
        self.transform = p.cls('svgpy.transform.SVGTransform')
        self.recursive = set()
        self.lists = {}     # length of transform lists, if not 1

    def steps(self, i):
        """Names of the transforms in the list of an element."""
        k = self.lists.get(i, 1)
        return ['t%d%s.' % (i, 'x' * j) for j in range(k)]

    def affine(self, eng, st, pre):
        seq = [num(st, pre + k) for k in 'abcdef']
        lst = eng.new_list(st, seq, self.lst.node)
        return [(s, v) for s, v in eng.instantiate(
            self.matrix, [lst], {}, st, self.lst.node)
            if not isinstance(v, Raised)]

    def on_call(self, eng, fn, args, kw, st, node):
        fi = getattr(fn, 'fi', None)
        if fi is self.vtm:
            i = self.of(getattr(fn, 'recv', None))
            if i is None:
                return None
            r = args[0] if args else kw.get('recursive', TRUE)
            self.recursive.add(r)
            return self.affine(eng, st, 'v%d.' % i)
        if fi is self.parse and args and isinstance(args[0], Sym) and \
                args[0].op == 'param':
            i = args[0].args[0].split()[-1]
            todo = [(st, [])]
            for pre in self.steps(int(i)):
                new = []
                for s0, ts in todo:
                    for s, m in self.affine(eng, s0, pre):
                        for s1, t in eng.instantiate(self.transform, [], {},
                                                     s, node):
                            if isinstance(t, Raised):
                                continue
                            for s2, r in eng.call_method(
                                    s1, t, 'set_matrix', [m], {}, node):
                                if not isinstance(r, Raised):
                                    new.append((s2, ts + [t]))
                todo = new
            out = []
            for s, ts in todo:
                a = eng.new_list(s, ts, node)
                out += eng.instantiate(self.lst, [a], {}, s, node)
            return out
        return super().on_call(eng, fn, args, kw, st, node)


def mat(pre):
    d = dict(IDENT)
    for k in 'abcdef':
        d[TWO_D[k]] = S('param', pre + k)
    return d


def check(ctx):
    import itertools
    p = ctx.p
    h = World(p)
    names_ = {'svg': 'SVG', 'symbol': 'Symbol', 'g': 'G', 'rect': 'Rect',
              'a': 'A'}
    cls = {n: p.cls('svgpy.element.SVG%sElement' % c)
           for n, c in names_.items()}
    eng = h.engine(ctx)
    n = 0
    for chain in CHAINS:
        can = [i for i, x in enumerate(chain) if x not in NO_TRANSFORM]
        for have in itertools.product((False, True), repeat=len(can)):
            with_t = {i for i, b in zip(can, have) if b}
            if not ctx.thorough and len(can) > 3 and len(with_t) not in (
                    0, 1, len(can)):
                continue
            els = []
            for i, x in enumerate(chain):
                a = {}
                if i in with_t:
                    a['transform'] = S('param', 'transform %d' % i)
                els.append((x, a, cls[x]))
            n += case(ctx, eng, h, els, with_t)
            for k in (0, 2):
                if len(with_t) in (1, 2) and (ctx.thorough or
                                              len(chain) < 4):
                    h.lists = {min(with_t): k}
                    n += case(ctx, eng, h, els, with_t)
                    h.lists = {}
    ctx.obl('viewport matrix', 'own view box', TRUE not in h.recursive,
            'takes the view box of an ancestor for its own',
            p.cls(BX + 'SVGGraphicsElement').where())
    ctx.floor('matrices compared', n, 150)


def case(ctx, eng, h, els, with_t):
    h.set(els)
    n = 0
    chain = [e[0] for e in els]
    me = len(els) - 1
    svgs = [i for i, x in enumerate(chain) if x == 'svg']
    views = [i for i, x in enumerate(chain) if x in VIEWPORTS]
    p = ctx.p
    for name in ('get_screen_ctm', 'get_ctm'):
        st = h.state()
        for i, e in enumerate(els):
            if i in with_t:
                t = e[1]['transform']
                st.types[t] = (ExtClass('builtins.str'), True)
                st.facts[S('is', t, NONE)] = False
                st.facts[S('eq', t, C('none'))] = False
                st.facts[t] = True
            if e[0] == 'svg':
                st.fields[(elem(i), '_current_scale')] = num(
                    st, 'scale%d' % i)
                st.fields[(elem(i), '_current_translate')] = T(
                    [num(st, 'tx%d' % i), num(st, 'ty%d' % i)])
        want = IDENT
        if svgs:
            start = views[0]
            if name == 'get_ctm':
                start = views[-1]
                if start == me and len(views) > 1:
                    start = views[-2]
            else:
                s = S('param', 'scale%d' % svgs[0])
                want = factor(m11=s, m22=s,
                              m41=S('param', 'tx%d' % svgs[0]),
                              m42=S('param', 'ty%d' % svgs[0]))
            for i in range(start, me + 1):
                if i in with_t:
                    for pre in h.steps(i):
                        want = mul(want, mat(pre))
                if i in views:
                    want = mul(want, mat('v%d.' % i))
        lab = ' > '.join(x + ('+' + str(h.lists.get(i, ''))
                                    if i in with_t else '')
                         for i, x in enumerate(chain))
        fi, _ = p.find_member(els[-1][2], name)
        outs = method_call(eng, st, elem(me), name, [])
        for o in outs:
            n += 1
            got = components(eng, o.st, o.value) if o.kind == 'return' and \
                isinstance(o.value, Obj) else {}
            bad = differ(alg_of(o.st), got, want)
            ctx.obl(name, lab, not bad, 'components %s are not those of the '
                    'product (+: has a transform)' % bad[:4], fi.where())
        if not outs:
            ctx.obl(name, lab, False, 'no exit', fi.where())
    return n

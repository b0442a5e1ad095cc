"""V03: viewport size and view box of an element."""
from ._tree import *
from .l01 import ABS, Context, const

EXPLANATION = (
    'SVGElement.get_viewport_size is interpreted for elements in 0 to 3 '
    'nested viewports (svg and symbol elements with other elements between '
    'them), each of the attributes x, y, width and height missing, auto, '
    'inherit, absolute, a percentage or relative to the viewport (vw, vh, '
    'vmin, vmax), below a window of unknown size, both when it is wide and '
    'when it is high. The sizes of the four lengths must be those of SVG: '
    'the default is 100%, relative lengths refer to the parent viewport and '
    'percentages to its side in the direction of the attribute, whatever '
    'order of attributes and viewports. get_view_box must give the four '
    'numbers and the preserveAspectRatio of the same element, the nearest '
    'viewport that has a view box, or of the nearest viewport only when '
    'asked so.')
ASSUMPTIONS = ['rules L01 and L02 for the lengths',
               'lengths relative to a font are not looked at',
               'percentages refer to the size of the parent viewport, not to '
               'its view box (the test suite fixes this)']
BX = 'svgpy.base.'
WIN, DOC = S('param', 'window'), S('param', 'document')
W, HH = S('param', 'window width'), S('param', 'window height')
PAIRS_ = [('width', 'w', '100%'), ('height', 'h', '100%'),
          ('x', 'w', '0'), ('y', 'h', '0')]


class World(Tree):
    def __init__(self, p):
        super().__init__(p)
        self.ctx = Context(p)
        self.window = WIN

    def on_getattr(self, eng, st, o, name, node):
        if o is DOC and name == 'default_view':
            return [(st, self.window)]
        if o is WIN and name in ('inner_width', 'inner_height'):
            return [(st, W if name == 'inner_width' else HH)]
        if isinstance(o, Const) and name == 'normalize':
            return [(st, B(o, name))]
        return super().on_getattr(eng, st, o, name, node)

    def on_call(self, eng, fn, args, kw, st, node):
        if isinstance(fn, BoundV) and fn.name == 'normalize' and \
                isinstance(fn.recv, Const):
            return [(st, fn.recv)]
        r = super().on_call(eng, fn, args, kw, st, node)
        return r if r is not None else self.ctx(eng, fn, args, kw, st, node)


def used(text, side, parent, order):
    """Pixels of an attribute: parent is (width, height)."""
    if text == 'auto':
        text = '100%'
    base = parent[0 if side == 'w' else 1]
    if text == 'inherit':
        return base
    k = text.rstrip('%abcdefghijklmnopqrstuvwxyz')
    unit = text[len(k):]
    if unit in ABS:
        return times(const(ABS[unit]), C(int(k)))
    if unit in ('vmin', 'vmax'):
        d = order.alg.sign(order.alg.sub(order.alg.poly(parent[0]),
                                         order.alg.poly(parent[1])))
        if d is None:
            return None
        i = (d > 0) if unit == 'vmin' else (d < 0)
        base = parent[1 if i else 0]
    elif unit in ('vw', 'vh'):
        base = parent[0 if unit == 'vw' else 1]
    elif unit != '%':
        raise AnalysisBroken('unit ' + unit)
    return op('/', times(C(int(k)), base), C(100))


def chains():
    """[attributes of each viewport]"""
    one = []
    for w, h, x, y in [
            (None, None, None, None), ('auto', 'auto', None, '7'),
            ('inherit', 'inherit', '3', None), ('53px', '31cm', '2in', '5mm'),
            ('37%', '41%', '11%', '13%'), ('37vw', '41vh', '11vh', '13vw'),
            ('43vmin', '47vmax', '17vmax', '19vmin'),
            ('43vmax', '47vmin', '17vmin', '19vmax'),
            ('37vh', '41vw', '11vw', '13vh'), ('29px', '23%', '3%', '1vw'),
            ('23%', '29px', '3vmin', '2%'), ('61%', '61%', '0', '0'),
            ('100%', '29px', None, None), ('5em', '31px', '1', '2')]:
        if w == '5em':
            continue
        one.append(dict(width=w, height=h, x=x, y=y))
    yield []
    for a in one:
        yield [a]
    for a in one:
        for b in one:
            yield [a, b]
    for i, a in enumerate(one):
        for j, b in enumerate(one):
            yield [a, b, one[(i + 2 * j) % len(one)]]


def check(ctx):
    p = ctx.p
    h = World(p)
    classes = {n: p.cls('svgpy.element.SVG%sElement' % c) for n, c in (
        ('svg', 'SVG'), ('symbol', 'Symbol'), ('g', 'G'), ('rect', 'Rect'))}
    fi, _ = p.find_member(classes['rect'], 'get_viewport_size')
    n = 0
    seen = 0
    for k, chain in enumerate(chains()):
        for wide in (True, False):
            order = Order([(C(0), 0), (W, 2 if wide else 1),
                           (HH, 1 if wide else 2)])
            want = resolve(chain, (W, HH), order)
            if want is None:
                continue
            seen += 1
            els = []
            for j, a in enumerate(chain):
                name = 'symbol' if j and (k + j) % 3 == 0 else 'svg'
                els.append((name, {q: C(v) for q, v in a.items()
                                   if v is not None}, classes[name]))
                if (k + j) % 2 or j == len(chain) - 1 and k % 4 > 1:
                    els.append(('g', {}, classes['g']))
            if not chain:
                els.append(('g', {}, classes['g']))
            if k % 3:
                els.append(('rect', {}, classes['rect']))
            h.set(els)
            h.order = order
            h.document = DOC
            eng = h.engine(ctx)
            st = h.state()
            for v in (W, HH):
                num(st, v.args[0])
            for v in (DOC, WIN):
                st.facts[S('is', v, NONE)] = False
            lab = ' > '.join(' '.join('%s=%s' % (q, v) for q, v in sorted(
                a.items()) if v is not None) or 'no size' for a in chain) or \
                'no viewport'
            n += sizes(ctx, eng, h, st, fi, want, lab + (
                ', wide window' if wide else ', high window'))
            if wide and (len(chain) < 2 or len(chain) == 2 and k % 3 == 0):
                n += alone(ctx, h, fi, chain, order, lab)
    n += boxes(ctx, h, classes)
    ctx.floor('viewports compared', n, 400)


def resolve(chain, start, order):
    """x, y, width, height of the innermost of nested viewports, or None"""
    want = (C(0), C(0)) + tuple(start)
    for a in chain:
        vals = {name: used(a[name] or default, side, want[2:], order)
                for name, side, default in PAIRS_}
        if None in vals.values():
            return None
        want = tuple(vals[q] for q in ('x', 'y', 'width', 'height'))
    return want


def alone(ctx, h, fi, chain, order, lab):
    """Without a window or a document; of the nearest viewport only."""
    n = 0
    eng = h.engine(ctx)
    size = [C(1280), C(720)]
    for what in ('no document', 'no window', 'not recursive'):
        st = h.state()
        if what == 'not recursive':
            want = resolve(chain[-1:], (W, HH), order)
            for v in (W, HH):
                num(st, v.args[0])
        elif any('vm' in str(v) for a in chain for v in a.values()):
            continue    # decided with the unknown window
        else:
            want = resolve(chain, size, Order([]))
        if want is None:
            continue
        h.document = NONE if what == 'no document' else DOC
        h.window = NONE if what == 'no window' else WIN
        h.order = order if what == 'not recursive' else None
        for v in (DOC, WIN):
            st.facts[S('is', v, NONE)] = False
        n += sizes(ctx, eng, h, st, fi, want, '%s, %s' % (lab, what),
                   [FALSE] if what == 'not recursive' else ())
    h.document, h.window = DOC, WIN
    return n


def sizes(ctx, eng, h, st, fi, want, lab, args=()):
    n = 0
    me = elem(len(h.elements) - 1)
    for o in method_call(eng, st, me, 'get_viewport_size', list(args)):
        n += 1
        items = sequence(eng, o.st, o.value) if o.kind == 'return' else None
        if items is None or len(items) != 4:
            ctx.obl('size', lab, False, 'raises or is not four lengths',
                    fi.where())
            continue
        for name, v, w in zip(('x', 'y', 'width', 'height'), items, want):
            outs = method_call(eng, o.st.fork(), v, 'value', [])
            ok = bool(outs)
            for q in outs:
                ok = ok and q.kind == 'return' and alg_of(q.st).equal(
                    q.value, w)
            ctx.obl('size', lab, ok, '%s is not the used value' % name,
                    fi.where())
    if not n:
        ctx.obl('size', lab, False, 'no exit', fi.where())
    return n


def boxes(ctx, h, classes):
    p = ctx.p
    n = 0
    par = p.cls(BX + 'SVGPreserveAspectRatio')
    rect = classes['rect']
    fi, _ = p.find_member(rect, 'get_view_box')
    texts = ['1 2 3 4', '5,6,7,8', ' 9 , 10 11 12'.strip()]
    ratios = [('xMinYMin slice', (2, 2)), (None, (6, 1)),
              ('none', (1, 1))]
    import itertools
    for depth in (0, 1, 2, 3):
        for have in itertools.product((True, False), repeat=depth):
            for rec in (True, False):
                els = []
                for j, b in enumerate(have):
                    a = {}
                    if b:
                        a['viewBox'] = C(texts[j])
                    if ratios[j][0] is not None:
                        a['preserveAspectRatio'] = C(ratios[j][0])
                    name = 'symbol' if j == 1 else 'svg'
                    els.append((name, a, classes[name]))
                els.append(('g', {}, classes['g']))
                els.append(('rect', {}, rect))
                want = None
                for j in reversed(range(depth)):
                    if have[j]:
                        want = j
                        break
                    if not rec:
                        break
                h.set(els)
                h.order = None
                eng = h.engine(ctx)
                lab = 'view boxes %s, recursive=%s' % (
                    ' > '.join('yes' if b else 'no' for b in have) or
                    'no viewport', rec)
                outs = method_call(eng, h.state(), elem(len(els) - 1),
                                   'get_view_box', [C(rec)])
                for o in outs:
                    n += 1
                    if want is None:
                        ok = o.kind == 'return' and o.value is NONE
                    else:
                        ok = box(eng, o, texts[want], ratios[want][1],
                                 elem(want), par)
                    ctx.obl('view box', lab, ok, 'is not that of the '
                            'nearest viewport with one', fi.where())
    return n


def box(eng, o, text, ratio, owner, par):
    from .v02 import pair
    items = sequence(eng, o.st, o.value) if o.kind == 'return' else None
    if items is None or len(items) != 5 or not isinstance(items[4], Obj):
        return False
    nums = [int(x) for x in text.replace(',', ' ').split()]
    for v, w in zip(items, nums):
        outs = method_call(eng, o.st.fork(), v, 'value', [])
        for q in outs:
            if q.kind == 'raise' or not alg_of(q.st).equal(q.value, C(w)):
                return False
        if not outs:
            return False
    return pair(eng, o.st, items[4]) == ratio

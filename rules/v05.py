"""V05: shapes, groups and instances with their transforms."""
import itertools

from ._tree import *
from .v02 import written
from .v04 import World as Ctm, mat

EXPLANATION = (
    'get_transformed_path_data, get_path_data of groups and of use elements, '
    'and get_bbox are interpreted on small trees (groups in groups, shapes, '
    'use elements, symbols, definitions, elements that are not graphics, '
    'display="none") with unknown paths and every choice of which elements '
    'have an (unknown) transform. Every path in the result must be the path '
    'of a rendered shape with the product of the transforms between it and '
    'the element asked, as polynomials, outermost first (for use: its '
    'transform, its position, the transform of the referenced element); the '
    'box of a container must be the union of the boxes of exactly the '
    'rendered children, mapped likewise.')
ASSUMPTIONS = ['rules P02, G05 and T02 for transforming paths and boxes',
               'viewBox of nested svg elements and size of instances of svg '
               'and symbol elements are not looked at',
               'display is the presentation attribute']
BX = 'svgpy.base.'
PP = 'svgpy.path.PathParser'


class World(Ctm):
    """elements: (local name, attributes, class, parent index)"""

    def __init__(self, p):
        super().__init__(p)
        parser, rect = p.cls(PP), p.cls(RX + 'DOMRect')
        self.apply, _ = p.find_member(parser, 'transform')
        self.path_box, _ = p.find_member(parser, 'get_bbox')
        self.rect = rect
        self.unions = {p.find_member(rect, n)[0]: n for n in (
            '__or__', '__ior__')}
        self.maps = {p.find_member(rect, n)[0]: n for n in (
            'transform', 'transform_self')}
        self.position = set()
        self.refs = {}
        self.shapes = set()
        self.normalized = []

    def set(self, elements):
        super().set(elements)
        self.kids = {}
        for i, e in enumerate(elements):
            self.kids.setdefault(e[3], []).append(elem(i))

    def boxes(self, st, v):
        """[(element, matrix path)] of a box"""
        return st.fields.get((v, '@boxes'), T([]))

    def new_box(self, eng, st, items, node):
        out = []
        for s, v in eng.instantiate(self.rect, [], {}, st, node):
            if not isinstance(v, Raised):
                s.fields[(v, '@boxes')] = T(items)
                out.append((s, v))
        return out

    def on_getattr(self, eng, st, o, name, node):
        i = self.of(o)
        if i is not None and name in ('parent_node', 'parent_element'):
            j = self.elements[i][3]
            return [(st, elem(j) if j is not None else NONE)]
        if i is not None and name in ('child_nodes', 'children'):
            return [(st, eng.new_list(st, self.kids.get(i, []), node))]
        return super().on_getattr(eng, st, o, name, node)

    def items(self, eng, st, v):
        i = self.of(v)
        return None if i is None else self.kids.get(i, [])

    def matrix_of(self, eng, st, m):
        c = components(eng, st, m)
        return T([c[n] for n in NAMES])

    def on_call(self, eng, fn, args, kw, st, node):
        fi = getattr(fn, 'fi', None)
        recv = getattr(fn, 'recv', None)
        if isinstance(fn, ExtV) and fn.name == 'builtins.iter' and \
                len(args) == 1 and self.of(args[0]) is not None:
            return [(st, eng.new_list(st, self.items(eng, st, args[0]),
                                      node))]
        if fi is self.apply:
            items = sequence(eng, st, args[0])
            if items is None:
                return None
            m = self.matrix_of(eng, st, args[1])
            return [(st, eng.new_list(st, [S('mapped', x, m)
                                           for x in items], node))]
        if fi is self.path_box:
            items = sequence(eng, st, args[0])
            if items is None:
                return None
            return self.new_box(eng, st, [S('box of', x) for x in items],
                                node)
        if fi in self.unions and isinstance(args[0], Obj):
            both = T(list(self.boxes(st, recv).items) +
                     list(self.boxes(st, args[0]).items))
            if self.unions[fi] == '__ior__':
                st.fields[(recv, '@boxes')] = both
                return [(st, recv)]
            return self.new_box(eng, st, list(both.items), node)
        if fi in self.maps:
            m = self.matrix_of(eng, st, args[0])
            new = [S('mapped', x, m) for x in self.boxes(st, recv).items]
            if self.maps[fi] == 'transform_self':
                st.fields[(recv, '@boxes')] = T(new)
                return [(st, recv)]
            return self.new_box(eng, st, new, node)
        i = self.of(recv)
        name = fi.name if fi is not None else None
        if i is not None and name == 'get_path_data' and \
                i in self.shapes:
            given = args[0] if args else kw.get('settings', NONE)
            norm = FALSE
            if given is not NONE:
                vs = eng.getattr_(st, given, 'normalize', node)
                norm = vs[0][1] if len(vs) == 1 else NONE
            self.normalized.append((st, norm))
            return [(st, eng.new_list(st, [S('path of', elem(i), norm)],
                                      node))]
        if i is not None and name == 'get_computed_geometry':
            xy = [num(st, k + str(i)) if i in self.position else C(0)
                  for k in 'xy']
            return [(st, eng.new_dict(st, list(zip(
                map(C, ('x', 'y', 'width', 'height')),
                xy + [C(0), C(0)])), node))]
        r = called(fn)
        if r is not None:
            i = self.of(r[0])
            if i is not None and r[1] == 'getparent':
                j = self.elements[i][3]
                return [(st, elem(j) if j is not None else NONE)]
            if i is not None and r[1] == 'getroottree':
                return [(st, S('param', 'tree'))]
            if i is not None and r[1] in ('iterchildren', 'getchildren',
                                          '__iter__') and not args:
                return [(st, eng.new_list(st, self.kids.get(i, []), node))]
            if r == (S('param', 'tree'), 'getroot'):
                return [(st, elem(0))]
        if name == 'get_element_by_id' and args and \
                isinstance(args[-1], Const):
            for k in list(args) + list(kw.values()):
                if isinstance(k, Const) and k.v in self.refs:
                    return [(st, elem(self.refs[k.v]))]
            return [(st, NONE)]
        return super().on_call(eng, fn, args, kw, st, node)


SHAPES = ('rect', 'path')
# (name, parent, href) rows; * after a name: not displayed
TREES = {
    'a shape': [('svg', None), ('rect', 0)],
    'two shapes in a group': [('svg', None), ('g', 0), ('rect', 1),
                              ('path', 1)],
    'groups in groups': [('svg', None), ('g', 0), ('g', 1), ('rect', 2),
                         ('path', 1)],
    'shape after group': [('svg', None), ('g', 0), ('rect', 1),
                          ('path', 0)],
    'hidden shape': [('svg', None), ('g', 0), ('rect*', 1), ('path', 1)],
    'hidden group': [('svg', None), ('g*', 0), ('rect', 1), ('path', 0)],
    'definitions': [('svg', None), ('defs', 0), ('rect', 1), ('path', 0)],
    'symbol': [('svg', None), ('symbol', 0), ('rect', 1), ('path', 0)],
    'title': [('svg', None), ('title', 0), ('g', 0), ('title', 2),
              ('rect', 2)],
    'empty group': [('svg', None), ('g', 0), ('g', 0), ('rect', 2)],
    'use of a shape': [('svg', None), ('defs', 0), ('rect', 1),
                       ('use', 0, 2)],
    'placed use of a shape': [('svg', None), ('defs', 0), ('rect', 1),
                              ('use', 0, 2, 'xy')],
    'placed use of a group': [('svg', None), ('defs', 0), ('g', 1),
                              ('rect', 2), ('use', 0, 2, 'xy')],
    'use in a group': [('svg', None), ('g', 0), ('use', 1, 3, 'xy'),
                       ('rect', 0)],
    'use of a use': [('svg', None), ('rect', 0), ('use', 0, 1, 'xy'),
                     ('use', 0, 2, 'xy')],
    'a link': [('svg', None), ('a', 0), ('rect', 1), ('path', 0)],
    'a switch in a group': [('svg', None), ('g', 0), ('switch', 1),
                            ('rect', 2), ('path', 1)],
    'use of nothing': [('svg', None), ('use', 0, -1, 'xy'), ('rect', 0)],
    'use of a title': [('svg', None), ('title', 0), ('use', 0, 1)],
}
CLASSES = {'svg': 'SVG', 'g': 'G', 'rect': 'Rect', 'path': 'Path',
           'use': 'Use', 'defs': 'Defs', 'symbol': 'Symbol',
           'title': 'Title', 'a': 'A', 'switch': 'Switch'}


class Spec:
    """Paths (shape, matrices from the outside in, tight) by SVG."""

    def __init__(self, rows, with_t):
        self.rows, self.with_t, self.lists = rows, with_t, {}

    def name(self, i):
        return self.rows[i][0].rstrip('*')

    def kids(self, i):
        return [k for k, r in enumerate(self.rows) if r[1] == i and
                self.name(k) != 'title']

    def own(self, i):
        if i not in self.with_t:
            return []
        return [mat('t%d%s.' % (i, 'x' * j))
                for j in range(self.lists.get(i, 1))]

    def path(self, i):
        n = self.name(i)
        if n in SHAPES:
            return [(i, [])]
        if n in ('g', 'svg'):
            return [x for k in self.kids(i) for x in self.mapped(k)]
        if n == 'use':
            ref = self.rows[i][2]
            if ref < 0 or self.name(ref) == 'title':
                return []
            place = []
            if len(self.rows[i]) > 3:
                place = [factor(m41=S('param', 'x%d' % i),
                                m42=S('param', 'y%d' % i))]
            return [(s, place + m) for s, m in self.mapped(ref)]
        return []

    def mapped(self, i):
        return [(s, self.own(i) + m) for s, m in self.path(i)]

    def box(self, i, top=True):
        """(shape, matrices of the box, matrices of the path)"""
        n = self.name(i)
        if n in ('defs', 'symbol'):
            return []
        if n in ('g', 'svg', 'a', 'switch'):
            r = [x for k in self.kids(i)
                 if not self.rows[k][0].endswith('*')
                 for x in self.box(k, False)]
            own = [] if top else self.own(i)
            return [(s, own + b, m) for s, b, m in r]
        return [(s, [], m) for s, m in self.mapped(i)]


def product(ms):
    r = IDENT
    for m in ms:
        r = mul(r, m)
    return r


def unwrap(v):
    """(element, matrices of the box, of the path) of a result term"""
    lists = [[], []]
    k = 0
    while isinstance(v, Sym) and v.op in ('mapped', 'box of'):
        if v.op == 'box of':
            k = 1
        else:
            lists[k].append(dict(zip(NAMES, v.args[1].items)))
        v = v.args[0]
    if not (isinstance(v, Sym) and v.op == 'path of'):
        return None
    return v.args[0], lists[0], lists[1], v.args[1]


def same(alg, a, b):
    return not differ(alg, product(a), product(b))


def check(ctx):
    p = ctx.p
    h = World(p)
    cls = {k: p.cls('svgpy.element.SVG%sElement' % v)
           for k, v in CLASSES.items()}
    gfx = p.cls(BX + 'SVGGraphicsElement')
    eng = h.engine(ctx, recursion=8, max_depth=40)
    eng.on_items = h.items
    n = 0
    for label, rows in TREES.items():
        names_ = [r[0].rstrip('*') for r in rows]
        can = [i for i, x in enumerate(names_)
               if x in SHAPES + ('g', 'use', 'svg', 'a', 'switch')]
        for have in itertools.product((False, True), repeat=len(can)):
            with_t = {i for i, b in zip(can, have) if b}
            els = []
            h.refs, h.position, h.shapes = {}, set(), set()
            for i, r in enumerate(rows):
                a = {}
                if i in with_t:
                    a['transform'] = S('param', 'transform %d' % i)
                if r[0].endswith('*'):
                    a['display'] = C('none')
                if names_[i] == 'use':
                    a['href'] = C('#id%d' % r[2])
                    h.refs['id%d' % r[2]] = r[2]
                    if len(r) > 3:
                        h.position.add(i)
                if names_[i] in SHAPES:
                    h.shapes.add(i)
                els.append((names_[i], a, cls[names_[i]], r[1]))
            h.refs.pop('id-1', None)
            h.set(els)
            spec = Spec(rows, with_t)
            lab = label + (', transforms of %s' % ', '.join(
                '%s %d' % (names_[i], i) for i in sorted(with_t))
                if with_t else '')
            n += case(ctx, eng, h, spec, els, lab, gfx)
            for k in (0, 2):
                # lists of none and of two transforms
                if len(with_t) == 1 or (ctx.thorough and with_t):
                    h.lists = spec.lists = {min(with_t): k}
                    n += case(ctx, eng, h, spec, els, '%s, %d in the list of '
                              '%d' % (lab, k, min(with_t)), gfx)
                    h.lists = spec.lists = {}
    n += position(ctx, cls['use'])
    ctx.floor('paths and boxes compared', n, 1200)


def position(ctx, cls):
    """x and y of a use element, in their own directions."""
    from . import p03
    w = p03.World(ctx.p)
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=8, on_call=w)
    fi, _ = ctx.p.find_member(cls, 'get_computed_geometry')
    n = 0
    for missing in itertools.product((False, True), repeat=2):
        gone = [k for k, m in zip('xy', missing) if m]
        st, w.attrs = p03.element(ctx, cls, ['x', 'y'], (), gone)
        for o in method_call(eng, st, p03.ME, fi.name, []):
            if o.kind != 'return' or not isinstance(o.value, Obj):
                ctx.obl('position', 'use', False, 'raises %s' % exc_name(o),
                        fi.where())
                continue
            n += 1
            for k in 'xy':
                got = eng._outside(lambda: eng.getitem(
                    o.st.fork(), o.value, C(k), fi.node))
                want = C(0) if k in gone else p03.used(k)
                ctx.obl('position', 'use ' + k, len(got) == 1 and not
                        isinstance(got[0][1], Raised) and alg_of(
                            got[0][0]).equal(got[0][1], want),
                        'is not the value of the attribute %s, or 0' % k,
                        fi.where())
    return n


def start(h, els):
    st = h.state()
    for e in els:
        t = e[1].get('transform')
        if t is not None:
            st.types[t] = (ExtClass('builtins.str'), True)
            st.facts[S('is', t, NONE)] = False
            st.facts[S('eq', t, C('none'))] = False
            st.facts[t] = True
    return st


def case(ctx, eng, h, spec, els, lab, gfx):
    n = 0
    for i, e in enumerate(els):
        name = e[0]
        if name == 'title':
            continue
        asks = []
        if name in SHAPES + ('g', 'use'):
            asks.append('get_transformed_path_data')
        if name in ('g', 'use'):
            asks.append('get_path_data')
        asks.append('get_bbox')
        # no path data of switch elements in this version
        hidden = any(r[0].endswith('*') or r[0] == 'switch'
                     for r in spec.rows)
        for ask in asks:
            if hidden and ask != 'get_bbox':
                continue
            fi, _ = ctx.p.find_member(e[2], ask)
            st, args = start(h, els), []
            norm = ask != 'get_bbox' and (len(els) + i) % 2 == 1
            if norm:
                res = build(eng, st, ctx.p.cls(
                    BX + 'SVGPathDataSettings'), [], {})
                if len(res) != 1:
                    raise AnalysisBroken('path data settings')
                st, a = res[0]
                st = written(eng, st, a, 'normalize', TRUE)
                args = [a]
            outs = method_call(eng, st, elem(i), ask, args)
            if not outs:
                ctx.obl(ask, '%s, of %s %d' % (lab, name, i), False,
                        'no exit', fi.where())
            for o in outs:
                n += 1
                ctx.obl(ask, '%s, of %s %d%s' % (
                            lab, name, i, ', normalized' if norm else ''),
                        o.kind == 'return' and agrees(
                            eng, h, o, ask, spec, i, norm),
                        'differs from the transforms of SVG' if o.kind ==
                        'return' else 'raises %s' % exc_name(o), fi.where())
    return n


def agrees(eng, h, o, ask, spec, i, norm=False):
    alg = alg_of(o.st)
    if ask == 'get_bbox':
        if not isinstance(o.value, Obj):
            return False
        got = [unwrap(x) for x in h.boxes(o.st, o.value).items]
        want = spec.box(i)
        if None in got or len(got) != len(want) or any(
                g[3] is not TRUE for g in got):
            return False
        rest = list(want)
        for s, b, m, _ in got:
            for w in rest:
                # the transform of a shape maps its path, not its box
                if elem(w[0]) is s and same(alg, b + m, w[1] + w[2]) and (
                        same(alg, m, w[2]) or len(m) > len(w[2])):
                    rest.remove(w)
                    break
            else:
                return False
        return True
    items = sequence(eng, o.st, o.value)
    if items is None:
        return False
    got = [unwrap(x) for x in items]
    want = spec.mapped(i) if ask == 'get_transformed_path_data' else \
        spec.path(i)
    return None not in got and len(got) == len(want) and all(
        g[0] is elem(w[0]) and same(alg, g[1] + g[2], w[1]) and
        g[3] is C(norm)
        for g, w in zip(got, want))

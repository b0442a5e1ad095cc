"""C07: the cascade of declarations and their inheritance."""
import itertools

from ._geo import *
from .c06 import text

EXPLANATION = (
    'Element.get_inherited_style is interpreted for chains of one to three '
    'elements. Each element declares properties in up to five places - '
    'presentation attributes, rules, the style attribute, important rules '
    'and important declarations of the style attribute - and every property '
    'goes through each of the 32 combinations of those places, each '
    'combination of declared, inherit and absent along the chain, and, for '
    'the font, font-variant and marker shorthands, each position of the '
    'shorthand and of its longhands. The result is compared with the cascade '
    'of CSS. CSSUtils.parse_font, parse_font_family and parse_font_variant '
    'are interpreted for the values of their grammars.')
ASSUMPTIONS = ['the rules that apply to an element are those of C06',
               'shlex.split behaves as the one of the interpreter that runs '
               'the check']
EL = [S('element', i) for i in range(3)]
LAYERS = ('attribute', 'rule', 'style', 'important rule', 'important style')

NOT_INHERITED = (
    'alignment-baseline', 'baseline-shift', 'clip', 'clip-path',
    'dominant-baseline', 'filter', 'flood-color', 'flood-opacity',
    'inline-size', 'lighting-color', 'mask', 'opacity', 'overflow',
    'stop-color', 'stop-opacity', 'text-decoration', 'transform',
    'unicode-bidi', 'vector-effect')
# the initial values of the properties that are inherited
INITIAL = {
    'clip-rule': 'nonzero', 'color': 'black', 'color-interpolation': 'sRGB',
    'color-rendering': 'auto', 'cursor': 'auto', 'direction': 'ltr',
    'fill': 'black', 'fill-opacity': '1', 'fill-rule': 'nonzero',
    'font-feature-settings': 'normal', 'font-synthesis': 'weight style',
    'image-rendering': 'auto', 'letter-spacing': 'normal',
    'paint-order': 'normal', 'pointer-events': 'visiblePainted',
    'shape-rendering': 'auto', 'stroke': 'none', 'stroke-dasharray': 'none',
    'stroke-dashoffset': '0', 'stroke-linecap': 'butt',
    'stroke-linejoin': 'miter', 'stroke-miterlimit': '4',
    'stroke-opacity': '1', 'stroke-width': '1', 'tab-size': '8',
    'text-anchor': 'start', 'text-orientation': 'mixed',
    'text-rendering': 'auto', 'visibility': 'visible',
    'white-space': 'normal', 'word-spacing': 'normal',
    'writing-mode': 'horizontal-tb'}
INITIAL_OTHER = {
    'alignment-baseline': 'baseline', 'baseline-shift': '0', 'clip': 'auto',
    'clip-path': 'none', 'display': 'inline', 'dominant-baseline': 'auto',
    'filter': 'none', 'flood-color': 'black', 'flood-opacity': '1',
    'inline-size': '0', 'lighting-color': 'white', 'opacity': '1',
    'overflow': 'visible', 'stop-color': 'black', 'stop-opacity': '1',
    'text-decoration': 'none', 'transform': 'none', 'unicode-bidi': 'normal',
    'vector-effect': 'none'}
FONT = {'font-kerning': 'auto', 'font-language-override': 'normal',
        'font-size': 'medium', 'font-size-adjust': 'none',
        'font-stretch': 'normal', 'font-style': 'normal',
        'font-variant': 'normal', 'font-weight': 'normal',
        'line-height': 'normal'}
VARIANT = {'font-variant-alternates': ('normal',),
           'font-variant-caps': 'normal',
           'font-variant-east-asian': ('normal',),
           'font-variant-ligatures': ('normal',),
           'font-variant-numeric': ('normal',),
           'font-variant-position': 'normal'}
LISTS = tuple(k for k in VARIANT if isinstance(VARIANT[k], tuple))
MARKERS = ('marker-start', 'marker-mid', 'marker-end')


class World(object):
    """Elements whose declarations are given."""

    def __init__(self):
        self.chain = []                 # per element: {layer: {name: value}}

    def setup(self, eng, st, chain):
        self.chain = chain
        for i, decl in enumerate(chain):
            e = EL[i]
            st.facts[e] = True
            st.facts[S('is', e, NONE)] = False
            for o in EL:
                if o is not e:
                    st.facts[S('is', e, o)] = False
                    st.facts[S('eq', e, o)] = False
            attrib = self.attributes(i)
            st.fields[(e, 'attrib')] = eng._outside(
                lambda: eng.new_dict(
                    st, [(C(k), C(v)) for k, v in attrib.items()], None))

    def attributes(self, i):
        decl = self.chain[i]
        attrib = dict(decl.get('attribute', {}))
        items = [('%s:%s', '%s : %s ', '\n%s: %s')[j % 3] % kv for j, kv in
                 enumerate(decl.get('style', {}).items())]
        items += ['%s: %s ! important' % kv if j % 2 else
                  '%s:%s !IMPORTANT' % kv for j, kv in
                  enumerate(decl.get('important style', {}).items())]
        if items:
            attrib['style'] = '; '.join(items) + ';' * (len(items) % 2)
        elif 'style' in decl:
            attrib['style'] = ' '
        return attrib

    def __call__(self, eng, fn, args, kw, st, node):
        name = recv = None
        if isinstance(fn, Sym) and fn.op == 'attr':
            recv, name = fn.args
        elif isinstance(fn, BoundV):
            recv, name = fn.recv, fn.name
        if recv in EL:
            i = EL.index(recv)
            up = EL[i + 1:len(self.chain)]
            if name == 'getparent':
                return [(st, up[0] if up else NONE)]
            if name == 'iterancestors' and not args and not kw:
                return [(st, eng.new_list(st, up, node))]
            if name == 'get' and args:
                v = self.attributes(i).get(text(args[0]))
                if v is None and len(args) > 1:
                    return [(st, args[1])]
                return [(st, C(v))]
            if name in ('items', 'keys') and not args:
                items = self.attributes(i).items()
                return [(st, eng.new_list(
                    st, [C(k) if name == 'keys' else T((C(k), C(v)))
                         for k, v in items], node))]
        if isinstance(fn, FnV):
            n = fn.fi.name
            if n == 'get_css_rules':
                if list(args) + list(kw.values()) != [EL[0]]:
                    return [(st, eng.raise_(st, 'ValueError', node))]
                return [(st, S('rules of', EL[0]))]
            if n == 'get_css_style':
                a = list(args) + list(kw.values())
                if len(a) != 2 or a[0] not in EL or \
                        a[1] is not S('rules of', EL[0]):
                    return [(st, eng.raise_(st, 'ValueError', node))]
                d = self.chain[EL.index(a[0])]
                return [(st, T(tuple(
                    eng.new_dict(st, [(C(k), C(v)) for k, v in
                                      d.get(layer, {}).items()], node)
                    for layer in ('rule', 'important rule'))))]
            if n == 'parse_font' and args:
                v = text(args[0])
                return [(st, eng.new_dict(
                    st, [(C(k), eng.new_list(st, [C(x)], node)
                          if k == 'font-family' else C(x))
                         for k, x in font(v).items()], node))]
            if n == 'parse_font_family' and args:
                v = S('families', args[0])
                st.facts[v] = True
                st.facts[S('is', v, NONE)] = False
                return [(st, v)]
            if n == 'parse_font_variant' and args:
                return [(st, eng.new_dict(
                    st, [(C(k), eng.new_list(st, [C(y) for y in x], node)
                          if isinstance(x, tuple) else C(x))
                         for k, x in variant(text(args[0])).items()],
                    node))]
        return None


def font(v):
    if v.startswith('malformed'):
        return {}
    d = {k: '%s of %s' % (k, v) for k in FONT}
    d['font-family'] = 'family of %s' % (v,)
    return d


def variant(v):
    return {k: ('%s of %s' % (k, v),) if k in LISTS else
            '%s of %s' % (k, v) for k in VARIANT}


# ----------------------------------------------------------------------
# the cascade
def cascaded(decl):
    out = {}
    for layer in LAYERS:
        out.update(decl.get(layer, {}))
    return out


def expand(decl):
    """The declarations of an element, shorthands expanded."""
    c = {k: v for k, v in cascaded(decl).items() if v != 'inherit'}
    out = {}
    if 'font' in c and not font(c['font']):
        del c['font']
    if 'font' in c:
        out['font'] = c['font']
        for k, v in font(c['font']).items():
            out[k] = (v,) if k == 'font-family' else v
        out.update(variant(out['font-variant']))
    if 'font-variant' in c:
        out.update(variant(c['font-variant']))
    if 'marker' in c:
        for k in MARKERS:
            out[k] = c['marker']
    for k, v in c.items():
        if k in LISTS:
            v = tuple(v.split())
        elif k == 'font-family':
            v = S('families', C(v))
        out[k] = v
    return out


def wanted(chain):
    """Required values by name."""
    out = dict(INITIAL)
    out.update(INITIAL_OTHER)
    out.update(FONT)
    out.update(VARIANT)
    out.update({k: 'none' for k in MARKERS})
    own = cascaded(chain[0])
    for k in NOT_INHERITED:
        if k in own:
            out[k] = own[k]
    each = [expand(d) for d in chain]
    names = set(INITIAL) | set(FONT) | set(VARIANT) | set(MARKERS) | \
        {'font-family', 'font', 'lang', XML_LANG}
    for k in names:
        for d in each:
            if k in d:
                out[k] = d[k]
                break
    out['display'] = own.get('display', 'inline')
    if any(cascaded(d).get('display') == 'none' for d in chain):
        out['display'] = 'none'
    return out


XML_LANG = '{http://www.w3.org/XML/1998/namespace}lang'


def plain(eng, st, v):
    if isinstance(v, Const):
        return v.v
    s = sequence_of(eng, st, v)
    return v if s is None else s


def sequence_of(eng, st, v):
    c = eng.cont(st, v)
    if c is None or c[0] not in ('list', 'tuple'):
        return None
    return tuple(plain(eng, st, x) for x in c[1])


def result(eng, o):
    if o.kind != 'return':
        return None
    c = eng.cont(o.st, o.value)
    if c is None or c[0] != 'dict':
        return None
    out = {}
    for k, v in c[1]:
        if not isinstance(k, Const):
            return None
        out[k.v] = plain(eng, o.st, v)
    return out


# ----------------------------------------------------------------------
def value(name, where):
    return '%s-%s' % (name[:3], where)


def chains(thorough):
    """(what, chain) for the combinations of places and elements."""
    names = sorted(INITIAL) + list(NOT_INHERITED) + sorted(FONT)[:2] + \
        ['lang', XML_LANG]
    # every combination of places on one element, or on its parent
    for shift in range(32):
        for depth in (0, 1):
            decl = {}
            for i, k in enumerate(names):
                for b, layer in enumerate(LAYERS):
                    if (i + shift) >> b & 1:
                        if ':' in k and 'style' in layer:
                            continue
                        if ':' in k and layer != 'attribute':
                            continue
                        decl.setdefault(layer, {})[k] = value(
                            k, 'in the ' + layer)
            yield ('places %d of the %s' % (shift, ('element',
                                                    'parent')[depth]),
                   [{}] * depth + [decl])
    # declared, inherit and absent along the chain
    rows = list(itertools.product((None, 'inherit', 'set'), repeat=3))
    for shift, row in enumerate(rows):
        for place in range(len(LAYERS)):
            chain = [{}, {}, {}]
            for i, k in enumerate(sorted(INITIAL)):
                r = rows[(i + shift) % len(rows)]
                layer = LAYERS[(place + i) % len(LAYERS)]
                for e in range(3):
                    if r[e] is not None:
                        chain[e].setdefault(layer, {})[k] = 'inherit' \
                            if r[e] == 'inherit' else value(
                                k, 'of element %d' % e)
            for i, k in enumerate(NOT_INHERITED):
                r = rows[(i + shift) % len(rows)]
                for e in range(3):
                    if r[e] == 'set':
                        chain[e].setdefault(LAYERS[place], {})[k] = value(
                            k, 'of element %d' % e)
            yield 'chain %d %s' % (shift, LAYERS[place]), chain
    # an inherit that is stronger than a value of the same element
    for a, b in itertools.combinations(range(len(LAYERS)), 2):
        yield ('inherit in the %s' % LAYERS[b],
               [{LAYERS[a]: {'fill': 'weak', 'stroke': 'inherit'},
                 LAYERS[b]: {'fill': 'inherit', 'stroke': 'strong'}},
                {'attribute': {'fill': 'above', 'stroke': 'above'}}])
    # display
    for row in itertools.product((None, 'none', 'block'), repeat=3):
        for place in range(len(LAYERS)):
            chain = [{LAYERS[place]: {'display': r}} if r else {}
                     for r in row]
            yield 'display %s %s' % (row, LAYERS[place]), chain
    yield 'display', [{'attribute': {'display': 'none'},
                       'style': {'display': 'inline'}}]
    yield 'display', [{}, {'attribute': {'display': 'none'},
                           'important rule': {'display': 'inline'}}]
    # style attributes
    yield 'empty style', [{'style': {}, 'attribute': {'fill': 'a'}}]
    yield 'colons', [{'style': {'filter': 'url(http://x/y)',
                                'cursor': 'url(a:b)'}}]


def shorthands(thorough):
    groups = [('font', ['font-size', 'font-family', 'line-height',
                        'font-variant', 'font-variant-caps',
                        'font-variant-numeric', 'font-kerning']),
              ('font-variant', ['font-variant-caps', 'font-style',
                                'font-variant-ligatures',
                                'font-variant-alternates',
                                'font-variant-east-asian',
                                'font-variant-position']),
              ('marker', list(MARKERS))]
    for short, longs in groups:
        # the shorthand and each longhand: in which elements of the chain
        for where in itertools.product((0, 1), repeat=3):
            rows = list(itertools.product((0, 1), repeat=3))
            for shift in range(len(rows)):
                for place in (0, 2, 3):
                    chain = [{}, {}, {}]
                    for e in range(3):
                        if where[e]:
                            chain[e].setdefault(LAYERS[place], {})[
                                short] = 'short%d' % e
                        for i, k in enumerate(longs):
                            if rows[(shift + 3 * i) % 8][e]:
                                layer = LAYERS[(place + i) % len(LAYERS)]
                                chain[e].setdefault(layer, {})[k] = \
                                    'long%d \t %s' % (e, k)
                    yield '%s %s %d %d' % (short, where, shift,
                                           place), chain
    for e in range(2):
        chain = [{}, {}]
        chain[e] = {'attribute': {'font': 'a', 'font-variant': 'b',
                                  'marker': 'inherit', 'fill': 'inherit'}}
        chain[1 - e] = {'style': {'marker': 'm', 'marker-mid': 'n'}}
        yield 'both shorthands', chain
    for e in range(2):
        for k in ('attribute', 'style', 'rule'):
            chain = [{}, {'attribute': {'font-size': 'a', 'font-variant': 'b',
                                        'font-family': 'c'}}]
            chain[e].setdefault(k, {})['font'] = 'malformed'
            yield 'malformed', chain
            yield 'malformed', chain + [{'attribute': {'font': 'x'}}]
    for chain in ([{}], [{}, {}], [{'attribute': {'font-family': 'f'}}],
                  [{'attribute': {'font-family': 'inherit'}},
                   {'style': {'font-family': 'g, h'}}]):
        yield 'font-family', chain


def cascade(ctx):
    p = ctx.p
    w = World()
    eng = ctx.engine(mixins=True, on_call=w, max_depth=20, loop_bound=200)
    fi = p.func('svgpy.dom.Element.get_inherited_style')
    n = 0
    for what, chain in itertools.chain(chains(ctx.thorough),
                                       shorthands(ctx.thorough)):
        st = State()
        w.setup(eng, st, chain)
        outs = eng.run(fi, self_val=EL[0], st=st)
        got = [result(eng, o) for o in outs]
        want = wanted(chain)
        n += 1
        if len(got) != 1 or got[0] is None:
            ctx.obl('cascade', what, False, 'gives %s' % (
                [exc_name(o) if o.kind != 'return' else o.value
                 for o in outs],), fi.where())
            continue
        got = got[0]
        if 'font-family' not in want:
            v = got.get('font-family')
            ok = isinstance(v, Sym) and v.op == 'families'
            ctx.obl('default family', what, ok, 'is %s' % (v,), fi.where())
        bad = ['%s is %s, not %s' % (k, got.get(k), want[k])
               for k in sorted(want) if got.get(k) != want[k]]
        if bad:
            ctx.obl('cascade', '%s: %s' % (what, bad[0].split(' ')[0]),
                    False, '; '.join(bad[:3]), fi.where())
        else:
            ctx.obl('cascade', what, True, '', fi.where())
    ctx.floor('chains', n, 700)


# ----------------------------------------------------------------------
# the font properties
STYLES, CAPS = ('italic', 'oblique'), ('small-caps',)
WEIGHTS = ('bold', 'bolder', 'lighter') + tuple(
    str(i) for i in range(100, 1000, 100))
STRETCH = tuple(a + b for b in ('condensed', 'expanded')
                for a in ('ultra-', 'extra-', '', 'semi-'))
FAMILIES = (
    ('serif', ['serif']), ('a,b', ['a', 'b']), ('a , b', ['a', 'b']),
    ('Times New Roman', ['Times New Roman']),
    ('"Times New Roman", serif', ['Times New Roman', 'serif']),
    ("'a, b' , c d", ['a, b', 'c d']), ('x y,"z/w"', ['x y', 'z/w']),
    ('a ,\'b\', "c d", e', ['a', 'b', 'c d', 'e']),
    ('"bold", italic', ['bold', 'italic']))


def system(eng, fn, args, kw, st, node):
    """shlex.split of constants."""
    if isinstance(fn, ExtV) and fn.name == 'shlex.split' and args and \
            isinstance(args[0], Const):
        import shlex
        try:
            items = shlex.split(args[0].v)
        except ValueError:
            return [(st, eng.raise_(st, 'ValueError', node))]
        return [(st, eng.new_list(st, [C(x) for x in items], node))]
    return None


def fonts(thorough):
    """(value, properties other than the initial ones)."""
    groups = (('font-style', STYLES), ('font-variant', CAPS),
              ('font-weight', WEIGHTS), ('font-stretch', STRETCH))
    heads = [([], {})]
    for name, vs in groups:
        heads += [([v], {name: v}) for v in vs]
    for r in (2, 3, 4):
        for j, g in enumerate(itertools.permutations(groups, r)):
            vs = [(n, v[(j + i) % len(v)]) for i, (n, v) in enumerate(g)]
            heads.append(([v for n, v in vs], dict(vs)))
    heads += [(['normal'] * i + h, d) for i in (1, 2) for h, d in heads[1:8]]
    heads += [(h + ['normal'], d) for h, d in heads[1:8]]
    sizes = ('12px', 'medium', 'x-large', 'larger', '120%', '1.5em',
             'calc(1px + 2em)')
    heights = (None, '14px', 'normal', '120%', '1.5', 'calc(2 * 3px)')
    seps = ('/', ' / ', '/ ', ' /')
    n = 0
    for i, (h, d) in enumerate(heads):
        for j in range(6 if thorough else 2):
            k = i * 2 + j
            yield build(h, d, sizes[k % 7], heights[k % 6], seps[k % 4],
                        FAMILIES[k % 9])
    for i, (size, height, sep) in enumerate(itertools.product(
            sizes, heights, seps)):
        yield build([], {}, size, height, sep, FAMILIES[i % 9])
    for f in FAMILIES:
        yield build(['bold'], {'font-weight': 'bold'}, '9pt', None, '/', f)


def build(head, d, size, height, sep, family):
    v = ' '.join(head + [size + ('' if height is None else sep + height)])
    d = dict(d)
    d['font-size'] = size
    if height is not None:
        d['line-height'] = height
    d['font-family'] = tuple(family[1])
    return '%s %s' % (v, family[0]), d


def parsers(ctx):
    p = ctx.p
    eng = ctx.engine(mixins=True, on_call=system, max_depth=20,
                     loop_bound=60, recursion=3)
    fi = p.func('svgpy.core.CSSUtils.parse_font')
    n = 0
    for v, d in fonts(ctx.thorough):
        want = dict(FONT)
        want.update(d)
        outs = eng.run(fi, args={'value': C(v)})
        got = [result(eng, o) for o in outs]
        n += 1
        ctx.obl('font', repr(v), got == [want], 'gives %s' % (
            difference(got, want, outs),), fi.where())
    for v in ('', ' ', 'serif', '12px', 'bold', 'italic 12px', '12px/',
              'caption', 'icon', 'menu', 'message-box', 'small-caption',
              'status-bar', 'small-caps bold'):
        outs = eng.run(fi, args={'value': C(v)})
        got = [result(eng, o) for o in outs]
        n += 1
        ctx.obl('font', repr(v), got == [{}], 'gives %s' % (got,),
                fi.where())
    fi = p.func('svgpy.core.CSSUtils.parse_font_family')
    for v, names in FAMILIES + ((' a ', ['a']), ('', []), (',', []),
                                ("a,,b", ['a', 'b'])):
        outs = eng.run(fi, args={'value': C(v)})
        got = [sequence_of(eng, o.st, o.value) if o.kind == 'return' else
               exc_name(o) for o in outs]
        n += 1
        ctx.obl('font-family', repr(v), got == [tuple(names)],
                'gives %s' % (got,), fi.where())
    ctx.floor('fonts', n, 300)
    variants(ctx, eng)


def difference(got, want, outs):
    if len(got) != 1 or got[0] is None:
        return [exc_name(o) if o.kind != 'return' else o.value for o in outs]
    g = got[0]
    return {k: (g.get(k), want.get(k)) for k in set(g) | set(want)
            if g.get(k) != want.get(k)}


VALUES = {
    'font-variant-ligatures': (
        'common-ligatures', 'no-common-ligatures', 'discretionary-ligatures',
        'no-discretionary-ligatures', 'historical-ligatures',
        'no-historical-ligatures', 'contextual', 'no-contextual'),
    'font-variant-alternates': (
        'historical-forms', 'stylistic(a)', 'styleset(b)',
        'character-variant(c)', 'swash(d)', 'ornaments(e)', 'annotation(f)'),
    'font-variant-caps': ('small-caps', 'all-small-caps', 'petite-caps',
                          'all-petite-caps', 'unicase', 'titling-caps'),
    'font-variant-east-asian': (
        'jis78', 'jis83', 'jis90', 'jis04', 'simplified', 'traditional',
        'full-width', 'proportional-width', 'ruby'),
    'font-variant-numeric': (
        'lining-nums', 'oldstyle-nums', 'proportional-nums', 'tabular-nums',
        'diagonal-fractions', 'stacked-fractions', 'ordinal',
        'slashed-zero'),
    'font-variant-position': ('sub', 'super')}


def variants(ctx, eng):
    fi = ctx.p.func('svgpy.core.CSSUtils.parse_font_variant')
    rows = [('normal', {}), ('none', {'font-variant-ligatures': ('none',)})]
    for k, vs in VALUES.items():
        rows += [(v, {k: (v,) if k in LISTS else v}) for v in vs]
    for r in range(2, len(VALUES) + 1):
        for j, g in enumerate(itertools.permutations(sorted(VALUES), r)):
            if r > 3 and j % (1 if ctx.thorough else 23):
                continue
            d, items, last = {}, [], []
            for i, k in enumerate(g):
                vs = VALUES[k]
                v = vs[(i + j) % len(vs)]
                items.append(v)
                d[k] = (v,) if k in LISTS else v
                if k in LISTS and (i + j) % 3 == 0:
                    w = vs[(i + j + 1) % len(vs)]
                    d[k] += (w,)
                    last.append(w)
            rows.append((' '.join(items + last), d))
    for v, d in rows:
        want = dict(VARIANT)
        want.update(d)
        outs = eng.run(fi, args={'value': C(v)})
        got = [result(eng, o) for o in outs]
        ctx.obl('font-variant', v, got == [want], 'gives %s' % (
            difference(got, want, outs),), fi.where())
    ctx.floor('variants', len(rows), 180)


def check(ctx):
    parsers(ctx)
    cascade(ctx)

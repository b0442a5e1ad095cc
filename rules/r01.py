"""R01: reflecting properties read and write the attribute they stand for."""
from ._tree import *
from .d06 import EL

EXPLANATION = (
    'Every property of an element class that reflects a content attribute is '
    'read with all attributes present (each with its own unknown text, or '
    'an empty, blank or other text for the attribute itself), with only '
    'its own attribute, and with every attribute but its own, and set to '
    'an unknown and to such texts. The getter must return the text '
    'of exactly the attribute HTML or SVG define for the property, or the '
    'default when there is none; the setter must change that attribute to '
    'the value given and no other one. Token lists and the dataset must be '
    'those of their attribute, and an href of SVG falls back to xlink:href. '
    'Every subclass of the class that declares the property is covered.')
ASSUMPTIONS = ['rules D04, D05, D06 for attributes, token lists, datasets']
XLINK = '{http://www.w3.org/1999/xlink}href'
ME = S('param', 'self')
VAL = S('param', 'VALUE')
D, BX, EX = 'svgpy.dom.', 'svgpy.base.', 'svgpy.element.'
# class, property, attribute, default, settable
REFLECT = [
    (D + 'Element', 'id', 'id', '', True),
    (D + 'Element', 'class_name', 'class', '', True),
    (BX + 'HTMLElement', 'lang', 'lang', '', True),
    (BX + 'HTMLElement', 'title', 'title', '', True),
    (EX + 'HTMLLinkElement', 'as_', 'as', '', True),
    (EX + 'HTMLLinkElement', 'cross_origin', 'crossorigin', None, True),
    (EX + 'HTMLLinkElement', 'href', 'href', '', True),
    (EX + 'HTMLLinkElement', 'hreflang', 'hreflang', '', True),
    (EX + 'HTMLLinkElement', 'integrity', 'integrity', '', True),
    (EX + 'HTMLLinkElement', 'media', 'media', '', True),
    (EX + 'HTMLLinkElement', 'referrer_policy', 'referrerpolicy', '', True),
    (EX + 'HTMLLinkElement', 'rel', 'rel', '', True),
    (EX + 'HTMLLinkElement', 'type', 'type', '', True),
    (EX + 'SVGStyleElement', 'media', 'media', 'all', True),
    (EX + 'SVGStyleElement', 'title', 'title', None, True),
    (EX + 'SVGStyleElement', 'type', 'type', 'text/css', True),
    (BX + 'SVGURIReference', 'href', 'href', '', False),
]
TOKENS = [(D + 'Element', 'class_list', 'class'),
          (EX + 'HTMLLinkElement', 'rel_list', 'rel'),
          (EX + 'HTMLLinkElement', 'sizes', 'sizes')]


def text_of(name):
    return S('param', 'text of ' + name)


class Texts:
    """self.get, self.set and friends of an element."""

    def __init__(self):
        self.have = None        # names, or None for every one
        self.without = None     # the one attribute that is missing
        self.known = {}         # name -> text

    def value(self, name, default):
        if name == self.without or \
                self.have is not None and name not in self.have:
            return default
        return self.known.get(name) or text_of(name)

    def __call__(self, eng, fn, args, kw, st, node):
        r = called(fn)
        if r is None or not args or not isinstance(args[0], Const):
            return None
        if r[0] is ME or (isinstance(r[0], Sym) and r[0].op == 'attr' and
                          r[0].args[0] is ME):
            name = args[0].v
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            if r[1] in ('get', 'get_attribute'):
                return [(st, self.value(name, d))]
            if r[1] == 'has_attribute':
                return [(st, boolv(self.value(name, NONE) is not NONE))]
        return None


def state(cls, names):
    st = State()
    st.types[ME] = (cls, True)
    for n in names:
        v = text_of(n)
        st.types[v] = (ExtClass('builtins.str'), True)
        st.facts[v] = True
        st.facts[S('is', v, NONE)] = False
    st.types[VAL] = (ExtClass('builtins.str'), True)
    st.facts[VAL] = True
    st.facts[S('is', VAL, NONE)] = False
    return st


def writes(o):
    """[(attribute, value)] of an outcome, or None"""
    out = []
    for e in o.events:
        if e.recv is None or ME not in subterms(e.recv):
            continue
        if e.kind == 'call' and e.name in ('set', 'set_attribute') and \
                len(e.args) == 2 or e.kind == 'setitem':
            a = e.args
            out.append((a[0].v if isinstance(a[0], Const) else None, a[-1]))
        elif e.kind in ('setitem', 'delitem', 'mutate', 'setattr') or \
                e.name in MUT_NAMES:
            out.append((None, None))
    return out


def family(p, fq):
    """The class and its subclasses, if concrete enough to be looked at."""
    c = p.cls(fq)
    return [c] + [x for x in p.classes.values()
                  if x is not c and c in p.mro(x)]


def check(ctx):
    p = ctx.p
    h = Texts()
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=8, on_call=h)
    n = 0
    names = sorted({r[2] for r in REFLECT} | {XLINK, 'xlink:href', 'name'})
    for fq, prop, attr, default, settable in REFLECT:
        base = p.cls(fq)
        for cls in family(p, fq):
            mine, owner = p.find_member(cls, prop)
            want = attr
            dflt = default
            # a subclass may declare its own
            other = [r for r in REFLECT if r[1] == prop and
                     p.cls(r[0]) is not base and p.cls(r[0]) in p.mro(cls)
                     and base in p.mro(p.cls(r[0]))]
            if other:
                continue
            first = [r for r in REFLECT if r[1] == prop and
                     p.cls(r[0]) in p.mro(cls)]
            if len(first) > 1 and p.cls(first[0][0]) is not base and \
                    p.mro(cls).index(p.cls(first[0][0])) < \
                    p.mro(cls).index(base):
                continue
            lab = '%s.%s' % (cls.name, prop)
            n += one(ctx, eng, h, cls, lab, prop, want, dflt, settable,
                     names)
    n += links(ctx, eng, h, p, names)
    n += lists(ctx, eng, h, p)
    ctx.floor('exits compared', n, 120)


SOME = ['', ' a  B ', '0', 'none']


def one(ctx, eng, h, cls, lab, prop, attr, default, settable, names):
    n = 0
    where = cls.where()
    dflt = NONE if default is None else C(default)
    uri = not settable and attr == 'href'
    rows = [('present', None, None, {}), ('alone', [attr], None, {}),
            ('missing', [] if uri else None, attr, {})]
    rows += [('%r' % x, None, None, {attr: C(x)}) for x in SOME
             if x or not uri]
    for what, have, without, known in rows:
        h.have, h.without, h.known = have, without, known
        want = h.value(attr, dflt)
        for o in eng.read(state(cls, names), ME, prop):
            n += 1
            ctx.obl('get', '%s, %s' % (lab, what), o.kind == 'return' and
                    o.value is want and not writes(o),
                    'is not %s' % show(want), where)
    if settable:
        for v in [VAL] + [C(x) for x in SOME]:
            for have, without, known in (
                    (None, None, {}), (None, attr, {}),
                    (None, None, {attr: C(' a  B')})):
                h.have, h.without, h.known = have, without, known
                for o in eng.write(state(cls, names), ME, prop, v):
                    n += 1
                    ctx.obl('set', '%s = %s, %s' % (
                        lab, show(v), 'missing' if without else 'present'),
                        o.kind == 'return' and writes(o) == [(attr, v)],
                        'does not set exactly %s' % attr, where)
    h.have, h.without, h.known = None, None, {}
    return n


def links(ctx, eng, h, p, names):
    """href of SVG is href, or else xlink:href."""
    n = 0
    for cls in family(p, BX + 'SVGURIReference'):
        for have, want in (([], C('')), ([XLINK], text_of(XLINK)),
                           (['href', XLINK], text_of('href'))):
            h.have = have
            for o in eng.read(state(cls, names), ME, 'href'):
                n += 1
                ctx.obl('get', '%s.href with %s' % (
                    cls.name, ', '.join(have) or 'none'),
                    o.kind == 'return' and o.value is want,
                    'is not %s' % show(want), cls.where())
    return n


def lists(ctx, eng, h, p):
    n = 0
    tl, sm = p.cls(D + 'DOMTokenList'), p.cls(D + 'DOMStringMap')

    def on_new(eng2, fn, args, kw, st, node):
        if isinstance(fn, ClsV):
            a = list(args) + list(kw.values())
            return [(st, S('made', K(fn.ci), *a))]
        return h(eng2, fn, args, kw, st, node)
    e2 = ctx.engine(mixins=True, loop_bound=2, on_call=on_new)
    rows = [(fq, prop, S('made', K(tl), ME, C(attr)))
            for fq, prop, attr in TOKENS]
    rows.append((BX + 'HTMLOrSVGElement', 'dataset',
                 S('made', K(sm), ME, C('data-'))))
    for fq, prop, want in rows:
        for cls in family(p, fq):
            for st in ready(e2, cls):
                for o in e2.read(st, ME, prop):
                    n += 1
                    ctx.obl('list', '%s.%s' % (cls.name, prop),
                            o.kind == 'return' and o.value is want,
                            'is not %s' % show(want), cls.where())
    return n


def ready(eng, cls):
    """After _init, which lxml calls for each element."""
    st = State()
    st.types[ME] = (cls, True)
    return [o.st for o in method_call(eng, st, ME, '_init', [])
            if o.kind == 'return']

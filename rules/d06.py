"""D06: dataset keys and data-* attribute names correspond one to one."""
import itertools
import re

from ._tree import *

EXPLANATION = (
    'DOMStringMap is interpreted over the attributes of an element for keys '
    'and attribute names made of one representative of every class of '
    'character the HTML algorithms tell apart (dash, ASCII lower case, ASCII '
    'upper case, digit, other letters of either case, underscore, full stop, '
    'colon, characters that XML names exclude), in every order up to a '
    'length of 3, and of the first four classes up to 4. Reading, writing, '
    'deleting and membership must use exactly the attribute HTML names for '
    'the key, writing nothing and raising for keys HTML refuses; iteration '
    'must list exactly the keys of the data-* attributes, each of which '
    'reads back its attribute.')
ASSUMPTIONS = ['rule D04 for the attributes of an element',
               'characters of one class are treated alike (the code compares '
               'characters by class)']
EL = S('param', 'EL')
VAL = S('param', 'VALUE')
ME = S('param', 'self')


def name_of(key):
    if re.search('-[a-z]', key):
        return None
    return 'data-' + re.sub('[A-Z]', lambda m: '-' + m.group().lower(), key)


def key_of(name):
    return re.sub('-([a-z])', lambda m: m.group(1).upper(), name[5:])


def words(alphabet, small, n=3, m=4):
    seen = {}
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            seen[''.join(t)] = 1
    for k in range(m + 1):
        for t in itertools.product(small, repeat=k):
            seen[''.join(t)] = 1
    return list(seen)


class Owner:
    """An element with the given attributes."""

    def __init__(self):
        self.names = []
        self.p = None

    def state(self, eng):
        st = State()
        st.types[VAL] = (ExtClass('builtins.str'), True)
        st.facts[VAL] = True
        st.facts[S('is', VAL, NONE)] = False
        st.facts[S('is', EL, NONE)] = False
        node = next(iter(eng.p.modules.values())).tree
        self.attributes = eng.new_dict(
            st, [(C(n), S('attribute', n)) for n in self.names], node)
        self.attrib = eng.new_dict(
            st, [(C(n), S('value', n)) for n in self.names], node)
        for n in self.names:
            v = S('value', n)
            st.types[v] = (ExtClass('builtins.str'), True)
            st.fields[(S('attribute', n), 'value')] = v
        return st

    def on_getattr(self, eng, st, o, name, node):
        if o is EL and name in ('attributes', 'attrib'):
            return [(st, getattr(self, name))]
        return None

    def on_call(self, eng, fn, args, kw, st, node):
        r = called(fn)
        if r is None or r[0] is not EL:
            return None
        if r[1] == 'get' and args and isinstance(args[0], Const):
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            n = args[0].v
            return [(st, S('value', n) if n in self.names else d)]
        if r[1] == 'set' and len(args) == 2:
            return [(s, NONE) for s, v in eng.call_method(
                st, self.attrib, '__setitem__', args, {}, node)]
        return None

    def now(self, st):
        """The attributes: what is left of the given ones, and new ones."""
        cur = {}
        for d in (self.attributes, self.attrib):
            c = st.cont.get(d)
            if c is None or c[2] is not None:
                return None
            items = {}
            for k, v in c[1]:
                if not isinstance(k, Const):
                    return None
                if isinstance(v, Sym) and v.op == 'attribute':
                    v = S('value', v.args[0])
                items[k.v] = v
            cur[d] = items
        base = {n: S('value', n) for n in self.names}
        a, b = cur[self.attributes], cur[self.attrib]
        if a != base and b != base and a != b:
            return None
        return a if a != base else b


def check(ctx):
    p = ctx.p
    cls = p.cls('svgpy.dom.DOMStringMap')
    h = Owner()
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=40,
                     on_call=h.on_call, on_getattr=h.on_getattr,
                     max_states=4000)
    n = 0
    alphabet = ['a', 'B', '-', '1', 'é', 'É', '_', '.', ':', ' ']
    small = ['a', 'B', '-', '1']
    keys = words(alphabet, small, 3 if ctx.thorough else 2,
                 5 if ctx.thorough else 4)
    # the borders of the XML production for names, and line ends
    keys += ['a\n', '\n', 'a\r\n', '\t', 'a!', '\xb7', '\xd7', '\xf7',
             '\u037e', '\u037f', '\u2040', '\u2041', '\u218f', '\u2190',
             '\u2fef', '\u2ff0', '\u3000', '\u3001', '\ud7ff', '\uf8ff',
             '\ufdcf', '\ufdd0', '\ufffd', '\ufffe', '\u200b', '\u200c',
             '\u0300', '\U00010000', '\U000effff', '\U000f0000', ';', '/',
             'a=', '<', '&', '"', '\xa0', '@', '[', '`', '{']
    for key in keys:
        name = name_of(key)
        for have in ([], [name]) if name else ([],):
            h.names = have + ['data-b', 'x']
            if name == 'data-b':
                h.names = have + ['x']
            n += one_key(ctx, eng, h, cls, key, name, bool(have))
    for tail in words(['a', 'B', '-', '1', 'é', 'É', '_', '.'], small,
                      3 if ctx.thorough else 2, 4):
        n += one_name(ctx, eng, h, cls, 'data-' + tail)
    ctx.floor('exits compared', n, 1000)


def mapping(eng, h, cls):
    st = h.state(eng)
    res = build(eng, st, cls, [EL, C('data-')], {})
    if len(res) != 1:
        raise AnalysisBroken('construction of DOMStringMap')
    return res[0]


RANGES = [(0x2d, 0x2e), (0x30, 0x3a), (0x41, 0x5a), (0x5f, 0x5f),
          (0x61, 0x7a), (0xb7, 0xb7), (0xc0, 0xd6), (0xd8, 0xf6),
          (0xf8, 0x37d), (0x37f, 0x1fff), (0x200c, 0x200d),
          (0x203f, 0x2040), (0x2070, 0x218f), (0x2c00, 0x2fef),
          (0x3001, 0xd7ff), (0xf900, 0xfdcf), (0xfdf0, 0xfffd),
          (0x10000, 0xeffff)]


def name_char(c):
    """NameChar of XML 1.0, fifth edition"""
    return any(a <= ord(c) <= b for a, b in RANGES)


def one_key(ctx, eng, h, cls, key, name, have):
    n = 0
    base = {x: S('value', x) for x in h.names}
    lab = 'key %r%s' % (key, '' if have else ', not there')
    where = cls.where()

    def run(method, args):
        st, m = mapping(eng, h, cls)
        return method_call(eng, st, m, method, args)
    for o in run('__getitem__', [C(key)]):
        n += 1
        if have:
            ok = o.kind == 'return' and o.value is S('value', name)
        else:
            ok = o.kind == 'raise' and exc_name(o) == (
                'KeyError' if name else 'ValueError')
        ctx.obl('read', lab, ok and h.now(o.st) == base,
                'gives %s' % (exc_name(o) if o.kind == 'raise' else
                              show(o.value)), where)
    bad = name is None or not all(map(name_char, name))
    for o in run('__setitem__', [C(key), VAL]):
        n += 1
        if bad:
            ok = o.kind == 'raise' and exc_name(o) == (
                'ValueError' if name is None else 'InvalidCharacterError')
            ok = ok and h.now(o.st) == base
        else:
            ok = o.kind == 'return' and h.now(o.st) == dict(
                base, **{name: VAL})
        ctx.obl('write', lab, ok, 'does not set exactly the attribute %s' %
                name if not bad else 'is not refused', where)
    for o in run('__delitem__', [C(key)]):
        n += 1
        if have:
            ok = o.kind == 'return' and h.now(o.st) == {
                k: v for k, v in base.items() if k != name}
        else:
            ok = o.kind == 'raise' and h.now(o.st) == base
        ctx.obl('delete', lab, ok, 'does not remove exactly %s' % name,
                where)
    return n


def one_name(ctx, eng, h, cls, name):
    h.names = ['x', name, 'datax', 'id']
    where = cls.where()
    want = [] if re.search('[A-Z]', name) else [key_of(name)]
    n = 0
    st, m = mapping(eng, h, cls)
    for o in method_call(eng, st, m, '__iter__', []):
        items = None
        if o.kind == 'return':
            items = sequence(eng, o.st, o.value)
        n += 1
        got = None if items is None else [
            x.v if isinstance(x, Const) else None for x in items]
        ctx.obl('keys', 'attribute %r' % name, got == want,
                'lists %s instead of %s' % (got, want), where)
    st, m = mapping(eng, h, cls)
    for o in method_call(eng, st, m, '__len__', []):
        n += 1
        ctx.obl('length', 'attribute %r' % name, o.kind == 'return' and
                isinstance(o.value, Const) and o.value.v == len(want),
                'is not %d' % len(want), where)
    return n

"""C04: math functions are parsed into, and serialized from, their trees."""
from fractions import Fraction
import itertools
import re

from ._geo import *
from ._path import sequence
from .c01 import TX, the_unit, decimals
from .p03 import called

EXPLANATION = (
    'CSSNumericValue.parse is interpreted on the component values of math '
    'expressions with unknown numbers: every sequence of operators up to a '
    'length, parentheses and functions in operand and argument position. The '
    'tree it builds must stand for the value the expression has by the '
    'precedence of CSS Values (compared in polynomial normal form), and '
    'sequences that are no expression must be refused with ValueError. '
    'tostring is interpreted on trees of all operators to depth two (three '
    'thorough); reading its text with that precedence must give the value '
    'the tree stands for.')
ASSUMPTIONS = ['tinycss2 tokenizes as CSS Syntax describes',
               'format_number_sequence writes a number as its text']
FUNCS = ('min', 'max', 'clamp')


# normal form: {monomial: coefficient}, monomial: frozenset of (atom, power)

def atom(a):
    return {frozenset([(a, 1)]): Fraction(1)}


def plus(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c}


def times(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            e = dict(m)
            for a, k in n:
                e[a] = e.get(a, 0) + k
            key = frozenset((a, k) for a, k in e.items() if k)
            r[key] = r.get(key, 0) + c * d
    return {m: c for m, c in r.items() if c}


def frozen(p):
    return frozenset(p.items())


def invert(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {frozenset((a, -k) for a, k in m): 1 / c}
    return {frozenset([(('sum', frozen(p)), -1)]): Fraction(1)}


def choice(f, args):
    if f in ('min', 'max'):
        key = frozenset(map(frozen, args))
        if len(key) == 1:
            return args[0]
        return atom((f, key))
    return atom((f, tuple(map(frozen, args))))


# expressions: ('leaf', name, unit), ('flat', [operands], [operators]),
# ('paren', e), (function, e, ...)

def leaf(i, unit='number'):
    return ('leaf', i, unit)


def denotes(e):
    if e[0] == 'leaf':
        return atom((e[1], e[2]))
    if e[0] in ('paren', 'calc'):
        return denotes(e[1])
    if e[0] == 'flat':
        return by_precedence([denotes(x) for x in e[1]], e[2])
    return choice(e[0], [denotes(x) for x in e[1:]])


def by_precedence(vals, ops):
    total, prod, sign = {}, vals[0], 1
    for o, v in zip(ops, vals[1:]):
        if o == '*':
            prod = times(prod, v)
        elif o == '/':
            prod = times(prod, invert(v))
        else:
            total = plus(total, prod, sign)
            prod, sign = v, 1 if o == '+' else -1
    return plus(total, prod, sign)


def spelled(e):
    if e[0] == 'leaf':
        return e[1] + ('' if e[2] == 'number' else e[2])
    if e[0] == 'flat':
        s = spelled(e[1][0])
        for o, x in zip(e[2], e[1][1:]):
            s += ' %s %s' % (o, spelled(x))
        return s
    if e[0] == 'paren':
        return '(%s)' % (spelled(e[1]),)
    return '%s(%s)' % (e[0], ', '.join(map(spelled, e[1:])))


# component values of tinycss2

class Tokens(object):
    def __init__(self, eng, st, node):
        self.eng, self.st, self.node, self.n = eng, st, node, 0

    def token(self, kind, **fields):
        self.n += 1
        t = S('param', 'token%d' % self.n)
        self.st.types[t] = (ExtClass('tinycss2.ast.Node'), False)
        self.st.facts[S('is', t, NONE)] = False
        self.st.facts[t] = True
        self.st.fields[(t, 'type')] = C(kind)
        for k, v in fields.items():
            self.st.fields[(t, k)] = v if not isinstance(v, (str, list)) \
                else C(v) if isinstance(v, str) else self.listing(v)
        return t

    def listing(self, items):
        return self.eng._outside(lambda: self.eng.new_list(
            self.st, items, self.node))

    def space(self):
        return self.token('whitespace', value=' ')

    def literal(self, c):
        return self.token('literal', value=c)

    def many(self, e):
        """[component values] of the inside of an expression"""
        if e[0] == 'flat':
            out = self.many(e[1][0])
            for o, x in zip(e[2], e[1][1:]):
                out += [self.space(), self.literal(o), self.space()] + \
                    self.many(x)
            return out
        if e[0] == 'leaf':
            v = num(self.st, e[1])
            self.st.facts[v] = True
            self.st.facts[S('eq', v, C(0))] = False
            if e[2] == 'number':
                return [self.token('number', value=v)]
            if e[2] == '%':
                return [self.token('percentage', value=v, unit='%')]
            return [self.token('dimension', value=v, unit=e[2],
                               lower_unit=e[2].lower())]
        if e[0] == 'paren':
            return [self.token('() block', content=self.many(e[1]))]
        if e[0] == 'raw':
            out = []
            for x in e[1:]:
                if isinstance(x, tuple):
                    out += self.many(x)
                elif x == ' ':
                    out.append(self.space())
                elif x == '/**/':
                    out.append(self.token('comment', value=''))
                elif x == 'ident':
                    out.append(self.token('ident', value='foo',
                                          lower_value='foo'))
                elif x == '[]':
                    out.append(self.token('[] block', content=[]))
                else:
                    out.append(self.literal(x))
            return out
        args = []
        for i, x in enumerate(e[1:]):
            if i:
                args += [self.literal(','), self.space()]
            args += self.many(x)
        return [self.token('function', name=e[0], lower_name=e[0].lower(),
                           arguments=args)]


def tree_value(eng, st, v):
    """Normal form of what a tree stands for, or None."""
    t = st.types.get(v)
    name = getattr(t[0], 'name', None) if t else None
    if name == 'CSSUnitValue':
        x = component(eng, st, v, 'value')
        u = the_unit(eng, st, v)
        if not isinstance(x, Sym) or x.op != 'param' or u is None:
            return None
        return atom((x.args[0], '%' if u == 'percent' else u))
    if name in ('CSSMathNegate', 'CSSMathInvert'):
        x = component(eng, st, v, 'value')
        x = tree_value(eng, st, x) if x is not None else None
        if x is None:
            return None
        return plus({}, x, -1) if name.endswith('Negate') else invert(x)
    if name == 'CSSMathClamp':
        args = [component(eng, st, v, k) for k in ('min', 'val', 'max')]
    elif name in ('CSSMathSum', 'CSSMathProduct', 'CSSMathMin',
                  'CSSMathMax'):
        x = component(eng, st, v, 'values')
        args = sequence(eng, st, x) if x is not None else None
    else:
        return None
    if not args or None in args:
        return None
    vals = [tree_value(eng, st, x) for x in args]
    if None in vals:
        return None
    if name in ('CSSMathSum', 'CSSMathProduct'):
        r = vals[0]
        for x in vals[1:]:
            r = (plus if name == 'CSSMathSum' else times)(r, x)
        return r
    return choice(name[7:].lower(), vals)


def flat(n, ops, start=0, unit='number'):
    return ('flat', [leaf('abcdefgh'[start + i], unit) for i in range(n)],
            list(ops))


def expressions(thorough):
    out = [leaf('a'), leaf('a', 'px'), leaf('a', 'Em'), leaf('a', '%')]
    out += [('calc', x) for x in out]
    for n in range(2, 6 if thorough else 5):
        for ops in itertools.product('+-*/', repeat=n - 1):
            out.append(('calc', flat(n, ops)))
    for ops in itertools.product('+-*/', repeat=4):
        s = ''.join(ops)
        if not thorough and not (len(set(ops) & set('+-')) and
                                 len(set(ops) & set('*/'))):
            continue
        if not thorough and ('/' in s or '+' in s):
            continue
        out.append(('calc', flat(5, ops)))
    a, b, c, d = [leaf(x) for x in 'abcd']
    for o1, o2 in itertools.product('+-*/', repeat=2):
        bc = flat(2, o2, 1)
        ab = flat(2, o1)
        for w in ('paren', 'calc') if thorough else ('paren',):
            out += [('calc', ('flat', [a, (w, bc)], [o1])),
                    ('calc', ('flat', [(w, ab), c], [o2]))]
        for f in ('min', 'max'):
            out += [(f, ab, c), (f, c, ab), (f, ab, flat(2, o2, 2)),
                    (f, flat(3, o1 + o2), d), (f, d, flat(3, o1 + o2))]
            if f == 'min' or thorough:
                out += [('calc', ('flat', [a, (f, bc, d)], [o1])),
                        ('calc', ('flat', [(f, ab, d), c], [o2])),
                        ('calc', ('flat', [d, (f, ab), c], [o1, o2]))]
        out += [('clamp', ab, c, d), ('clamp', a, bc, d),
                ('clamp', a, b, flat(2, o1, 2)),
                ('calc', ('flat', [a, ('clamp', b, c, d),
                                   leaf('e')], [o1, o2])),
                ('calc', ('flat', [a, ('paren', ('flat', [
                    b, ('paren', flat(2, o2, 2))], [o1])), leaf('e')],
                    [o2, o1]))]
    out += [(f, a) for f in ('min', 'max')]
    out += [(f, a, b, c) for f in FUNCS]
    out += [('calc', ('paren', a)), ('calc', ('paren', ('paren', a))),
            ('calc', ('calc', a)), ('calc', ('max', a, ('min', b, c))),
            ('max', ('calc', a), ('paren', b)), ('CALC', a), ('Max', a, b),
            ('calc', ('raw', ' ', a, ' ', '+', ' ', b, ' ')),
            ('max', ('raw', ' ', a, ' '), ('raw', ' ', b))]
    return out


BAD = [
    ('calc', ('raw',)), ('calc', ('raw', ' ')), ('max', ('raw',)),
    ('calc', ('raw', '+')), ('calc', ('raw', leaf('a'), ' ', '+')),
    ('calc', ('raw', leaf('a'), ' ', '*', ' ')),
    ('calc', ('raw', '*', ' ', leaf('a'))),
    ('calc', ('raw', '+', ' ', leaf('a'))),
    ('calc', ('raw', '/', ' ', leaf('a'))),
    ('calc', ('raw', '-', ' ', leaf('a'))),
    ('calc', ('raw', leaf('a'), ' ', leaf('b'))),
    ('calc', ('raw', leaf('a'), ' ', '+', ' ', '*', ' ', leaf('b'))),
    ('calc', ('raw', leaf('a'), ' ', '/', ' ', '/', ' ', leaf('b'))),
    ('calc', ('raw', leaf('a'), ' ', '-', ' ', '-', ' ', leaf('b'))),
    ('calc', ('raw', leaf('a'), ' ', leaf('b'), ' ', leaf('c'))),
    ('calc', ('raw', '+', ' ', leaf('a'), ' ', '+')),
    ('calc', ('raw', '*', ' ', leaf('a'), ' ', leaf('b'))),
    ('calc', ('raw', leaf('a'), ' ', '*', ' ', '*')),
    ('calc', ('raw', leaf('a'), ' ', leaf('b'), ' ', '-')),
    ('calc', ('raw', leaf('a'), ',', ' ', leaf('b'))),
    ('calc', ('raw', leaf('a'), ' ', '%', ' ', leaf('b'))),
    ('calc', ('raw', leaf('a'), ' ', '+', ' ', 'ident')),
    ('calc', ('raw', leaf('a'), ' ', '+', ' ', '[]')),
    ('calc', ('raw', 'ident')), ('calc', ('raw', '[]')),
    ('calc', ('paren', ('raw',))),
    ('calc', ('foo', leaf('a'))), ('foo', leaf('a')), ('sin', leaf('a')),
    ('max', ('raw',), leaf('a')), ('max', leaf('a'), ('raw', ' ')),
    ('min', leaf('a'), ('raw',), leaf('b')),
    ('max', ('raw', leaf('a'), ' ', leaf('b')), leaf('c')),
    ('clamp', leaf('a')), ('clamp', leaf('a'), leaf('b')),
    ('clamp', leaf('a'), leaf('b'), leaf('c'), leaf('d')),
    ('raw', 'ident'), ('raw', '[]'), ('raw', '+'),
]


def raw_text(e):
    if e[0] == 'raw':
        return ''.join(spelled(x) if isinstance(x, tuple) else x
                       for x in e[1:])
    if e[0] in ('leaf', 'flat'):
        return spelled(e)
    if e[0] == 'paren':
        return '(%s)' % (raw_text(e[1]),)
    return '%s(%s)' % (e[0], ', '.join(map(raw_text, e[1:])))


class Calls(object):
    """Stands for the tokenizer and the number formatter."""

    def __init__(self):
        self.token = None

    def __call__(self, eng, fn, args, kw, st, node):
        if isinstance(fn, ExtV) and fn.name == \
                'tinycss2.parse_one_component_value':
            return [(st, self.token)]
        fi = getattr(fn, 'fi', None)
        if fi is not None and fi.name == 'format_number_sequence' and args:
            items = sequence(eng, st, args[0])
            if items is not None and all(
                    isinstance(x, Sym) and x.op == 'param' for x in items):
                return [(st, eng.new_list(st, [C(x.args[0]) for x in items],
                                          node))]
        return decimals(eng, fn, args, kw, st, node)


def check(ctx):
    p = ctx.p
    calls = Calls()
    eng = ctx.engine(mixins=True, keep_facts=True, loop_bound=60,
                     on_call=calls, max_depth=60, recursion=8)
    n = parses(ctx, eng, p, calls) + writes(ctx, eng, p)
    ctx.floor('exits compared', n, 700)


def parse(eng, p, calls, e):
    st = State()
    fn = p.func(TX + 'CSSNumericValue.parse')
    t = Tokens(eng, st, fn.node)
    calls.token = t.many(e)[0]
    text = C(raw_text(e))
    return text, eng.run(fn, args={'css_text': text}, st=st)


def parses(ctx, eng, p, calls):
    n = 0
    where = p.func(TX + 'CSSNumericValue.parse').where()
    for e in expressions(ctx.thorough):
        lab = raw_text(e)
        want = denotes(strip(e))
        text, outs = parse(eng, p, calls, e)
        for o in outs:
            n += 1
            got = tree_value(eng, o.st, o.value) if o.kind == 'return' \
                else None
            ctx.obl('value', lab, got == want,
                    'is refused' if o.kind == 'raise' else
                    'has another value', where)
            if o.kind == 'return' and isinstance(o.value, Obj):
                n += 1
                r = method_call(eng, o.st, o.value, 'tostring', [])
                ctx.obl('text', lab, len(r) == 1 and r[0].kind == 'return'
                        and r[0].value == text, 'is not the text parsed',
                        where)
    for e in BAD:
        for o in parse(eng, p, calls, e)[1]:
            n += 1
            ctx.obl('refused', raw_text(e), o.kind == 'raise' and
                    exc_name(o) == 'ValueError',
                    'is not refused with ValueError', where)
    return n


def strip(e):
    """Without the spaces given explicitly."""
    if e[0] == 'leaf':
        return e if e[2] in ('number', '%') else ('leaf', e[1],
                                                  e[2].lower())
    if e[0] == 'flat':
        return ('flat', [strip(x) for x in e[1]], e[2])
    if e[0] == 'raw':
        rest = [x for x in e[1:] if x != ' ' and x != '/**/']
        return ('flat', [strip(x) for x in rest[::2]], rest[1::2])
    return (e[0].lower(),) + tuple(strip(x) for x in e[1:])


# serialization

def trees(thorough):
    """Trees; leaves are numbered afterwards."""
    L = ('leaf',)
    one = [('Negate', L), ('Invert', L), ('Sum', L, L), ('Product', L, L),
           ('Min', L, L), ('Max', L, L), ('Clamp', L, L, L),
           ('Sum', L, ('Negate', L)), ('Product', L, ('Invert', L))]
    out = [L] + list(one)
    two = []
    for x in one:
        two += [('Negate', x), ('Invert', x), ('Sum', x), ('Product', x),
                ('Clamp', x, L, L), ('Clamp', L, x, L), ('Clamp', L, L, x)]
        for f in ('Sum', 'Product', 'Min', 'Max'):
            two += [(f, x, L), (f, L, x), (f, L, ('Negate', x)),
                    (f, L, ('Invert', x))]
    out += two
    out += [(f, x, y) for f in ('Sum', 'Product', 'Max') for x in one[2:]
            for y in one[2:]]
    some = two if thorough else two[::7] + [
        t for t in two if t[0] in ('Sum', 'Product', 'Max')][::5]
    for t in some:
        out += [('Max', t, L), ('Sum', L, t), ('Product', L, t),
                ('Clamp', L, t, L), ('Negate', t), ('Invert', t),
                ('Min', L, ('Max', t, L))]
    return out


def numbered(t, c):
    if t[0] == 'leaf':
        return leaf('n%d' % next(c))
    return (t[0],) + tuple(numbered(x, c) for x in t[1:])


def make(eng, st, p, t):
    node = p.cls(TX + 'CSSUnitValue').node
    if t[0] == 'leaf':
        v = num(st, t[1])
        cls, args = 'CSSUnitValue', [v, C(t[2])]
    else:
        args = []
        for x in t[1:]:
            r = make(eng, st, p, x)
            if r is None:
                return None
            st, v = r
            args.append(v)
        cls = 'CSSMath' + t[0]
    res = build(eng, st, p.cls(TX + cls), args, {}, node)
    return res[0] if len(res) == 1 else None


class Reader(object):
    """Value of a text by the precedence of CSS Values; a minus before an
    operand negates it."""

    def __init__(self, text):
        self.toks = re.findall(r'[a-z]+\d+(?:[a-z]+|%)?|[a-z]+\(|[-+*/(),]|'
                               r'\s+|.', text)
        self.toks = [t for t in self.toks if t.strip()]

    def take(self, t=None):
        x = self.toks.pop(0)
        if t is not None and x != t:
            raise ValueError
        return x

    def sum(self):
        vals, ops = [self.operand()], []
        while self.toks and self.toks[0] in '+-*/':
            ops.append(self.take())
            vals.append(self.operand())
        return by_precedence(vals, ops)

    def operand(self):
        t = self.take()
        if t == '-':
            return plus({}, self.operand(), -1)
        if t == '1':
            return {frozenset(): Fraction(1)}
        if t == '(' or t == 'calc(':
            v = self.sum()
            self.take(')')
            return v
        m = re.match(r'^(n\d+)([a-z]+|%)?$', t)
        if m:
            return atom((m.group(1), m.group(2) or 'number'))
        if t[:-1] in FUNCS:
            args = [self.sum()]
            while self.toks[0] == ',':
                self.take()
                args.append(self.sum())
            self.take(')')
            if t == 'clamp(' and len(args) != 3:
                raise ValueError
            return choice(t[:-1], args)
        raise ValueError


def read(text):
    try:
        r = Reader(text)
        # arithmetic stands only in a math function
        v = r.operand()
        return v if not r.toks else None
    except (ValueError, IndexError):
        return None


def writes(ctx, eng, p):
    n = 0
    for t in trees(ctx.thorough) + ['px', 'percent', 'em', 'number']:
        if isinstance(t, str):
            t = leaf('n0', t)
        else:
            t = numbered(t, itertools.count())
        where = p.cls(TX + ('CSSUnitValue' if t[0] == 'leaf' else
                            'CSSMath' + t[0])).where()
        lab = told(t)
        r = make(eng, State(), p, t)
        want = tree_value(eng, *r) if r is not None else None
        if want is None:
            ctx.bad('serialized', lab, 'cannot be constructed', where)
            continue
        for o in method_call(eng, r[0], r[1], 'tostring', []):
            n += 1
            s = o.value.v if o.kind == 'return' and \
                isinstance(o.value, Const) else None
            ctx.obl('serialized', lab, isinstance(s, str) and
                    read(s) == want, 'is written %r' % (s,), where)
    return n


def told(t):
    if t[0] == 'leaf':
        return t[1] + ('' if t[2] == 'number' else t[2])
    return '%s(%s)' % (t[0], ', '.join(map(told, t[1:])))

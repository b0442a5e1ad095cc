"""C08: from parsed style sheets to rules, declarations and back."""
import itertools

from ._geo import *
from ._path import sequence
from .c06 import kind, text

EXPLANATION = (
    'CSSParser.parse_rules is interpreted for trees of rules as tinycss2 '
    'gives them - every kind of rule, unknown and malformed ones, errors, '
    'comments and white space, alone, in all pairs and nested in @media '
    'rules: the resulting objects must be of the right kind, in order, know '
    'their parents and have the contents of their blocks and preludes. '
    'Declaration blocks are compared with a model for sequences of normal, '
    'important, malformed and empty declarations and of set_property and '
    'remove_property; insert_rule, delete_rule and media lists for '
    'sequences of calls.')
ASSUMPTIONS = ['tinycss2 gives the tokens and rules of its documentation',
               'shorthand properties are C10']
CSS = 'svgpy.css.'
KINDS = {'style': ('CSSStyleRule', 'STYLE_RULE'),
         'font-face': ('CSSFontFaceRule', 'FONT_FACE_RULE'),
         'font-feature-values': ('CSSFontFeatureValuesRule',
                                 'FONT_FEATURE_VALUES_RULE'),
         'import': ('CSSImportRule', 'IMPORT_RULE'),
         'media': ('CSSMediaRule', 'MEDIA_RULE'),
         'namespace': ('CSSNamespaceRule', 'NAMESPACE_RULE')}
SHEET = S('the', 'sheet')


class Tokens(object):
    """The tokens of tinycss2."""

    def __init__(self):
        self.n = 0
        self.blocks = {}            # marker -> nodes of a block
        self.texts = {}             # token -> serialization
        self.fetched = []
        self.inserted = []

    def token(self, st, typ, txt='', **fields):
        self.n += 1
        v = S('token', self.n, typ)
        st.facts[v] = True
        st.facts[S('is', v, NONE)] = False
        st.fields[(v, 'type')] = C(typ)
        for k, x in fields.items():
            st.fields[(v, k)] = x if isinstance(x, Val) else C(x)
        st.fields.setdefault((v, 'source_line'), C(1))
        st.fields.setdefault((v, 'source_column'), C(1))
        self.texts[v] = txt
        return v

    def list(self, eng, st, items):
        return eng._outside(lambda: eng.new_list(st, items, None))

    def block(self, eng, st, nodes, txt=''):
        """The content of a block: one token that stands for its nodes."""
        v = self.token(st, 'block', txt)
        self.blocks[v] = nodes
        return self.list(eng, st, [v])

    def serialize(self, eng, st, v):
        if isinstance(v, Sym):
            return self.texts.get(v)
        items = sequence(eng, st, v)
        if items is None:
            return None
        out = [self.texts.get(x) for x in items]
        return None if None in out else ''.join(out)

    def __call__(self, eng, fn, args, kw, st, node):
        name = recv = None
        if isinstance(fn, Sym) and fn.op == 'attr':
            recv, name = fn.args
        elif isinstance(fn, BoundV):
            recv, name = fn.recv, fn.name
        if name in ('debug', 'info'):
            return [(st, NONE)]
        if name == 'serialize' and recv in self.texts:
            return [(st, C(self.texts[recv]))]
        if isinstance(fn, ExtV):
            n = fn.name.split('.')[-1]
            if n == 'serialize' and len(args) == 1:
                t = self.serialize(eng, st, args[0])
                return None if t is None else [(st, C(t))]
            if n in ('parse_rule_list', 'parse_declaration_list') and args:
                items = sequence(eng, st, args[0])
                if items is None or len(items) != 1 or \
                        items[0] not in self.blocks:
                    return None
                drop = [t for t in ('comment', 'whitespace')
                        if text(kw.get('skip_%s' % (
                            t + 's' if t == 'comment' else t), FALSE))]
                out = [x for x in self.blocks[items[0]]
                       if text(st.fields[(x, 'type')]) not in drop]
                return [(st, eng.new_list(st, out, node))]
            if n == 'parse_component_value_list' and \
                    isinstance(args[0], Const):
                t = args[0].v
                out = []
                for x in t.split(' ') if t else ():
                    if out:
                        out.append(self.token(st, 'whitespace', ' '))
                    out.append(self.token(
                        st, 'error' if x in ('}', ')') else 'ident', x,
                        lower_value=x.lower()))
                return [(st, eng.new_list(st, out, node))]
            if n == 'LiteralToken' and len(args) == 3:
                v = self.token(st, 'literal', text(args[2]), value=args[2])
                return [(st, v)]
        if isinstance(fn, FnV):
            fi = fn.fi
            owner = fi.cls.name if fi.cls is not None else None
            if fi.name == 'normalize_url':
                v = S('url', *args)
                h = S('href', *args)
                st.fields[(v, 'href')] = h
                st.facts[h] = True
                st.facts[S('is', h, NONE)] = False
                return [(st, v)]
            if (owner, fi.name) == ('CSSParser', 'parse'):
                v = S('fetched', len(self.fetched))
                st.facts[S('is', v, NONE)] = False
                self.fetched.append((args[0], dict(kw)))
                return [(st, v)]
            if (owner, fi.name) == ('CSSParser', 'fromstring'):
                self.inserted.append((args, dict(kw)))
                t = args[0].v
                return [(st, eng.new_list(
                    st, [S('rule', t, i) for i in range(len(t))], node))]
        return None


# ----------------------------------------------------------------------
# rules
DECLS = [('fill', ' red ', False), ('Stroke', 'blue', True)]


def declarations_of(tk, st, decls):
    out = []
    for d in decls:
        if isinstance(d, str):
            out.append(tk.token(st, d, '/**/'))
            continue
        name, value, important = d
        v = tk.token(st, 'declaration', '%s:%s' % (name, value), name=name,
                     lower_name=name.lower(), important=important)
        st.fields[(v, 'value')] = S('value of', v)
        tk.texts[S('value of', v)] = value
        out.append(v)
    return out


def build(eng, tk, st, spec):
    """The node of a specification."""
    t = spec[0]
    if t in ('error', 'comment', 'whitespace', 'declaration'):
        return tk.token(st, t, '?')
    if t == 'style':
        sel = tk.list(eng, st, [tk.token(st, 'ident', spec[1])])
        body = tk.block(eng, st, declarations_of(tk, st, spec[2]), 'x')
        return tk.token(st, 'qualified-rule', '%s{}' % spec[1], prelude=sel,
                        content=body)
    fields = {'at_keyword': spec[1], 'lower_at_keyword': spec[1].lower(),
              'content': NONE,
              'prelude': tk.list(eng, st, [])}
    if t == 'at':
        key = spec[1].lower()
        if key == 'media':
            fields['prelude'] = tk.list(
                eng, st, [tk.token(st, 'whitespace', ' '),
                          tk.token(st, 'ident', spec[2])])
            fields['content'] = tk.block(
                eng, st, [build(eng, tk, st, x) for x in spec[3]])
        elif key == 'font-face':
            fields['content'] = tk.block(
                eng, st, declarations_of(tk, st, spec[2]), 'x')
        elif key == 'font-feature-values':
            fields['prelude'] = tk.list(
                eng, st, [tk.token(st, 'ident', spec[2])])
            fields['content'] = tk.block(
                eng, st, [feature(eng, tk, st, x) for x in spec[3]])
        elif key in ('import', 'namespace'):
            fields['prelude'] = tk.list(
                eng, st, [tk.token(st, k, {'string': '"%s"',
                                           'url': 'url(%s)'}.get(
                                               k, '%s') % v, value=v)
                          for k, v in spec[2]])
        else:
            fields['content'] = tk.block(eng, st, [])
    return tk.token(st, 'at-rule', '@%s' % (spec[1],), **fields)


def feature(eng, tk, st, spec):
    if spec[0] == 'qualified':
        return tk.token(st, 'qualified-rule', '?',
                        content=tk.list(eng, st, []),
                        prelude=tk.list(eng, st, []))
    if spec[0] in ('error', 'comment'):
        return tk.token(st, spec[0], '?')
    content = NONE
    if spec[1] is not None:
        toks = []
        for x in spec[1].split():
            if x.lstrip('-').replace('.', '').isdigit():
                whole = '.' not in x
                toks.append(tk.token(
                    st, 'number', x, is_integer=whole,
                    int_value=int(x) if whole else None, value=float(x)))
            elif x in (':', ';', ','):
                toks.append(tk.token(st, 'literal', x, value=x))
            else:
                toks.append(tk.token(st, 'ident', x, value=x,
                                     lower_value=x.lower()))
            toks.append(tk.token(st, 'whitespace', ' '))
        content = tk.list(eng, st, toks)
    return tk.token(st, 'at-rule', '@' + spec[0], at_keyword=spec[0],
                    lower_at_keyword=spec[0].lower(), content=content,
                    prelude=tk.list(eng, st, []))


FEATURES = ('annotation', 'character_variant', 'ornaments', 'styleset',
            'stylistic', 'swash')


def features(specs):
    """name -> {feature: numbers}"""
    out = {k: {} for k in FEATURES}
    for spec in specs:
        key = spec[0].lower().replace('-', '_')
        if key not in out or len(spec) < 2 or spec[1] is None:
            continue
        for decl in spec[1].split(';'):
            name, colon, values = decl.partition(':')
            nums = [int(x) for x in values.split()
                    if x.isdigit()]
            if colon and name.strip() and nums:
                out[key][name.strip().lower()] = tuple(nums)
    return out


def block_of(decls):
    """What a block of declarations declares: {name: (value, priority)}."""
    out = {}
    for d in decls:
        if isinstance(d, str):
            continue
        name, value, important = d
        name = name if name.startswith('--') else name.lower()
        value = value.strip()
        if not value or '}' in value:
            continue
        if not important and out.get(name, ('', ''))[1]:
            continue
        out[name] = (value, 'important' if important else '')
    return out


def represented(spec):
    if spec[0] == 'style':
        return 'style'
    if spec[0] == 'at' and spec[1].lower() in KINDS:
        return spec[1].lower()
    return None


class Reader(object):

    def __init__(self, eng, ctx, st):
        self.eng, self.ctx, self.st = eng, ctx, st

    def get(self, obj, name):
        outs = self.eng.read(self.st, obj, name)
        if len(outs) != 1 or outs[0].kind != 'return':
            return None
        self.st = outs[0].st
        return outs[0].value

    def plain(self, v):
        if isinstance(v, Const):
            return v.v
        s = sequence(self.eng, self.st, v) if v is not None else None
        return v if s is None else tuple(self.plain(x) for x in s)

    def items(self, obj):
        """What a declaration block or mapping contains."""
        v = self.method(obj, 'items')
        s = sequence(self.eng, self.st, v) if v is not None else None
        if s is None:
            return None
        out = {}
        for pair in s:
            k = self.plain(pair)
            if not isinstance(k, tuple) or len(k) != 2:
                return None
            out[k[0]] = k[1]
        return out

    def method(self, obj, name, args=()):
        eng = self.eng
        got = eng._outside(lambda: eng.call_method(
            self.st, obj, name, list(args), {},
            next(iter(eng.p.modules.values())).tree))
        if len(got) != 1 or isinstance(got[0][1], Raised):
            return None
        self.st = got[0][0]
        return got[0][1]


def problems(rd, specs, rules, parent, sheet):
    """What is wrong with the objects of the rules."""
    want = [s for s in specs if represented(s)]
    seq = sequence(rd.eng, rd.st, rules)
    if seq is None:
        return 'rules are %s' % (rules,)
    kinds = []
    for r in seq:
        t = rd.plain(rd.get(r, 'type'))
        kinds.append(t)
    exp = [rd.eng.class_const(rd.ctx.p.cls('svgpy.css.CSSRule'),
                              KINDS[represented(s)][1]).v for s in want]
    if kinds != exp:
        return 'the types of the rules are %s, not %s' % (kinds, exp)
    for s, r in zip(want, seq):
        k = represented(s)
        t = rd.st.types.get(r)
        if t is not None and t[0].name != KINDS[k][0]:
            return 'the %s rule is a %s' % (k, t[0].name)
        if rd.get(r, 'parent_rule') is not parent:
            return 'parent_rule of the %s rule is %s' % (
                k, rd.get(r, 'parent_rule'))
        if rd.get(r, 'parent_style_sheet') is not sheet:
            return 'parent_style_sheet of the %s rule is %s' % (
                k, rd.get(r, 'parent_style_sheet'))
        bad = contents(rd, k, s, r)
        if bad:
            return 'the %s rule: %s' % (k, bad)
    return None


def contents(rd, k, s, r):
    if k in ('style', 'font-face'):
        decl = rd.get(r, 'style')
        got = rd.items(decl)
        want = block_of(s[2])
        if got != want:
            return 'declares %s, not %s' % (got, want)
        if rd.get(decl, 'parent_rule') is not r:
            return 'its declarations have another parent rule'
    if k == 'style':
        sel = rd.plain(rd.get(r, 'selector_text'))
        if sel != s[1].strip():
            return 'selector_text is %r' % (sel,)
    elif k == 'media':
        m = rd.get(r, 'media')
        got = (rd.plain(rd.get(m, 'media_text')),
               rd.plain(rd.get(r, 'condition_text')))
        if got != (s[2].lower(),) * 2:
            return 'media are %s' % (got,)
        return problems(rd, s[3], rd.get(r, 'css_rules'), r,
                        rd.get(r, 'parent_style_sheet'))
    elif k == 'namespace':
        uri = [v for t, v in s[2] if t in ('string', 'url')]
        pre = [v for t, v in s[2] if t == 'ident']
        got = (rd.plain(rd.get(r, 'prefix')),
               rd.plain(rd.get(r, 'namespace_uri')))
        want = (pre[0] if pre else '', uri[0] if uri else None)
        if got != want:
            return 'prefix and namespace are %s, not %s' % (got, want)
    elif k == 'font-feature-values':
        f = rd.plain(rd.get(r, 'font_family'))
        if f != s[2].strip():
            return 'font_family is %s' % (f,)
        want = features(s[3])
        for name in FEATURES:
            got = rd.items(rd.get(r, name))
            got = None if got is None else {
                a.lower(): b for a, b in got.items()}
            if got != want[name]:
                return '%s is %s, not %s' % (name, got, want[name])
    elif k == 'import':
        loc = [v for t, v in s[2] if t in ('string', 'url')]
        href = rd.get(r, 'href')
        if loc and (not isinstance(href, Sym) or href.op != 'href' or
                    text(href.args[0]) != loc[0]):
            return 'href is %s' % (href,)
        i = [t for t, v in s[2]].index('string' if 'string' in dict(
            s[2]) else 'url') if loc else None
        media = ''.join(v for t, v in s[2][i + 1:]).strip() if loc else ''
        got = rd.plain(rd.get(rd.get(r, 'media'), 'media_text'))
        if got != media.lower():
            return 'media are %r, not %r' % (got, media)
    return None


FEATURE_SETS = [
    [], [('styleset', 'a : 1 2 ;')], [('Styleset', 'a : 1 2')],
    [('styleset', 'a : 1 ; b : 3 ; A : 4 5')],
    [('swash', None), ('swash', 'b : 2')],
    [(k.replace('_', '-'), 'x%d : %d ; y : %d %d' % (i, i, i + 1, i + 2))
     for i, k in enumerate(FEATURES)],
    [('stylistic', 'a : -1 ; b : 1.5 ; c : ; : 3 ; d 4 ; e : 0 ;')],
    [('unknown', 'a : 1'), ('error',), ('comment',), ('ornaments', 'p : 7')],
    [('qualified',), ('annotation', 'q : 8 9 10')],
    [('swash', 'a : 1'), ('swash', 'a : 2 ; c : 3')],
    [('character-variant', '')]]
PRELUDES = [
    [('whitespace', ' '), ('ident', 'p'), ('whitespace', ' '),
     ('string', 'uri')],
    [('whitespace', ' '), ('url', 'uri')], [('string', 'uri')],
    [('ident', 'p'), ('whitespace', ' '), ('url', 'u:r')], []]
IMPORTS = [
    [('whitespace', ' '), ('string', 'a.css')],
    [('whitespace', ' '), ('url', 'b.css'), ('whitespace', ' '),
     ('ident', 'Screen')],
    [('string', 'c.css'), ('whitespace', ' '), ('ident', 'print')]]
BLOCKS = [
    [], DECLS, [('fill', '', False), ('x', 'y', False)],
    [('fill', 'a', True), ('FILL', 'b', False)],
    [('fill', 'a', False), ('fill', 'b', False)],
    [('fill', 'a', True), ('fill', 'b', True)],
    [('fill', 'a', False), ('stroke', 'c', False), ('fill', 'b', True)],
    ['error', ('fill', 'a', False), 'comment', 'at-rule', ('r', 's', False)],
    [('fill', 'a', False), ('fill', 'b }', False)],
    [('--X', 'a', False), ('--x', 'b', True), ('--X', 'c', False)],
    [('fill', 'a', True), ('fill', ' ', True)]]


def leaves():
    out = [('style', ' a.b ', b) for b in BLOCKS]
    out += [('at', 'Font-Face', b) for b in BLOCKS[:4]]
    out += [('at', 'font-feature-values', ' F ', f) for f in FEATURE_SETS]
    out += [('at', 'import', x) for x in IMPORTS]
    out += [('at', 'IMPORT', IMPORTS[0])]
    out += [('at', 'namespace', x) for x in PRELUDES]
    out += [('at', 'unknown'), ('at', 'charset'), ('error',), ('comment',),
            ('whitespace',), ('bare', 'font-face'), ('bare', 'media'),
            ('bare', 'Font-Feature-Values'), ('declaration',)]
    return out


def trees(thorough):
    ls = leaves()
    short = [ls[1], ls[11], ls[16], ls[27], ('at', 'namespace', PRELUDES[0]),
             ('at', 'unknown'), ('error',), ('bare', 'media')]
    for a in ls:
        yield [a]
        yield [('at', 'media', 'Screen', [a])]
        yield [('at', 'MEDIA', 'print', [short[0], a, short[0]]), a]
    for a, b in itertools.product(short, repeat=2):
        yield [a, b]
        yield [a, ('at', 'media', 'all', [b, a]), b]
        yield [('at', 'media', 'x', [a, ('at', 'media', 'y', [b])])]
    if thorough:
        for t in itertools.permutations(short, 3):
            yield list(t)
            yield [('at', 'media', 'x', [
                t[0], ('at', 'media', 'y', [
                    t[1], ('at', 'media', 'z', [t[2]]), t[0]]), t[2]])]


def show(specs):
    out = []
    for s in specs:
        parts = []
        for x in s:
            if isinstance(x, list) and s[0] == 'at' and \
                    s[1].lower() == 'media':
                x = '{%s}' % show(x)
            elif isinstance(x, list):
                x = '{%s}' % ';'.join(
                    d if isinstance(d, str) else
                    ':'.join(str(y) for y in d if y not in (True, False)) +
                    ('!' if d[-1] is True else '') for d in x)
            parts.append(x)
        out.append(' '.join(parts))
    return '; '.join(out)


def rules(ctx):
    fi = ctx.p.func(CSS + 'CSSParser.parse_rules')
    tk = Tokens()
    eng = ctx.engine(mixins=True, on_call=tk, max_depth=30, recursion=8,
                     loop_bound=60)
    n = 0
    for specs in trees(ctx.thorough):
        st = State()
        for name in ('owner_node', 'base_url'):
            st.fields[(SHEET, name)] = NONE
        st.facts[S('is', SHEET, NONE)] = False
        nodes = tk.list(eng, st, [build(eng, tk, st, s) for s in specs])
        outs = eng.run(fi, args={'rules': nodes,
                                 'parent_style_sheet': SHEET,
                                 'parent_rule': NONE}, st=st)
        n += 1
        what = show(specs)
        if len(outs) != 1 or outs[0].kind != 'return':
            ctx.obl('rules', what, False, 'gives %s' % (
                [exc_name(o) if o.kind == 'raise' else 'a result'
                 for o in outs],), fi.where())
            continue
        rd = Reader(eng, ctx, outs[0].st)
        bad = problems(rd, specs, outs[0].value, NONE, SHEET)
        ctx.obl('rules', what, bad is None, bad or '', fi.where())
    ctx.floor('trees', n, 250)


# ----------------------------------------------------------------------
# declarations
class Model(object):
    """A declaration block."""

    def __init__(self):
        self.d = {}

    @staticmethod
    def name(n):
        return n if n.startswith('--') else n.lower()

    def set(self, name, value, priority):
        name = self.name(name)
        value = ' '.join((value or '').split())
        if not value:
            return self.remove(name)
        if priority is None:
            priority = self.d.get(name, ('', ''))[1]
        priority = priority.lower()
        if priority not in ('', 'important') or '}' in value:
            return None
        if value.lower() in ('transparent', 'inherit'):
            value = value.lower()
        self.d.pop(name, None)
        self.d[name] = (value, priority)
        return None

    def remove(self, name):
        return self.d.pop(self.name(name), ('', ''))[0]


OPS = [('set', 'fill', 'red', ''), ('set', 'FILL', 'a  b', 'Important'),
       ('set', 'stroke', ' Transparent ', None), ('set', 'fill', '', ''),
       ('set', 'fill', 'c', 'other'), ('set', 'fill', 'x }', ''),
       ('set', 'stroke', 'q', 'important'), ('set', '--X', 'Red', None),
       ('set', '--x', 'v', ''), ('remove', 'Fill'), ('remove', 'none'),
       ('item', 'Fill', 'INHERIT'), ('item', 'stroke', None),
       ('del', 'stroke'), ('set', 'fill', ' ', None), ('remove', '--X')]
NAMES = ('fill', 'FILL', 'stroke', 'Stroke', '--X', '--x', 'other')


class Quiet(Tokens):
    def __call__(self, eng, fn, args, kw, st, node):
        if isinstance(fn, FnV) and fn.fi.name in ('is_shorthand',
                                                  'is_longhand'):
            return [(st, FALSE)]
        return Tokens.__call__(self, eng, fn, args, kw, st, node)


def operate(rd, obj, op):
    """The value an operation gives, or the exception."""
    eng, fi = rd.eng, None
    names = {'set': 'set_property', 'remove': 'remove_property',
             'item': '__setitem__', 'del': '__delitem__'}
    fi, _ = rd.ctx.p.find_member(
        rd.ctx.p.cls(CSS + 'CSSStyleDeclaration'), names[op[0]])
    args = [C(x) for x in op[1:]]
    outs = eng._outside(lambda: eng.call_method(
        rd.st, obj, names[op[0]], args, {},
        next(iter(eng.p.modules.values())).tree))
    if len(outs) != 1:
        return 'several outcomes'
    rd.st, v = outs[0]
    if isinstance(v, Raised):
        return 'raises %s' % (v.cls.name,)
    return rd.plain(v)


def compare(rd, obj, model):
    items = rd.method(obj, 'items')
    seq = sequence(rd.eng, rd.st, items) if items is not None else None
    if seq is None:
        return 'items are %s' % (items,)
    got = [rd.plain(x) for x in seq]
    want = [(k, v) for k, v in model.d.items()]
    if got != want:
        return 'the declarations are %s, not %s' % (got, want)
    if rd.plain(rd.get(obj, 'length')) != len(want):
        return 'length is %s' % (rd.plain(rd.get(obj, 'length')),)
    for i, (k, v) in enumerate(want):
        if rd.plain(rd.method(obj, 'item', [C(i)])) != k:
            return 'item %d is not %s' % (i, k)
    for n in NAMES:
        v, p = model.d.get(model.name(n), ('', ''))
        got = (rd.plain(rd.method(obj, 'get_property_value', [C(n)])),
               rd.plain(rd.method(obj, 'get_property_priority', [C(n)])),
               rd.plain(rd.method(obj, '__getitem__', [C(n)])),
               rd.plain(rd.method(obj, '__contains__', [C(n)])))
        if got != (v, p, v, model.name(n) in model.d):
            return '%s is %s' % (n, got)
    return None


def fresh(eng, ctx, st, cls, kw=None):
    got = eng._outside(lambda: eng.instantiate(
        ctx.p.cls(CSS + cls), [], kw or {}, st,
        next(iter(eng.p.modules.values())).tree))
    return got[0] if len(got) == 1 and not isinstance(
        got[0][1], Raised) else None


def declarations(ctx):
    fi = ctx.p.func(CSS + 'CSSStyleDeclaration.set_property')
    tk = Quiet()
    eng = ctx.engine(mixins=True, on_call=tk, max_depth=30, recursion=8,
                     loop_bound=60)
    rows = [[a] for a in OPS] + [list(x) for x in
                                 itertools.product(OPS, repeat=2)]
    for j, x in enumerate(itertools.product(OPS, repeat=3)):
        if ctx.thorough or j % 17 == 0:
            rows.append(list(x))
    n = 0
    for row in rows:
        got = fresh(eng, ctx, State(), 'CSSStyleDeclaration')
        what = '; '.join(' '.join(str(x) for x in op) for op in row)
        if got is None:
            ctx.obl('declarations', what, False, 'cannot be made',
                    fi.where())
            continue
        rd = Reader(eng, ctx, got[0])
        model, bad = Model(), None
        for op in row:
            want = None
            if op[0] == 'set':
                model.set(*op[1:])
            elif op[0] == 'item':
                model.set(op[1], op[2], None)
            else:
                want = model.remove(op[1])
            res = operate(rd, got[1], op)
            if (op[0] == 'remove' and res != want) or \
                    (isinstance(res, str) and op[0] != 'remove'):
                bad = '%s gives %s' % (op[0], res)
                break
        bad = bad or compare(rd, got[1], model)
        n += 1
        ctx.obl('declarations', what, bad is None, bad or '', fi.where())
    for op in OPS:
        got = fresh(eng, ctx, State(), 'CSSStyleDeclaration')
        rd = Reader(eng, ctx, got[0])
        model = Model()
        for first in OPS[:3]:
            operate(rd, got[1], first)
            model.set(*first[1:])
        outs = eng.write(rd.st, got[1], 'readonly', TRUE)
        rd.st = outs[0].st
        res = operate(rd, got[1], op)
        bad = None if res == 'raises NoModificationAllowedError' else \
            'gives %s' % (res,)
        bad = bad or compare(rd, got[1], model)
        n += 1
        ctx.obl('readonly', ' '.join(str(x) for x in op), bad is None,
                bad or '', fi.where())
    ctx.floor('declarations', n, 400)


# ----------------------------------------------------------------------
# lists
def inserting(ctx):
    n = 0
    for cls in ('CSSStyleSheet', 'CSSGroupingRule'):
        tk = Tokens()
        eng = ctx.engine(mixins=True, on_call=tk, max_depth=30, recursion=8,
                         loop_bound=60)
        fi, _ = ctx.p.find_member(ctx.p.cls(CSS + cls), 'insert_rule')
        ops = [('i', 'a', 0), ('i', 'b', 1), ('i', 'cd', 0), ('d', 0),
               ('d', 1), ('i', '', 0), ('i', 'e', 2)]
        for r in (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4):
            for row in itertools.product(ops, repeat=r):
                model, ok = [], True
                for op in row:
                    if op[0] == 'i' and op[2] <= len(model):
                        model[op[2]:op[2]] = [S('rule', op[1], i)
                                              for i in range(len(op[1]))]
                    elif op[0] == 'd' and op[1] < len(model):
                        del model[op[1]]
                    else:
                        ok = False
                if not ok:
                    continue
                st = State()
                kw = {} if cls == 'CSSStyleSheet' else {
                    'rule': NONE, 'rule_type': C(4),
                    'parent_style_sheet': SHEET}
                st, obj = fresh(eng, ctx, st, cls, kw)
                rd = Reader(eng, ctx, st)
                tk.inserted = []
                bad = None
                for op in row:
                    v = rd.method(obj, 'insert_rule' if op[0] == 'i' else
                                  'delete_rule', [C(x) for x in op[1:]])
                    if op[0] == 'i' and rd.plain(v) != op[2]:
                        bad = 'insert_rule gives %s' % (v,)
                got = sequence(eng, rd.st, rd.get(obj, 'css_rules'))
                if got != model:
                    bad = 'the rules are %s, not %s' % (got, model)
                for a, k in tk.inserted:
                    sheet = k.get('parent_style_sheet', a[1] if len(a) > 1
                                  else NONE)
                    rule = k.get('parent_rule', a[2] if len(a) > 2 else NONE)
                    if (sheet, rule) != ((obj, NONE) if cls ==
                                         'CSSStyleSheet' else (SHEET, obj)):
                        bad = 'the parents of the rule are %s and %s' % (
                            sheet, rule)
                n += 1
                ctx.obl('insert', '%s %s' % (cls, ' '.join(
                    ''.join(str(y) for y in x) for x in row)), bad is None,
                    bad or '', fi.where())
    ctx.floor('insertions', n, 100)


def media(ctx):
    fi = ctx.p.func(CSS + 'MediaList.append_medium')
    tk = Tokens()
    eng = ctx.engine(mixins=True, on_call=tk, max_depth=30, recursion=8,
                     loop_bound=60)
    ops = [('text', ' screen , Print'), ('text', ' '), ('text', 'tty'),
           ('append', 'screen'), ('append', ' tty '), ('append', 'a, b'),
           ('append_medium', 'aural'), ('delete', 'screen'),
           ('delete', 'tty'), ('delete', 'x, y')]
    n = 0
    for r in (1, 2, 3):
        for row in itertools.product(ops, repeat=r):
            model, ok = [], True
            for k, x in row:
                parts = [y.strip() for y in x.split(',')]
                if k == 'text':
                    model = [] if not x.strip() else parts
                elif k.startswith('append'):
                    if len(parts) == 1 and parts[0] not in model:
                        model = model + parts
                elif len(parts) == 1:
                    if parts[0] in model:
                        model = [y for y in model if y != parts[0]]
                    else:
                        ok = False
            if not ok:
                continue
            st, obj = fresh(eng, ctx, State(), 'MediaList')
            rd = Reader(eng, ctx, st)
            for k, x in row:
                if k == 'text':
                    rd.st = eng.write(rd.st, obj, 'media_text', C(x))[0].st
                else:
                    rd.method(obj, 'delete_medium' if k == 'delete' else k,
                              [C(x)])
            got = [rd.plain(rd.method(obj, 'item', [C(i)]))
                   for i in range(len(model))]
            whole = (rd.plain(rd.get(obj, 'length')),
                     rd.plain(rd.get(obj, 'media_text')))
            n += 1
            ctx.obl('media', '; '.join('%s %s' % x for x in row),
                    got == model and whole == (
                        len(model), ', '.join(model).lower()),
                    'gives %s, %s, not %s' % (got, whole, model),
                    fi.where())
    ctx.floor('media', n, 400)


def check(ctx):
    rules(ctx)
    declarations(ctx)
    inserting(ctx)
    media(ctx)

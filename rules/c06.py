"""C06: which style sheets and rules apply to a document, in what order."""
import itertools

from ._geo import *
from ._path import sequence

EXPLANATION = (
    'flatten_css_rules is interpreted for lists of style, @media and @import '
    'rules nested to depth three, with and without a window and with media '
    'that match, do not match, are empty or all: the result must be the '
    'rules whose enclosing media all hold, in document order. The functions '
    'that collect style sheets are interpreted for every combination of the '
    'attributes of link and style elements and xml-stylesheet processing '
    'instructions; get_css_style for sequences of rules whose selectors '
    'match, do not match or are invalid, with normal and important '
    'declarations and namespace rules.')
ASSUMPTIONS = ['fetching and parsing of a style sheet (CSSParser) and '
               'selector matching (cssselect) are not analysed here',
               'media queries match as in C05']
ST = 'svgpy.style.'
MATCH = {'screen': True, 'print': False}
EL, DOC, WIN = S('the', 'element'), S('the', 'document'), S('the', 'window')


def text(v):
    return v.v if isinstance(v, Const) else v


class World(object):
    """The window, the parser and the style sheets."""

    def __init__(self):
        self.n = 0
        self.reset()

    def reset(self):
        self.parsed, self.sources, self.sheets, self.inserted = [], [], [], []

    def __call__(self, eng, fn, args, kw, st, node):
        name = recv = None
        if isinstance(fn, Sym) and fn.op == 'attr':
            recv, name = fn.args
        elif isinstance(fn, BoundV):
            recv, name = fn.recv, fn.name
        if name == 'match_media':
            m = text(args[0])
            q = S('mql', recv, C(m))
            st.fields[(q, 'matches')] = C(MATCH.get(m, True))
            if recv is not WIN or m not in MATCH:
                return [(st, eng.raise_(st, 'ValueError', node))]
            return [(st, q)]
        if name in ('debug', 'info'):
            return [(st, NONE)]
        if name == 'insert_rule' and isinstance(recv, Sym):
            self.inserted.append((recv, args[0]))
            return [(st, C(0))]
        if isinstance(fn, FnV):
            fi = fn.fi
            if fi.name == 'normalize_url':
                v = S('url', *args)
                st.fields[(v, 'href')] = S('href', *args)
                return [(st, v)]
            owner = fi.cls.name if fi.cls is not None else None
            if (owner, fi.name) == ('CSSParser', 'parse'):
                v = S('parsed', len(self.parsed))
                self.parsed.append((v, list(args), dict(kw)))
                st.fields[(v, 'css_rules')] = eng.new_list(
                    st, [S('rule', v, 0), S('rule', v, 1)], node)
                return [(st, v)]
            if (owner, fi.name) == ('CSSParser', 'fromstring'):
                self.sources.append((list(args), dict(kw)))
                return [(st, eng.new_list(
                    st, [S('rule', args[0], 0), S('rule', args[0], 1)],
                    node))]
        if isinstance(fn, ClsV) and fn.ci.name == 'CSSStyleSheet':
            v = S('sheet', len(self.sheets))
            self.sheets.append((v, list(args), dict(kw)))
            st.fields[(v, 'css_rules')] = eng.new_list(st, [], node)
            return [(st, v)]
        return None


def world(ctx, **kw):
    w = World()
    eng = ctx.engine(mixins=True, on_call=w, max_depth=20, recursion=6,
                     loop_bound=60, **kw)
    return w, eng


def document(st, win=True, doc=True):
    st.fields[(EL, 'owner_document')] = DOC if doc else NONE
    st.fields[(DOC, 'default_view')] = WIN if win else NONE
    st.fields[(DOC, 'document_uri')] = S('base')
    for v in (EL, DOC, WIN):
        st.facts[v] = True
        st.facts[S('is', v, NONE)] = False


# ----------------------------------------------------------------------
# nested rules
def kind(eng, ctx, name):
    return eng.class_const(ctx.p.cls('svgpy.css.CSSRule'), name)


def build_rules(eng, ctx, st, tree, path=()):
    """Symbols of the rules of a tree: 'style' or (type, media, [tree])."""
    out = []
    for i, t in enumerate(tree):
        v = S('rule', *(path + (i,)))
        st.facts[v] = True
        if isinstance(t, str):
            st.fields[(v, 'type')] = kind(eng, ctx, t)
        else:
            k, media, sub = t
            st.fields[(v, 'type')] = kind(eng, ctx, k)
            m = S('media', v)
            st.fields[(v, 'media')] = m
            st.fields[(m, 'media_text')] = C(media)
            rules = eng._outside(lambda: eng.new_list(
                st, build_rules(eng, ctx, st, sub, path + (i,)), None))
            if k == 'MEDIA_RULE':
                st.fields[(v, 'css_rules')] = rules
            else:
                sheet = S('imported', v)
                st.fields[(v, 'style_sheet')] = sheet
                st.fields[(sheet, 'css_rules')] = rules
        out.append(v)
    return out


def applying(tree, win, path=()):
    out = []
    for i, t in enumerate(tree):
        if isinstance(t, str):
            out.append(S('rule', *(path + (i,))))
        elif t[1] in ('', 'all') or (win and MATCH[t[1]]):
            out += applying(t[2], win, path + (i,))
    return out


def trees(thorough):
    leaf = 'STYLE_RULE'
    kinds = ('MEDIA_RULE', 'IMPORT_RULE')
    media = ('', 'all', 'screen', 'print')
    out = [[leaf], [], [leaf, 'NAMESPACE_RULE', 'FONT_FACE_RULE', leaf]]
    one = [(k, m, [leaf, leaf]) for k in kinds for m in media]
    for a in one:
        out += [[a], [leaf, a, leaf], [a, 'NAMESPACE_RULE']]
        for b in one:
            out.append([a, leaf, b])
            out.append([leaf, (a[0], a[1], [leaf, b, leaf]), leaf])
            if thorough or a[0] != b[0]:
                for c in one:
                    out.append([(a[0], a[1], [(b[0], b[1], [c, leaf]),
                                              leaf])])
    return out


def show(tree):
    return '[%s]' % ', '.join(
        t if isinstance(t, str) else '%s(%s)%s' % (t[0], t[1], show(t[2]))
        for t in tree)


def flatten(ctx):
    w, eng = world(ctx)
    fi = ctx.p.func(ST + 'flatten_css_rules')
    n = 0
    for win, doc in ((True, True), (False, True), (False, False)):
        for tree in trees(ctx.thorough):
            st = State()
            document(st, win, doc)
            rules = eng._outside(lambda: eng.new_list(
                st, build_rules(eng, ctx, st, tree), None))
            outs = eng.run(fi, args={'element': EL, 'css_rules': rules},
                           st=st)
            want = applying(tree, win)
            got = [sequence(eng, o.st, o.value) if o.kind == 'return'
                   else 'raises %s' % (exc_name(o),) for o in outs]
            n += 1
            ctx.obl('nested', '%s of %s' % (show(tree), 'a window' if win
                                            else 'no window'),
                    got == [want], 'gives %s, not %s' % (got, want),
                    fi.where())
    ctx.floor('nested rules', n, 500)


# ----------------------------------------------------------------------
# elements
def holds(media, win):
    return media in ('', 'all') or (win and MATCH[media])


def links(ctx):
    w, eng = world(ctx)
    fi = ctx.p.func(ST + 'get_css_style_sheet_from_element')
    rels = [[], ['stylesheet'], ['alternate', 'stylesheet'], ['preload'],
            ['stylesheet', 'preload'], ['icon'], ['preload', 'alternate']]
    n = 0
    for rel, as_, href, media, (win, doc) in itertools.product(
            rels, ['', 'style', 'script'], ['', None, 'a.css', '#a'],
            ['', 'all', 'screen', 'print'],
            [(True, True), (False, True), (False, False)]):
        if href != 'a.css' and (media != '' or not win):
            continue
        st = State()
        document(st, win, doc)
        w.reset()
        st.fields[(EL, 'local_name')] = C('link')
        st.fields[(EL, 'rel_list')] = eng._outside(
            lambda: eng.new_list(st, [C(x) for x in rel], None))
        for k, v in (('as_', as_), ('href', href), ('media', media)):
            st.fields[(EL, k)] = C(v)
        outs = eng.run(fi, args={'element': EL, 'doc': NONE}, st=st)
        kinds = 'alternate' not in rel and (
            'stylesheet' in rel and not ('preload' in rel and as_ != 'style')
            or 'preload' in rel and as_ == 'style')
        applies = kinds and href == 'a.css' and holds(media, win)
        what = 'link rel=%s as=%s href=%s media=%s%s' % (
            '+'.join(rel), as_, href, media,
            '' if win else ' without a window')
        n += 1
        val = [o.value if o.kind == 'return' else exc_name(o) for o in outs]
        if not applies:
            ctx.obl('link', what, val == [NONE] and not w.parsed,
                    'gives %s' % (val,), fi.where())
            continue
        ok = len(w.parsed) == 1 and val == [w.parsed[0][0]]
        if ok:
            _, a, k = w.parsed[0]
            base = S('base') if doc else NONE
            ok = a == [S('href', C(href), base)] and \
                k.get('owner_node') is EL
        ctx.obl('link', what, ok, 'gives %s of %s' % (val, w.parsed),
                fi.where())
    for typ, txt, media, (win, doc) in itertools.product(
            ['text/css', 'text/x', ''], [None, 'a{}', ''],
            ['', 'all', 'screen', 'print'],
            [(True, True), (False, True), (False, False)]):
        st = State()
        document(st, win, doc)
        w.reset()
        st.fields[(EL, 'local_name')] = C('style')
        for k, v in (('type', typ), ('text', txt), ('media', media),
                     ('title', 't')):
            st.fields[(EL, k)] = C(v)
        outs = eng.run(fi, args={'element': EL, 'doc': NONE}, st=st)
        what = 'style type=%s text=%r media=%s%s' % (
            typ, txt, media, '' if win else ' without a window')
        val = [o.value if o.kind == 'return' else exc_name(o) for o in outs]
        n += 1
        applies = typ == 'text/css' and txt is not None and \
            holds(media, win)
        if txt == '' and val == [NONE] and not w.sheets:
            applies = False         # an empty sheet has no effect
        if not applies:
            ctx.obl('style', what, val == [NONE] and not w.sources,
                    'gives %s' % (val,), fi.where())
            continue
        ok = len(w.sheets) == 1 and val == [w.sheets[0][0]] and \
            len(w.sources) == 1
        if ok:
            v, a, k = w.sheets[0]
            rules = sequence(eng, outs[0].st,
                             outs[0].st.fields[(v, 'css_rules')])
            t = C(txt)
            ok = k.get('owner_node') is EL and \
                rules == [S('rule', t, 0), S('rule', t, 1)] and \
                w.sources[0][0] == [t] and \
                w.sources[0][1].get('parent_style_sheet') is v
        ctx.obl('style', what, ok, 'gives %s of %s' % (val, w.sheets),
                fi.where())
    ctx.floor('elements', n, 150)


# ----------------------------------------------------------------------
# processing instructions
def instructions(ctx):
    p = ctx.p
    fi = p.func(ST + 'get_css_style_sheets_from_xml_stylesheet')
    rows = []
    for href, alt, media in itertools.product(
            ['a.css', None, '', '#a'], [None, 'yes', 'no'],
            [None, '', 'all', 'screen', 'print']):
        rows.append([{'href': href, 'alternate': alt, 'media': media}])
    good = {'href': 'b.css'}
    for a in ({'href': '#a'}, {'href': 'c', 'media': 'print'},
              {'href': 'c', 'charset': 'latin-1'}, {'href': 'c', 'pi': 'xml'},
              {'href': 'c', 'pi': None}, {}, {'href': 'c',
                                              'alternate': 'yes'}):
        rows += [[good, a], [a, good], [dict(good, href='d'), a, good]]
    n = 0
    for row, win in itertools.product(rows, (True, False)):
        w, eng = world(ctx)
        st = State()
        document(st, win)
        els = [S('sibling', i) for i in range(len(row))]
        for e, r in zip(els, row):
            st.facts[e] = True
            pi = r.get('pi', 'xml-stylesheet')
            st.types[e] = (ExtClass('lxml.etree.PIBase' if pi else
                                    'lxml.etree.CommentBase'), True)
            st.fields[(e, 'target')] = C(pi)

        def call(eng2, fn, args, kw, st2, node):
            if isinstance(fn, (BoundV, Sym)):
                recv, name = (fn.recv, fn.name) if isinstance(fn, BoundV) \
                    else fn.args[:2] if fn.op == 'attr' else (None, None)
                if name == 'itersiblings' and recv is EL:
                    back = text(kw.get('preceding', args[1] if len(args) > 1
                                       else C(False)))
                    # siblings before the root element, nearest first
                    return [(st2, eng2.new_list(
                        st2, els[::-1] if back else [], node))]
                if name == 'get' and recv in els:
                    v = row[els.index(recv)].get(args[0].v)
                    if v is None and len(args) > 1:
                        return [(st2, args[1])]
                    return [(st2, C(v))]
            return w(eng2, fn, args, kw, st2, node)
        eng.on_call = call
        outs = eng.run(fi, args={'root': EL}, st=st)
        want = [(r['href'], r.get('charset'), e) for e, r in zip(els, row)
                if r.get('href') and r['href'][0] != '#' and
                r.get('alternate') != 'yes' and
                holds(r.get('media') or '', win) and
                r.get('pi', 'xml-stylesheet') == 'xml-stylesheet']
        got = [(text(a[0].args[0]) if isinstance(a[0], Sym) and
                a[0].op == 'href' and a[0].args[1] is S('base') else a[0],
                text(k.get('encoding', NONE)), k.get('owner_node'))
               for _, a, k in w.parsed]
        val = [sequence(eng, o.st, o.value) if o.kind == 'return'
               else exc_name(o) for o in outs]
        what = '%s%s' % ('; '.join(' '.join(
            '%s=%s' % x for x in sorted(r.items()) if x[1] is not None)
            for r in row), '' if win else ' without a window')
        n += 1
        ctx.obl('instruction', what, got == want and
                val == [[x[0] for x in w.parsed]],
                'loads %s, not %s, giving %s' % (got, want, val), fi.where())
    ctx.floor('instructions', n, 100)


# ----------------------------------------------------------------------
# order of the sheets
def order(ctx):
    p = ctx.p
    w, eng = world(ctx)
    fi = p.func(ST + 'get_css_style_sheets')
    st = State()
    document(st)
    root = S('the', 'root')
    calls = []

    def call(eng2, fn, args, kw, st2, node):
        if isinstance(fn, FnV) and fn.fi.name in (
                'get_css_style_sheets_from_xml_stylesheet',
                'get_css_style_sheets_from_svg_document'):
            calls.append((fn.fi.name, list(args)))
            k = fn.fi.name.rsplit('_', 2)[1]
            return [(st2, eng2.new_list(st2, [S('from', k, 0),
                                              S('from', k, 1)], node))]
        if isinstance(fn, Sym) and fn.op == 'attr' and \
                fn.args[1] in ('getroottree', 'getroot'):
            return [(st2, root if fn.args[1] == 'getroot' else
                     S('tree', fn.args[0]))]
        return w(eng2, fn, args, kw, st2, node)
    eng.on_call = call
    outs = eng.run(fi, args={'element': EL}, st=st)
    got = [sequence(eng, o.st, o.value) for o in outs if o.kind == 'return']
    ua = eng.global_const('svgpy.style', '_SVG_UA_CSS_STYLESHEET')
    ok = len(got) == len(outs) == 1 and got[0] is not None and \
        len(w.inserted) == 1 and w.inserted[0][1] is ua
    if ok:
        ok = got[0] == [w.inserted[0][0], S('from', 'xml', 0),
                        S('from', 'xml', 1), S('from', 'svg', 0),
                        S('from', 'svg', 1)] and \
            sorted(c[1] for c in calls) == [[root], [root]]
    ctx.obl('order', 'style sheets: user agent, xml-stylesheet, document',
            ok, 'are %s' % (got,), fi.where())
    # rules of the sheets
    fi = p.func(ST + 'get_css_rules')

    def call2(eng2, fn, args, kw, st2, node):
        if isinstance(fn, FnV) and fn.fi.name == 'get_css_style_sheets':
            return [(st2, eng2.new_list(st2, [S('s', 0), S('s', 1)], node))]
        return w(eng2, fn, args, kw, st2, node)
    eng.on_call = call2
    st = State()
    document(st)
    want = []
    for i in (0, 1):
        rules = [S('r', i, 0), S('r', i, 1)]
        want += rules
        for r in rules:
            st.fields[(r, 'type')] = kind(eng, ctx, 'STYLE_RULE')
        st.fields[(S('s', i), 'css_rules')] = eng._outside(
            lambda: eng.new_list(st, rules, None))
    outs = eng.run(fi, args={'element': EL}, st=st)
    got = [sequence(eng, o.st, o.value) for o in outs]
    ctx.obl('order', 'rules in the order of their sheets', got == [want],
            'are %s' % (got,), fi.where())
    # elements of the document
    fi = p.func(ST + 'get_css_style_sheets_from_svg_document')
    seen = []

    def call3(eng2, fn, args, kw, st2, node):
        if isinstance(fn, FnV) and \
                fn.fi.name == 'get_css_style_sheet_from_element':
            d = args[1] if len(args) > 1 else kw.get('doc')
            seen.append((args[0], d))
            if args[0] is S('e', 1):
                return [(st2, NONE)]
            return [(st2, S('sheet of', args[0]))]
        if isinstance(fn, Sym) and fn.op == 'attr' and fn.args[1] == 'iter':
            tags = list(args) + list(kw.values())
            names = []
            for t in tags:
                names += [text(x) for x in (sequence(eng2, st2, t) or [t])]
            if sorted(names) != ['{*}link', '{*}style']:
                return None
            return [(st2, eng2.new_list(
                st2, [S('e', i) for i in range(3)], node))]
        return w(eng2, fn, args, kw, st2, node)
    eng.on_call = call3
    st = State()
    document(st)
    for i in range(3):
        v = S('sheet of', S('e', i))
        st.facts[v] = True
        st.facts[S('is', v, NONE)] = False
    outs = eng.run(fi, args={'root': EL}, st=st)
    got = [sequence(eng, o.st, o.value) for o in outs]
    ctx.obl('order', 'style sheets of the elements in document order',
            got == [[S('sheet of', S('e', 0)), S('sheet of', S('e', 2))]] and
            seen == [(S('e', i), DOC) for i in range(3)],
            'are %s for %s' % (got, seen), fi.where())


# ----------------------------------------------------------------------
# declarations
class Selectors(World):
    """Selector texts: yes, no, other, syntax, expression."""

    def __init__(self):
        World.__init__(self)
        self.used = []

    def __call__(self, eng, fn, args, kw, st, node):
        if isinstance(fn, ExtV) and fn.name.endswith('.CSSSelector'):
            sel = text(args[0])
            ns = kw.get('namespaces', args[1] if len(args) > 1 else NONE)
            c = eng.cont(st, ns) if isinstance(ns, Obj) else None
            self.used.append((sel, {text(k): text(v) for k, v in c[1]}
                              if c is not None else None))
            for k, e in (('syntax', 'SelectorSyntaxError'),
                         ('expression', 'ExpressionError')):
                if sel == k:
                    return [(st, Raised(
                        S('exc', e), ExtClass('lxml.cssselect.' + e),
                        node))]
            return [(st, S('selector', sel))]
        if isinstance(fn, Sym) and fn.op == 'selector':
            el = {'yes': [EL], 'both': [S('other'), EL],
                  'other': [S('other')]}.get(fn.args[0], [])
            if args != [EL]:
                return None
            return [(st, eng.new_list(st, el, node))]
        if isinstance(fn, Sym) and fn.op == 'attr' and \
                fn.args[1] == 'items' and fn.args[0].op == 'decls':
            return [(st, eng.new_list(st, [
                T((C(k), T((C(v), C(pr))))) for k, v, pr in
                fn.args[0].args[0]], node))]
        if isinstance(fn, Sym) and fn.op == 'attr' and \
                fn.args[1] == 'copy' and fn.args[0] is S('nsmap'):
            return [(st, eng.new_dict(
                st, [(C(k), C(v)) for k, v in self.nsmap.items()], node))]
        return World.__call__(self, eng, fn, args, kw, st, node)


def distinct(eng, st, v):
    """The element is not the other element."""
    if v.op in ('eq', 'is') and S('other') in v.args and EL in v.args:
        return False
    return None


def declarations(ctx):
    p = ctx.p
    fi = p.func(ST + 'get_css_style')
    w = Selectors()
    eng = ctx.engine(mixins=True, on_call=w, max_depth=20, loop_bound=60,
                     on_decide=distinct)
    decls = [(), (('fill', 'A', ''),), (('fill', 'B', 'important'),),
             (('stroke', 'C', ''), ('fill', 'D', '')),
             (('fill', 'E', 'important'), ('stroke', 'F', 'important'))]
    singles = [(s, d) for s in ('yes', 'both', 'no', 'other', 'syntax',
                                'expression') for d in decls]
    rows = [[a] for a in singles]
    short = [(s, d) for s in ('yes', 'no', 'syntax') for d in decls[1:]]
    rows += [[a, b] for a in short for b in short]
    if ctx.thorough:
        rows += [[a, b, c] for a in short for b in short for c in short]
    maps = [{}, {None: 'U', 'x': 'X'}]
    n = 0
    for nsmap, row in itertools.product(maps, rows):
        run_rows(ctx, eng, fi, w, nsmap, row)
        n += 1
    ns = [('ns', 'p', 'P'), ('ns', '', 'V'), ('ns', 'q', ''),
          ('yes', decls[1]), 'FONT_FACE_RULE', ('yes', decls[2])]
    for nsmap in maps:
        for row in itertools.permutations(ns, 3):
            run_rows(ctx, eng, fi, w, nsmap, list(row))
            n += 1
    ctx.floor('declarations', n, 150)


def run_rows(ctx, eng, fi, w, nsmap, row):
    st = State()
    document(st)
    st.fields[(EL, 'nsmap')] = S('nsmap')
    w.nsmap = nsmap
    w.used = []
    rules, style, important, used = [], {}, {}, []
    names = {k: v for k, v in nsmap.items() if k is not None}
    if None in nsmap:
        names['svg'] = nsmap[None]
    for i, r in enumerate(row):
        v = S('rule', i)
        rules.append(v)
        st.facts[v] = True
        if isinstance(r, str):
            st.fields[(v, 'type')] = kind(eng, ctx, r)
        elif r[0] == 'ns':
            st.fields[(v, 'type')] = kind(eng, ctx, 'NAMESPACE_RULE')
            st.fields[(v, 'prefix')] = C(r[1])
            st.fields[(v, 'namespace_uri')] = C(r[2])
            if r[2]:
                names[r[1] or 'svg'] = r[2]
        else:
            st.fields[(v, 'type')] = kind(eng, ctx, 'STYLE_RULE')
            st.fields[(v, 'selector_text')] = C(r[0])
            st.fields[(v, 'style')] = S('decls', r[1])
            used.append((r[0], dict(names)))
            if r[0] in ('yes', 'both'):
                for k, x, pr in r[1]:
                    style[k] = x
                    if pr:
                        important[k] = x
    lst = eng._outside(lambda: eng.new_list(st, rules, None))
    outs = eng.run(fi, args={'element': EL, 'css_rules': lst}, st=st)
    what = '%s%s' % ('; '.join(
        r if isinstance(r, str) else '%s{%s}' % (r[0], ' '.join(
            ':'.join(x) for x in r[1]) if r[0] != 'ns' else r[1:])
        for r in row), ' in a namespace' if nsmap else '')
    got = []
    for o in outs:
        pair = sequence(eng, o.st, o.value) if o.kind == 'return' else None
        if pair is None:
            got.append(exc_name(o) if o.kind == 'raise' else 'unknown')
            continue
        ds = []
        for d in pair:
            c = eng.cont(o.st, d) if isinstance(d, Obj) else None
            ds.append({text(k): text(x) for k, x in c[1]}
                      if c is not None else None)
        got.append(tuple(ds))
    # a normal declaration never counts where an important one exists
    want = ({k: v for k, v in style.items() if k not in important},
            important)
    norm = [({k: v for k, v in g[0].items() if k not in (g[1] or {})}, g[1])
            if isinstance(g, tuple) and g[0] is not None else g for g in got]
    ctx.obl('declarations', what, norm == [want],
            'are %s, not %s' % (got, want), fi.where())
    ctx.obl('namespaces', what, w.used == used,
            'are %s, not %s' % (w.used, used), fi.where())


# ----------------------------------------------------------------------
# imports
A = 'https://example.com/css/a.css'


class Loader(object):
    """Sheets whose text is an import of the next one."""

    def __init__(self, names, fails=None, inline=False):
        self.names, self.fails, self.inline = names, fails, inline
        self.loaded, self.urls = [], []

    def tokens(self, eng, st, i, node):
        if i >= len(self.names):
            return eng.new_list(st, [], node)
        rule = S('at-rule', i)
        st.facts[rule] = True
        st.facts[S('is', rule, NONE)] = False
        toks = []
        for j, (t, v) in enumerate([('whitespace', ' '), self.names[i],
                                    ('whitespace', ' '),
                                    ('ident', 'print')]):
            k = S('token', i, j)
            st.fields[(k, 'type')] = C(t)
            st.fields[(k, 'value')] = C(v)
            toks.append(k)
        st.fields[(rule, 'type')] = C('at-rule')
        st.fields[(rule, 'lower_at_keyword')] = C('import')
        st.fields[(rule, 'at_keyword')] = C('import')
        st.fields[(rule, 'content')] = NONE
        st.fields[(rule, 'prelude')] = eng.new_list(st, toks, node)
        return eng.new_list(st, [rule], node)

    def __call__(self, eng, fn, args, kw, st, node):
        if isinstance(fn, FnV) and fn.fi.cls is None:
            if fn.fi.name == 'load':
                self.loaded.append(args[0])
                if len(self.loaded) == self.fails:
                    return [(st, Raised(S('exc', 'url'), ExtClass(
                        'urllib.error.URLError'), node))]
                st.facts[S('is', args[0], NONE)] = False
                return [(st, T((S('data', len(self.loaded) - 1 +
                                  self.inline),
                                S('headers'))))]
            if fn.fi.name == 'get_content_type':
                return [(st, NONE)]
            if fn.fi.name == 'normalize_url':
                base = args[1] if len(args) > 1 else kw.get('base', NONE)
                src = args[0]
                v = S('url', src, base)
                whole = isinstance(src, Const) and src.v == A or \
                    isinstance(src, Sym) and src.op == 'href'
                st.fields[(v, 'href')] = src if whole else \
                    S('href', src, base)
                st.facts[S('is', st.fields[(v, 'href')], NONE)] = False
                if not whole:
                    self.urls.append(st.fields[(v, 'href')])
                return [(st, v)]
        if isinstance(fn, ExtV) and fn.name.startswith('tinycss2.'):
            if fn.name.endswith('.parse_stylesheet_bytes'):
                d = args[0] if args else kw['css_bytes']
                return [(st, T((self.tokens(eng, st, d.args[0], node),
                                S('encoding'))))]
            if fn.name.endswith('.parse_stylesheet'):
                return [(st, self.tokens(eng, st, 0, node))]
            if fn.name.endswith('.serialize'):
                toks = sequence(eng, st, args[0]) or []
                return [(st, C(''.join(
                    st.fields[(t, 'value')].v for t in toks)))]
        name = fn.args[1] if isinstance(fn, Sym) and fn.op == 'attr' \
            else None
        if name in ('debug', 'info') or \
                name == 'get' and fn.args[0] is EL:
            return [(st, NONE)]
        if name == 'serialize':
            return [(st, C('@import'))]
        if isinstance(fn, ExtV) and fn.name in ('logging.getLogger',
                                                'builtins.repr'):
            return [(st, S('text of', *args))]
        return None


def attribute(eng, st, v, name):
    r = eng.read(st, v, name)
    return r[0].value if len(r) == 1 else None


def method_outcomes(eng, st, recv, name, args, kw):
    res = eng._outside(lambda: eng.call_method(
        st, recv, name, args, kw, next(iter(eng.p.modules.values())).tree))
    return [Outcome('raise' if isinstance(v, Raised) else 'return', v, s)
            for s, v in res]


def imports(ctx):
    p = ctx.p
    ci = p.cls('svgpy.css.CSSParser')
    parse = p.find_member(ci, 'parse')[0]
    sheet_class = p.cls('svgpy.css.CSSStyleSheet')
    where = parse.where()
    url, string = ('url', 'b/c.css'), ('string', 'd.css')
    n = 0
    for names, fails in (([url, string], None), ([string, url], None),
                         ([string, string, url], None), ([url], 2),
                         ([url], 1), ([], 1), ([], None)):
        for inline in (False, True):
            w = Loader(names, fails, int(inline))
            eng = ctx.engine(mixins=True, on_call=w, max_depth=30,
                             recursion=6, loop_bound=30)
            st = State()
            document(st)
            loc = S('location')
            st.fields[(DOC, 'location')] = loc
            st.fields[(loc, 'href')] = S('href', C('doc'), NONE)
            if inline:
                r = eng._outside(lambda: eng.instantiate(
                    sheet_class, [], {'owner_node': EL}, st, None))
                st, sheet = r[0]
                outs = method_outcomes(eng, st, K(ci), 'fromstring',
                                       [S('text'), sheet], {})
            else:
                outs = method_outcomes(eng, st, K(ci), 'parse', [C(A)],
                                       {'owner_node': NONE})
            n += 1
            what = '%s of %s%s' % (
                'style element' if inline else 'style sheet',
                ' > '.join('%s(%s)' % x for x in names) or 'nothing',
                '' if fails is None else ' failing at %d' % fails)
            if len(outs) != 1 or outs[0].kind != 'return':
                ctx.obl('import', what, False, 'gives %s' % ([
                    o.value for o in outs],), where)
                continue
            st, v = outs[0].st, outs[0].value
            # the URL each import must be resolved against
            base = S('href', C('doc'), NONE) if inline else C(A)
            depth = len(names) if fails is None else \
                min(len(names), fails - 1 + inline)
            want = []
            for _, src in names[:depth]:
                base = S('href', C(src), base)
                want.append(base)
            ctx.obl('import', 'URLs of ' + what, w.urls == want,
                    'are %s, not %s' % (w.urls, want), where)
            rules = sequence(eng, st, v if inline else
                             attribute(eng, st, v, 'css_rules'))
            ctx.obl('import', 'rules of ' + what, rules is not None and
                    len(rules) == (1 if names and (inline or fails != 1)
                                   else 0), 'are %s' % (rules,), where)
            if not rules:
                continue
            rule = rules[0]
            href = attribute(eng, st, rule, 'href')
            media = attribute(eng, st, rule, 'media')
            txt = attribute(eng, st, media, 'media_text')
            inner = attribute(eng, st, rule, 'style_sheet')
            ctx.obl('import', 'media of ' + what, text(txt) == 'print',
                    'is %s' % (txt,), where)
            ctx.obl('import', 'location of ' + what, w.urls and
                    href == w.urls[0] and href in w.loaded,
                    'is %s, loading %s' % (href, w.loaded), where)
            ctx.obl('import', 'links of ' + what,
                    isinstance(inner, Obj) and attribute(
                        eng, st, inner, 'owner_rule') is rule and
                    (attribute(eng, st, rule, 'parent_style_sheet') is
                     (sheet if inline else v)),
                    'sheet %s' % (inner,), where)
    ctx.floor('imports', n, 12)


def check(ctx):
    flatten(ctx)
    links(ctx)
    instructions(ctx)
    order(ctx)
    declarations(ctx)
    imports(ctx)

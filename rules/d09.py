"""D09: nodes and text end up where the operation says."""
import itertools

from ._lx import *

EXPLANATION = (
    'append, prepend, append_child, extend, insert, insert_before, replace, '
    'replace_child, remove, remove_child, addnext and addprevious are '
    'interpreted over trees of known shape whose native operations behave '
    'as lxml documents them: contents with and without leading, inner and '
    'trailing text, arguments that are new nodes, nodes of another parent, '
    'children of the same element and strings, in all orders. The sequence '
    'of text and nodes afterwards must be the one DOM gives (place), with '
    'every node in one place only (once), the parent and sibling queries '
    'agreeing (query), and the documented node returned (returns). The '
    'same is done for comments and processing instructions around a '
    'document element, and for reading and replacing the text content of '
    'text elements (text).')
ASSUMPTIONS = ['lxml moves a node together with the text that follows it; '
               'nodes followed by text are not moved in the scenarios']
CONTENTS = [(), ('a',), ('n',), ('a', 'n'), ('n', 'b'), ('n', 'm'),
            ('a', 'n', 'b', 'm', 'c'), ('n', 'b', 'm'), ('a', 'n', 'm')]
NODES = 'nmxyz'


class D09(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.lx = Trees(ctx)
        self.eng = self.lx.engine(recursion=4)
        self.n = 0

    def build(self, content, kinds=(), local='text'):
        """(state, parent, {name: node})"""
        lx, eng = self.lx, self.eng
        lx.reset()
        st = State()
        by = {}
        e = lx.node(eng, st, 'parent')
        o = lx.node(eng, st, 'other')
        prev = e
        kids = []
        for c in content:
            if c in NODES:
                by[c] = prev = lx.node(eng, st, c,
                                       dict(kinds).get(c, 'element'))
                kids.append(prev)
            else:
                st.fields[(prev, 'text' if prev is e else 'tail')] = C(c)
        lx.put(st, e, kids)
        for c in NODES:
            if c not in by:
                by[c] = lx.node(eng, st, c, dict(kinds).get(c, 'element'))
        lx.put(st, o, [by['z']])        # a child of another element
        return st, e, by

    def want(self, content, by):
        out = []
        for c in content:
            c = by.get(c, c)
            if isinstance(c, str) and out and isinstance(out[-1], str):
                out[-1] += c
            else:
                out.append(c)
        return out

    def check(self, op, cons, st, e, by, recv, args, want, result=None):
        lx, eng, ctx = self.lx, self.eng, self.ctx
        m, _ = self.ctx.p.find_member(st.types[recv][0], op)
        w = m.where()
        outs = invoke(eng, ctx.p, st, recv, op, args)
        ctx.paths += len(outs)
        self.n += 1
        why = ''
        for o in outs:
            if o.kind != 'return':
                why = 'ends in %s' % exc_name(o)
                break
            got = lx.content(o.st, e)
            if got != want:
                why = 'gives %s, not %s' % (show_content(got),
                                            show_content(want))
                break
        ctx.obl('place', cons, outs and not why, why, w)
        if why or not outs:
            return
        o = outs[0]
        every = [k for n in lx.nodes for k in lx.kids(o.st, n)]
        ctx.obl('once', cons, len(every) == len(set(every)),
                'a node is at two places', w)
        if result is not None:
            ctx.obl('returns', cons, o.value is result,
                    'returns %s' % show(o.value), w)

    # -- elements -----------------------------------------------------
    def many(self, op):
        """Operations that take any number of nodes and strings."""
        pool = ['s', 't', 'x', 'y', 'n', 'm', 'z']
        kinds = (('y', 'comment'), ('m', 'pi'))
        for content in CONTENTS:
            plain = [c for c in content if c in NODES and not followed(
                content, c)]
            for k in (1, 2, 3):
                for args in itertools.permutations(pool, k):
                    if any(c in content and c not in plain for c in args):
                        continue
                    if any(c in 'nm' and c not in content for c in args):
                        continue
                    if op == 'extend' and any(c in 'st' for c in args):
                        continue
                    if k == 3 and len(content) not in (0, 3, 5):
                        continue
                    if k == 3 and not ({'s', 'n', 'm'} & set(args)):
                        continue
                    st, e, by = self.build(content, kinds)
                    rest = [c for c in content if c not in args]
                    new = list(args) + rest if op == 'prepend' else \
                        rest + list(args)
                    vals = [by.get(a, C(a)) for a in args]
                    if op == 'extend':
                        vals = [self.lx_list(st, vals)]
                    self.check(op, 'Element.%s(%s) on %s' % (
                        op, ', '.join(args), list(content)), st, e, by, e,
                        vals, self.want(new, by))

    def lx_list(self, st, vals):
        return self.eng._outside(lambda: self.eng.new_list(st, vals, None))

    def single(self):
        kinds = (('y', 'comment'), ('z', 'pi'))
        for content in CONTENTS:
            names = [c for c in content if c in NODES]
            plain = [c for c in names if not followed(content, c)]
            for a in ['x', 'y', 'z'] + plain:
                rest = [c for c in content if c != a]
                old = [c for c in rest if c in NODES]

                def go(op, args, new, recv=None, result=None, note=''):
                    st, e, by = self.build(content, kinds)
                    args = [by[x] if isinstance(x, str) and x in by else x
                            for x in args]
                    self.check(op, '%s.%s(%s) on %s' % (
                        'child' if recv else 'Element', op, note or a,
                        list(content)), st, e, by,
                        by[recv] if recv else e, args, self.want(new, by),
                        by[result] if result else None)
                go('append_child', [a], rest + [a], result=a)
                go('insert_before', [a, NONE], rest + [a], result=a,
                   note=a + ', None')
                if a in content:
                    go('remove', [a], rest, note=a)
                    go('remove_child', [a], rest, result=a)
                    go('insert_before', [a, a], content, result=a,
                       note='%s, %s' % (a, a))
                else:
                    for i in range(len(old) + 1):
                        go('insert', [C(i), a], self.before(
                            rest, old[i] if i < len(old) else None, a),
                            note='%d, %s' % (i, a))
                for r in old:
                    j = rest.index(r)
                    note = '%s, %s' % (a, r)
                    go('insert_before', [a, r], rest[:j] + [a] + rest[j:],
                       result=a, note=note)
                    go('addprevious', [a], rest[:j] + [a] + rest[j:],
                       recv=r, note=note)
                    k = j + 1
                    if followed(rest, r):
                        k += 1
                    go('addnext', [a], rest[:k] + [a] + rest[k:], recv=r,
                       note=note)
                    if not followed(rest, r) and not followed(content, r):
                        new = [a if c == r else c for c in rest]
                        go('replace', [r, a], new, note='%s, %s' % (r, a))
                        go('replace_child', [a, r], new, result=r,
                           note=note)

    def before(self, content, ref, a):
        content = list(content)
        i = len(content) if ref is None else content.index(ref)
        return content[:i] + [a] + content[i:]

    # -- documents ----------------------------------------------------
    def documents(self):
        lx, eng, ctx = self.lx, self.eng, self.ctx
        kinds = {'r': 'element', 'c': 'comment', 'd': 'pi', 'e': 'comment',
                 'f': 'pi'}
        shapes = [('r',), ('c', 'r'), ('r', 'd'), ('c', 'r', 'd'),
                  ('c', 'd', 'r')]
        for shape in shapes:
            inside = [x for x in shape if x != 'r']

            def go(op, names, want, result=None):
                lx.reset()
                st = State()
                by = {k: lx.node(eng, st, k, v) for k, v in kinds.items()}
                top = lx.node(eng, st, 'top', 'top')
                lx.put(st, top, [by[k] for k in shape])
                d = lx.node(eng, st, 'document', 'document')
                st.fields[(d, '_document_element')] = by['r']
                args = [by.get(x, x) for x in names]
                if op == 'extend':
                    args = [self.lx_list(st, args)]
                self.check(op, 'Document.%s(%s) on %s' % (
                    op, ', '.join(str(x) for x in names), list(shape)),
                    st, top, by, d, args, [by[x] for x in want],
                    by[result] if result else None)
            for args in (('e',), ('f',), ('e', 'f'), ('f', 'e')):
                go('append', args, shape + args)
                go('extend', args, shape + args)
                go('prepend', args, args + shape)
            go('append_child', ('e',), shape + ('e',), 'e')
            go('insert_before', ('e', NONE), shape + ('e',), 'e')
            for x in shape:
                i = shape.index(x)
                go('insert_before', ('f', x), shape[:i] + ('f',) + shape[i:],
                   'f')
            for x in inside:
                i = shape.index(x)
                go('remove', (x,), shape[:i] + shape[i + 1:])
                go('remove_child', (x,), shape[:i] + shape[i + 1:], x)
                go('replace', (x, 'e'), shape[:i] + ('e',) + shape[i + 1:])
                go('replace_child', ('f', x), shape[:i] + ('f',) +
                   shape[i + 1:], x)

    # -- queries ------------------------------------------------------
    def queries(self):
        lx, eng, ctx = self.lx, self.eng, self.ctx
        kinds = (('n', 'comment'), ('y', 'pi'))
        for shape in itertools.permutations('nmxy', 4):
            st, e, by = self.build(shape, kinds)
            seq = [by[c] for c in shape]
            els = [x for x in seq if lx.kind[x] == 'element']
            name = ' '.join(shape)
            self.read(st, e, 'first_child', seq[0], name)
            self.read(st, e, 'last_child', seq[-1], name)
            self.read(st, e, 'first_element_child', els[0], name)
            self.read(st, e, 'last_element_child', els[-1], name)
            self.read(st, e, 'child_nodes', seq, name)
            self.read(st, e, 'children', els, name)
            self.read(st, e, 'child_element_count', C(len(els)), name)
            for i, x in enumerate(seq):
                nm = '%s of %s' % (shape[i], name)
                self.read(st, x, 'parent_node', e, nm)
                self.read(st, x, 'parent_element', e, nm)
                self.read(st, x, 'next_sibling',
                          (seq[i + 1:] + [NONE])[0], nm)
                self.read(st, x, 'previous_sibling',
                          ([NONE] + seq[:i])[-1], nm)
                self.read(st, x, 'next_element_sibling',
                          ([k for k in seq[i + 1:] if k in els] +
                           [NONE])[0], nm)
                self.read(st, x, 'previous_element_sibling',
                          ([NONE] + [k for k in seq[:i] if k in els])[-1],
                          nm)
        st, e, by = self.build(())
        for q in ('first_child', 'last_child', 'first_element_child',
                  'last_element_child'):
            self.read(st, e, q, NONE, 'no child')
        for q in ('parent_node', 'parent_element', 'next_sibling',
                  'previous_sibling', 'next_element_sibling',
                  'previous_element_sibling'):
            self.read(st, e, q, NONE, 'no parent')
        st, e, by = self.build(('a', 'n'), (('n', 'comment'),))
        for q in ('first_element_child', 'last_element_child'):
            self.read(st, e, q, NONE, 'no element')

    def read(self, st, x, name, want, what):
        ctx = self.ctx
        self.n += 1
        t = st.types[x][0]
        outs = self.eng.read(st.fork(), x, name)
        got = [o.value if o.kind == 'return' else o.kind for o in outs]
        if isinstance(want, list):
            got = [sequence(self.eng, o.st, o.value) for o in outs
                   if o.kind == 'return']
        ctx.obl('query', '%s.%s: %s' % (t.name, name, what), outs and all(
            g is want if not isinstance(want, list) else g is not None and
            list(g) == want for g in got),
            'is %s, not %s' % (got, want), t.where())

    # -- text ---------------------------------------------------------
    def texts(self):
        lx, eng, ctx = self.lx, self.eng, self.ctx
        el = ctx.p.cls('svgpy.dom.Element')
        w = el.where()
        subs = ['comment', 'pi', 'tspan', 'text']
        locs = {}

        def on_getattr(e, st, o, name, node):
            if o in locs and name == 'local_name':
                return [(st, C(locs[o]))]
            return None
        old = eng.on_getattr
        eng.on_getattr = on_getattr
        try:
            cases = [('tspan', a, b) for a in subs for b in subs] + [
                (a, 'title', b) for a in subs for b in subs]
            for inner in ('text', 'tspan'):
                for case in cases:
                    for texts in (True, False):
                        self.text_case(inner, case, texts, locs, w)
            for local in ('title', 'desc'):
                lx.reset()
                locs.clear()
                st = State()
                e = lx.node(eng, st, 'e', text='words')
                locs[e] = local
                self.text_is(st, e, 'words', local, w)
            # replacing the content
            for n in range(4):
                lx.reset()
                locs.clear()
                st = State()
                e = lx.node(eng, st, 'e', text='A')
                kids = [lx.node(eng, st, 'k%d' % i,
                                ('element', 'comment', 'pi')[i % 3],
                                text='B', tail='C') for i in range(n)]
                locs[e] = 'text'
                for k in kids:
                    locs[k] = 'tspan'
                lx.put(st, e, kids)
                for o in eng.write(st, e, 'text_content', C('new')):
                    self.n += 1
                    ctx.obl('text-set', 'text_content= with %d children'
                            % n, o.kind == 'return' and
                            lx.content(o.st, e) == ['new'],
                            'leaves %s' % show_content(
                                lx.content(o.st, e)), w)
        finally:
            eng.on_getattr = old

    # -- comments -----------------------------------------------------
    def transparent(self):
        """Comments and processing instructions change no result."""
        lx, eng, ctx = self.lx, self.eng, self.ctx
        p = ctx.p
        shapes = []
        for n in (0, 1, 2, 3):
            plain = ['element'] * n
            shapes.append(plain)
            for i in range(n + 1):
                for extra in ('comment', 'pi'):
                    shapes.append(plain[:i] + [extra] + plain[i:])
            shapes.append(['comment'] + plain + ['pi', 'comment'])
        locs = {}
        stubs = {}

        def on_getattr(e, st, o, name, node):
            if o in locs and name == 'local_name':
                return [(st, C(locs[o]))]
            return None

        def more(e, fn, args, kw, st, node):
            if not isinstance(fn, FnV):
                return None
            name = fn.fi.name
            if name in stubs and (fn.recv is None or
                                  fn.recv is not stubs.get('self')):
                return stubs[name](st, fn, args, kw, node)
            return None
        saved = eng.on_getattr
        eng.on_getattr, lx.more = on_getattr, more
        try:
            for what, run in (('bounding box', self.bbox),
                              ('path data', self.path_data),
                              ('characters', self.characters)):
                seen = {}
                for shape in shapes:
                    lx.reset()
                    locs.clear()
                    stubs.clear()
                    st = State()
                    w, got, why = run(st, shape, locs, stubs)
                    key = len([k for k in shape if k == 'element'])
                    self.n += 1
                    if not why and shape.count('element') == len(shape):
                        seen[key] = got
                    if not why and got != seen.get(key):
                        why = 'is %s, without the comments %s' % (
                            got, seen.get(key))
                    ctx.obl('transparent', '%s of %s' % (
                        what, ', '.join(shape) or 'nothing'), not why, why,
                        w)
        finally:
            eng.on_getattr = saved
            del lx.more

    def family(self, st, cls, shape, locs, local, child, **kw):
        lx, eng, p = self.lx, self.eng, self.ctx.p
        e = lx.node(eng, st, 'parent', attrib={})
        st.types[e] = (p.cls(cls), True)
        locs[e] = local
        kids, n = [], 0
        for i, k in enumerate(shape):
            name = '%s %d' % (k, n if k == 'element' else i)
            x = lx.node(eng, st, name, k, attrib={}, **kw)
            if k == 'element':
                n += 1
                st.types[x] = (p.cls(cls), True)
                locs[x] = child
            kids.append(x)
        lx.put(st, e, kids)
        return e

    def bbox(self, st, shape, locs, stubs):
        e = self.family(st, 'svgpy.element.SVGGElement', shape, locs, 'g',
                        'rect')
        stubs['self'] = e
        stubs['get_bbox'] = lambda st, fn, args, kw, node: [
            (st, S('box', fn.recv))]
        for op in ('__or__', '__ior__', 'union'):
            stubs[op] = lambda st, fn, args, kw, node: [
                (st, S('union', fn.recv if isinstance(fn.recv, Sym) else
                       NONE, args[0]))]
        return self.single_result(e, st, 'get_bbox')

    def path_data(self, st, shape, locs, stubs):
        e = self.family(st, 'svgpy.element.SVGGElement', shape, locs, 'g',
                        'rect')
        stubs['get_transformed_path_data'] = lambda st, fn, args, kw, node: [
            (st, self.eng.new_list(st, [S('segment of', fn.recv)], node))]
        w, got, why = self.single_result(e, st, 'get_descendant_path_data')
        if not why:
            seq = sequence(self.eng, self.last, got)
            why = '' if seq is not None else 'is unknown'
            got = seq if seq is None else tuple(seq)
        return w, got, why

    def characters(self, st, shape, locs, stubs):
        e = self.family(st, 'svgpy.element.SVGTextElement', shape, locs, 'text',
                        'tspan', text='A')
        st.fields[(e, 'text')] = C('0')
        for x in self.lx.kids(st, e):
            if self.lx.kind[x] != 'element':
                st.fields[(x, 'text')] = C('comment')
                st.fields[(x, 'tail')] = C('after')
        self.others = len([k for k in shape if k != 'element'])

        def text_of(st, fn, args, kw, node):
            return [(st, args[1])]
        stubs['normalize_text_content'] = text_of
        stubs['get_computed_style'] = lambda st, fn, args, kw, node: [
            (st, self.eng.new_dict(st, [(C('display'), C('inline'))], node))]
        m, _ = self.ctx.p.find_member(
            st.types[e][0], '_get_descendant_chars')
        w = m.where()
        self.eng.stack = []
        outs = self.eng.call_fn(F(m), [e, NONE, NONE, TRUE], {}, st, m.node)
        return self.result_of(w, outs, self.chars_of)

    def chars_of(self, o):
        t = o.value
        if not isinstance(t, Tup) or len(t.items) != 2:
            return None
        seq = sequence(self.eng, o.st, t.items[0])
        if seq is None:
            return None
        out = []
        for x in seq:
            info = sequence(self.eng, o.st, x)
            if info is None or not isinstance(info[1], Const):
                return None
            out.append((info[1].v, info[-1]))
        # the text after a comment belongs to the element
        after = [c for c in out if c[0] == 'after']
        if len(after) != self.others or any(
                self.lx.kind.get(c[1]) != 'element' or
                c[1].args[0] != 'parent' for c in after):
            return None
        return tuple(c for c in out if c[0] != 'after')

    def single_result(self, e, st, name):
        m, _ = self.ctx.p.find_member(st.types[e][0], name)
        outs = invoke(self.eng, self.ctx.p, st, e, name, [])
        return self.result_of(m.where(), outs, lambda o: o.value)

    def result_of(self, w, outs, f):
        self.ctx.paths += len(outs)
        if len(outs) != 1 or outs[0].kind != 'return':
            return w, None, 'ends in %s' % [
                exc_name(o) if o.kind == 'raise' else show(o.value)
                for o in outs]
        self.last = outs[0].st
        got = f(outs[0])
        return w, got, '' if got is not None else 'cannot be told'

    def text_case(self, local, case, texts, locs, w):
        lx, eng = self.lx, self.eng
        lx.reset()
        locs.clear()
        st = State()
        e = lx.node(eng, st, 'e', text='0' if texts else None)
        locs[e] = local
        want = '0' if texts else ''
        kids = []
        for i, c in enumerate(case):
            t, a = chr(65 + i), chr(97 + i)
            k = lx.node(eng, st, 'k%d' % i, c if c in ('comment', 'pi')
                        else 'element', text=t, tail=a if texts else None)
            kids.append(k)
            if c not in ('comment', 'pi'):
                locs[k] = c
            if c in ('tspan', 'text'):
                want += t
                # a comment inside, and text after it
                j = lx.node(eng, st, 'j%d' % i, 'comment', text='x',
                            tail='%d' % (i + 5))
                lx.put(st, k, [j])
                want += '%d' % (i + 5)
            if texts:
                want += a
        lx.put(st, e, kids)
        self.text_is(st, e, want, '%s with %s%s' % (
            local, ', '.join(case), '' if texts else ', no own text'), w)

    def text_is(self, st, e, want, cons, w):
        self.n += 1
        outs = self.eng.read(st, e, 'text_content')
        got = [o.value for o in outs]
        self.ctx.obl('text', 'text_content of ' + cons, outs and all(
            isinstance(g, Const) and g.v == want for g in got),
            'is %s, not %r' % (got, want), w)


def followed(content, c):
    i = content.index(c)
    return i + 1 < len(content) and content[i + 1] not in NODES


def show_content(c):
    return [x if isinstance(x, str) else x.args[0]
            if isinstance(x, Sym) and x.op == 'node' else show(x)
            for x in c]


def check(ctx):
    d = D09(ctx)
    for op in ('append', 'prepend', 'extend'):
        d.many(op)
    d.single()
    d.documents()
    d.queries()
    d.texts()
    d.transparent()
    ctx.floor('scenarios', d.n, 1000)

"""D02: a node linked into or created by a document is owned by it."""
import itertools

from ._dom import *
from ._lx import Trees, invoke

EXPLANATION = (
    'Every insertion operation of every node class is interpreted with a '
    'linkable node of each kind and a receiver owned by a document; on each '
    'path that hands the node to the tree the node\'s owner field ends as '
    'that document (linked-owned). The document factory methods are '
    'interpreted and must return a node whose owner is the document '
    '(created-owned). Attaching an element to a document reaches its child '
    'nodes, detaching clears it (recursive), and the owner query returns a '
    'node\'s own or nearest ancestor\'s document (query). Every operation is '
    'also interpreted on concrete small trees of several documents: all '
    'nodes below the target, moved ones included, belong to its document '
    '(tree-owned), removed ones to none (tree-detached), and the query of '
    'every node agrees (tree-query).')
ASSUMPTIONS = ['lxml links exactly the node it is handed',
               'iterating an element yields its child nodes']

FACTORIES = ['create_attribute', 'create_attribute_ns', 'create_comment',
             'create_element', 'create_element_ns',
             'create_processing_instruction']


def owner_of(st, v):
    return st.fields.get((v, '_owner_document'))


def check(ctx):
    p = ctx.p
    eng = engine(ctx)
    n = 0
    for op, shapes in sorted(INSERT_OPS.items()):
        for c, m in implementers(ctx, op):
            rk = kind_of_class(ctx, c)
            sibling = op in ('addnext', 'addprevious')
            if rk in ('attr', None) or (rk in ('comment', 'pi')
                                        and not sibling):
                continue
            multi = shapes[0] in ('N*', '[N]')
            roots = [None, True] if rk == 'document' else [None]
            for shape in shapes:
                for root in roots:
                    for good in LINKABLE:
                        n += linked(ctx, eng, c, op, shape, rk, root, good,
                                    multi)
    ctx.floor('insertion scenarios', n, 40)
    factories(ctx)
    recursive(ctx, eng)
    trees(ctx)


def trees(ctx):
    """Whole trees: every node below an inserted one changes its owner."""
    p = ctx.p
    lx = Trees(ctx)
    eng = lx.engine(recursion=6)
    D1, D2 = S('param', 'DOC'), S('param', 'other document')

    def build(owners, via, have=1):
        lx.reset()
        st = State()
        for d in (D1, D2):
            st.types[d] = (p.cls(KINDS['document']), True)
            st.facts[S('is', d, NONE)] = False
            st.facts[d] = True
        st.facts[S('is', D1, D2)] = st.facts[S('is', D2, D1)] = False
        up = lx.node(eng, st, 'up', owner=D1)
        e = lx.node(eng, st, 'parent', owner=NONE if via else D1)
        lx.put(st, up, [e])
        kids = [lx.node(eng, st, 'child %d' % i, owner=D1)
                for i in range(have)]
        lx.put(st, e, kids)
        names = ['node', 'comment', 'inner', 'leaf', 'instruction']
        kinds = ['element', 'comment', 'element', 'element', 'pi']
        x = [lx.node(eng, st, n, k, owner=o)
             for n, k, o in zip(names, kinds, owners)]
        lx.put(st, x[0], [x[1], x[2]])
        lx.put(st, x[2], [x[3], x[4]])
        return st, e, kids, x
    owners = [(NONE,) * 5, (D2,) * 5, (NONE, D2, D2, D2, D2),
              (D2, NONE, NONE, NONE, NONE), (NONE, NONE, D2, NONE, D2),
              (D1, D2, NONE, D2, NONE), (NONE, NONE, NONE, D2, D2)]
    ops = {'append': lambda k, x: [x], 'prepend': lambda k, x: [x],
           'append_child': lambda k, x: [x], 'extend': None,
           'insert': lambda k, x: [C(0), x],
           'insert_before': lambda k, x: [x, k[0] if k else NONE],
           'replace': lambda k, x: [k[0], x],
           'replace_child': lambda k, x: [x, k[0]],
           'addnext': lambda k, x: [x], 'addprevious': lambda k, x: [x]}
    n = 0
    for op, args in sorted(ops.items()):
        for have in (0, 1, 2):
            if have == 0 and op in ('replace', 'replace_child', 'addnext',
                                    'addprevious'):
                continue
            for via in (False, True):
                for own in owners:
                    st, e, kids, x = build(own, via, have)
                    a = args(kids, x[0]) if args else [
                        eng._outside(lambda: eng.new_list(
                            st, [x[0]], None))]
                    recv = kids[-1] if op.startswith('add') else e
                    m, _ = p.find_member(st.types[recv][0], op)
                    outs = invoke(eng, p, st, recv, op, a)
                    ctx.paths += len(outs)
                    n += 1
                    bad = ''
                    for o in outs:
                        if o.kind != 'return':
                            bad = 'ends in %s' % exc_name(o)
                            continue
                        for y in x:
                            d = o.st.fields[(y, '_owner_document')]
                            if d is not D1:
                                bad = 'the %s stays owned by %s' % (
                                    y.args[0], show(d))
                    ctx.obl('tree-owned', 'Element.%s of a tree owned by %s'
                            ' into %d children%s' % (
                                op, [show(d) for d in own], have,
                                ' of an owned ancestor' if via else ''),
                            outs and not bad, bad, m.where())
    for own in owners:
        st, e, kids, x = build(own, False)
        outs = invoke(eng, p, st, x[0], 'detach_document', [])
        n += 1
        left = [y for o in outs for y in x if o.kind != 'return' or
                o.st.fields[(y, '_owner_document')] is not NONE]
        ctx.obl('tree-detached', 'Element.detach_document of a tree owned '
                'by %s' % [show(d) for d in own], outs and not left,
                'keeps the owner of %s' % [show(y) for y in left[:1]],
                p.cls(KINDS['element']).where())
    # the owner of a node is its own or that of the nearest ancestor
    for k in ('element', 'comment', 'pi'):
        for own, above, higher in itertools.product((NONE, D1, D2),
                                                    repeat=3):
            lx.reset()
            st = State()
            for d in (D1, D2):
                st.facts[S('is', d, NONE)] = False
            a = lx.node(eng, st, 'a', owner=higher)
            b = lx.node(eng, st, 'b', owner=above)
            c = lx.node(eng, st, 'c', k, owner=own)
            lx.put(st, a, [b])
            lx.put(st, b, [c])
            want = next((d for d in (own, above, higher)
                         if d is not NONE), NONE)
            outs = eng.read(st, c, 'owner_document')
            n += 1
            ctx.obl('tree-query', '%s.owner_document: %s' % (k, [
                show(d) for d in (own, above, higher)]), outs and all(
                o.kind == 'return' and o.value is want for o in outs),
                'is %s' % [show(o.value) for o in outs],
                p.cls(KINDS[k]).where())
    ctx.floor('trees', n, 300)


def linked(ctx, eng, c, op, shape, rk, root, good, multi):
    kinds = [good, 'element'] if multi else [good]
    if rk == 'document' and root is None:
        if good != 'element' or shape in ('RN', 'NR'):
            return 0
        kinds = kinds[:1] if not multi else ['element', 'comment']
    m, outs = run_op(ctx, eng, c, op, shape, kinds, root)
    doc = SELF if rk == 'document' else DOC
    cons = '%s.%s%s(%s)' % (c.name, op, '' if rk != 'document' else
                            ('[root]' if root else '[empty]'),
                            ','.join(kinds))
    seen = 0
    for o in outs:
        if o.kind != 'return':
            continue
        for i in range(len(kinds)):
            x = node_param(i)
            ev = [e for e in native_events(o.events)
                  if e.recv is not x and (x in e.args or _inlist(o, e, x))]
            ev += [e for e in o.events if e.kind == 'setattr' and
                   e.name == '_document_element' and x in e.args]
            ev = [e for e in ev if e.name != 'remove' and
                  not delegated(e)]
            if not ev:
                continue
            seen += 1
            got = owner_of(o.st, x)
            if got is not doc:
                ctx.bad('linked-owned', cons,
                        'node %d is linked by %r but its owner document is '
                        '%s' % (i, ev[0], 'left as it was' if got is None
                                else show(got)), ev[0].where())
                return 1
    ctx.obl('linked-owned', cons, True, '', m.where())
    return 1


def delegated(e):
    """A call on another node of the tree runs that node's own insertion
    operation, which has its own obligation."""
    return e.kind == 'call' and isinstance(e.recv, Sym) and \
        e.recv is not SELF and not isinstance(e.fn, ExtV)


def _inlist(o, e, x):
    for a in e.args:
        if isinstance(a, Obj):
            c = o.st.cont.get(a)
            if c and x in c[1]:
                return True
    return False


def factories(ctx):
    p = ctx.p
    doc = p.cls(KINDS['document'])
    made = {}

    def opaque(fi):
        return fi.cls is not None and fi.cls.name == 'SVGParser' or \
            fi.module.name == 'svgpy.exception'
    eng = ctx.engine(opaque=opaque)
    n = 0
    for name in FACTORIES:
        m, owner = p.find_member(doc, name)
        if m is None:
            continue
        n += 1
        outs = ctx.run(eng, m)
        bad = None
        rets = [o for o in outs if o.kind == 'return']
        for o in rets:
            v = o.value
            if owner_of(o.st, v) is SELF:
                continue
            att = [e for e in o.events if e.kind in ('call', 'enter') and
                   e.name == 'attach_document' and e.recv is v and
                   e.args and e.args[0] is SELF]
            if not att:
                bad = o
        ctx.obl('created-owned', 'Document.' + name, rets and bad is None,
                'returns a node that was never attached to the document',
                m.where())
    ctx.floor('factory methods', n, 6)


def recursive(ctx, eng):
    p = ctx.p
    el = p.cls(KINDS['element'])
    m, _ = p.find_member(el, 'attach_document')
    st = State()
    st.types[SELF] = (el, True)
    st.types[DOC] = (p.cls(KINDS['document']), True)
    outs = eng.call_fn(F(m, SELF), [DOC], {}, st, m.node)
    ctx.paths += len(outs)
    rets = [o for o in outs if o.kind == 'return']
    good = rets and all(owner_of(o.st, SELF) is DOC for o in rets)
    ctx.obl('attach', 'Element.attach_document', good,
            'a path returns without recording the document', m.where())
    reach = [o for o in rets if any(
        e.kind in ('call', 'enter') and e.name == 'attach_document' and
        e.recv is not SELF and DOC in e.args and SELF in subterms(e.recv)
        for e in o.events)]
    ctx.obl('recursive', 'Element.attach_document', bool(reach),
            'the document never reaches the child nodes', m.where())
    m, _ = p.find_member(el, 'detach_document')
    st = State()
    st.types[SELF] = (el, True)
    st.fields[(SELF, '_owner_document')] = DOC
    outs = eng.call_fn(F(m, SELF), [], {}, st, m.node)
    rets = [o for o in outs if o.kind == 'return']
    ctx.obl('detach', 'Element.detach_document', rets and all(
        owner_of(o.st, SELF) is NONE for o in rets),
        'a path returns without clearing the document', m.where())
    reach = [o for o in rets if any(
        e.kind in ('call', 'enter') and e.name == 'detach_document' and
        e.recv is not SELF and SELF in subterms(e.recv)
        for e in o.events)]
    ctx.obl('recursive', 'Element.detach_document', bool(reach),
            'child nodes keep the document', m.where())
    # owner query
    node = p.cls('svgpy.dom.Node')
    for k in ('element', 'comment', 'pi'):
        c = p.cls(KINDS[k])
        prop, owner = p.find_member(c, 'owner_document')
        st = State()
        st.types[SELF] = (c, True)
        st.fields[(SELF, '_owner_document')] = DOC
        st.types[DOC] = (p.cls(KINDS['document']), True)
        outs = eng.call_fn(F(prop.getter, SELF), [], {}, st, prop.getter.node)
        rets = [o for o in outs if o.kind == 'return']
        ctx.obl('query', c.name + '.owner_document[own]', rets and all(
            o.value is DOC for o in rets),
            'a node\'s own document is not returned', prop.getter.where())
        st = State()
        st.types[SELF] = (c, True)
        st.fields[(SELF, '_owner_document')] = NONE
        outs = eng.call_fn(F(prop.getter, SELF), [], {}, st, prop.getter.node)
        rets = [o for o in outs if o.kind == 'return' and
                o.value is not NONE]
        ctx.obl('query', c.name + '.owner_document[ancestor]', bool(rets),
                'no path returns an ancestor\'s document',
                prop.getter.where())

"""D01: refused insertions and removals change nothing."""
from ._dom import *

EXPLANATION = (
    'Each tree operation (append, prepend, append_child, extend, insert, '
    'insert_before, replace, replace_child, addnext, addprevious, remove, '
    'remove_child) of every class that implements it is interpreted over '
    'abstract arguments typed by node kind (attribute, document, element, '
    'comment, processing instruction), helpers and overridden methods '
    'inlined. Rules: (refuse) with an unlinkable node among the arguments '
    'every path ends in HierarchyRequestError; (clean) on a path that ends '
    'in a DOM error no store or native tree call happened before; (accept) '
    'with linkable nodes a path links the node; (child) a reference node '
    'that is not a child is refused with NotFoundError and native '
    'replacement/removal is only reached under a decided membership test.')
ASSUMPTIONS = ['lxml links or unlinks exactly the node it is handed',
               'node kinds are the five concrete node classes']


def check(ctx):
    p = ctx.p
    eng = engine(ctx)
    n = 0
    for op, shapes in sorted(INSERT_OPS.items()):
        for c, m in implementers(ctx, op):
            rk = kind_of_class(ctx, c)
            sibling = op in ('addnext', 'addprevious')
            if rk in ('attr',) or (rk in ('comment', 'pi')
                                   and not sibling):
                continue
            if rk is None:
                continue
            roots = [None, True] if rk == 'document' else [None]
            for shape in shapes:
                for root in roots:
                    n += one(ctx, eng, c, m, op, shape, rk, root)
    for op, shapes in sorted(REMOVE_OPS.items()):
        for c, m in implementers(ctx, op):
            rk = kind_of_class(ctx, c)
            if rk not in ('element', 'document'):
                continue
            cons = '%s.%s' % (c.name, op)
            m2, outs = run_op(ctx, eng, c, op, 'R', [],
                              root=True if rk == 'document' else None)
            n += 1
            child_rule(ctx, cons, m2, outs)
            clean_rule(ctx, cons, m2, outs)
    ctx.floor('operation scenarios', n, 24)


def one(ctx, eng, c, m, op, shape, rk, root):
    multi = shape in ('N*', '[N]')
    cons = '%s.%s%s' % (c.name, op, '' if rk != 'document' else
                        ('[root]' if root else '[empty]'))
    n = 0
    for bad in UNLINKABLE:
        cases = [[bad]]
        if multi:
            cases += [['element', bad], [bad, 'element']]
        for kinds in cases:
            m2, outs = run_op(ctx, eng, c, op, shape, kinds, root)
            n += 1
            ok = bool(outs) and all(
                exc_name(o) in ('HierarchyRequestError', 'NotFoundError')
                for o in outs)
            wrong = [o for o in outs if exc_name(o) not in (
                'HierarchyRequestError', 'NotFoundError')]
            ctx.obl('refuse', '%s(%s)' % (cons, ','.join(kinds)), ok,
                    'a path with a node of kind %s ends in %s' % (
                        bad, wrong[0] if wrong else 'nothing'), m2.where())
            clean_rule(ctx, '%s(%s)' % (cons, ','.join(kinds)), m2, outs)
    for good in LINKABLE:
        kinds = ['element', good] if multi else [good]
        m2, outs = run_op(ctx, eng, c, op, shape, kinds, root)
        n += 1
        name = '%s(%s)' % (cons, ','.join(kinds))
        clean_rule(ctx, name, m2, outs)
        if rk == 'document' and root is None and not multi and \
                good != 'element':
            continue
        if rk == 'document' and root is None and shape in ('RN', 'NR'):
            continue
        linked = []
        for o in outs:
            if o.kind != 'return':
                continue
            tgt = node_param(len(kinds) - 1)
            if any(tgt in e.args or _lists(o, e, tgt)
                   for e in native_events(o.events)) or any(
                    e.kind == 'setattr' and e.args and e.args[0] is tgt
                    for e in o.events):
                linked.append(o)
        ctx.obl('accept', name, bool(linked),
                'no path links a node of kind %s' % good, m2.where())
        if 'R' in shape:
            child_rule(ctx, name, m2, outs)
    return n


def _lists(o, e, tgt):
    for a in e.args:
        if isinstance(a, Obj):
            c = o.st.cont.get(a)
            if c and tgt in c[1]:
                return True
    return False


def clean_rule(ctx, cons, m, outs):
    for o in outs:
        x = exc_name(o)
        if x not in ('HierarchyRequestError', 'NotFoundError',
                     'InUseAttributeError'):
            continue
        muts = mutations(o.events)
        if muts and x == 'NotFoundError' and child_decided(o):
            # a second membership test of a node already found to be a
            # child cannot fail: not an execution
            continue
        if muts:
            ctx.bad('clean', cons, '%s raised after %r' % (x, muts[0]),
                    muts[0].where())
            return
    ctx.ok('clean', cons, m.where())


def child_decided(o):
    return any(v and isinstance(t, Sym) and t.op == 'in' and
               mentions_any(t, REF, (SELF, ROOT))
               for t, v in o.st.facts.items())


def child_rule(ctx, cons, m, outs):
    refused = [o for o in outs if exc_name(o) == 'NotFoundError']
    ctx.obl('child-refused', cons, bool(refused),
            'no path refuses a reference node that is not a child with '
            'NotFoundError', m.where())
    for o in outs:
        if o.kind != 'return':
            continue
        if not native_events(o.events) and not any(
                e.kind == 'setattr' and e.name == '_document_element'
                for e in o.events):
            continue
        dec = [t for t, v in o.st.facts.items()
               if isinstance(t, Sym) and t.op in ('in', 'is', 'eq') and
               mentions_any(t, REF, (SELF, ROOT))]
        if not dec:
            ev = native_events(o.events)
            ctx.bad('child-tested', cons, 'tree changed without testing '
                    'that the reference node is a child',
                    ev[0].where() if ev else m.where())
            return
    ctx.ok('child-tested', cons, m.where())


def mentions_any(t, a, bs):
    s = subterms(t)
    return a in s and any(b in s for b in bs)

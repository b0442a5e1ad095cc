"""D03: attributes, comments and processing instructions have no children."""
from ._dom import *

EXPLANATION = (
    'For each leaf node class (attribute, comment, processing instruction) '
    'every child operation reachable on it (found through the class '
    'hierarchy, so an inherited native implementation counts) is '
    'interpreted with a node argument of every kind: each path must end in '
    'HierarchyRequestError (refuse) with no store or native tree call '
    'before it (clean), and the operation must be the package\'s, not the '
    'native library\'s (owned). The child list query returns an empty list '
    'on every path (no-children).')
ASSUMPTIONS = ['lxml\'s comment and processing instruction base classes '
               'would accept children if reached']
OPS = {'append': 'N*', 'append_child': 'N', 'extend': '[N]', 'insert': 'IN',
       'insert_before': 'NR', 'remove': 'R', 'remove_child': 'R',
       'replace': 'RN', 'replace_child': 'NR'}


def check(ctx):
    p = ctx.p
    eng = engine(ctx)
    n = 0
    for k in ('attr', 'comment', 'pi'):
        base = p.cls(KINDS[k])
        for c in p.subclasses(base):
            for op, shape in sorted(OPS.items()):
                if k == 'attr' and op in ('append', 'extend', 'insert',
                                          'remove', 'replace') and \
                        not isinstance(p.find_member(c, op)[0], FuncInfo):
                    continue
                m, own = p.find_member(c, op)
                cons = '%s.%s' % (c.name, op)
                ctx.obl('owned', cons, isinstance(m, FuncInfo) and
                        not m.is_abstract,
                        'reaches the native implementation',
                        own.where() if isinstance(own, ClassInfo) else '')
                if not isinstance(m, FuncInfo) or m.is_abstract:
                    continue
                for kind in sorted(KINDS):
                    n += 1
                    m2, outs = run_op(ctx, eng, c, op, shape, [kind])
                    # a call that passes no node at all does nothing
                    wrong = [o for o in outs
                             if exc_name(o) != 'HierarchyRequestError']
                    ctx.obl('refuse', '%s(%s)' % (cons, kind),
                            outs and not wrong,
                            'ends in %s' % (wrong[0] if wrong else None),
                            m2.where())
                    for o in outs:
                        mu = mutations(o.events)
                        if mu:
                            ctx.bad('clean', '%s(%s)' % (cons, kind),
                                    'changes %r' % mu[0], mu[0].where())
                            break
                    else:
                        ctx.ok('clean', '%s(%s)' % (cons, kind), m2.where())
            prop, own = p.find_member(c, 'child_nodes')
            st = State()
            st.types[SELF] = (c, True)
            if not isinstance(prop, PropInfo):
                continue
            outs = eng.call_fn(F(prop.getter, SELF), [], {}, st,
                               prop.getter.node)
            ok = outs and all(
                o.kind == 'return' and
                ((isinstance(o.value, Obj) and
                  o.st.cont.get(o.value, (0, None, 1))[1] == () and
                  o.st.cont[o.value][2] is None)
                 or (isinstance(o.value, Tup) and not o.value.items))
                for o in outs)
            ctx.obl('no-children', c.name + '.child_nodes', ok,
                    'child list is not always empty', prop.getter.where())
    ctx.floor('leaf operation scenarios', n, 60)

"""E03: queries leave the receiver, its parts and the tables unchanged."""
from ._effects import *

EXPLANATION = (
    'From the interprocedural effect summaries: every property getter and '
    'every method or function named as a query (get_*, has_*, is*, find*, '
    'to*, iter*, items/keys/values, lookup_*, compute_*, compare_*, '
    'query_*, matches, closest, clone*, and the non-mutating operator '
    'methods) has an empty effect on its receiver, on whatever the receiver '
    'holds, and on shared objects. Three private caches are listed '
    'exemptions: the attribute-node cache, the parsed inline style cache '
    'and the ICU status cell.')
ASSUMPTIONS = ['lxml and numpy query methods have no side effects']

# (class, field): private caches no accessor exposes as such
CACHES = {('NamedNodeMap', '_attr_map'), ('CSSStyleDeclaration',
                                          '_property_map')}


def cached(p, fi, m):
    o = m[0]
    if fi.module.name == 'svgpy.icu' and o[0] == 'fld' and \
            o[2] == '_status':
        return True
    if fi.cls is None:
        return False
    names = {getattr(c, 'name', '') for c in p.mro(fi.cls)}
    for c, f in CACHES:
        if c not in names:
            continue
        if o[0] in ('fld', 'fldin') and o[2] == f:
            return True
        if o[0] == 'in' and m[2].startswith(fi.module.name + '.') and \
                '.%s.' % c in m[2] and m[1] in ('item', 'call'):
            return True
        if o[0] == 'in' and m[4] == '.detach_element()':
            return True
    return False


def check(ctx):
    e = effects(ctx)
    n = 0
    for fi in e.funcs:
        if not is_query(fi):
            continue
        n += 1
        me = me_of(fi)
        bad = None
        for m in sorted(e.sum[fi].mut, key=str):
            o = m[0]
            if o[0] in ('param', 'in', 'fld', 'fldin') and o[1] != me:
                continue        # arguments: E01
            if cached(ctx.p, fi, m):
                continue
            bad = m
            break
        ctx.obl('query', fi.fq, bad is None, '' if bad is None else
                'changes %s: %s' % (what(bad[0]), site(bad)), fi.where())
    ctx.floor('query functions', n, 600)


def what(o):
    if o[0] == 'param':
        return 'the receiver'
    if o[0] in ('fld', 'fldin'):
        return 'the receiver\'s .' + o[2]
    if o[0] == 'in':
        return 'something the receiver holds'
    return '%s.%s' % (o[1], o[2])

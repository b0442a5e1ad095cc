"""E04: containers a caller passed in are not kept and changed later."""
from ._effects import *

EXPLANATION = (
    'The effect analysis also records which arguments a public function '
    'stores unchanged in an attribute of its receiver. A field that receives '
    'a caller\'s object this way must not be changed in place by any method '
    'of that class, its bases or subclasses (otherwise a later call changes '
    'the caller\'s object). Fields that are references to another object by '
    'design (document element, owner node, the declaration block a shorthand '
    'or style map is a view of) are listed exemptions. Conversely, no public '
    'method returns the private container behind one of the listed value '
    'objects when it is documented to return a fresh one.')
ASSUMPTIONS = ['values stored through private constructors are package '
               'objects']

VIEWS = {'_document_element', '_owner_node', '_declarations',
         '_owner_element', '_owner_document', '_attrib', '_parent_rule',
         '_parent_stylesheet'}


def check(ctx):
    e = effects(ctx)
    p = ctx.p
    changed = {}
    for fi in e.funcs:
        if fi.cls is None:
            continue
        me = me_of(fi)
        for m in e.sum[fi].mut:
            o = m[0]
            if o[0] == 'fld' and o[1] == me and \
                    m[1] in ('item', 'call', 'aug'):
                changed.setdefault((fi.cls.fq, o[2]), m)
    n = 0
    for fi in e.funcs:
        if fi.cls is None or not is_public(fi):
            continue
        me = me_of(fi)
        rel = list(p.mro(fi.cls)) + list(p.subclasses(fi.cls))
        for (b, f, o), s in e.sum[fi].stores.items():
            if b != ('param', me) or o[0] not in ('param', 'fld') or \
                    o[1] == me or o[0] == 'fld' and o[2] in VIEWS:
                continue
            if f in VIEWS:
                continue
            n += 1
            hit = None
            for c in rel:
                hit = hit or changed.get((getattr(c, 'fq', ''), f))
            ctx.obl('kept', '%s(%s)->%s' % (fi.fq, o[1], f), hit is None,
                    '' if hit is None else 'kept in .%s and changed later: '
                    '%s' % (f, site(hit)), fi.where())
    ctx.floor('arguments kept in fields', n, 100)

"""E01: calls never change the containers and objects a caller passes in."""
from ._effects import *

EXPLANATION = (
    'An interprocedural effect analysis summarises every function of the '
    'package (which parameters, objects held by or reachable from '
    'parameters, and module or class objects it may change), to a fixpoint '
    'over the whole call graph. Every public function and method must have '
    'an empty effect on each of its arguments other than the receiver. The '
    'operations whose purpose is to link the nodes they are given, the '
    'shorthand component-list consumers, the percent hint helper and '
    'property registration are listed exemptions.')
ASSUMPTIONS = [
    'lxml, tinycss2, numpy and the standard library do not change their '
    'arguments beyond what is modelled (container methods, lxml setters)']

LINK = {'append', 'append_child', 'insert', 'insert_before', 'prepend',
        'extend', 'replace', 'replace_child', 'addnext', 'addprevious',
        'set_named_item', 'set_named_item_ns', 'node_append_data',
        'node_prepend_data', 'node_insert_before', 'attach_document',
        'detach_document', 'attach_element', 'detach_element'}
LINK_CLS = {'NamedNodeMap': {'__setitem__', 'set_named_item'},
            'SVGDOMImplementation': {'create_document'},
            'Document': {'__init__'}}
EXEMPT = {('svgpy.css.types.CSSNumericType.apply_percent_hint', None),
          ('svgpy.css.CSS.register_property', 'context')}


def exempt(p, fi, arg):
    if fi.module.name == 'svgpy.css.shorthands':
        return True
    if (fi.fq, arg) in EXEMPT or (fi.fq, None) in EXEMPT:
        return True
    if fi.name in LINK and (fi.cls is None or p.cls('svgpy.dom.Node')
                            in p.mro(fi.cls) or fi.cls.name in LINK_CLS):
        return True
    return fi.cls is not None and fi.name in LINK_CLS.get(fi.cls.name, ())


def check(ctx):
    e = effects(ctx)
    p = ctx.p
    n = 0
    for fi in e.funcs:
        if not is_public(fi):
            continue
        me = me_of(fi)
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for v in (a.vararg, a.kwarg):
            if v is not None:
                names.append(v.arg)
        bad = {}
        for m in e.sum[fi].mut:
            o = m[0]
            if o[0] in ('param', 'in', 'fld', 'fldin') and o[1] != me:
                bad.setdefault(o[1], m)
        star = {v.arg for v in (a.vararg, a.kwarg) if v is not None}
        for arg in names:
            if arg == me:
                continue
            if exempt(p, fi, arg):
                continue
            n += 1
            m = bad.get(arg)
            if arg in star:
                # the tuple/dict of a star parameter belongs to the callee
                ms = [x for x in e.sum[fi].mut
                      if x[0][:2] == ('param', arg) and x[1] == 'attr'
                      or x[0][0] in ('in', 'fld', 'fldin')
                      and x[0][1] == arg]
                m = ms[0] if ms else None
            ctx.obl('argument', '%s(%s)' % (fi.fq, arg), m is None,
                    '' if m is None else 'the argument is changed: '
                    + site(m), fi.where())
    ctx.floor('arguments of public functions', n, 400)

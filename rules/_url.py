"""Scenarios over URL component values."""
from ._common import *

SELF = S('param', 'self')
STR = (ExtClass('builtins.str'), True)


def text(st, name, nonempty=True):
    v = S('param', name)
    st.types[v] = STR
    st.facts[S('is', v, NONE)] = False
    if nonempty is not None:
        st.facts[v] = nonempty
    return v


def field_of(p, cls, name):
    """The attribute a component is kept in: read by its getter only when
    interpreted with distinct values, found as the one attribute whose value
    the getter's result contains on every path."""
    m, _ = p.find_member(cls, name)
    if not isinstance(m, PropInfo):
        raise AnalysisBroken('no component ' + name)
    eng = Engine(p)
    st = State()
    st.types[SELF] = (cls, True)
    cands = {}
    for o in eng.read(st, SELF, name):
        if o.kind != 'return':
            continue
        for t in subterms(o.value):
            if isinstance(t, Sym) and t.op == 'attr' and t.args[0] is SELF:
                cands[t.args[1]] = True
    return list(cands)


def single_field(p, cls, name):
    c = field_of(p, cls, name)
    if len(c) != 1:
        raise AnalysisBroken('component %s is kept in %s' % (name, c))
    return c[0]


def url_state(p, cls, protocol='http:', host='H', port='', user='U',
              password='P', path='PN', frag='HS'):
    """State in which self is a URL with the given component values."""
    st = State()
    st.types[SELF] = (cls, True)
    vals = {}
    for name, v, const in (('protocol', protocol, True),
                           ('hostname', host, False), ('port', port, True),
                           ('username', user, False),
                           ('password', password, False),
                           ('pathname', path, False), ('hash', frag, False)):
        f = '_hash' if name == 'hash' else None
        c = field_of(p, cls, name)
        if len(c) > 1:
            c = [x for x in c if x.strip('_') == name]
        if len(c) != 1:
            raise AnalysisBroken('component %s is kept in %s' % (name, c))
        f = c[0]
        val = C(v) if const or v == '' else text(st, v)
        st.fields[(SELF, f)] = val
        vals[name] = val
    return st, vals

"""U02: a URL component assignment is refused as a whole or changes only it."""
from sa.effects import Effects
from ._url import *
from ._urlh import Urls

EXPLANATION = (
    'Two rules over the component setters of URL. Frame: from the effect '
    'summaries, the attributes a setter may write, against the attributes '
    'each other component\'s getter reads (transitively): a setter may write '
    'nothing an independent component reads, and must write something its '
    'own getter reads. Refusal: each setter is interpreted on an unknown URL '
    'and value; on a path that ends in an exception nothing of the URL was '
    'changed before, and no change precedes a call that can raise. '
    'Every sequence of two assignments (quick: the first one to a component '
    'the rule singles out; thorough: to any) on seven URLs of known text is '
    'interpreted with its texts and each component read afterwards is '
    'compared with a model of the components.')
ASSUMPTIONS = ['urllib.parse.quote/unquote accept every str',
               'os.path.normpath accepts every str']

PARTS = ('protocol', 'username', 'password', 'hostname', 'host', 'port',
         'pathname', 'search', 'hash', 'href')
# components that are, or are presented depending on, another component
DEPENDS = {
    'protocol': {'protocol', 'host', 'origin', 'pathname', 'href'},
    'username': {'username', 'href'}, 'password': {'password', 'href'},
    'hostname': {'hostname', 'host', 'port', 'origin', 'href'},
    'host': {'hostname', 'host', 'port', 'origin', 'href'},
    'port': {'port', 'host', 'origin', 'href'},
    'pathname': {'pathname', 'origin', 'href'},
    'search': {'search', 'search_params', 'href'},
    'hash': {'hash', 'href'},
}
GETTERS = PARTS + ('origin', 'search_params')
import ast  # noqa: E402


def reads(p, cls, fi, seen):
    """Attributes of self read by a method, transitively."""
    if fi in seen:
        return set()
    seen.add(fi)
    out = set()
    me = fi.params[0] if fi.params else None
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                and n.value.id == me and isinstance(n.ctx, ast.Load):
            m, _ = p.find_member(cls, n.attr)
            if isinstance(m, PropInfo) and m.getter is not None:
                out |= reads(p, cls, m.getter, seen)
            elif isinstance(m, FuncInfo):
                out |= reads(p, cls, m, seen)
            else:
                out.add(n.attr)
    return out


def check(ctx):
    p = ctx.p
    url = p.cls('svgpy.url.URL')
    eff = Effects(p)
    w = url.where()
    rd = {}
    setters = {}
    for g in GETTERS:
        m, _ = p.find_member(url, g)
        if not isinstance(m, PropInfo) or m.getter is None:
            raise AnalysisBroken('no component ' + g)
        rd[g] = reads(p, url, m.getter, set())
        if g in PARTS:
            if m.setter is None:
                ctx.bad('setter', 'URL.' + g, 'cannot be assigned', w)
            else:
                setters[g] = m.setter
    for g, f in setters.items():
        me = f.params[0]
        wr = set()
        for o, kind, fq, line, what in eff.sum[f].mut:
            if o == ('param', me) and kind == 'attr':
                wr.add(what.lstrip('.').split(' ')[-1].lstrip('.')
                       .rstrip('()'))
            elif o[0] in ('fld', 'fldin') and o[1] == me:
                wr.add(o[2])
        ctx.obl('writes-own', 'URL.%s=' % g, bool(wr & rd[g]),
                'writes %s, its getter reads %s' % (
                    sorted(wr), sorted(rd[g])), f.where())
        if g == 'href':
            miss = [d for d in PARTS if d != 'href' and not wr & rd[d]]
            ctx.obl('writes-all', 'URL.href=', not miss,
                    'leaves %s' % miss, f.where())
            continue
        for d in GETTERS:
            if d in DEPENDS[g]:
                continue
            hit = wr & rd[d]
            ctx.obl('frame', 'URL.%s= vs %s' % (g, d), not hit,
                    'writes %s, which %s reads' % (sorted(hit), d),
                    f.where())
    refusal(ctx, p, url, setters)
    ctx.floor('URL component setters', len(setters), 9)
    n = Urls(ctx).run(
        ('protocol', 'username', 'password', 'hostname', 'port', 'pathname',
         'search', 'hash'), ('protocol', 'host', 'search', 'href'))
    ctx.floor('assignment histories', n, 1000)



def refusal(ctx, p, url, setters):
    mod = p.module('svgpy.url')
    risky = may_raise(p, mod, url)
    search = p.find_member(url, 'search')[0].setter
    init = p.find_member(url, '__init__')[0]
    plain = {p.find_member(url, n)[0].setter
             for n in ('search', 'hash', 'username', 'password')}

    def opaque(fi):
        return fi.module is mod and (
            fi.cls is None or fi is init or fi in plain
            or fi.cls is not url)
    eng = ctx.engine(opaque=opaque, max_states=20000)
    n = 0
    for g, f in setters.items():
        e2 = eng
        if f in plain:
            e2 = ctx.engine(opaque=lambda fi, f=f: fi is not f and
                            fi.module is mod, max_states=20000)
        st = State()
        st.types[SELF] = (url, True)
        v = S('param', 'value')
        st.types[v] = STR
        st.facts[S('is', v, NONE)] = False
        try:
            outs = e2.call_fn(F(f, SELF), [v], {}, st, f.node)
        except Exception as ex:
            if type(ex).__name__ != 'Budget':
                raise
            raise AnalysisBroken(str(ex))
        ctx.paths += len(outs)
        cons = 'URL.%s=' % g
        for o in outs:
            n += 1
            changed = None
            for e in o.events:
                if e.kind == 'call' and changed is not None and \
                        (getattr(e, 'fi', None) in risky or
                         e.name in ('encode', 'decode')):
                    ctx.bad('refusal', cons, '%s can raise after %s was '
                            'changed' % (e.name, changed), f.where())
                if e.kind in ('setattr', 'setitem', 'delitem', 'mutate',
                              'aug', 'delattr') and not is_fresh(e.recv) \
                        and SELF in subterms(e.recv):
                    changed = changed or e.name or e.kind
                elif e.kind == 'call' and e.name in (
                        'clear', 'update', 'pop', '__setitem__',
                        '__delitem__') and SELF in subterms(e.recv):
                    changed = changed or e.name
            if o.kind == 'raise':
                ctx.obl('refusal', cons, changed is None,
                        'raises %s after %s was changed' % (
                            exc_name(o), changed), f.where())
            else:
                ctx.ok('refusal', cons, f.where())
    ctx.floor('setter paths', n, 20)


def may_raise(p, mod, url):
    """Functions of the module that raise, directly or through a call."""
    fns = {}
    for fi in p.functions.values():
        if fi.module is mod:
            fns[fi] = {n.func.attr if isinstance(n.func, ast.Attribute)
                       else getattr(n.func, 'id', '')
                       for n in ast.walk(fi.node) if isinstance(n, ast.Call)}
    for ci in mod.classes.values():
        for m in ci.members.values():
            if isinstance(m, PropInfo):
                for f in (m.getter, m.setter):
                    if f is not None:
                        fns.setdefault(f, set())
    risky = {f for f in fns if any(isinstance(n, ast.Raise)
                                   for n in ast.walk(f.node))}
    init = p.find_member(url, '__init__')[0]
    risky.add(init)
    return risky

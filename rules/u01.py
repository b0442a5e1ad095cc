"""U01: location assignments change their component and navigate once."""
from ._url import *

EXPLANATION = (
    'Location is interpreted with an unknown URL and an unknown browsing '
    'context. Every component setter (and assign) must, on every path that '
    'ends normally, assign the given value to the same component of the '
    'location\'s URL and then, exactly once and after the assignment, '
    'navigate the context\'s document with that URL; without a context it '
    'navigates nowhere. Getters read the same component. reload navigates '
    'once without changing the URL. For every scheme class (finite table) '
    'the guard is interpreted: URLs with neither scheme nor host, and '
    'blob: and data: URLs, are refused with ValueError before navigating.')
ASSUMPTIONS = ['URL component semantics are U02-U04']
CTX, URLV, NEW = S('param', 'CTX'), S('param', 'URL'), S('param', 'NEW')
PARTS = ('hash', 'host', 'hostname', 'href', 'pathname', 'port', 'protocol',
         'search')


def check(ctx):
    p = ctx.p
    loc = p.cls('svgpy.url.Location')
    url = p.cls('svgpy.url.URL')

    url_fns = set()
    for m in url.members.values():
        for f in ((m.getter, m.setter) if isinstance(m, PropInfo) else (m,)):
            if isinstance(f, FuncInfo):
                url_fns.add(f)
    eng = ctx.engine(opaque=lambda fi: fi in url_fns)

    def fields():
        # the attributes holding the context and the URL, from construction
        outs = [o for o in eng.construct(loc, [CTX]) if o.kind == 'return']
        if not outs:
            raise AnalysisBroken('Location cannot be constructed')
        return outs
    outs = fields()
    w = loc.where()

    def navs(o, n0):
        return [(i, e) for i, e in enumerate(o.events)
                if i >= n0 and e.kind == 'call' and e.name == 'navigate']

    def sets(o, n0, name):
        out = []
        for i, e in enumerate(o.events):
            if i < n0:
                continue
            if e.kind in ('setattr', 'call', 'setprop') and \
                    isinstance(e.name, str) and name == e.name.split(
                        '.')[-1].split('@')[0] and NEW in tuple(e.args):
                out.append((i, e))
        return out
    n = 0
    for has_ctx in (True, False):
        for part in PARTS + ('assign', 'reload'):
            m, _ = p.find_member(loc, part)
            comp = {'assign': 'href', 'reload': None}.get(part, part)
            if isinstance(m, PropInfo):
                f = m.setter
                if m.getter is None or f is None:
                    ctx.bad('setter', 'Location.' + part, 'cannot be set', w)
                    continue
            else:
                f = m
            if not isinstance(f, FuncInfo):
                raise AnalysisBroken('no Location.' + part)
            for base in outs:
                st = base.st.fork()
                st.facts[S('is', CTX, NONE)] = not has_ctx
                if not has_ctx:
                    base2 = [o for o in eng.construct(loc, [])
                             if o.kind == 'return'][0]
                    st = base2.st.fork()
                    me = base2.value
                else:
                    me = base.value
                n0 = len(st.event_list())
                args = [] if part == 'reload' else [NEW]
                res = eng.call_fn(F(f, me), args, {}, st, f.node)
                ctx.paths += len(res)
                good = 0
                for o in res:
                    cons = 'Location.%s%s' % (
                        part, '' if has_ctx else '[no context]')
                    ss = sets(o, n0, comp) if comp else []
                    nv = navs(o, n0)
                    if o.kind != 'return':
                        if comp and exc_name(o) == 'ValueError':
                            ctx.obl('refuse', cons, not nv,
                                    'navigates and then raises', w)
                        continue
                    good += 1
                    n += 1
                    if comp:
                        ctx.obl('component', cons, len(ss) == 1 and all(
                            isinstance(e.recv, Val) for _, e in ss),
                            'the %s of the URL is assigned %d times' % (
                                comp, len(ss)), w)
                        other = [e for i, e in enumerate(o.events)
                                 if i >= n0 and e.kind in ('setattr',)
                                 and e.name in PARTS and e.name != comp]
                        ctx.obl('other-component', cons, not other,
                                'another component is assigned: %s'
                                % [e.name for e in other], w)
                    ctx.obl('navigate', cons, len(nv) == (
                        1 if has_ctx else 0), 'navigates %d times'
                        % len(nv), w)
                    if comp and ss and nv:
                        ctx.obl('order', cons, ss[-1][0] < nv[0][0],
                                'navigates before the URL is changed', w)
                    if ss and nv:
                        ctx.obl('target', cons, ss[-1][1].recv in
                                tuple(nv[0][1].args) + tuple(
                                    nv[0][1].kw.values()),
                                'navigates to something else than the '
                                'changed URL', w)
                ctx.obl('accepts', 'Location.%s%s' % (
                    part, '' if has_ctx else '[no context]'), good > 0,
                    'never succeeds', w)
                if not has_ctx:
                    break
            # getter reads the same component
            if isinstance(m, PropInfo) and has_ctx:
                for o in eng.read(outs[0].st, outs[0].value, part):
                    ok = o.kind == 'return' and part in show(
                        o.value, 8).replace('fn:URL.', '.')
                    ctx.obl('getter', 'Location.' + part, ok,
                            'reads %s' % show(o.value, 8), w)
    guard(ctx, loc, url, outs[0])
    ctx.floor('location paths', n, 20)


def guard(ctx, loc, url, base):
    """Scheme classes for which navigation is refused."""
    p = ctx.p
    # a URL made from a text is some other URL, or refused
    other = S('param', 'OTHERURL')

    def made(eng, fn, args, kw, st, node):
        if not (isinstance(fn, ClsV) and fn.ci is url and (args or kw)):
            return None
        st.types[other] = (url, True)
        return [(st, other)]
    eng = ctx.engine(opaque=lambda fi: fi.name == 'search', on_call=made)
    m, _ = p.find_member(loc, 'reload')
    for proto in ('', 'http:', 'https:', 'file:', 'about:', 'blob:',
                  'data:', 'x:'):
        for host in ('', 'H'):
            for path in ('PN',):
                st, _ = url_state(p, url, proto, host=host, path=path)
                U = SELF
                s2 = base.st.fork()
                for k, v in st.fields.items():
                    s2.fields[k] = v
                for k, v in st.types.items():
                    s2.types[k] = v
                for k, v in st.facts.items():
                    s2.facts[k] = v
                s2.facts[S('is', CTX, NONE)] = False
                # the location's URL is the prepared one
                key = [k for k, v in s2.fields.items()
                       if k[0] is base.value and isinstance(v, Obj)]
                if not key:
                    raise AnalysisBroken('Location keeps no URL')
                for k in key:
                    t = eng.ctype(s2, s2.fields[k])
                    if t and t[0] is url:
                        s2.fields[k] = U
                if proto in ('about:', 'file:'):
                    continue        # depends on the path
                refuse = proto in ('blob:', 'data:') or \
                    (proto == '' and host == '')
                n0 = len(s2.event_list())
                for o in eng.call_fn(F(m, base.value), [], {}, s2, m.node):
                    ctx.paths += 1
                    nv = [e for e in o.events[n0:] if e.kind == 'call' and
                          e.name == 'navigate']
                    cons = 'scheme %r host %r' % (proto, host)
                    if refuse:
                        ctx.obl('guard', cons, exc_name(o) == 'ValueError'
                                and not nv, 'navigates to a URL that '
                                'cannot be loaded', loc.where())
                    else:
                        ctx.obl('guard', cons, o.kind == 'return' and
                                len(nv) == 1, 'navigation is refused',
                                loc.where())

"""U04: a URL serializes all its components, in order."""
from ._url import *
from ._urlh import Urls

EXPLANATION = (
    'URL.tostring is interpreted with symbolic non-empty components for '
    'every scheme class x each subset of present components (user name, '
    'password, host, port, path, fragment) x exclude_fragment; the text it '
    'returns is kept as a concatenation of constants and components and '
    'compared with the URL standard\'s serialization: scheme, "//" unless '
    'about:/blob:/data:, credentials only with a host and never for file:, '
    'host and non-default port, path, query, and the fragment unless '
    'excluded. href, Location.href and Location.tostring are the same text. '
    'Nothing is dropped, repeated or reordered on any path. '
    'Two-assignment histories on URLs of known text are '
    'interpreted and the serialization compared with the model.')
ASSUMPTIONS = ['the query text is the search component\'s own '
               'serialization',
               'a path is presented with the leading slash its scheme '
               'requires']
OPAQUE = ('about:', 'blob:', 'data:')


def flat(v):
    if isinstance(v, Sym) and v.op == 'cat':
        return list(v.args)
    if isinstance(v, Const) and v.v == '':
        return []
    return [v]


def render(v, vals, search):
    """The serialization with components replaced by letters."""
    out = ''
    for x in flat(v):
        if isinstance(x, Const):
            out += str(x.v)
            continue
        for name, val in vals.items():
            if not isinstance(val, Const) and (
                    x is val or val in subterms(x)):
                out += '{%s}' % name
                break
        else:
            if search(x):
                out += '{search}'
            else:
                out += '{?%s}' % show(x)
    return out


def check(ctx):
    p = ctx.p
    url = p.cls('svgpy.url.URL')
    sm = p.find_member(url, 'search')[0].getter
    eng = ctx.engine(opaque=lambda fi: fi is sm)
    w = url.where()
    m, _ = p.find_member(url, 'tostring')

    def is_search(x):
        return any(isinstance(t, FnV) and t.fi is sm for t in subterms(x)) \
            or 'search' in show(x, 6)
    n = 0
    for proto in ('http:', 'https:', 'file:', 'about:', 'blob:', 'data:',
                  'x:'):
        for mask in range(64):
            user, pw, host, port, path, frag = [
                bool(mask >> i & 1) for i in range(6)]
            st, vals = url_state(
                p, url, proto, host='H' if host else '',
                port='8080' if port else '', user='U' if user else '',
                password='P' if pw else '', path='PN' if path else '',
                frag='HS' if frag else '')
            if proto in OPAQUE and (host or user or pw or port):
                continue        # such URLs have no authority
            for excl in (False, True):
                cons = '%s %s%s' % (proto, ' '.join(
                    k for k, b in (('user', user), ('password', pw),
                                   ('host', host), ('port', port),
                                   ('path', path), ('hash', frag)) if b),
                    ' without fragment' if excl else '')
                outs = eng.call_fn(F(m, SELF), [], {
                    'exclude_fragment': TRUE} if excl else {}, st.fork(),
                    m.node)
                ctx.paths += len(outs)
                want = proto + ('' if proto in OPAQUE else '//')
                if host and proto != 'file:':
                    if user:
                        want += '{username}'
                        if pw:
                            want += ':{password}'
                        want += '@'
                    want += '{hostname}' + (':8080' if port else '')
                paths = []
                if proto in OPAQUE:
                    paths = ['{pathname}' if path else '']
                elif path:
                    paths = ['{pathname}', '/{pathname}']
                else:
                    paths = ['/']
                tail = '{search}' + ('#{hash}' if frag and not excl else '')
                wants = {want + x + tail for x in paths}
                if proto in OPAQUE:
                    # nothing but a scheme: query and fragment need a path
                    wants.add(want + paths[0])
                for o in outs:
                    n += 1
                    got = render(o.value, vals, is_search) \
                        if o.kind == 'return' else exc_name(o)
                    if proto in OPAQUE and path and \
                            got == want + paths[0] and not any(
                                b is False for t, b in o.st.facts.items()):
                        ctx.bad('serialize', cons, 'is %s' % got, w)
                    ctx.obl('serialize', cons, got in wants,
                            'is %s, not %s' % (got, ' or '.join(
                                sorted(wants))), w)
    loc = p.cls('svgpy.url.Location')
    fn = {m}
    e2 = ctx.engine(opaque=lambda fi: fi is m)
    cases = [(url, 'href', [])]
    for cls, name, args in cases:
        st = State()
        st.types[SELF] = (cls, True)
        for o in e2.read(st, SELF, name):
            n += 1
            ctx.obl('href', '%s.%s' % (cls.name, name),
                    o.kind == 'return' and isinstance(o.value, Sym) and
                    any(isinstance(t, FnV) and t.fi in fn
                        for t in subterms(o.value)),
                    'is not the serialization', w)
    lt, _ = p.find_member(loc, 'tostring')
    X1 = S('param', 'EXCL')
    e3 = ctx.engine(opaque=lambda fi: fi.module is url.module and
                    fi.cls is url)
    base = [o for o in e3.construct(loc, []) if o.kind == 'return'][0]
    for a in ([], [X1]):
        outs = e3.call_fn(F(lt, base.value), a, {}, base.st.fork(), lt.node)
        for o in outs:
            n += 1
            calls = [e for e in o.events if e.kind == 'call'
                     and e.name == 'tostring']
            want = a[0] if a else FALSE
            ok = o.kind == 'return' and len(calls) == 1 and (
                want in tuple(calls[0].args) + tuple(
                    calls[0].kw.values()) or (
                    not a and not calls[0].args and not calls[0].kw))
            ctx.obl('location', 'Location.tostring(%s)' % (
                'exclude' if a else ''), ok, 'does not serialize its URL '
                'with the same flag', loc.where())
    ctx.floor('serializations', n, 300)
    n = Urls(ctx).run(('href',), ('protocol', 'host', 'username', 'hash'),
                      serial=True)
    ctx.floor('assignment histories', n, 1000)


"""U03: host, origin and default ports follow the URL's components."""
from ._url import *
from ._urlh import Urls

EXPLANATION = (
    'The host and origin getters of URL are interpreted for every scheme of '
    'the URL standard\'s special-scheme table (plus a non-special and the '
    'empty scheme) x every default port of that table, another port and no '
    'port x empty and non-empty host name, the other components being '
    'unknown. host must be the host name, followed by the port exactly when '
    'it is not the scheme\'s default; origin must be scheme//host for '
    'special schemes with a host and "null" for file:, non-special schemes '
    'and an empty host. Neither changes the URL. '
    'Two-assignment histories on URLs of known text are '
    'interpreted and host and origin compared with the model.')
ASSUMPTIONS = ['URL standard special scheme table (gopher: kept from its '
               '2018 edition)', 'file: URLs report no origin']
DEFAULT = {'ftp:': '21', 'file:': '', 'gopher:': '70', 'http:': '80',
           'https:': '443', 'ws:': '80', 'wss:': '443'}


def check(ctx):
    p = ctx.p
    url = p.cls('svgpy.url.URL')
    eng = ctx.engine()
    w = url.where()
    n = 0
    for proto in sorted(DEFAULT) + ['x:', '']:
        for host in ('H', ''):
            for port in ('', '21', '70', '80', '443', '8080'):
                st, vals = url_state(p, url, proto, host=host, port=port)
                h = vals['hostname']
                cons = '%s host %s port %s' % (
                    proto or '(none)', host or '(empty)', port or '(none)')
                show_port = host and port and DEFAULT.get(proto, '') != port
                tail = ':' + port if show_port else ''
                want = S('cat', h, C(tail)) if tail else h
                for o in eng.read(st.fork(), SELF, 'host'):
                    n += 1
                    ctx.obl('host', cons, o.kind == 'return' and
                            o.value is want, 'host is %s, not %s' % (
                                show(o.value) if o.kind == 'return' else
                                exc_name(o), show(want)), w)
                    ctx.obl('pure', 'host', not mutations(o.events),
                            'reading host changes the URL', w)
                if proto in DEFAULT and proto != 'file:' and host:
                    wo = S('cat', C(proto + '//'), h, C(tail)) if tail \
                        else S('cat', C(proto + '//'), h)
                else:
                    wo = C('null')
                for o in eng.read(st.fork(), SELF, 'origin'):
                    n += 1
                    ctx.obl('origin', cons, o.kind == 'return' and
                            o.value is wo, 'origin is %s, not %s' % (
                                show(o.value) if o.kind == 'return' else
                                exc_name(o), show(wo)), w)
                    ctx.obl('pure', 'origin', not mutations(o.events),
                            'reading origin changes the URL', w)
    ctx.floor('getter paths', n, 150)
    n = Urls(ctx).run(('host', 'origin'),
                      ('protocol', 'port', 'host', 'hostname'))
    ctx.floor('assignment histories', n, 1000)


"""Sequences of component assignments on URLs of known text.

The constructor, the getters and the setters of URL are interpreted from
their source with constant texts; urllib.parse and os.path functions are the
library's own. A model of the URL keeps the components as assigned."""
import itertools
import os.path
import urllib.parse

from ._geo import *
from sa.engine import Outcome  # noqa: F401

PARSE = {
    'http://u:p@h.org:81/a/b?x=1&y=2#f': dict(
        protocol='http:', username='u', password='p', hostname='h.org',
        port='81', pathname='/a/b', search=[('x', '1'), ('y', '2')],
        hash='f'),
    'https://h.org/': dict(protocol='https:', hostname='h.org',
                           pathname='/'),
    'file:///tmp/x.svg?q=1': dict(protocol='file:', pathname='/tmp/x.svg',
                                  search=[('q', '1')]),
    'data:text/plain,x': dict(protocol='data:', pathname='text/plain,x'),
    'ftp://U@H:21/x#y': dict(protocol='ftp:', username='U', hostname='h',
                             port='21', pathname='/x', hash='y'),
    'ws://[::1]:80/?n=1': dict(protocol='ws:', hostname='[::1]', port='80',
                               pathname='/', search=[('n', '1')]),
    'x://q/p': dict(protocol='x:', hostname='q', pathname='/p'),
}
EMPTY = dict(protocol='', username='', password='', hostname='', port='',
             pathname='', search=[], hash='')
BAD = 'ValueError'
# component, text, {component: new value} or the error
OPS = [
    ('protocol', 'https', {'protocol': 'https:'}),
    ('protocol', 'WS:', {'protocol': 'ws:'}),
    ('protocol', 'ftp', {'protocol': 'ftp:'}),
    ('protocol', 'file:', {'protocol': 'file:'}),
    ('protocol', 'x-y', {'protocol': 'x-y:'}),
    ('protocol', '1x', BAD), ('protocol', 'a b', BAD),
    ('host', 'n.org', {'hostname': 'n.org', 'port': ''}),
    ('host', 'N.org:443', {'hostname': 'n.org', 'port': '443'}),
    ('host', '[::2]:80', {'hostname': '[::2]', 'port': '80'}),
    ('host', 'n.org:70000', BAD), ('host', 'n.org:x', BAD),
    ('host', 'a b', BAD), ('host', 'a/b:80', BAD),
    ('host', '', {'hostname': '', 'port': ''}),
    ('hostname', 'm.org', {'hostname': 'm.org'}),
    ('hostname', '::3', {'hostname': '[::3]'}),
    ('hostname', 'a?b', BAD), ('hostname', '', {'hostname': ''}),
    ('port', '', {'port': ''}), ('port', '80', {'port': '80'}),
    ('port', '443', {'port': '443'}), ('port', '0', {'port': '0'}),
    ('port', '21', {'port': '21'}),
    ('port', '65535', {'port': '65535'}), ('port', '65536', BAD),
    ('port', 'x', BAD), ('port', '-1', BAD),
    ('username', 'me', {'username': 'me'}),
    ('username', 'a b', {'username': 'a%20b'}),
    ('username', '', {'username': ''}),
    ('password', 's/t', {'password': 's%2Ft'}),
    ('password', '', {'password': ''}),
    ('pathname', '/p/q', {'pathname': '/p/q'}),
    ('pathname', 'r/', {'pathname': '/r/'}),
    ('pathname', '', {'pathname': ''}),
    ('search', '?a=b', {'search': [('a', 'b')]}),
    ('search', 'k=1&l=', {'search': [('k', '1'), ('l', '')]}),
    ('search', '', {'search': []}),
    ('hash', '#g', {'hash': 'g'}), ('hash', 'a b', {'hash': 'a%20b'}),
    ('hash', '', {'hash': ''}),
    ('href', 'https://h.org/', PARSE['https://h.org/']),
    ('href', 'x://q/p', PARSE['x://q/p']),
    ('href', 'http://u:p@h.org:81/a/b?x=1&y=2#f',
     PARSE['http://u:p@h.org:81/a/b?x=1&y=2#f']),
    ('href', 'nonsense', BAD), ('href', '', BAD),
]
DEFAULT = {'ftp:': '21', 'file:': '', 'gopher:': '70', 'http:': '80',
           'https:': '443', 'ws:': '80', 'wss:': '443'}
OPAQUE = ('about:', 'blob:', 'data:')


def applied(model, op):
    m = dict(model)
    if op[2] == BAD:
        return m
    if op[0] == 'href':
        m = dict(EMPTY)
    new = dict(op[2])
    if op[0] == 'pathname' and model['protocol'] in OPAQUE:
        # an opaque path is kept as it is
        new['pathname'] = op[1]
    m.update(new)
    return m


def host(m):
    h = m['hostname']
    if h and m['port'] and DEFAULT.get(m['protocol'], '') != m['port']:
        h += ':' + m['port']
    return h


def path(m):
    x = m['pathname']
    if m['protocol'] in OPAQUE:
        return x[1:] if x[:1] == '/' else x
    return x if x[:1] == '/' else '/' + x


def query(m):
    return '?' + '&'.join('%s=%s' % x for x in sorted(m['search'])) \
        if m['search'] else ''


def origin(m):
    return m['protocol'] + '//' + host(m) if host(m) and \
        m['protocol'] in DEFAULT and m['protocol'] != 'file:' else 'null'


def href(m, fragment=True):
    x = m['protocol']
    if x not in OPAQUE:
        x += '//'
    if host(m) and m['protocol'] != 'file:':
        if m['username']:
            x += m['username']
            if m['password']:
                x += ':' + m['password']
            x += '@'
        x += host(m)
    x += path(m) + query(m)
    return x + ('#' + m['hash'] if m['hash'] and fragment else '')


GETTERS = {
    'protocol': lambda m: m['protocol'],
    'username': lambda m: m['username'],
    'password': lambda m: m['password'],
    'hostname': lambda m: m['hostname'],
    'port': lambda m: m['port'], 'pathname': path, 'search': query,
    'hash': lambda m: '#' + m['hash'] if m['hash'] else '',
    'host': host, 'origin': origin, 'href': href}
LIB = {'urllib.parse.quote': urllib.parse.quote,
       'urllib.parse.quote_plus': urllib.parse.quote_plus,
       'urllib.parse.unquote': urllib.parse.unquote,
       'urllib.parse.unquote_plus': urllib.parse.unquote_plus,
       'urllib.parse.urlencode': urllib.parse.urlencode,
       'os.path.normpath': os.path.normpath,
       'posixpath.normpath': os.path.normpath}


class Urls(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.cls = ctx.p.cls('svgpy.url.URL')
        self.eng = ctx.engine(recursion=4, loop_bound=60, mixins=True,
                              on_call=self.native)

    def native(self, eng, fn, args, kw, st, node):
        if not isinstance(fn, ExtV):
            return None
        if fn.name in ('builtins.sorted', 'builtins.list', 'builtins.tuple',
                       'builtins.iter') and len(args) == 1 and \
                eng.known_items(st, args[0]) is None:
            # a mapping of the package
            out = []
            for s1, r in eng.stream(st, args[0], node):
                if isinstance(r, Raised) or r[1] is not None:
                    return None
                out.extend(eng.call(fn, [eng.new_list(s1, r[0], node)], kw,
                                    s1, node))
            return out
        f = LIB.get(fn.name)
        if f is not None:
            al = []
            for a in args:
                c = eng.cont(st, a) if not isinstance(a, Const) else None
                if isinstance(a, Const):
                    al.append(a.v)
                elif c is not None and c[0] == 'dict' and all(
                        isinstance(x, Const) for kv in c[1] for x in kv):
                    al.append({k.v: v.v for k, v in c[1]})
                else:
                    return None
            if not all(isinstance(x, Const) for x in kw.values()):
                return None
            return [(st, C(f(*al, **{k: x.v for k, x in kw.items()})))]
        if fn.name in ('urllib.parse.urlsplit', 'urllib.parse.urlparse') \
                and len(args) == 1 and isinstance(args[0], Const):
            try:
                r = getattr(urllib.parse, fn.name.split('.')[-1])(args[0].v)
                port = r.port
            except ValueError:
                return [(st, eng.raise_(st, 'ValueError', node))]
            v = S('split', args[0])
            for a in ('scheme', 'netloc', 'path', 'query', 'fragment',
                      'username', 'password', 'hostname'):
                st.fields[(v, a)] = C(getattr(r, a))
            st.fields[(v, 'port')] = C(port)
            st.facts[v] = True
            st.facts[S('is', v, NONE)] = False
            return [(st, v)]
        return None

    def make(self, text):
        eng = self.eng
        node = self.cls.node
        r = eng._outside(lambda: eng.instantiate(
            self.cls, [C(text)], {}, State(), node))
        if len(r) != 1 or isinstance(r[0][1], Raised):
            return None, None
        return r[0]

    def step(self, st, url, op):
        return list(self.eng.write(st.fork(), url, op[0], C(op[1])))

    def differs(self, st, url, model, names):
        for n in names:
            outs = self.eng.read(st.fork(), url, n)
            want = GETTERS[n](model)
            if len(outs) != 1 or outs[0].kind != 'return':
                return '%s cannot be read' % n
            v = outs[0].value
            if not isinstance(v, Const) or v.v != want:
                return '%s is %s, not %r' % (n, show(v), want)
        return None

    def run(self, names, first, rule='history', serial=False):
        """Check the getters after all sequences of up to two assignments;
        first: the components the first one is made to."""
        ctx = self.ctx
        w = self.cls.where()
        n = 0
        for start in sorted(PARSE):
            st, url = self.make(start)
            ctx.obl(rule, start, url is not None, 'is not constructed', w)
            if url is None:
                continue
            m = dict(EMPTY)
            m.update(PARSE[start])
            n += self.one(rule, [start], st, url, m, names, serial)
            firsts = [(st, m, None)]
            for op in OPS:
                r = self.after(rule, [start], st, url, m, op, names, serial)
                n += 1
                if r is not None and (op[0] in first or ctx.thorough):
                    firsts.append((r[0], r[1], op))
            for st1, m1, op1 in firsts[1:]:
                for op in OPS:
                    self.after(rule, [start, op1], st1, url, m1, op, names,
                               serial)
                    n += 1
        return n

    def after(self, rule, past, st, url, m, op, names, serial):
        outs = self.step(st, url, op)
        self.ctx.paths += len(outs)
        bad = op[2] == BAD
        if op[0] == 'pathname' and '\\' in op[1]:
            return None
        lab = past + [op]
        if len(outs) != 1 or (outs[0].kind == 'raise') != bad:
            self.ctx.bad(rule, self.label(lab), 'is %srefused' % (
                'not ' if bad else ''), self.cls.where())
            return None
        m2 = applied(m, op)
        self.one(rule, lab, outs[0].st, url, m2, names, serial)
        return outs[0].st, m2

    def one(self, rule, lab, st, url, m, names, serial):
        why = self.differs(st, url, m, names)
        if why is None and serial:
            why = self.serialized(st, url, m)
        self.ctx.obl(rule, self.label(lab), why is None, why or '',
                     self.cls.where())
        return 1

    def serialized(self, st, url, m):
        eng = self.eng
        for x in (True, False):
            fi, _ = self.ctx.p.find_member(self.cls, 'tostring')
            outs = eng.call_fn(F(fi, url), [], {'exclude_fragment': C(x)},
                               st.fork(), fi.node)
            want = href(m, not x)
            if len(outs) != 1 or outs[0].kind != 'return' or \
                    outs[0].value is not C(want):
                return 'tostring(exclude_fragment=%s) is %s, not %r' % (
                    x, show(outs[0].value), want)
        return None

    def label(self, lab):
        return ' then '.join([lab[0]] + ['%s = %r' % o[:2]
                                         for o in lab[1:]])

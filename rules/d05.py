"""D05: token lists validate before they write and never store emptiness."""
import itertools

from ._lx import *

EXPLANATION = (
    'A token list over an unknown element and attribute is constructed '
    'abstractly and add, remove, replace, insert and toggle are interpreted '
    'for every class of token: empty, containing each ASCII white space '
    'character, ordinary, and one bad token after a good one. Rules: bad '
    'tokens end in ValueError on every path (refuse) with no attribute '
    'write before (clean); every attribute write stores a value the path '
    'found non-empty (nonempty); a token is only written on paths that '
    'found it absent (unique); every query re-reads the attribute (live); '
    'caller lists are not changed (caller). All sequences of two (thorough: '
    'three) operations on known attributes are compared with a list of '
    'distinct tokens (history).')
ASSUMPTIONS = ['MutableSequence.extend/append/remove call the overridden '
               'insert, __setitem__ and __delitem__ operations']
EL, N = S('param', 'EL'), S('param', 'NAME')
TOK = S('param', 'TOK')
WS = {'tab': '\t', 'newline': '\n', 'form feed': '\f', 'return': '\r',
      'space': ' '}
SHAPES = {
    'add': [lambda t: [t], lambda t: [C('ok'), t]],
    'remove': [lambda t: [t], lambda t: [C('ok'), t]],
    'replace': [lambda t: [t, C('ok')], lambda t: [C('ok'), t]],
    'insert': [lambda t: [C(0), t]],
}
SEQ_MUT = {'extend', 'append', 'insert', 'remove', 'pop', 'clear',
           '__iadd__', 'reverse', '__setitem__', '__delitem__'}


def el_writes(o, self_v, n0=0):
    """Writes to the element or to the list object itself (through the
    abstract sequence mix-in)."""
    out = []
    for e in o.events[n0:]:
        if e.kind in ('setitem', 'delitem', 'mutate', 'setattr') and \
                e.recv is not None and EL in subterms(e.recv) and \
                not isinstance(e.recv, Obj):
            out.append(e)
        elif e.kind == 'call' and e.recv is not None:
            if EL in subterms(e.recv) and e.name in MUT_NAMES:
                out.append(e)
            elif e.recv is self_v and e.name in SEQ_MUT:
                out.append(e)
    return out


def check(ctx):
    p = ctx.p
    eng = ctx.engine()
    tl = p.cls('svgpy.dom.DOMTokenList')
    w = tl.where()

    def setup(e, st):
        for v in (TOK, N):
            st.types[v] = (ExtClass('builtins.str'), True)
    base = [o for o in eng.construct(tl, [EL, N], setup=setup)
            if o.kind == 'return']
    if len(base) != 1:
        raise AnalysisBroken('token list construction')
    base = base[0]
    me = base.value
    n0 = len(base.events)

    def call(op, args):
        m, _ = p.find_member(tl, op)
        if not isinstance(m, FuncInfo):
            raise AnalysisBroken('no token list operation ' + op)
        outs = eng.call_fn(F(m, me), args, {}, base.st.fork(), m.node)
        ctx.paths += len(outs)
        return outs
    n = 0
    bad = [('empty', C(''))]
    for name, ch in sorted(WS.items()):
        bad += [('%s inside' % name, C('a%sb' % ch)),
                ('only ' + name, C(ch)), ('%s at end' % name, C('a' + ch))]
    for op, shapes in sorted(SHAPES.items()):
        for i, shape in enumerate(shapes):
            for name, tok in bad:
                cons = 'DOMTokenList.%s(%s token, argument %d)' % (
                    op, name, i)
                n += 1
                outs = call(op, shape(tok))
                wrong = [o for o in outs if exc_name(o) != 'ValueError']
                ctx.obl('refuse', cons, outs and not wrong,
                        'ends in %s' % (wrong[:1]), w)
                wr = [e for o in outs for e in el_writes(o, me, n0)]
                ctx.obl('clean', cons, not wr, 'writes before refusing: %r'
                        % wr[:1], w)
    ctx.floor('token classes x operations', n, 50)

    # ordinary tokens
    stored = 0
    for op, args in (('insert', [C(0), TOK]),
                     ('replace', [S('param', 'OLD'), TOK]),
                     ('__setitem__', [S('param', 'INDEX'), TOK]),
                     ('__delitem__', [S('param', 'INDEX')])):
        for o in call(op, args):
            if o.kind != 'return':
                continue
            for e in el_writes(o, me, n0):
                if e.kind == 'call' and e.name == 'set':
                    stored += 1
                    val = e.args[-1]
                    ctx.obl('nonempty', 'DOMTokenList.' + op,
                            known_true(o, val), 'stores a value that may be '
                            'empty', e.where())
                if op != '__delitem__':
                    ctx.obl('unique', 'DOMTokenList.' + op,
                            absent(o, TOK), 'writes without having found '
                            'the token absent', e.where())
    ctx.floor('attribute stores', stored, 3)
    dels = [e for o in call('__delitem__', [S('param', 'INDEX')])
            for e in el_writes(o, me, n0) if e.kind == 'delitem' or
            e.name in ('pop', 'remove_attribute')]
    ctx.obl('nonempty', 'DOMTokenList attribute removal', bool(dels),
            'the attribute is never removed when no token remains', w)
    # some path of each operation has an effect
    for op, args in (('add', [TOK]), ('remove', [TOK]),
                     ('replace', [S('param', 'OLD'), TOK]),
                     ('insert', [C(0), TOK])):
        ctx.obl('effective', 'DOMTokenList.' + op, any(
            o.kind == 'return' and el_writes(o, me, n0)
            for o in call(op, args)), 'no path writes', w)
    # queries read the attribute now
    for q, args in (('contains', [TOK]), ('__len__', []),
                    ('__getitem__', [C(0)]), ('item', [C(0)])):
        outs = call(q, args)
        ctx.obl('live', 'DOMTokenList.' + q, outs and all(
            o.kind != 'return' or (EL in subterms(o.value) and
                                   not el_writes(o, me, n0))
            for o in outs), 'does not read the attribute', w)
    for q in ('value', 'length'):
        outs = eng.read(base.st, me, q)
        ctx.obl('live', 'DOMTokenList.' + q, outs and all(
            o.kind == 'return' and EL in subterms(o.value) for o in outs),
            'does not read the attribute', w)
    # caller's list
    lst = S('param', 'LIST')
    m, _ = p.find_member(tl, '__setitem__')
    st = base.st.fork()
    st.types[lst] = (ExtClass('builtins.list'), True)
    for o in eng.call_fn(F(m, me), [S('param', 'INDEX'), lst], {}, st,
                         m.node):
        hit = [e for e in o.events if e.recv is lst and (
            e.kind in ('mutate', 'setitem', 'delitem', 'aug') or
            e.kind == 'call' and e.name in MUT_NAMES)]
        ctx.obl('caller', 'DOMTokenList.__setitem__(list)', not hit,
                'changes the list it is given: %r' % hit[:1], m.where())
    Histories(ctx).run()


# ----------------------------------------------------------------------
# histories
OPS = [('add', 'a'), ('add', 'd'), ('add', 'a', 'd'), ('add', 'd', 'e'),
       ('add', 'd', 'd'), ('remove', 'a'), ('remove', 'a', 'b'),
       ('remove', 'z'), ('remove', 'z', 'b'), ('replace', 'a', 'd'),
       ('replace', 'b', 'e'), ('replace', 'z', 'd'), ('insert', 0, 'd'),
       ('insert', 1, 'e'), ('insert', 9, 'd'), ('insert', 0, 'b'),
       ('toggle', 'a'), ('toggle', 'd'), ('toggle', 'a', True),
       ('toggle', 'a', False), ('toggle', 'd', True),
       ('toggle', 'd', False), ('toggle', 'b', None), ('append', 'd'),
       ('append', 'a'), ('__setitem__', 0, 'd'), ('__setitem__', 0, 'b'),
       ('__delitem__', 0), ('__delitem__', 7), ('clear',),
       ('native', 'set', 'x a'), ('native', 'set', 'b'),
       ('native', 'delete'),
       # refused
       ('add', ''), ('add', 'd', ''), ('add', 'd', 'e f'), ('add', 'a\t'),
       ('remove', 'a', ''), ('remove', 'a', 'b c'), ('replace', 'a', ''),
       ('replace', '', 'd'), ('replace', 'z', 'd e'),
       ('replace', 'a', '\n'), ('insert', 0, ''), ('insert', 0, 'd e'),
       ('toggle', ''), ('toggle', 'a b'), ('toggle', 'd ', True)]
TOGGLES = [(('toggle', t) + f,) for f in ((), (True,), (False,))
           for c in WS.values() for t in (c, 'a' + c, 'd' + c, c + 'a',
                                          'a%sb' % c)]
START = (None, 'a', 'a b', ' b  a', 'a b c')


def applied(tokens, op):
    """(result, tokens afterwards): what op does to a list of tokens."""
    name, args = op[0], op[1:]
    t = list(tokens)
    if name == 'native':
        return None, [] if args[0] == 'delete' else args[1].split()
    texts = [a for a in args if isinstance(a, str)]
    if any(not a or a.split() != [a] for a in texts):
        return 'ValueError', t
    if name in ('add', 'append'):
        for a in args:
            if a not in t:
                t.append(a)
    elif name == 'remove':
        t = [a for a in t if a not in args]
    elif name == 'replace':
        old, new = args
        if old not in t:
            return False, t
        if new in t:
            return 'open', t
        t[t.index(old)] = new
        return True, t
    elif name == 'insert':
        if args[1] not in t:
            t.insert(*args)
    elif name == 'toggle':
        a, force = args[0], (list(args[1:]) + [None])[0]
        want = (a not in t) if force is None else force
        if want and a not in t:
            t.append(a)
        elif not want and a in t:
            t.remove(a)
        return want, t
    elif name == '__setitem__':
        i, a = args
        if a in t:
            return None, t
        if i >= len(t):
            return 'IndexError', t
        t[i] = a
    elif name == '__delitem__':
        if args[0] >= len(t):
            return 'IndexError', t
        del t[args[0]]
    elif name == 'clear':
        t = []
    return None, t


class Histories(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.lx = Trees(ctx)
        self.eng = self.lx.engine(recursion=3)
        self.tl = ctx.p.cls('svgpy.dom.DOMTokenList')

    def call(self, st, lst, name, args):
        m, _ = self.ctx.p.find_member(self.tl, name)
        if not isinstance(m, FuncInfo):
            raise AnalysisBroken('no token list operation ' + name)
        self.eng.stack = []
        return self.eng.call_fn(F(m, lst), [C(a) for a in args], {}, st,
                                m.node)

    def tokens(self, st, el):
        """(value, tokens) of the attribute"""
        d = {k.v: v for k, v in self.eng.cont(
            st, st.fields[(el, 'attrib')])[1]}
        v = d.get('class')
        if v is None:
            return None, []
        return (v.v, v.v.split()) if isinstance(v, Const) else (v, None)

    def history(self, start, ops):
        lx, eng = self.lx, self.eng
        lx.reset()
        st = State()
        el = lx.node(eng, st, 'element', attrib=dict(
            {} if start is None else {'class': start}, id='i'))
        r = eng._outside(lambda: eng.instantiate(
            self.tl, [el, C('class')], {}, st, self.tl.node))
        st, lst = r[0]
        for i, op in enumerate(ops):
            last = i == len(ops) - 1
            value, tokens = self.tokens(st, el)
            want, after = applied(tokens, op)
            if want == 'open':
                return 'skip'
            if op[0] == 'native':
                attrib = st.fields[(el, 'attrib')]
                if op[1] == 'delete':
                    r = eng._outside(lambda: eng.call_method(
                        st, attrib, 'pop', [C('class'), NONE], {}, None))
                else:
                    r = eng._outside(lambda: eng.setitem(
                        st, attrib, C('class'), C(op[2]), None))
                st = r[0][0]
                why = None
            else:
                outs = self.call(st, lst, op[0], op[1:])
                self.ctx.paths += len(outs)
                why = None
                if len(outs) != 1:
                    return 'has %d outcomes' % len(outs) if last else 'skip'
                o = outs[0]
                st = o.st
                if o.kind == 'raise':
                    if exc_name(o) != want:
                        why = 'ends in ' + exc_name(o)
                elif isinstance(want, str):
                    why = 'is not refused with ' + want
                elif isinstance(want, bool) and o.value is not C(want):
                    why = 'returns ' + show(o.value)
            if why is None:
                value, got = self.tokens(st, el)
                if got != after:
                    why = 'leaves %s, not %s' % (got, after)
                elif not after and value is not None and value == '':
                    why = 'leaves an empty attribute'
                elif last:
                    why = self.queries(st, lst, after)
            if why:
                return why if last else 'skip'
        return None

    def queries(self, st, lst, tokens):
        eng = self.eng
        n = len(tokens)
        ask = [('__len__', [], n), ('__getitem__', [7], 'IndexError')] + [
            ('contains', [t], t in tokens) for t in 'abdexz'] + [
            ('__contains__', ['a'], 'a' in tokens)] + [
            (q, [j], tokens[j]) for j in range(n)
            for q in ('item', '__getitem__')] + [
            ('index', [t], j) for j, t in enumerate(tokens)]
        for name, args, want in ask:
            outs = self.call(st.fork(), lst, name, args)
            if len(outs) != 1:
                return '%s has %d outcomes' % (name, len(outs))
            o = outs[0]
            got = exc_name(o) if o.kind == 'raise' else o.value.v \
                if isinstance(o.value, Const) else o.value
            if got != want:
                return 'afterwards %s(%s) is %s, not %s' % (
                    name, ', '.join(map(str, args)), got, want)
        for name, want in (('length', n), ('value', ' '.join(tokens))):
            outs = eng.read(st.fork(), lst, name)
            if len(outs) != 1 or not isinstance(outs[0].value, Const) or \
                    outs[0].value.v != want:
                return 'afterwards %s is %s, not %r' % (
                    name, outs, want)
        return None

    def run(self):
        ctx = self.ctx
        n = 0
        w = self.tl.where()
        for start in START:
            for k in (1, 2, 3) if ctx.thorough else (1, 2):
                if k == 3 and start != 'a b' or k == 2 and \
                        start not in (None, 'a b') and not ctx.thorough:
                    continue
                for ops in itertools.chain(
                        itertools.product(OPS, repeat=k),
                        TOGGLES if k == 1 else ()):
                    if k == 3 and any(o[0] in (
                            'insert', 'append', '__delitem__', 'replace')
                            for o in ops):
                        continue
                    why = self.history(start, ops)
                    if why == 'skip':
                        continue
                    n += 1
                    ctx.obl('history', ' then '.join(
                        '%s(%s)' % (o[0], ', '.join(map(repr, o[1:])))
                        for o in ops) + ' on %r' % (start,), not why,
                        why or '', w)
        ctx.floor('token histories', n, 3500)


def known_true(o, v):
    if isinstance(v, Const):
        return bool(v.v)
    return o.st.facts.get(v) is True


def absent(o, tok):
    return any(isinstance(t, Sym) and t.op == 'in' and t.args and
               t.args[0] is tok and b is False
               for t, b in o.st.facts.items())

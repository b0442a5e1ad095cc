"""D04: attribute objects and the element's attribute store agree."""
import itertools

from ._lx import *

EXPLANATION = (
    'Attribute objects and named node maps are constructed abstractly '
    '(detached with a value; attached to an element; a map over an element) '
    'and their public operations interpreted on every path. Rules: a '
    'detached attribute reads back the value last given and touches no '
    'element; an attached one reads from and writes to its element (an '
    'empty value or None removes the attribute instead of storing it) and '
    'keeps no private copy; attaching an attached attribute is refused '
    'without effect; detaching returns the element and keeps the value the '
    'element had; putting an attribute in use elsewhere into a map raises '
    'InUseAttributeError and a mismatched name ValueError, both before any '
    'change; a replaced or deleted attribute object is detached first. All '
    'sequences of two (thorough: three) operations on the map, its element '
    'and four attribute objects, direct changes of the element included, '
    'are interpreted on a concrete element, and results, exceptions, the '
    'attributes, and owner and value of every attribute object ever handed '
    'out must be those of a DOM model (history).')
ASSUMPTIONS = ['the element\'s own get/set/attrib are lxml\'s']
EL, EL2 = S('param', 'EL'), S('param', 'EL2')
V, W, N = S('param', 'V'), S('param', 'W'), S('param', 'NAME')


def changes(o, n0, on=None):
    """Changes of pre-existing objects after the first n0 events."""
    ev = mutations(o.events[n0:])
    if on is not None:
        ev = [e for e in ev if on in subterms(e.recv)]
    return ev


def touched(o, base):
    """Changes after `base` of objects that existed then."""
    old = {k[0] for k in base.st.fields} | set(base.st.cont)
    return [e for e in mutations(o.events[len(base.events):],
                                 fresh_ok=False)
            if not isinstance(e.recv, Obj) or e.recv in old]


def writes(o, n0, el, val):
    return [e for e in changes(o, n0, el)
            if val in (tuple(e.args) + tuple(e.kw.values()))]


def deletes(o, n0, el):
    return [e for e in changes(o, n0, el)
            if e.kind == 'delitem' or (e.kind == 'call' and e.name in (
                'pop', 'remove_attribute', '__delitem__')) or
            (e.kind == 'mutate' and e.name == 'pop')]


def facts(eng, st):
    st.types[N] = (ExtClass('builtins.str'), True)
    for x in (V, W):
        st.facts[x] = True
        st.facts[S('is', x, NONE)] = False
        st.types[x] = (ExtClass('builtins.str'), True)
    for e in (EL, EL2):
        st.facts[S('is', e, NONE)] = False


class D04:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.p
        self.eng = ctx.engine()
        self.attr = ctx.p.cls('svgpy.dom.Attr')
        self.map = ctx.p.cls('svgpy.dom.NamedNodeMap')

    def call(self, o, name, args, v=None, cls=None):
        v = v or o.value
        m, _ = self.p.find_member(cls or self.attr, name)
        if not isinstance(m, FuncInfo):
            raise AnalysisBroken('no operation ' + name)
        outs = self.eng.call_fn(F(m, v), args, {}, o.st.fork(), m.node)
        self.ctx.paths += len(outs)
        return outs

    def set(self, o, name, val):
        m, _ = self.p.find_member(self.attr, name)
        outs = self.eng.call_fn(F(m.setter, o.value), [val], {},
                                o.st.fork(), m.setter.node)
        self.ctx.paths += len(outs)
        return outs

    def read(self, o, name, v=None):
        return self.eng.read(o.st, v or o.value, name)

    def detached(self):
        return [o for o in self.eng.construct(
            self.attr, [NONE, N], {'value': V},
            setup=facts) if o.kind == 'return']

    def attached(self):
        return [o for o in self.eng.construct(
            self.attr, [NONE, N], {'owner_element': EL}, setup=facts)
            if o.kind == 'return']

    def run(self):
        ctx = self.ctx
        det = self.detached()
        att = self.attached()
        if not det or not att:
            raise AnalysisBroken('attributes cannot be constructed')
        w = self.attr.where()
        for o in det:
            n0 = len(o.events)
            ctx.obl('construct', 'Attr(value)', not changes(o, 0), 'changes '
                    'an element it does not own', w)
            self.reads('detached-read', 'Attr.value', o, lambda r: r is V)
            self.reads('detached-read', 'Attr.owner_element', o,
                       lambda r: r is NONE, 'owner_element')
            for how in ('value', 'node_value', 'text_content'):
                for o2 in self.set(o, how, W):
                    if o2.kind != 'return':
                        continue
                    o2.value = o.value
                    ctx.obl('detached-write', 'Attr.%s=' % how,
                            not changes(o2, n0),
                            'changes an object that is not its own', w)
                    self.reads('detached-write', 'Attr.%s=' % how, o2,
                               lambda r: r is W)
            for o2 in self.call(o, 'attach_element', [EL]):
                cons = 'Attr.attach_element[detached]'
                ok = o2.kind == 'return' and o2.value is TRUE
                ctx.obl('attach', cons, ok, 'refused', w)
                if not ok:
                    continue
                ctx.obl('attach-stores', cons, bool(
                    writes(o2, n0, EL, V)),
                    'the attribute\'s value is not written to the element',
                    w)
                o2.value = o.value
                self.reads('attach', cons, o2, lambda r: r is EL,
                           'owner_element')
                self.from_element('attach', cons, o2, EL)
            for o2 in self.call(o, 'attach_element', [NONE]):
                ctx.obl('attach-none', 'Attr.attach_element(None)',
                        o2.kind == 'return' and o2.value is FALSE and
                        not touched(o2, o),
                        'attaches or changes the attribute', w)
        for o in att:
            n0 = len(o.events)
            self.reads('attached-read', 'Attr.owner_element', o,
                       lambda r: r is EL, 'owner_element')
            for how in ('value', 'node_value', 'text_content'):
                self.from_element('attached-read', 'Attr.' + how, o, EL, how)
                cons = 'Attr.%s=' % how
                wrote = False
                for o2 in self.set(o, how, W):
                    if o2.kind != 'return':
                        continue
                    wr = writes(o2, n0, EL, W)
                    wrote = wrote or wr
                    ctx.obl('attached-write', cons, bool(wr), 'a path takes '
                            'the value without writing it to the element', w)
                    o2.value = o.value
                    self.from_element('attached-write', cons, o2, EL)
                ctx.obl('attached-write', cons + '[some]', bool(wrote),
                        'no path writes the value to the element', w)
                some = False
                for val in (NONE, C('')):
                    for o2 in self.set(o, how, val):
                        some = some or deletes(o2, n0, EL)
                        ctx.obl('empty-removes', cons + show(val),
                                o2.kind == 'return' and
                                not writes(o2, n0, EL, val),
                                'an empty value is stored or refused', w)
                ctx.obl('empty-removes', cons + '[some]', bool(some),
                        'no path removes the attribute from the element', w)
            for o2 in self.call(o, 'attach_element', [EL2]):
                cons = 'Attr.attach_element[attached]'
                ctx.obl('attach-refused', cons, o2.kind == 'return' and
                        o2.value is FALSE and
                        not touched(o2, o),
                        'an attached attribute is attached to another '
                        'element', w)
            for o2 in self.call(o, 'detach_element', []):
                cons = 'Attr.detach_element'
                if o2.kind != 'return':
                    ctx.bad('detach', cons, 'raises', w)
                    continue
                ctx.obl('detach', cons, o2.value is EL and
                        not changes(o2, n0), 'does not return the element '
                        'or changes it', w)
                o2.value = o.value
                self.reads('detach', cons, o2, lambda r: r is NONE,
                           'owner_element')
                self.from_element('detach-keeps', cons, o2, EL)
        self.maps(det)

    def reads(self, rule, cons, o, pred, name='value'):
        rs = self.read(o, name)
        self.ctx.obl(rule, cons + ' -> ' + name, rs and all(
            r.kind == 'return' and pred(r.value) for r in rs),
            'reads %s' % [show(r.value) if r.kind == 'return' else r
                          for r in rs], self.attr.where())

    def from_element(self, rule, cons, o, el, name='value'):
        rs = self.read(o, name)
        ok = rs and any(el in subterms(r.value) for r in rs
                        if r.kind == 'return') and all(
            r.kind == 'return' and (
                el in subterms(r.value) or r.value is C('')) for r in rs)
        self.ctx.obl(rule, cons + ' -> ' + name + ' of element', ok,
                     'reads %s, not the element\'s attribute' % [
                         show(r.value) if r.kind == 'return' else r
                         for r in rs], self.attr.where())

    def maps(self, det):
        ctx, p, eng = self.ctx, self.p, self.eng
        w = self.map.where()
        attrib = S('attr', EL, 'attrib')

        def setup(e, st):
            # an element without attributes to begin with
            st.types[EL] = (p.cls('svgpy.dom.Element'), True)
            st.types[attrib] = (ExtClass('builtins.dict'), True)
            st.cont[attrib] = ('dict', (), None)
        d = det[-1]
        # names are whatever the attribute reports
        a = d.value
        nm = self.read(d, 'name')[0].value
        st0 = d.st.fork()
        ms = eng.call_fn(K(self.map), [EL], {}, st0, self.map.node)
        ms = [m for m in ms if m.kind == 'return' and
              not any(e.kind == 'new' and e.name == 'Attr'
                      for e in m.events[len(d.events):])]
        if not ms:
            raise AnalysisBroken('named node map cannot be constructed')
        m = ms[0]
        MAP = m.value
        n0 = len(m.events)
        si = '__setitem__'
        # detached attribute under its own name
        cons = 'NamedNodeMap[name]=detached'
        some = False
        for o in self.call(m, si, [nm, a], MAP, self.map):
            if o.kind != 'return':
                ctx.bad('map-set', cons, 'raises %s' % exc_name(o), w)
                continue
            own = self.read(o, 'owner_element', a)
            if own and own[0].value is EL:
                some = True
                ctx.obl('map-set', cons, bool(writes(o, n0, EL, V)),
                        'value is not written to the element', w)
                # the map hands out the same object afterwards
                gi = self.call(o, '__getitem__', [nm], MAP, self.map)
                same = [g for g in gi if g.kind == 'return' and
                        g.value is a]
                other = [g for g in gi if g.kind == 'return' and
                         g.value is not a]
                ctx.obl('map-get', cons, bool(same) and not other,
                        'the map hands out another attribute object', w)
                # and deleting detaches it
                for g in self.call(o, '__delitem__', [nm], MAP, self.map):
                    if g.kind != 'return':
                        continue
                    ow = self.read(g, 'owner_element', a)
                    ctx.obl('map-delete', 'del NamedNodeMap[name]',
                            all(x.value is NONE for x in ow) and
                            bool(deletes(g, len(o.events), EL)),
                            'the attribute object stays attached or the '
                            'attribute stays', w)
                    # detached before the element loses the value
                    self.keeps(g, a, len(o.events))
            else:
                ctx.obl('map-set', cons, False,
                        'the attribute is not attached', w)
        ctx.obl('map-set', cons + '[some]', some,
                'no path attaches the attribute', w)
        # wrong name
        other = S('param', 'OTHER')
        for o in self.call(m, si, [other, a], MAP, self.map):
            same = any(t.op == 'eq' and b and other in t.args
                       for t, b in o.st.facts.items()
                       if isinstance(t, Sym)) or any(
                t.op == 'ne' and not b and other in t.args
                for t, b in o.st.facts.items() if isinstance(t, Sym))
            if same:
                continue
            ctx.obl('map-name', 'NamedNodeMap[other name]=attr',
                    exc_name(o) == 'ValueError' and
                    not touched(o, m),
                    'accepted or changed before being refused', w)
        # in use elsewhere
        used = self.attached_to(EL2, m)
        un = self.read(used, 'name')[0].value
        n1 = len(used.events)
        refused = False
        for o in self.call(used, si, [un, used.value], MAP, self.map):
            eq = any(isinstance(t, Sym) and t.op in ('eq', 'ne', 'is')
                     and EL in t.args and EL2 in t.args and
                     b == (t.op != 'ne') for t, b in o.st.facts.items())
            if eq:
                continue
            refused = True
            ctx.obl('map-in-use', 'NamedNodeMap[name]=attr of another '
                    'element', exc_name(o) == 'InUseAttributeError' and
                    not touched(o, used),
                    'accepted, or changed before being refused: %s' % o, w)
        ctx.obl('map-in-use', 'NamedNodeMap[name]=attr of another element '
                '[some]', refused, 'never refused', w)
        # other value types
        X5 = C(5)
        for o in self.call(m, si, [nm, X5], MAP, self.map):
            ctx.obl('map-type', 'NamedNodeMap[name]=5',
                    exc_name(o) == 'TypeError' and
                    not touched(o, m),
                    'a value that is neither text nor attribute is '
                    'accepted', w)

    def keeps(self, g, a, n0):
        """The detached object read the value before it was removed."""
        rd = rm = None
        for i, e in enumerate(g.events[n0:]):
            if rm is None and e.kind in ('delitem',) and \
                    EL in subterms(e.recv):
                rm = i
            if rd is None and e.kind in ('call', 'enter') and \
                    e.name in ('get', 'detach_element', '_get'):
                rd = i
        self.ctx.obl('map-delete-keeps', 'del NamedNodeMap[name]',
                     rm is None or (rd is not None and rd < rm),
                     'the attribute is removed before its object saved the '
                     'value', self.map.where())

    def attached_to(self, el, base):
        outs = self.eng.call_fn(K(self.attr), [NONE, N],
                                {'owner_element': el}, base.st.fork(),
                                self.attr.node)
        outs = [o for o in outs if o.kind == 'return']
        return outs[-1]


# ----------------------------------------------------------------------
# histories
class Model(object):
    """What attributes and attribute objects are to be."""

    def __init__(self, store):
        self.store = dict(store)
        self.cur = {}               # name -> object handed out
        self.obj = {}               # object -> [name, owner, value]

    def detach(self, name):
        o = self.cur.pop(name, None)
        if o is not None:
            self.obj[o][1:] = [None, self.store.get(name)]

    def known(self, v, name):
        """v was handed out for the attribute."""
        if name in self.cur:
            return self.cur[name] is v
        if v in self.obj:
            return False
        self.cur[name] = v
        self.obj[v] = [name, 'EL', None]
        return True

    def value(self, o):
        name, owner, value = self.obj[o]
        if owner == 'EL':
            return self.store.get(name)
        return value


# operation: name, arguments; @x is an attribute object
OPS = [('map', '__getitem__', 'a'), ('map', '__getitem__', 'c'),
       ('map', '__setitem__', 'a', 'new'), ('map', '__setitem__', 'c', 'n'),
       ('map', '__setitem__', 'a', ''), ('map', '__setitem__', 'a', None),
       ('map', '__setitem__', 'a', '@da'), ('map', '__setitem__', 'c', '@dc'),
       ('map', '__setitem__', 'b', '@da'), ('map', '__setitem__', 'a', '@ua'),
       ('map', '__setitem__', 'a', '@empty'),
       ('map', '__setitem__', 'a', 5), ('map', '__delitem__', 'a'),
       ('map', '__delitem__', 'c'), ('map', 'set_named_item', '@da'),
       ('map', 'set_named_item', '@dc'), ('map', 'set_named_item', '@ua'),
       ('map', 'get_named_item', 'a'), ('map', 'get_named_item', 'c'),
       ('map', 'remove_named_item', 'a'), ('map', 'remove_named_item', 'c'),
       ('map', 'item', 0), ('map', 'item', 7),
       ('EL', 'set_attribute', 'a', 'again'),
       ('EL', 'set_attribute', 'c', 'again'),
       ('EL', 'remove_attribute', 'a'), ('EL', 'remove_attribute', 'c'),
       ('EL', 'get_attribute_node', 'a'), ('EL', 'set_attribute_node', '@da'),
       ('EL', 'set_attribute_node', '@ua'),
       ('EL', 'remove_attribute_node', '@da'),
       ('EL', 'toggle_attribute', 'a'), ('EL', 'toggle_attribute', 'c'),
       ('EL', 'toggle_attribute', 'a', True),
       ('EL', 'toggle_attribute', 'c', False),
       ('native', 'set', 'a', 'direct'), ('native', 'set', 'c', 'direct'),
       ('@da', 'value', 'w'), ('@da', 'value', ''), ('@dc', 'value', 'w'),
       ('@ua', 'value', 'w'), ('@da', 'detach_element'),
       ('@ua', 'detach_element'), ('@da', 'attach_element', 'EL')]
# read only or composed of the others: not extended in longer histories
LAST = ('toggle_attribute', 'item', 'get_named_item', 'remove_named_item',
        'set_attribute_node', 'remove_attribute')
ANY = object()


def expected(m, op, objs, result):
    """Apply op to the model: None or what is wrong with the result, where
    result is ('raise', kind) or ('return', value)."""
    who, name, args = op[0], op[1], op[2:]
    a = args[0] if args else None
    b = args[1] if len(args) > 1 else None
    attr = lambda x: objs[x] if isinstance(x, str) and x[:1] == '@' else None

    def raises(kind):
        return None if result == ('raise', kind) else 'not refused with ' \
            + kind

    def returns(v=ANY):
        if result[0] != 'return':
            return 'ends in %s' % result[1]
        if v is ANY or result[1] is v:
            return None
        if isinstance(v, (str, bool)) and isinstance(result[1], Const) and \
                result[1].v == v:
            return None
        return 'returns %s, not %s' % (show(result[1]) if isinstance(
            result[1], Val) else result[1], v)

    def handed(n):
        if result[0] != 'return':
            return 'ends in %s' % result[1]
        if n not in m.store:
            return returns(NONE)
        if result[1] is NONE or not m.known(result[1], n):
            return 'hands out another attribute object'
        return None

    def delete(n):
        m.detach(n)
        m.store.pop(n, None)

    def put(n, o):
        on, owner, value = m.obj[o]
        if n != on:
            return raises('ValueError')
        if owner == 'EL2':
            return raises('InUseAttributeError')
        if owner == 'EL':
            return returns()
        if not value:
            if n in m.store:
                delete(n)
            return returns()
        m.detach(n)
        m.store[n] = value
        m.cur[n] = o
        m.obj[o][1] = 'EL'
        return returns()

    def set_text(n, v):
        if v:
            m.store[n] = v
        elif n in m.store:
            delete(n)
        return returns()
    if name == '__getitem__':
        return handed(a) if a in m.store else raises('KeyError')
    if name == '__setitem__':
        if attr(b):
            return put(a, attr(b))
        if b == 5:
            return raises('TypeError')
        return set_text(a, b)
    if name == '__delitem__':
        if a not in m.store:
            return raises('KeyError')
        delete(a)
        return returns()
    if name in ('set_named_item', 'set_attribute_node'):
        o = attr(a)
        n = m.obj[o][0]
        if m.obj[o][1] == 'EL2':
            return raises('InUseAttributeError')
        r = handed(n)
        if r:
            return r.replace('hands out', 'returns')
        return put(n, o)
    if name in ('get_named_item', 'get_attribute_node'):
        return handed(a)
    if name in ('remove_named_item', 'remove_attribute_node'):
        n = m.obj[attr(a)][0] if attr(a) else a
        if n not in m.store:
            return raises('KeyError')
        r = handed(n)
        delete(n)
        return r
    if name == 'item':
        names = list(m.store)
        if a < len(names):
            return handed(names[a])
        return returns(NONE)
    if name == 'set_attribute':
        return set_text(a, b)
    if name == 'remove_attribute':
        delete(a)
        return returns()
    if name == 'toggle_attribute':
        here = a in m.store
        want = (not here) if b is None else b
        if here and not want:
            delete(a)
        elif want and not here:
            m.store[a] = ''
        return returns(want)
    if name == 'set':
        m.store[a] = b
        return returns()
    o = attr(who)
    n, owner, _ = m.obj[o]
    if name == 'value':
        if owner == 'EL':
            if a:
                m.store[n] = a
            else:
                m.store.pop(n, None)
        else:
            m.obj[o][2] = a
        return returns()
    if name == 'detach_element':
        if owner is None:
            return returns(NONE)
        if owner == 'EL':
            # the map learns of it when it is asked for the attribute
            return 'skip'
        m.obj[o][1] = None
        return returns()
    if name == 'attach_element':
        return 'skip' if owner is None else returns(FALSE)


class Histories(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.lx = Trees(ctx)
        self.eng = self.lx.engine(recursion=3)
        self.amap = ctx.p.cls('svgpy.dom.NamedNodeMap')
        self.attr = ctx.p.cls('svgpy.dom.Attr')

    def start(self, store):
        lx, eng = self.lx, self.eng
        lx.reset()
        st = State()
        el = lx.node(eng, st, 'element', attrib=store)
        el2 = lx.node(eng, st, 'another', attrib={'a': 'other'})
        node = self.amap.node
        m = Model(store)
        objs = {'EL': el}

        def make(ci, args, kw=None):
            r = eng._outside(lambda: eng.instantiate(
                ci, args, kw or {}, make.st, node))
            if len(r) != 1 or isinstance(r[0][1], Raised):
                raise AnalysisBroken('cannot make ' + ci.name)
            make.st = r[0][0]
            return r[0][1]
        make.st = st
        for k, n, v in (('@da', 'a', 'da'), ('@dc', 'c', 'dc'),
                        ('@empty', 'a', '')):
            objs[k] = make(self.attr, [NONE, C(n)], {'value': C(v)})
            m.obj[objs[k]] = [n, None, v]
        objs['@ua'] = make(self.attr, [NONE, C('a')],
                           {'owner_element': el2})
        m.obj[objs['@ua']] = ['a', 'EL2', 'other']
        objs['map'] = make(self.amap, [el])
        st = make.st
        st.fields[(el, '_attributes')] = objs['map']
        return st, m, objs, el, el2

    def step(self, st, op, objs):
        """[outcome] of one operation"""
        eng = self.eng
        who, name, args = op[0], op[1], op[2:]
        vals = [objs[a] if isinstance(a, str) and (
            a[:1] == '@' or a == 'EL') else C(a) for a in args]
        if who == 'native':
            r = eng._outside(lambda: self.lx.native(
                eng, st, objs['EL'], name, vals, {}, None))
            return [Outcome('return', v, s, None) for s, v in r]
        recv = objs[who]
        if name == 'value':
            return list(eng.write(st, recv, 'value', vals[0]))
        t = st.types[recv][0]
        m, _ = self.ctx.p.find_member(t, name)
        if not isinstance(m, FuncInfo):
            raise AnalysisBroken('no operation ' + name)
        eng.stack = []
        return eng.call_fn(F(m, recv), vals, {}, st, m.node)

    def one(self, st, obj, name):
        outs = self.eng.read(st.fork(), obj, name)
        return outs[0].value if len(outs) == 1 and \
            outs[0].kind == 'return' else None

    def agree(self, st, m, objs, el, el2):
        """The state agrees with the model."""
        eng = self.eng
        c = eng.cont(st, st.fields[(el, 'attrib')])
        got = {k.v: v.v for k, v in c[1]}
        if got != m.store:
            return 'the attributes are %s, not %s' % (got, m.store)
        for o, (n, owner, value) in m.obj.items():
            ow = self.one(st, o, 'owner_element')
            if ow is not {'EL': el, 'EL2': el2, None: NONE}[owner]:
                return 'an attribute object of %s belongs to %s, not %s' % (
                    n, show(ow), owner)
            want = m.value(o)
            v = self.one(st, o, 'value')
            if v is None or not isinstance(v, Const) or v.v != want:
                return 'an attribute object of %s has the value %s, not ' \
                    '%r' % (n, show(v), want)
        return None

    def same(self, st, m, objs):
        """The objects handed out are handed out again."""
        for n, o in m.cur.items():
            if n not in m.store:
                continue
            outs = self.step(st.fork(), ('map', '__getitem__', n), objs)
            if len(outs) != 1 or outs[0].value is not o:
                return 'another object is handed out for %s' % n
        return None

    def run(self):
        ctx = self.ctx
        n = 0
        w = self.amap.where()
        length = 3 if ctx.thorough else 2
        for store in ({'a': '1', 'b': '2'}, {}):
            for k in range(1, length + 1):
                for ops in itertools.product(OPS, repeat=k):
                    if k == 3 and (ops[0][1] in LAST or ops[1][1] in LAST):
                        continue
                    why = self.history(store, ops)
                    if why == 'skip':
                        continue
                    n += 1
                    ctx.obl('history', ' then '.join(
                        '%s.%s(%s)' % (o[0], o[1], ', '.join(
                            map(str, o[2:]))) for o in ops) +
                        ' with %s' % (sorted(store) or 'no attributes'),
                        not why, why or '', w)
        ctx.floor('attribute histories', n, 2500)

    def history(self, store, ops):
        st, m, objs, el, el2 = self.start(store)
        for i, op in enumerate(ops):
            outs = self.step(st, op, objs)
            self.ctx.paths += len(outs)
            if len(outs) != 1:
                return 'has %d outcomes' % len(outs)
            o = outs[0]
            why = expected(m, op, objs, (
                'raise', exc_name(o)) if o.kind == 'raise' else
                ('return', o.value))
            if why == 'skip':
                return why
            if why is None:
                why = self.agree(o.st, m, objs, el, el2)
            if why is None and i == len(ops) - 1:
                why = self.same(o.st, m, objs)
            if why:
                # a prefix is reported once
                return why if i == len(ops) - 1 else 'skip'
            if i == 1 and len(ops) > 2 and any(
                    x[1] == 'EL' and x[0] not in m.store
                    for x in m.obj.values()):
                # emptied through the object: when it is detached is open
                return 'skip'
            st = o.st
        return None


def check(ctx):
    d = D04(ctx)
    d.run()
    Histories(ctx).run()
    ctx.floor('attribute obligations', len(ctx._seen), 25)

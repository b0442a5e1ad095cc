"""Chains of elements: names, attributes and documents of unknown elements."""
from ._path import *
from .p03 import called

NSURI = 'http://www.w3.org/2000/svg'


def elem(i):
    return S('param', 'element%d' % i)


class Tree:
    """elements: list of (local name, {attribute: text}, class) from the root
    down; each is the parent of the next."""

    def __init__(self, p):
        self.p = p
        self.elements = []
        self.document = NONE
        self.order = None
        self.attrs_read = set()

    def set(self, elements):
        self.elements = elements
        self.index = {elem(i): i for i in range(len(elements))}

    def state(self):
        st = State()
        for i, e in enumerate(self.elements):
            st.types[elem(i)] = (e[2], True)
            st.facts[S('is', elem(i), NONE)] = False
        return st

    def of(self, v):
        return self.index.get(v) if isinstance(v, Sym) else None

    def on_getattr(self, eng, st, o, name, node):
        i = self.of(o)
        if i is None:
            return None
        if name == 'local_name':
            return [(st, C(self.elements[i][0]))]
        if name == 'tag':
            return [(st, C('{%s}%s' % (NSURI, self.elements[i][0])))]
        if name == 'owner_document':
            return [(st, self.document)]
        if name in ('parent_node', 'parent_element'):
            return [(st, elem(i - 1) if i else NONE)]
        return None

    def on_call(self, eng, fn, args, kw, st, node):
        if isinstance(fn, ExtV) and fn.name == 'builtins.hash' and \
                len(args) == 1 and self.of(args[0]) is not None:
            return [(st, C(1000 + self.of(args[0])))]
        r = called(fn)
        if r is None:
            return None
        i = self.of(r[0])
        if i is None:
            return None
        if r[1] == 'getparent':
            return [(st, elem(i - 1) if i else NONE)]
        if r[1] == 'iterancestors':
            if not args and not kw:
                return [(st, eng.new_list(st, [elem(k) for k in range(
                    i - 1, -1, -1)], node))]
        if r[1] == 'get' and args and isinstance(args[0], Const):
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            self.attrs_read.add((i, args[0].v))
            v = self.elements[i][1].get(args[0].v)
            return [(st, d if v is None else v)]
        return None

    def on_decide(self, eng, st, v):
        if v.op in ('is', 'eq') and len(v.args) == 2:
            a, b = map(self.of, v.args)
            if a is not None and b is not None:
                return a == b
            if (a is None) != (b is None) and NONE in v.args:
                return False
        if self.order is not None:
            if v.op == 'call' and v.args[0] is X('math.isclose'):
                # sizes are either equal or not close
                v = S('eq', v.args[1], v.args[2])
            return self.order(eng, st, v)
        return None

    def engine(self, ctx, **kw):
        kw.setdefault('on_call', self.on_call)
        return ctx.engine(mixins=True, keep_facts=True, loop_bound=12,
                          on_getattr=self.on_getattr,
                          on_decide=self.on_decide, **kw)

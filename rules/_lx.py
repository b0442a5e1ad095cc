"""Trees of nodes as lxml keeps them, with known shape.

Nodes are unknown objects of a known class; their children, text, tails and
attributes are tracked in the state.  What lxml documents about its own
operations (append, insert, addnext, addprevious, remove, replace, extend,
getparent, ...) is modelled; everything the package adds on top is
interpreted from its source.
"""
from ._geo import *
from ._path import sequence

KIDS = '#kids'
CLASSES = {'element': 'svgpy.dom.Element', 'comment': 'svgpy.dom.Comment',
           'pi': 'svgpy.dom.ProcessingInstruction',
           'document': 'svgpy.window.Document',
           # the level of a document element: not a node of its own
           'top': 'builtins.object'}


def called(fn):
    if isinstance(fn, Sym) and fn.op == 'attr':
        return fn.args
    if isinstance(fn, BoundV):
        return fn.recv, fn.name
    return None, None


class Trees(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.p
        self.nodes = []
        self.kind = {}

    def reset(self):
        self.nodes = []
        self.kind = {}

    # -- building -----------------------------------------------------
    def node(self, eng, st, name, kind='element', text=None, tail=None,
             attrib=None, owner=NONE):
        v = S('node', name)
        for o in self.nodes:
            for a, b in ((o, v), (v, o)):
                st.facts[S('is', a, b)] = False
                st.facts[S('eq', a, b)] = False
        self.nodes.append(v)
        self.kind[v] = kind
        st.types[v] = (self.p.cls(CLASSES[kind]) if kind != 'top' else
                       ExtClass(CLASSES[kind]), True)
        st.facts[v] = True
        st.facts[S('is', v, NONE)] = False
        st.fields[(v, KIDS)] = T(())
        st.fields[(v, 'text')] = NONE if text is None else C(text)
        st.fields[(v, 'tail')] = NONE if tail is None else C(tail)
        st.fields[(v, '_owner_document')] = owner
        if attrib is not None:
            st.fields[(v, 'attrib')] = eng._outside(lambda: eng.new_dict(
                st, [(C(k), C(x)) for k, x in attrib.items()], None))
        return v

    def kids(self, st, n):
        return list(st.fields[(n, KIDS)].items)

    def parent(self, st, n):
        for m in self.nodes:
            if n in st.fields[(m, KIDS)].items:
                return m
        return None

    def put(self, st, n, kids):
        st.fields[(n, KIDS)] = T(tuple(kids))

    def unlink(self, st, n):
        m = self.parent(st, n)
        if m is not None:
            self.put(st, m, [k for k in self.kids(st, m) if k is not n])

    def content(self, st, n):
        """Text and child nodes of a node in order; text chunks merged."""
        out = []

        def add(t):
            if isinstance(t, Const) and t.v in (None, ''):
                return
            if not isinstance(t, Const):
                out.append(t)
            elif out and isinstance(out[-1], str):
                out[-1] += t.v
            else:
                out.append(t.v)
        add(st.fields[(n, 'text')])
        for k in self.kids(st, n):
            out.append(k)
            add(st.fields[(k, 'tail')])
        return out

    # -- what lxml does -----------------------------------------------
    def native(self, eng, st, recv, name, args, kw, node):
        if name == 'getparent':
            p = self.parent(st, recv)
            return [(st, NONE if p is None or self.kind[p] == 'top'
                     else p)]
        p = self.parent(st, recv)
        sib = self.kids(st, p) if p is not None else [recv]
        i = sib.index(recv)
        if name == 'getnext':
            return [(st, sib[i + 1] if i + 1 < len(sib) else NONE)]
        if name == 'getprevious':
            return [(st, sib[i - 1] if i else NONE)]
        if name == 'itersiblings' and not args:
            pre = kw.get('preceding', FALSE)
            if isinstance(pre, Const):
                r = sib[:i][::-1] if pre.v else sib[i + 1:]
                return [(st, eng.new_list(st, r, node))]
        if name == 'iterancestors' and not args and not kw:
            r = []
            while p is not None and self.kind[p] != 'top':
                r.append(p)
                p = self.parent(st, p)
            return [(st, eng.new_list(st, r, node))]
        kids = self.kids(st, recv)
        if name in ('iterchildren', 'getchildren', '__iter__') and \
                not args and not kw:
            return [(st, eng.new_list(st, kids, node))]
        if name == 'iterchildren' and len(args) + len(kw) == 1:
            a = (list(args) + list(kw.values()))[0]
            if isinstance(a, ExtV) and a.name.split('.')[-1] in (
                    'Element', 'Comment', 'ProcessingInstruction', 'PI'):
                want = {'Element': 'element', 'Comment': 'comment'}.get(
                    a.name.split('.')[-1], 'pi')
                return [(st, eng.new_list(
                    st, [k for k in kids if self.kind[k] == want], node))]
            return None
        if name == '__len__':
            return [(st, C(len(kids)))]
        if name == 'index' and args and args[0] in kids:
            return [(st, C(kids.index(args[0])))]
        new = None
        if args and isinstance(args[-1], Sym) and args[-1] in self.kind:
            new = args[-1]
        err = lambda k: [(st, eng.raise_(st, k, node))]
        if name in ('append', 'insert', 'addnext', 'addprevious',
                    'replace', 'remove') and (
                        new is None or self.kind[new] == 'document'):
            return err('TypeError')
        if name in ('append', 'addnext', 'addprevious', 'insert'):
            t = p if name.startswith('add') else recv
            if t is None or self.kind[t] == 'top' and \
                    self.kind[new] == 'element':
                return err('TypeError')
            if new is recv and name.startswith('add'):
                return [(st, NONE)]
            anc = t
            while anc is not None:
                if anc is new:
                    return err('ValueError')
                anc = self.parent(st, anc)
            if name == 'insert':
                if not isinstance(args[0], Const):
                    return None
                self.unlink(st, new)
                kids = self.kids(st, recv)
                kids.insert(args[0].v, new)
            else:
                self.unlink(st, new)
                kids = self.kids(st, t)
                if name == 'append':
                    kids.append(new)
                else:
                    # a following sibling comes after the text of the node
                    j = kids.index(recv)
                    kids.insert(j + (name == 'addnext'), new)
            self.put(st, t, kids)
            return [(st, NONE)]
        if name == 'extend' and len(args) == 1:
            items = sequence(eng, st, args[0])
            if items is None:
                return None
            for x in items:
                r = self.native(eng, st, recv, 'append', [x], {}, node)
                if r is None or isinstance(r[0][1], Raised):
                    return r
            return [(st, NONE)]
        if name == 'remove':
            if new not in kids:
                return err('ValueError')
            self.unlink(st, new)
            return [(st, NONE)]
        if name == 'replace' and len(args) == 2:
            old = args[0]
            if old not in kids:
                return err('ValueError')
            if new is not old:
                self.unlink(st, new)
                kids = self.kids(st, recv)
                kids[kids.index(old)] = new
                self.put(st, recv, kids)
            return [(st, NONE)]
        if name == 'get' and args and (recv, 'attrib') in st.fields:
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            return eng.call_method(st, st.fields[(recv, 'attrib')], 'get',
                                   [args[0], d], {}, node)
        if name == 'set' and len(args) == 2 and \
                (recv, 'attrib') in st.fields:
            r = eng.setitem(st, st.fields[(recv, 'attrib')], args[0],
                            args[1], node)
            return [(s, NONE if v is None else v) for s, v in r]
        if name in ('keys', 'values', 'items') and not args and \
                (recv, 'attrib') in st.fields:
            return eng.call_method(st, st.fields[(recv, 'attrib')], name,
                                   [], {}, node)
        return None

    # -- hooks --------------------------------------------------------
    def on_call(self, eng, fn, args, kw, st, node):
        if isinstance(fn, ExtV):
            n = fn.name
            if n == 'builtins.len' and len(args) == 1 and \
                    args[0] in self.kind:
                return [(st, C(len(self.kids(st, args[0]))))]
            if n == 'builtins.hash' and len(args) == 1 and \
                    args[0] in self.kind:
                return [(st, C(1000 + self.nodes.index(args[0])))]
            parts = n.split('.')
            if parts[0] == 'lxml' and len(parts) > 2 and \
                    parts[-2].endswith('Base') and args and \
                    args[0] in self.kind:
                return self.native(eng, st, args[0], parts[-1],
                                   list(args[1:]), kw, node)
        recv, name = called(fn)
        if isinstance(recv, Sym) and recv in self.kind:
            return self.native(eng, st, recv, name, list(args), kw, node)
        if name in ('debug', 'info'):
            return [(st, NONE)]
        return self.more(eng, fn, args, kw, st, node)

    def more(self, eng, fn, args, kw, st, node):
        return None

    def on_items(self, eng, st, v):
        if v in self.kind:
            return self.kids(st, v)
        return None

    def on_decide(self, eng, st, v):
        if len(v.args) == 2:
            a, b = v.args
            if v.op == 'in' and isinstance(b, Sym) and b in self.kind:
                return a in self.kids(st, b)
            if v.op in ('eq', 'is', 'ne'):
                x, y = (isinstance(t, Sym) and t in self.kind
                        for t in (a, b))
                if x and y:
                    return (a is b) == (v.op != 'ne')
                if (x or y) and isinstance(a if y else b, (Const, Tup)):
                    return v.op == 'ne'
        return None

    def engine(self, **kw):
        kw.setdefault('max_depth', 14)
        eng = self.ctx.engine(mixins=True, keep_facts=True, loop_bound=12,
                              on_call=self.on_call,
                              on_decide=self.on_decide, **kw)
        eng.on_items = self.on_items
        return eng


def invoke(eng, p, st, obj, name, args, kw=None):
    """Outcomes of obj.name(*args)."""
    t = st.types.get(obj)
    m, _ = p.find_member(t[0], name)
    if not isinstance(m, FuncInfo):
        raise AnalysisBroken('no operation ' + name)
    eng.stack = []
    return eng.call_fn(F(m, obj), list(args), kw or {}, st, m.node)

"""Scenarios over node kinds for the tree mutation operations."""
from ._common import *

KINDS = {
    'attr': 'svgpy.dom.Attr',
    'document': 'svgpy.window.Document',
    'element': 'svgpy.dom.Element',
    'comment': 'svgpy.dom.Comment',
    'pi': 'svgpy.dom.ProcessingInstruction',
}
LINKABLE = ('element', 'comment', 'pi')
UNLINKABLE = ('attr', 'document')

# operation -> argument shapes (N: the node(s) to insert, R: reference child,
# I: index); several shapes are several scenarios
INSERT_OPS = {
    'append': ['N*'], 'prepend': ['N*'], 'append_child': ['N'],
    'extend': ['[N]'], 'insert': ['IN'], 'insert_before': ['NR', 'N0'],
    'replace': ['RN'], 'replace_child': ['NR'],
    'addnext': ['N'], 'addprevious': ['N'],
}
REMOVE_OPS = {'remove': ['R'], 'remove_child': ['R']}
NATIVE = {'append', 'addnext', 'addprevious', 'extend', 'insert', 'replace',
          'remove', '__setitem__', '__delitem__', 'clear'}
SELF = S('param', 'self')
DOC = S('param', 'DOC')
REF = S('param', 'ref')
ROOT = S('param', 'root')
IDX = S('param', 'index')


def node_param(i):
    return S('param', 'node%d' % i)


def native_events(events):
    return [e for e in events
            if e.kind == 'call' and e.name in NATIVE
            and not is_fresh(e.recv)]


def engine(ctx):
    p = ctx.p
    exc = p.module('svgpy.exception')

    def opaque(fi):
        # exception constructors carry no tree effects
        return fi.module is exc
    eng = ctx.engine(opaque=opaque, max_depth=12)

    def on_items(eng, st, v):
        # what is below an inserted node is the subject of D02's trees
        return [] if v.op == 'param' and str(v.args[0]).startswith('node') \
            else None
    eng.on_items = on_items
    return eng


def run_op(ctx, eng, recv_cls, op, shape, kinds, root=None, owner=True):
    """Outcomes of recv.op(...) with argument nodes of the given kinds."""
    p = ctx.p
    m, owner_cls = p.find_member(recv_cls, op)
    st = State()
    st.types[SELF] = (recv_cls, True)
    nodes = []
    for i, k in enumerate(kinds):
        v = node_param(i)
        st.types[v] = (p.cls(KINDS[k]), True)
        nodes.append(v)
    st.types[REF] = (p.cls(KINDS['element']), True)
    doc_cls = p.cls(KINDS['document'])
    is_doc = doc_cls in p.mro(recv_cls)
    if is_doc:
        if root is None:
            st.fields[(SELF, '_document_element')] = NONE
        else:
            st.types[ROOT] = (p.cls(KINDS['element']), True)
            st.fields[(SELF, '_document_element')] = ROOT
            st.fields[(ROOT, '_owner_document')] = SELF
    elif owner:
        st.types[DOC] = (doc_cls, True)
        st.fields[(SELF, '_owner_document')] = DOC
    if shape == 'N*':
        args = list(nodes)
    elif shape == '[N]':
        args = [eng.new_list(st, nodes, owner_cls.node)]
    elif shape == 'N':
        args = [nodes[0]]
    elif shape == 'IN':
        args = [IDX, nodes[0]]
    elif shape == 'NR':
        args = [nodes[0], REF]
    elif shape == 'N0':
        args = [nodes[0], NONE]
    elif shape == 'RN':
        args = [REF, nodes[0]]
    elif shape == 'R':
        args = [REF]
    eng.stack = []
    outs = eng.call_fn(F(m, SELF), args, {}, st, m.node)
    ctx.paths += len(outs)
    return m, outs


def node_classes(ctx):
    """Classes that implement tree operations themselves."""
    p = ctx.p
    node = p.cls('svgpy.dom.Node')
    return [c for c in p.subclasses(node)]


def implementers(ctx, op):
    """(class, FuncInfo) for every concrete definition of `op`."""
    out = []
    for c in node_classes(ctx):
        m = c.members.get(op)
        if isinstance(m, FuncInfo) and not m.is_abstract:
            out.append((c, m))
    return out


def kind_of_class(ctx, c):
    p = ctx.p
    for k in ('attr', 'comment', 'pi', 'element', 'document'):
        if p.cls(KINDS[k]) in p.mro(c):
            return k
    return None

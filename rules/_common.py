"""Helpers shared by the rules."""
from sa.engine import Engine, Event, Outcome, Raised, State
from sa.project import (AnalysisBroken, ClassInfo, ExtClass, FuncInfo, Module,
                        PropInfo)
from sa.values import (B, C, F, FALSE, K, M, NONE, O, S, SUP, T, TRUE, X,
                       BoundV, ClsV, Const, ExtV, FnV, ModV, Obj, SuperV,
                       Sym, Tup, Val, boolv, show, subterms)

MUT_NAMES = {
    'append', 'addnext', 'addprevious', 'extend', 'insert', 'prepend',
    'remove', 'replace', 'clear', 'set', 'attach_document',
    'detach_document', 'pop', 'popitem', 'update', 'setdefault', 'add',
    'discard', 'sort', 'reverse', '__setitem__', '__delitem__',
    'attach_element', 'detach_element', 'append_child', 'insert_before',
    'remove_child', 'replace_child', '__iadd__'}


def param(name):
    return S('param', name)


def is_fresh(v):
    return isinstance(v, Obj)


def mutations(events, fresh_ok=True):
    """Events that change an object other than one allocated on the path."""
    out = []
    for e in events:
        if e.kind in ('setattr', 'setitem', 'delitem', 'delattr', 'mutate',
                      'aug', 'setglobal'):
            if fresh_ok and is_fresh(e.recv):
                continue
            out.append(e)
        elif e.kind == 'call' and e.name in MUT_NAMES:
            if fresh_ok and is_fresh(e.recv):
                continue
            out.append(e)
    return out


def exc_name(o):
    """Class name of the exception an outcome raises, or None."""
    if o.kind != 'raise':
        return None
    c = o.value.cls
    return None if c is None else c.fq.split('.')[-1]


def mentions(v, *needles):
    st = subterms(v)
    return all(n in st for n in needles)


def where_of(fi):
    return fi.where() if isinstance(fi, FuncInfo) else ''

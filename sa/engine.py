"""Path-sensitive abstract interpreter over the package's syntax trees.

Domain: constants, value-numbered unknowns (`Sym`), abstract heap objects with
fields and (partially known) containers, plus branch facts. Branches whose
condition is not decided by constants/facts are forked, loops over unknown
iterables are unrolled `loop_bound` times, package functions are inlined
(recursion and depth bounded), everything else is an opaque call. Every call,
store and raise is recorded as an event; rules are stated over the event
sequences, the resulting values and the exits of an entry point. No constraint
solver is involved and no code of the package runs."""

import ast
import builtins
import operator
import re

from . import arrays
from .project import (AnalysisBroken, ClassInfo, ExtClass, FuncInfo, Module,
                      PropInfo)
from .values import (B, C, F, FALSE, K, M, NONE, O, S, SUP, T, TRUE, X,
                     BoundV, ClsV, Const, ExtV, FnV, ModV, Obj, SuperV, Sym,
                     Tup, Val, boolv, show)


NOTIMPL = X('builtins.NotImplemented')


class Budget(AnalysisBroken):
    pass


class Raised:
    __slots__ = ('exc', 'cls', 'node')

    def __init__(self, exc, cls, node=None):
        self.exc = exc
        self.cls = cls     # ClassInfo | ExtClass | None(any)
        self.node = node

    def __repr__(self):
        return 'Raised(%s)' % (getattr(self.cls, 'fq', '?'),)


class Event:
    __slots__ = ('kind', 'name', 'recv', 'args', 'kw', 'node', 'fi', 'res',
                 'caller', 'extra', 'fn')

    def __init__(self, kind, name, recv=None, args=(), kw=None, node=None,
                 fi=None, res=None, caller=None, extra=None, fn=None):
        self.fn = fn
        self.kind = kind
        self.name = name
        self.recv = recv
        self.args = args
        self.kw = kw or {}
        self.node = node
        self.fi = fi
        self.res = res
        self.caller = caller
        self.extra = extra

    def where(self):
        m = getattr(self.node, '_module', None)
        return '%s:%s' % (m.relpath if m else '?',
                          getattr(self.node, 'lineno', '?'))

    def __repr__(self):
        return '%s %s(%s%s) @%s' % (
            self.kind, self.name,
            '' if self.recv is None else show(self.recv) + '; ',
            ', '.join(show(a) if isinstance(a, Val) else str(a)
                      for a in self.args), self.where())


class State:
    __slots__ = ('env', 'fields', 'cont', 'types', 'facts', 'eqs', 'events',
                 'nev', 'tryd', 'ctr', 'yields', 'lens')

    def __init__(self):
        self.env = {}
        self.fields = {}
        self.cont = {}
        self.types = {}
        self.facts = {}
        self.eqs = {}
        self.events = None
        self.nev = 0
        self.tryd = 0
        self.ctr = {}
        self.yields = None
        self.lens = {}

    def fork(self):
        s = State.__new__(State)
        s.env = self.env.copy()
        s.fields = dict(self.fields)
        s.cont = dict(self.cont)
        s.types = dict(self.types)
        s.facts = dict(self.facts)
        s.eqs = dict(self.eqs)
        s.events = self.events
        s.nev = self.nev
        s.tryd = self.tryd
        s.ctr = dict(self.ctr)
        s.yields = self.yields
        s.lens = dict(self.lens)
        return s

    def event_list(self):
        out = []
        e = self.events
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


class Outcome:
    def __init__(self, kind, value, st, node=None):
        self.kind = kind        # 'return' | 'raise'
        self.value = value      # Val | Raised
        self.st = st
        self.events = st.event_list()

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.value)


_ARITH = ('+', '-', '*', '/', '//', '%', '**')
_BINOPS = {
    ast.Add: ('+', operator.add, '__add__', '__radd__', '__iadd__'),
    ast.Sub: ('-', operator.sub, '__sub__', '__rsub__', '__isub__'),
    ast.Mult: ('*', operator.mul, '__mul__', '__rmul__', '__imul__'),
    ast.Div: ('/', operator.truediv, '__truediv__', '__rtruediv__',
              '__itruediv__'),
    ast.FloorDiv: ('//', operator.floordiv, '__floordiv__', '__rfloordiv__',
                   '__ifloordiv__'),
    ast.Mod: ('%', operator.mod, '__mod__', '__rmod__', '__imod__'),
    ast.Pow: ('**', operator.pow, '__pow__', '__rpow__', '__ipow__'),
    ast.BitAnd: ('&', operator.and_, '__and__', '__rand__', '__iand__'),
    ast.BitOr: ('|', operator.or_, '__or__', '__ror__', '__ior__'),
    ast.BitXor: ('^', operator.xor, '__xor__', '__rxor__', '__ixor__'),
    ast.LShift: ('<<', operator.lshift, '__lshift__', '__rlshift__',
                 '__ilshift__'),
    ast.RShift: ('>>', operator.rshift, '__rshift__', '__rrshift__',
                 '__irshift__'),
    ast.MatMult: ('@', operator.matmul, '__matmul__', '__rmatmul__',
                  '__imatmul__'),
}
_CMP = {
    ast.Eq: ('eq', operator.eq, '__eq__'),
    ast.NotEq: ('ne', operator.ne, '__ne__'),
    ast.Lt: ('lt', operator.lt, '__lt__'),
    ast.LtE: ('le', operator.le, '__le__'),
    ast.Gt: ('gt', operator.gt, '__gt__'),
    ast.GtE: ('ge', operator.ge, '__ge__'),
    ast.Is: ('is', None, None),
    ast.IsNot: ('isnot', None, None),
    ast.In: ('in', None, '__contains__'),
    ast.NotIn: ('notin', None, '__contains__'),
}

LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse',
            'sort'}
DICT_MUT = {'update', 'pop', 'popitem', 'setdefault', 'clear',
            'move_to_end'}
SET_MUT = {'add', 'discard', 'remove', 'pop', 'clear', 'update',
           'intersection_update', 'difference_update',
           'symmetric_difference_update'}
_PURE_BUILTINS = {
    'abs', 'len', 'int', 'float', 'str', 'bool', 'min', 'max', 'sum', 'round',
    'ord', 'chr', 'repr', 'hex', 'divmod', 'pow', 'hash', 'bytes', 'bin',
    'oct', 'format', 'complex', 'ascii'}
_RESULT_TYPE = {'str': 'str', 'repr': 'str', 'int': 'int', 'len': 'int',
                'float': 'float', 'bool': 'bool', 'chr': 'str', 'ord': 'int',
                'list': 'list', 'dict': 'dict', 'tuple': 'tuple',
                'set': 'set', 'sorted': 'list', 'bytes': 'bytes',
                'isinstance': 'bool', 'callable': 'bool', 'hasattr': 'bool'}
_IMPURE_METHODS = {'pop', 'popitem', 'read', 'readline', 'next', 'send'}


class Engine:
    def __init__(self, project, loop_bound=2, max_depth=16, max_states=3000,
                 step_limit=400000, opaque=None, on_call=None,
                 field_types=None, raise_outside=False, max_loop=80,
                 on_getattr=None, global_values=None, on_decide=None,
                 keep_facts=False, recursion=1):
        self.p = project
        self.recursion = recursion
        self.loop_bound = loop_bound
        self.max_depth = max_depth
        self.max_states = max_states
        self.step_limit = step_limit
        self.steps = 0
        self.opaque = opaque or (lambda fi: False)
        self.on_call = on_call
        self.on_getattr = on_getattr
        self.on_decide = on_decide
        self.on_items = None     # items of an unknown iterable, if known
        self.keep_facts = keep_facts
        self.field_types = field_types or {}
        self.raise_outside = raise_outside
        self.max_loop = max_loop
        self.stack = []          # (FuncInfo|None, Module)
        self.closures = []       # variables around each function
        self.base_cont = {}
        self.base_fields = {}
        self.base_types = {}
        self.modenv = {}
        self.regexes = {}
        self.clsattr = {}
        self.analysed = set()
        self.quiet = False

    # ------------------------------------------------------------------
    # entry points
    def run(self, fi, self_val=None, args=None, types=None, setup=None,
            self_cls=None, kwargs=None, st=None):
        """Analyses `fi` with the given bindings; unbound parameters become
        unknowns named after the parameter."""
        self.steps = 0
        st = st or State()
        if self_val is None and fi.cls is not None and \
                fi.kind not in ('static', 'class'):
            self_val = S('param', 'self')
            st.types[self_val] = (self_cls or fi.cls, True)
        if fi.kind == 'class' and self_val is None:
            self_val = K(self_cls or fi.cls)
        for v, t in (types or {}).items():
            st.types[v] = t if isinstance(t, tuple) else (t, True)
        a = fi.node.args
        bind = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        given = dict(args or {})
        if fi.cls is not None and fi.kind != 'static' and names:
            bind[names[0]] = self_val
            rest = names[1:]
        else:
            rest = names
        for n in rest:
            bind[n] = given.pop(n) if n in given else S('param', n)
        for x in a.kwonlyargs:
            n = x.arg
            bind[n] = given.pop(n) if n in given else S('param', n)
        if a.vararg:
            n = a.vararg.arg
            bind[n] = given.pop(n) if n in given else S('param', n)
            if isinstance(bind[n], Sym):
                st.types.setdefault(bind[n], (ExtClass('builtins.tuple'),
                                              True))
        if a.kwarg:
            n = a.kwarg.arg
            bind[n] = given.pop(n) if n in given else S('param', n)
        if given:
            raise AnalysisBroken('%s has no parameter %s'
                                 % (fi.fq, sorted(given)))
        if setup:
            setup(self, st)
        res = self.exec_func(fi, bind, st, None)
        return [Outcome('raise' if isinstance(v, Raised) else 'return', v, s)
                for s, v in res]

    def construct(self, ci, args=(), kwargs=None, types=None, setup=None):
        self.steps = 0
        st = State()
        for v, t in (types or {}).items():
            st.types[v] = t if isinstance(t, tuple) else (t, True)
        if setup:
            setup(self, st)
        node = ci.node
        self.stack.append((None, ci.module))
        try:
            res = self.instantiate(ci, list(args), dict(kwargs or {}), st,
                                   node)
        finally:
            self.stack.pop()
        return [Outcome('raise' if isinstance(v, Raised) else 'return', v, s)
                for s, v in res]

    def call_fn(self, fn, args, kwargs, st, node=None):
        """Calls abstract value `fn` from a rule; list of Outcome."""
        self.steps = 0
        mod = next(iter(self.p.modules.values()))
        self.stack.append((None, mod))
        try:
            res = self.call(fn, list(args), dict(kwargs), st,
                            node or mod.tree)
        finally:
            self.stack.pop()
        return [Outcome('raise' if isinstance(v, Raised) else 'return', v, s)
                for s, v in res]

    def _outside(self, f):
        self.steps = 0
        self.stack.append((None, next(iter(self.p.modules.values()))))
        try:
            return f()
        finally:
            self.stack.pop()

    def class_const(self, ci, name):
        """Value of a class attribute, or None."""
        return self._outside(
            lambda: self.class_getattr(State(), K(ci), name))

    def read(self, st, v, name, node=None):
        """Attribute access from a rule; list of Outcome."""
        node = node or next(iter(self.p.modules.values())).tree
        res = self._outside(
            lambda: self.getattr_(st.fork(), v, name, node))
        return [Outcome('raise' if isinstance(x, Raised) else 'return', x, s)
                for s, x in res]

    def write(self, st, v, name, val, node=None):
        """Assignment to an attribute from a rule; list of Outcome."""
        node = node or next(iter(self.p.modules.values())).tree
        res = self._outside(
            lambda: self.setattr_(st.fork(), v, name, val, node))
        return [Outcome('raise' if isinstance(x, Raised) else 'return', x, s)
                for s, x in res]

    def global_const(self, modname, name):
        """Value of a module global after module initialisation."""
        mod = self.p.module(modname)
        return self._outside(lambda: self.global_value(mod, name))

    # ------------------------------------------------------------------
    # module environments
    def module_env(self, mod):
        env = self.modenv.get(mod.name)
        if env is None:
            env = {}
            self.modenv[mod.name] = env
            st = State()
            st.env = env
            self.stack.append((None, mod))
            old = (self.steps, self.quiet)
            try:
                body = mod.tree.body
                for stmt in body:
                    if isinstance(stmt, (ast.FunctionDef, ast.ClassDef,
                                         ast.Import, ast.ImportFrom)):
                        continue
                    try:
                        outs = self.exec_stmt(stmt, st)
                    except Budget:
                        continue
                    normal = [s for s, sig in outs if sig is None]
                    if normal:
                        st = normal[0]
                for n, v in list(st.env.items()):
                    if isinstance(v, Sym):
                        st.env[n] = S('global', mod.name, n)
                        rx = self.as_regex(v)
                        if rx is not None:
                            self.regexes[st.env[n]] = rx
                        if v in st.types:
                            st.types[S('global', mod.name, n)] = st.types[v]
                self.modenv[mod.name] = st.env
                self.base_cont.update(st.cont)
                self.base_fields.update(st.fields)
                self.base_types.update(st.types)
            finally:
                self.stack.pop()
                self.steps, self.quiet = old
        return self.modenv[mod.name]

    def as_regex(self, v):
        """The compiled form of a constant regular expression."""
        r = self.regexes.get(v)
        if r is not None:
            return r
        if not (isinstance(v, Sym) and v.op == 'call' and
                v.args[0] is X('re.compile')):
            return None

        def flag(x):
            if isinstance(x, Const) and isinstance(x.v, int):
                return int(x.v)
            if isinstance(x, ExtV) and x.name.startswith('re.') and \
                    isinstance(getattr(re, x.name[3:], None), re.RegexFlag):
                return int(getattr(re, x.name[3:]))
            if isinstance(x, Sym) and x.op == 'op' and x.args[0] in '|+':
                a, b = flag(x.args[1]), flag(x.args[2])
                return None if a is None or b is None else a | b
            return None
        a = v.args[1:]
        fl = 0
        if len(a) == 2:
            k = a[1]
            if isinstance(k, Sym) and k.op == 'kw':
                k = k.args[1]
            fl = flag(k)
        if not a or len(a) > 2 or fl is None or not (
                isinstance(a[0], Const) and isinstance(a[0].v, str)):
            return None
        try:
            r = re.compile(a[0].v, fl)
        except re.error:
            return None
        self.regexes[v] = r
        return r

    def regex_call(self, st, rx, name, args, node):
        if name not in ('match', 'search', 'fullmatch', 'finditer',
                        'findall', 'split', 'sub'):
            return None
        if name == 'sub' and len(args) == 2 and isinstance(
                args[1], Const) and isinstance(args[1].v, str) and \
                isinstance(args[0], (FnV, BoundV, ExtV)):
            # each replacement comes from the function
            text, worlds, at = args[1].v, [(st, [])], 0
            for m in rx.finditer(text):
                nxt = []
                for s, ps in worlds:
                    if isinstance(ps, Raised):
                        nxt.append((s, ps))
                        continue
                    for s1, v in self.call(args[0], [C(m)], {}, s, node):
                        nxt.append((s1, v if isinstance(v, Raised) else
                                    ps + [C(text[at:m.start()]), v]))
                worlds = nxt
                at = m.end()
            return [(s, ps if isinstance(ps, Raised) else
                     self.mkcat(s, ps + [C(text[at:])]))
                    for s, ps in worlds]
        if not args or not all(isinstance(a, Const) and isinstance(
                a.v, (str, int)) for a in args):
            return None
        try:
            r = getattr(rx, name)(*[a.v for a in args])
        except Exception as e:
            return [(st, self.raise_(st, type(e).__name__, node))]
        if name == 'finditer':
            r = list(r)
        return [(st, self.lift(st, r, node))]

    def global_value(self, mod, name, st=None):
        r = self.p.lookup_global(mod, name)
        return self.wrap_global(r, name, st)

    def wrap_global(self, r, name, st=None):
        if isinstance(r, ClassInfo):
            return K(r)
        if isinstance(r, FuncInfo):
            return F(r)
        if isinstance(r, Module):
            return M(r)
        if isinstance(r, tuple) and r[0] == 'ext':
            return X(r[1])
        if isinstance(r, tuple) and r[0] == 'value':
            env = self.module_env(r[1])
            v = env.get(r[2])
            if v is None:
                return S('global', r[1].name, r[2])
            return v
        return None

    def class_attr(self, ci, name, expr):
        key = (ci.fq, name)
        if key in self.clsattr:
            return self.clsattr[key]
        self.clsattr[key] = S('clsattr', ci.fq, name)
        st = State()
        # names visible in the class body
        self.stack.append((None, ci.module))
        try:
            st.env = _ClassScope(self, ci)
            outs = self.ev(expr, st)
            v = None
            if len(outs) == 1 and not isinstance(outs[0][1], Raised):
                s, v = outs[0]
                # statements of the class body that change the value
                for stmt in ci.patches.get(name, ()):
                    s.env = _ClassScope(self, ci)
                    s.env[name] = v
                    res = [x for x, sig in self.exec_stmt(stmt, s)
                           if sig is None]
                    if len(res) != 1:
                        v = None
                        break
                    s = res[0]
                    v = s.env[name]
                self.base_cont.update(s.cont)
                self.base_fields.update(s.fields)
                self.base_types.update(s.types)
            if v is None or isinstance(v, Sym):
                rx = self.as_regex(v) if v is not None else None
                v = S('clsattr', ci.fq, name)
                if rx is not None:
                    self.regexes[v] = rx
        finally:
            self.stack.pop()
        self.clsattr[key] = v
        return v

    # ------------------------------------------------------------------
    # state helpers
    def cont(self, st, o):
        c = st.cont.get(o)
        if c is None:
            c = self.base_cont.get(o)
        return c

    def field(self, st, o, name):
        k = (o, name)
        v = st.fields.get(k)
        if v is None:
            v = self.base_fields.get(k)
        return v

    def ctype(self, st, v):
        t = st.types.get(v)
        if t is None:
            t = self.base_types.get(v)
        if t is not None:
            return t
        if isinstance(v, Const):
            return (ExtClass('builtins.' + type(v.v).__name__), True)
        if isinstance(v, Tup):
            return (ExtClass('builtins.tuple'), True)
        if isinstance(v, Obj):
            if v.kind in ('list', 'dict', 'set'):
                return (ExtClass('builtins.' + v.kind), True)
            if v.kind == 'ndarray':
                return (ExtClass('numpy.ndarray'), True)
            return None
        if isinstance(v, Sym):
            if v.op == 'call' and isinstance(v.args[0], ExtV):
                n = v.args[0].name
                if n.startswith('builtins.'):
                    r = _RESULT_TYPE.get(n[9:])
                    if r:
                        return (ExtClass('builtins.' + r), True)
                if n.startswith('math.') and not n.startswith('math.is'):
                    return (ExtClass('builtins.float'), True)
                if n in ('builtins.min', 'builtins.max', 'builtins.abs',
                         'builtins.round') and all(
                        self.is_num(st, x) for x in v.args[1:]):
                    return (ExtClass('builtins.float'), True)
                if n and n.split('.')[-1][:1].isupper():
                    return (ExtClass(n), True)
            if v.op == 'slicespec':
                return (ExtClass('builtins.slice'), True)
            if v.op in ('fstr', 'strjoin', 'cat'):
                return (ExtClass('builtins.str'), True)
            if v.op in ('eq', 'in', 'is', 'isinstance', 'lt', 'le', 'not'):
                return (ExtClass('builtins.bool'), True)
            if v.op in ('op', 'neg', 'pos') and (
                    v.op != 'op' or v.args[0] in _ARITH):
                if all(self.is_num(st, x) for x in v.args
                       if isinstance(x, Val)):
                    return (ExtClass('builtins.float'), True)
        if isinstance(v, (ClsV, ExtV)):
            return (ExtClass('builtins.type'), False)
        if isinstance(v, FnV):
            return (ExtClass('types.FunctionType'), True)
        return None

    def is_num(self, st, v):
        t = self.ctype(st, v)
        return bool(t and isinstance(t[0], ExtClass) and t[0].name in (
            'builtins.int', 'builtins.float', 'builtins.bool'))

    def alloc(self, st, kind, node):
        site = id(node) if node is not None else 0
        k = (kind, site)
        n = st.ctr.get(k, 0)
        st.ctr[k] = n + 1
        return O(kind, site, n)

    def new_list(self, st, items, node, tail=None, kind='list'):
        o = self.alloc(st, kind, node)
        st.cont[o] = (kind, tuple(items), tail)
        return o

    def new_dict(self, st, items, node, tail=None):
        o = self.alloc(st, 'dict', node)
        st.cont[o] = ('dict', tuple(items), tail)
        return o

    def emit(self, st, ev):
        st.events = (st.events, ev)
        st.nev += 1

    def caller(self):
        return self.stack[-1][0] if self.stack else None

    # ------------------------------------------------------------------
    # truth and facts
    def norm(self, v):
        """(base sym, polarity)"""
        pol = True
        while isinstance(v, Sym) and v.op == 'not':
            v = v.args[0]
            pol = not pol
        return v, pol

    def decide(self, st, v):
        v, pol = self.norm(v)
        r = self._decide(st, v)
        if r is None:
            return None
        return r if pol else not r

    def _decide(self, st, v):
        if isinstance(v, Const):
            try:
                return bool(v.v)
            except Exception:
                return None
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, (FnV, ClsV, ExtV, ModV, BoundV)):
            return True
        if isinstance(v, Obj):
            c = self.cont(st, v)
            if c is not None:
                if c[1]:
                    return True
                if c[2] is None:
                    return False
                return st.facts.get(S('truth', v, st.ctr.get(('v', v), 0)))
            t = self.ctype(st, v)
            if t and isinstance(t[0], ClassInfo):
                for n in ('__bool__', '__len__'):
                    if isinstance(self.p.find_member(t[0], n)[0], FuncInfo):
                        return st.facts.get(S('truth', v, 0))
                if any(isinstance(c, ExtClass) and c.name.startswith('lxml')
                       for c in self.p.mro(t[0])):
                    return st.facts.get(S('truth', v, 0))
            return True
        if not isinstance(v, Sym):
            return None
        f = st.facts.get(v)
        if f is not None:
            return f
        if v in st.eqs:
            return bool(st.eqs[v].v)
        op = v.op
        if self.on_decide is not None:
            r = self.on_decide(self, st, v)
            if r is not None:
                return r
        if op == 'cat':
            if any(isinstance(x, Const) for x in v.args):
                return True
            if any(self.is_str(st, x) and self.decide(st, x) is True
                   for x in v.args):
                return True
            return None
        if op in ('is', 'eq'):
            a, c = v.args
            if a is c:
                return True
            for x, y in ((a, c), (c, a)):
                if op == 'eq' and isinstance(x, Sym) and x.op == 'cat' and \
                        isinstance(y, Const) and isinstance(y.v, str):
                    i, j = x.args[0], x.args[-1]
                    if isinstance(i, Const) and not y.v.startswith(i.v):
                        return False
                    if isinstance(j, Const) and not y.v.endswith(j.v):
                        return False
            for x, y in ((a, c), (c, a)):
                if isinstance(y, Const):
                    if x in st.eqs:
                        e = st.eqs[x].v
                        if op == 'is' and y.v is None:
                            return e is None
                        try:
                            return bool(e == y.v)
                        except Exception:
                            return None
                    tr = st.facts.get(x)
                    if tr is True and not y.v:
                        return False
                    if tr is False and y.v:
                        return False
                    if y.v is None:
                        if isinstance(x, Sym) and x.op in ('op', 'neg') \
                                and x not in st.eqs:
                            return False
                        t = self.ctype(st, x)
                        if t is not None and t[0] is not None:
                            n = t[0].name if isinstance(t[0], ExtClass) \
                                else ''
                            if n != 'builtins.NoneType':
                                return False
                    elif op == 'eq' and isinstance(y.v, (str, int, float)):
                        t = self.ctype(st, x)
                        if t is not None and isinstance(t[0], ExtClass):
                            from .project import _py_class
                            pc = _py_class(t[0].name)
                            if pc in (str, int, float, bool, bytes, list,
                                      tuple, dict, set):
                                num = (int, float, bool)
                                if (pc in num) != isinstance(y.v, num):
                                    return False
                    s = st.facts.get(S('is', x, NONE))
                    if s is True:
                        return y.v is None
            return None
        if op == 'in':
            a, c = v.args
            if isinstance(c, Tup) and all(isinstance(i, Const)
                                          for i in c.items):
                if a in st.eqs:
                    return any(st.eqs[a].v == i.v for i in c.items)
                if all(self.decide(st, self.mk_eq(a, i)) is False
                       for i in c.items):
                    return False
                if any(self.decide(st, self.mk_eq(a, i)) is True
                       for i in c.items):
                    return True
            return None
        if op == 'isinstance':
            return self.decide_isinstance(st, v.args[0], v.args[1])
        if op == 'gt':
            # len(x) > 0
            a, c = v.args
            if isinstance(a, Sym) and a.op == 'call' and \
                    a.args[0] is X('builtins.len') and c is C(0):
                return self.decide(st, a.args[1])
        if op == 'more':
            it, i = v.args[0], v.args[1]
            n = st.lens.get(it)
            if n is not None and i >= n:
                return False
            # (it, i) True implies (it, j<i) True
            for j in range(i + 1, i + 4):
                if st.facts.get(S('more', it, j)) is True:
                    return True
            for j in range(0, i):
                if st.facts.get(S('more', it, j)) is False:
                    return False
            if isinstance(it, Sym) and i == 0 and it.op in ('param', 'attr',
                                                            'idx', 'field'):
                t = st.facts.get(it)
                if t is False:
                    return False
        t = self.ctype(st, v)
        if t and isinstance(t[0], ClassInfo):
            for n in ('__bool__', '__len__'):
                if isinstance(self.p.find_member(t[0], n)[0], FuncInfo):
                    return None
            if any(isinstance(c, ExtClass) and (
                    c.name.startswith('lxml') or
                    c.name.startswith('collections'))
                    for c in self.p.mro(t[0])):
                return None
            return True
        return None

    def decide_isinstance(self, st, v, tv):
        if isinstance(tv, Tup):
            rs = [self.decide_isinstance(st, v, i) for i in tv.items]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        c = self.as_class(tv)
        if c is None:
            return None
        if v in st.eqs:
            v = st.eqs[v]
        if isinstance(c, ExtClass) and c.name == 'builtins.object':
            return True
        t = self.ctype(st, v)
        if t is None:
            for (kind, other), val in self._isinst_facts(st, v):
                pass
            f = st.facts.get(S('isinstance', v, tv))
            if f is not None:
                return f
            # a negative fact on a superclass
            for k, val in st.facts.items():
                if val is False and k.op == 'isinstance' and k.args[0] is v:
                    oc = k.args[1]
                    ocs = [self.as_class(x) for x in oc.items] \
                        if isinstance(oc, Tup) else [self.as_class(oc)]
                    if any(o is not None and self.p.issub(c, o) is True
                           for o in ocs):
                        return False
            if st.facts.get(S('is', v, NONE)) is True:
                return False
            return None
        k, exact = t
        r = self.p.issub(k, c)
        if r is True:
            return True
        if r is False:
            if exact:
                return False
            r2 = self.p.issub(c, k)
            if r2 is False:
                # a common subclass may exist
                if isinstance(k, ClassInfo) and isinstance(c, ClassInfo):
                    for s in self.p.subclasses(k):
                        if c in self.p.mro(s):
                            return st.facts.get(S('isinstance', v, tv))
                return False
        return st.facts.get(S('isinstance', v, tv))

    def _isinst_facts(self, st, v):
        return ()

    def as_class(self, v):
        if isinstance(v, ClsV):
            return v.ci
        if isinstance(v, ExtV):
            return ExtClass(v.name)
        return None

    def mk_eq(self, a, b):
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return boolv(a.v == b.v)
            except Exception:
                pass
        if isinstance(a, Const):
            a, b = b, a
        return S('eq', a, b)

    def assume(self, st, v, val):
        v, pol = self.norm(v)
        if not pol:
            val = not val
        if isinstance(v, Obj):
            st.facts[S('truth', v, st.ctr.get(('v', v), 0)
                       if self.cont(st, v) is not None else 0)] = val
            return
        if not isinstance(v, Sym):
            return
        st.facts[v] = val
        op = v.op
        if op in ('param', 'op', 'neg', 'call') and self.is_num(st, v):
            # the truth of a number is its difference from zero
            st.facts[S('eq', v, C(0))] = not val
            if not val:
                st.eqs[v] = C(0)
        if op in ('eq', 'is') and val:
            a, c = v.args
            if isinstance(c, Const) and isinstance(a, Sym):
                st.eqs[a] = c
            elif isinstance(a, Const) and isinstance(c, Sym):
                st.eqs[c] = a
        elif op == 'isinstance' and val:
            x, tv = v.args
            c = self.as_class(tv)
            if c is not None and isinstance(x, (Sym, Obj)):
                old = self.ctype(st, x)
                if old is None or self.p.issub(c, old[0]) is True:
                    st.types[x] = (c, False)
        elif op == 'in' and val:
            a, c = v.args
            if isinstance(c, Tup) and len(c.items) == 1 and \
                    isinstance(c.items[0], Const) and isinstance(a, Sym):
                st.eqs[a] = c.items[0]
        elif op == 'gt':
            a, c = v.args
            if isinstance(a, Sym) and a.op == 'call' and \
                    a.args[0] is X('builtins.len') and c is C(0):
                self.assume(st, a.args[1], val)

    def branch(self, st, v, node=None):
        """[(state, bool)]"""
        r = self.decide(st, v)
        if r is not None:
            return [(st, r)]
        res = self.own_truth(st, v, node)
        if res is not None:
            return res
        t = self.ctype(st, v)
        a = st
        b = st.fork()
        self.assume(a, v, True)
        self.assume(b, v, False)
        return [(a, True), (b, False)]

    def own_truth(self, st, v, node):
        """Truth of an object that has a length or truth of its own, when
        its method decides it."""
        x, pol = self.norm(v)
        if not isinstance(x, Obj) or len(self.stack) > 50:
            return None
        t = self.ctype(st, x)
        if not t or not isinstance(t[0], ClassInfo):
            return None
        for n in ('__bool__', '__len__'):
            if isinstance(self.p.find_member(t[0], n)[0], FuncInfo):
                break
        else:
            return None
        res = []
        for s, r in self.call_method(st.fork(), x, n, [], {},
                                     node or t[0].node):
            if isinstance(r, Raised) or s.ctr != st.ctr:
                return None
            d = self.decide(s, r)
            if d is None:
                return None
            res.append((s, d == pol))
        return res or None

    # ------------------------------------------------------------------
    # functions
    def exec_func(self, fi, bind, st, clo):
        """[(state, Val|Raised)]; st.env is replaced by the caller's copy."""
        if len(self.stack) > 60:
            raise Budget('analysis stack too deep in %s' % fi.fq)
        saved = st.env
        saved_y = st.yields
        if clo:
            clo = self.enclosing(fi, clo, st)
        st.env = dict(bind)
        if clo:
            for k, v in clo.items():
                st.env.setdefault(k, v)
        gen = fi.is_generator
        st.yields = () if gen else None
        self.stack.append((fi, fi.module))
        self.closures.append(clo or {})
        self.analysed.add(fi.fq)
        try:
            outs = self.exec_block(fi.node.body, st)
        finally:
            self.stack.pop()
            self.closures.pop()
        res = []
        for s, sig in outs:
            ys = s.yields
            cenv = s.env
            s.env = dict(saved)
            s.yields = saved_y
            nl = getattr(fi, 'nonlocals', None)
            if nl:
                for n in nl:
                    if n in cenv:
                        s.env[n] = cenv[n]
            if sig is not None and sig[0] == 'raise':
                res.append((s, sig[1]))
            elif gen:
                o = self.alloc(s, 'gen', fi.node)
                s.cont[o] = ('list', tuple(ys or ()), None)
                res.append((s, o))
            elif sig is not None and sig[0] == 'return':
                res.append((s, sig[1]))
            else:
                res.append((s, NONE))
        return res

    def enclosing(self, fi, clo, st):
        """The variables of the function a closure was made in, as they are
        when it is called."""
        parent = getattr(fi, 'parent', None)
        if parent is None or not self.stack:
            return clo
        top = self.stack[-1][0]
        if top is parent:
            now = st.env
        elif getattr(top, 'parent', None) is parent and self.closures:
            now = self.closures[-1]
        else:
            return clo
        out = dict(clo)
        out.update(now)
        return out

    def exec_block(self, stmts, st):
        cur = [(st, None)]
        for stmt in stmts:
            nxt = []
            live = False
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                else:
                    live = True
                    nxt.extend(self.exec_stmt(stmt, s))
            cur = nxt
            if len(cur) > self.max_states:
                raise Budget('more than %d paths near %s:%s' % (
                    self.max_states, self.stack[-1][1].relpath,
                    stmt.lineno))
            if not live:
                break
        return cur

    def exec_stmt(self, n, st):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Budget('step limit reached in %s' % (
                self.stack[0][0].fq if self.stack and self.stack[0][0]
                else self.stack[-1][1].name))
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken('unsupported statement %s at %s:%s' % (
                type(n).__name__, self.stack[-1][1].relpath, n.lineno))
        return m(n, st)

    def evs(self, exprs, st):
        """[(state, [vals]) | (state, Raised)]"""
        res = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in res:
                if isinstance(vs, Raised):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s):
                    if isinstance(v, Raised):
                        nxt.append((s2, v))
                    else:
                        nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def raise_(self, st, clsname, node, msg=None):
        c = ExtClass('builtins.' + clsname)
        o = S('exc', clsname, getattr(node, 'lineno', 0))
        st.types[o] = (c, True)
        return Raised(o, c, node)

    # -- statements ------------------------------------------------------
    def x_Pass(self, n, st):
        return [(st, None)]

    def x_Expr(self, n, st):
        return [(s, ('raise', v) if isinstance(v, Raised) else None)
                for s, v in self.ev(n.value, st)]

    def x_Global(self, n, st):
        return [(st, None)]

    def x_Nonlocal(self, n, st):
        fi = self.stack[-1][0]
        if fi is not None:
            fi.nonlocals = set(getattr(fi, 'nonlocals', ())) | set(n.names)
        return [(st, None)]

    def x_Import(self, n, st):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            st.env[nm] = M(self.p.modules[full]) if full in self.p.modules \
                else X(full)
        return [(st, None)]

    def x_ImportFrom(self, n, st):
        mod = self.stack[-1][1]
        src = self.p.resolve_from(mod, n)
        for a in n.names:
            nm = a.asname or a.name
            if src in self.p.modules:
                v = self.global_value(self.p.modules[src], a.name, st)
                if v is None and src + '.' + a.name in self.p.modules:
                    v = M(self.p.modules[src + '.' + a.name])
                st.env[nm] = v if v is not None else S('global', src, a.name)
            else:
                st.env[nm] = X(src + '.' + a.name)
        return [(st, None)]

    def x_FunctionDef(self, n, st):
        st.env[n.name] = self.make_closure(n, st)
        return [(st, None)]

    x_AsyncFunctionDef = x_FunctionDef

    def make_closure(self, n, st):
        fi0, mod = self.stack[-1]
        fi = getattr(n, '_fi', None)
        if fi is None:
            node = n
            if isinstance(n, ast.Lambda):
                node = ast.FunctionDef(
                    name='<lambda>', args=n.args,
                    body=[ast.copy_location(ast.Return(n.body), n)],
                    decorator_list=[], returns=None)
                ast.copy_location(node, n)
                for x in (node, node.body[0]):
                    x._module = mod
            q = (fi0.qualname + '.<locals>.' if fi0 else '') + node.name
            fi = FuncInfo(mod, node, q, None, 'function')
            fi.cls = None
            fi.parent = fi0
            fi.lexcls = getattr(fi0, 'cls', None) or \
                getattr(fi0, 'lexcls', None)
            n._fi = fi
        clo = dict(st.env)
        v = F(fi, None, clo)
        clo[fi.name] = v
        return v

    def x_ClassDef(self, n, st):
        st.env[n.name] = S('localclass', n.name)
        return [(st, None)]

    def x_Return(self, n, st):
        if n.value is None:
            return [(st, ('return', NONE))]
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v)))
            else:
                out.append((s, ('return', v)))
        return out

    def x_Raise(self, n, st):
        if n.exc is None:
            cur = st.env.get('__exc__')
            if isinstance(cur, Raised):
                return [(st, ('raise', cur))]
            return [(st, ('raise', Raised(S('reraise'), None, n)))]
        out = []
        for s, v in self.ev(n.exc, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v)))
                continue
            if isinstance(v, ClsV):
                for s2, v2 in self.instantiate(v.ci, [], {}, s, n):
                    if isinstance(v2, Raised):
                        out.append((s2, ('raise', v2)))
                    else:
                        out.append((s2, self._raise_sig(s2, v2, n)))
                continue
            if isinstance(v, ExtV):
                o = S('call', v)
                s.types[o] = (ExtClass(v.name), True)
                v = o
            out.append((s, self._raise_sig(s, v, n)))
        return out

    def _raise_sig(self, s, v, n):
        t = self.ctype(s, v)
        c = t[0] if t else None
        self.emit(s, Event('raise', getattr(c, 'fq', '?'), v, node=n,
                           caller=self.caller()))
        return ('raise', Raised(v, c, n))

    def x_Assert(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v)))
                continue
            for s2, b in self.branch(s, v):
                out.append((s2, None if b else (
                    'raise', self.raise_(s2, 'AssertionError', n))))
        return out

    def x_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v)))
                continue
            cur = [(s, None)]
            for t in n.targets:
                nxt = []
                for s2, sig in cur:
                    if sig is not None:
                        nxt.append((s2, sig))
                    else:
                        nxt.extend(self.assign(t, v, s2))
                cur = nxt
            out.extend(cur)
        return out

    def x_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v)))
            else:
                out.extend(self.assign(n.target, v, s))
        return out

    def assign(self, t, v, st):
        """[(state, sig)]"""
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            fi = self.stack[-1][0]
            if fi is not None and _declared_global(fi, t.id):
                self.emit(st, Event('setglobal', t.id, None, (v,), node=t,
                                    caller=fi))
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st)
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st):
                if isinstance(o, Raised):
                    out.append((s, ('raise', o)))
                else:
                    for s2, r in self.setattr_(s, o, t.attr, v, t):
                        out.append((s2, ('raise', r)
                                    if isinstance(r, Raised) else None))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, r in self.evs([t.value, t.slice], st):
                if isinstance(r, Raised):
                    out.append((s, ('raise', r)))
                    continue
                for s2, r2 in self.setitem(s, r[0], r[1], v, t):
                    out.append((s2, ('raise', r2)
                                if isinstance(r2, Raised) else None))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        raise AnalysisBroken('unsupported target %s' % type(t).__name__)

    def unpack(self, t, v, st):
        elts = t.elts
        items = None
        if isinstance(v, Tup):
            items = list(v.items)
        elif isinstance(v, Obj):
            c = self.cont(st, v)
            if c is not None and c[2] is None and c[0] != 'dict':
                items = list(c[1])
        elif isinstance(v, Const) and isinstance(v.v, str):
            items = [C(ch) for ch in v.v]
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if items is None:
            vals = []
            if star:
                k = star[0]
                for i in range(len(elts)):
                    if i < k:
                        vals.append(S('idx', v, C(i)))
                    elif i == k:
                        vals.append(S('slice', v, C(k),
                                      C(k + 1 - len(elts))))
                    else:
                        vals.append(S('idx', v, C(i - len(elts))))
            else:
                vals = [S('idx', v, C(i)) for i in range(len(elts))]
        else:
            if star:
                k = star[0]
                tail = len(elts) - k - 1
                if len(items) < len(elts) - 1:
                    return [(st, ('raise', self.raise_(st, 'ValueError', t)))]
                mid = items[k:len(items) - tail]
                vals = items[:k] + [self.new_list(st, mid, t)] + \
                    (items[len(items) - tail:] if tail else [])
            else:
                if len(items) != len(elts):
                    return [(st, ('raise', self.raise_(st, 'ValueError', t)))]
                vals = items
        cur = [(st, None)]
        for e, x in zip(elts, vals):
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                else:
                    nxt.extend(self.assign(
                        e.value if isinstance(e, ast.Starred) else e, x, s))
            cur = nxt
        return cur

    def x_AugAssign(self, n, st):
        opn, fn, _, _, iname = _BINOPS[type(n.op)]
        load = _as_load(n.target)
        out = []
        for s, r in self.evs([load, n.value], st):
            if isinstance(r, Raised):
                out.append((s, ('raise', r)))
                continue
            a, b = r
            t = self.ctype(s, a)
            if t and isinstance(t[0], ClassInfo) and isinstance(
                    self.p.find_member(t[0], iname)[0], FuncInfo):
                res = []
                for s2, v in self.call_method(s, a, iname, [b], {}, n):
                    if v is NOTIMPL:
                        res.extend(self.binop(s2, n.op, a, b, n))
                    else:
                        res.append((s2, v))
            elif isinstance(a, Obj) and self.cont(s, a) is not None and \
                    a.kind in ('list', 'set', 'dict'):
                self.emit(s, Event('mutate', iname, a, (b,), node=n,
                                   caller=self.caller()))
                if a.kind == 'list' and opn == '+':
                    self._list_extend(s, a, b)
                else:
                    c = self.cont(s, a)
                    s.cont[a] = (c[0], c[1], True)
                res = [(s, a)]
            elif arrays.is_array(a):
                self.emit(s, Event('mutate', iname, a, (b,), node=n,
                                   caller=self.caller()))
                r = arrays.binop(self, s, opn, a, b, n)
                if r is not None and self.field(s, r, '@shape') is \
                        self.field(s, a, '@shape'):
                    s.cont[a] = self.cont(s, r)
                else:
                    c = self.cont(s, a)
                    s.cont[a] = (c[0], tuple(S('modified', x, id(n))
                                             for x in c[1]), None)
                res = [(s, a)]
            else:
                if isinstance(a, Sym) and not self._immutable(s, a, b):
                    self.emit(s, Event('aug', iname, a, (b,), node=n,
                                       caller=self.caller()))
                res = self.binop(s, n.op, a, b, n)
            for s2, v in res:
                if isinstance(v, Raised):
                    out.append((s2, ('raise', v)))
                else:
                    out.extend(self.assign(n.target, v, s2))
        return out

    def _immutable(self, st, a, b):
        t = self.ctype(st, a)
        if t and isinstance(t[0], ExtClass):
            return t[0].name in ('builtins.int', 'builtins.float',
                                 'builtins.str', 'builtins.tuple',
                                 'builtins.bool', 'builtins.bytes')
        tb = self.ctype(st, b)
        if tb and isinstance(tb[0], ExtClass):
            return tb[0].name in ('builtins.int', 'builtins.float',
                                  'builtins.str', 'builtins.tuple',
                                  'builtins.bool', 'builtins.bytes')
        return False

    def x_Delete(self, n, st):
        cur = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                    continue
                nxt.extend(self._delete(t, s))
            cur = nxt
        return cur

    def _delete(self, t, st):
        if isinstance(t, ast.Name):
            st.env.pop(t.id, None)
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [(st, None)]
            for e in t.elts:
                nxt = []
                for s, sig in cur:
                    nxt.extend(self._delete(e, s) if sig is None
                               else [(s, sig)])
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st):
                if isinstance(o, Raised):
                    out.append((s, ('raise', o)))
                    continue
                ty = self.ctype(s, o)
                if ty and isinstance(ty[0], ClassInfo):
                    m = self.p.find_member(ty[0], t.attr)[0]
                    if isinstance(m, PropInfo) and m.deleter:
                        for s2, r in self.invoke(m.deleter, o, [], {}, s, t):
                            out.append((s2, ('raise', r) if isinstance(
                                r, Raised) else None))
                        continue
                self.emit(s, Event('delattr', t.attr, o, node=t,
                                   caller=self.caller()))
                s.fields.pop((o, t.attr), None)
                out.append((s, None))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, r in self.evs([t.value, t.slice], st):
                if isinstance(r, Raised):
                    out.append((s, ('raise', r)))
                    continue
                for s2, r2 in self.delitem(s, r[0], r[1], t):
                    out.append((s2, ('raise', r2) if isinstance(r2, Raised)
                                else None))
            return out
        raise AnalysisBroken('unsupported del target')

    def x_If(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v)))
                continue
            for s2, b in self.branch(s, v, n):
                out.extend(self.exec_block(n.body if b else n.orelse, s2))
        return self.merge(out)

    def merge(self, outs):
        """Drops duplicate states (same everything, facts intersected)."""
        if len(outs) < 2 or self.keep_facts:
            return outs
        seen = {}
        res = []
        for s, sig in outs:
            k = (id(s.events), _sigkey(sig), _dkey(s.env), _dkey(s.fields),
                 _dkey(s.cont), s.yields, s.tryd)
            try:
                o = seen.get(k)
            except TypeError:
                res.append((s, sig))
                continue
            if o is None:
                seen[k] = s
                res.append((s, sig))
            else:
                o.facts = {a: b for a, b in o.facts.items()
                           if s.facts.get(a) is b}
                o.eqs = {a: b for a, b in o.eqs.items()
                         if s.eqs.get(a) is b}
                o.types = {a: b for a, b in o.types.items()
                           if s.types.get(a) == b}
                for a, b in s.ctr.items():
                    if b > o.ctr.get(a, 0):
                        o.ctr[a] = b
        return res

    def x_While(self, n, st):
        out = []
        cur = [(st, 0, 0)]      # state, undetermined iterations, total
        while cur:
            nxt = []
            for s, und, tot in cur:
                self.steps += 1
                if self.steps > self.step_limit:
                    raise Budget('step limit in while at %s:%s' % (
                        self.stack[-1][1].relpath, n.lineno))
                forced = isinstance(n.test, ast.Constant)
                for s1, v in self.ev(n.test, s):
                    if isinstance(v, Raised):
                        out.append((s1, ('raise', v)))
                        continue
                    det = self.decide(s1, v)
                    if det is None and und >= self.loop_bound:
                        # leave without recording a fact
                        out.extend(self.exec_block(n.orelse, s1))
                        continue
                    for s2, b in self.branch(s1, v, n):
                        if not b:
                            out.extend(self.exec_block(n.orelse, s2))
                            continue
                        lim = (self.loop_bound + 1) if forced \
                            else self.max_loop
                        if tot >= lim:
                            self.emit(s2, Event('loopcut', 'while', node=n,
                                                caller=self.caller()))
                            out.append((s2, None))
                            continue
                        for s3, sig in self.exec_block(n.body, s2):
                            if sig is None or sig[0] == 'continue':
                                nxt.append((s3, und + (det is None),
                                            tot + 1))
                            elif sig[0] == 'break':
                                out.append((s3, None))
                            else:
                                out.append((s3, sig))
            if len(nxt) > self.max_states:
                raise Budget('too many loop states at line %s' % n.lineno)
            if len(nxt) > 1:
                by = {}
                for s, und, tot in nxt:
                    by.setdefault((und, tot), []).append((s, None))
                nxt = [(s, u, t_) for (u, t_), l in by.items()
                       for s, _ in self.merge(l)]
            cur = nxt
        return self.merge(out)

    def x_For(self, n, st):
        out = []
        for s, it in self.ev(n.iter, st):
            if isinstance(it, Raised):
                out.append((s, ('raise', it)))
                continue
            def body(s2, elem):
                res = []
                for s3, sig in self.assign(n.target, elem, s2):
                    if sig is not None:
                        res.append((s3, sig))
                    else:
                        res.extend(self.exec_block(n.body, s3))
                return res
            done, brk = self.loop(s, it, body, n)
            for s2, sig in done:
                if sig is None:
                    out.extend(self.exec_block(n.orelse, s2))
                else:
                    out.append((s2, sig))
            out.extend(brk)
        return self.merge(out)

    def loop(self, st, it, body, node):
        """Runs body over the elements of `it`.
        Returns (finished [(st, sig)], broken out [(st, None)])."""
        brk = []
        done = []
        for s0, stream in self.stream(st, it, node):
            if isinstance(stream, Raised):
                done.append((s0, ('raise', stream)))
                continue
            known, sym = stream
            cur = [(s0, None)]
            for elem in known:
                nxt = []
                for s, _ in cur:
                    for s2, sig in body(s, elem):
                        if sig is None or sig[0] == 'continue':
                            nxt.append((s2, None))
                        elif sig[0] == 'break':
                            brk.append((s2, None))
                        else:
                            done.append((s2, sig))
                cur = self.merge(nxt)
                if len(cur) > self.max_states:
                    raise Budget('too many loop states at line %s'
                                 % getattr(node, 'lineno', '?'))
            if sym is None:
                done.extend(cur)
                continue
            key, elemf = sym
            for i in range(self.loop_bound + 1):
                nxt = []
                for s, _ in cur:
                    if i == self.loop_bound:
                        # assume exhausted
                        done.append((s, None))
                        continue
                    for s2, b in self.branch(s, S('more', key, i)):
                        if not b:
                            done.append((s2, None))
                            continue
                        for s3, sig in body(s2, elemf(i, s2)):
                            if sig is None or sig[0] == 'continue':
                                nxt.append((s3, None))
                            elif sig[0] == 'break':
                                brk.append((s3, None))
                            else:
                                done.append((s3, sig))
                cur = self.merge(nxt)
                if len(cur) > self.max_states:
                    raise Budget('too many loop states at line %s'
                                 % getattr(node, 'lineno', '?'))
        return done, brk

    def stream(self, st, it, node):
        """[(state, (known list, None | (key, elem fn)))]"""
        if it in st.eqs:
            it = st.eqs[it]
        if self.on_items is not None and isinstance(it, Sym):
            r = self.on_items(self, st, it)
            if r is not None:
                return [(st, (list(r), None))]
        if isinstance(it, Tup):
            return [(st, (list(it.items), None))]
        if isinstance(it, Const):
            if isinstance(it.v, (str, bytes)):
                return [(st, ([C(x) for x in it.v], None))]
            return [(st, self.raise_(st, 'TypeError', node))]
        if isinstance(it, Obj):
            c = self.cont(st, it)
            if c is not None:
                if c[0] == 'dict':
                    known = [k for k, _ in c[1]]
                else:
                    known = list(c[1])
                if c[2] is None:
                    return [(st, (known, None))]
                if isinstance(c[2], Val):
                    t = c[2]
                    sub = self.stream(st, t, node)
                    if len(sub) == 1 and not isinstance(sub[0][1], Raised):
                        k2, sy = sub[0][1]
                        return [(st, (known + k2, sy))]
                return [(st, (known, (it, lambda i, s: S('elem', it, i))))]
        if isinstance(it, ClsV):
            return [(st, ([], (it, lambda i, s: S('elem', it, i))))]
        t = self.ctype(st, it)
        if t and isinstance(t[0], ClassInfo) and \
                isinstance(it, (Obj, Sym)):
            m = self.p.find_member(t[0], '__iter__')[0]
            if isinstance(m, FuncInfo) and self.can_inline(m):
                out = []
                for s, v in self.invoke(m, it, [], {}, st, node):
                    if isinstance(v, Raised):
                        out.append((s, v))
                    elif v is it:
                        out.append((s, ([], (it, lambda i, s_:
                                             S('elem', it, i)))))
                    else:
                        out.extend(self.stream(s, v, node))
                return out
        if isinstance(it, Sym) and it.op == 'call' and \
                isinstance(it.args[0], ExtV):
            fn = it.args[0].name
            a = [x for x in it.args[1:]]
            if fn == 'builtins.iter' and a:
                return self.stream(st, a[0], node)
            if fn == 'builtins.enumerate' and a:
                out = []
                start = a[1].v if len(a) > 1 and isinstance(a[1], Const) \
                    else 0
                for s, r in self.stream(st, a[0], node):
                    if isinstance(r, Raised):
                        out.append((s, r))
                        continue
                    known, sym = r
                    nk = len(known)
                    kn = [T([C(i + start), x]) for i, x in enumerate(known)]
                    sy = None
                    if sym:
                        sy = (sym[0], lambda i, s_, f=sym[1], nk=nk: T(
                            [C(i + nk + start), f(i, s_)]))
                    out.append((s, (kn, sy)))
                return out
            if fn == 'builtins.reversed' and a:
                out = []
                for s, r in self.stream(st, a[0], node):
                    if isinstance(r, Raised):
                        out.append((s, r))
                        continue
                    known, sym = r
                    if sym is None:
                        out.append((s, (known[::-1], None)))
                    else:
                        # order reversed: element identities from the end
                        out.append((s, ([], (it, lambda i, s_, k=a[0]:
                                             S('elem', k, -1 - i)))))
                return out
            if fn == 'builtins.zip':
                streams = []
                ok = True
                for x in a:
                    r = self.stream(st, x, node)
                    if len(r) != 1 or isinstance(r[0][1], Raised):
                        ok = False
                        break
                    streams.append(r[0][1])
                if ok and streams:
                    syms = [s_ for s_ in streams if s_[1] is not None]
                    if not syms and len(a) > 1 and len(set(a)) == 1 and \
                            isinstance(a[0], Obj) and a[0].kind == 'gen':
                        # one iterator, taken from by turns
                        one = [iter(streams[0][0])] * len(a)
                        return [(st, ([T(z) for z in zip(*one)], None))]
                    if not syms:
                        return [(st, ([T(z) for z in
                                       zip(*[k for k, _ in streams])],
                                      None))]

                    def zelem(i, s_, streams=streams):
                        vs = []
                        for kn, sy in streams:
                            if i < len(kn):
                                vs.append(kn[i])
                            elif sy is not None:
                                vs.append(sy[1](i - len(kn), s_))
                            else:
                                vs.append(S('elem', it, i))
                        return T(vs)
                    return [(st, ([], (it, zelem)))]
            if fn == 'builtins.range' and all(
                    isinstance(x, Const) for x in a):
                try:
                    r = range(*[x.v for x in a])
                    if len(r) <= 300:
                        return [(st, ([C(i) for i in r], None))]
                except Exception:
                    pass
        if isinstance(it, Sym) and it.op == 'call' and \
                isinstance(it.args[0], BoundV):
            nm = it.args[0].name
            rc = it.args[0].recv
            if nm == 'items' and len(it.args) == 1:
                return [(st, ([], (rc, lambda i, s: T(
                    [S('elem', rc, i), S('idx', rc, S('elem', rc, i))]))))]
            if nm == 'keys' and len(it.args) == 1:
                return [(st, ([], (rc, lambda i, s: S('elem', rc, i))))]
            if nm == 'values' and len(it.args) == 1:
                return [(st, ([], (rc, lambda i, s: S(
                    'idx', rc, S('elem', rc, i)))))]
        return [(st, ([], (it, lambda i, s: self._elem(s, it, i))))]

    def _elem(self, st, it, i):
        e = S('elem', it, i)
        et = self.field_types.get(('elem', it))
        if et is not None and e not in st.types:
            st.types[e] = et
        return e

    def x_Break(self, n, st):
        return [(st, ('break',))]

    def x_Continue(self, n, st):
        return [(st, ('continue',))]

    def x_With(self, n, st):
        def rec(items, s):
            if not items:
                return self.exec_block(n.body, s)
            out = []
            it = items[0]
            for s1, v in self.ev(it.context_expr, s):
                if isinstance(v, Raised):
                    out.append((s1, ('raise', v)))
                    continue
                self.emit(s1, Event('with_enter', 'with', v,
                                    node=it.context_expr,
                                    caller=self.caller()))
                res = [(s1, None)]
                if it.optional_vars is not None:
                    val = v
                    t = self.ctype(s1, v)
                    if not (isinstance(v, Sym) and v.op == 'call'):
                        val = S('enter', v)
                    res = self.assign(it.optional_vars, val, s1)
                for s2, sig in res:
                    if sig is not None:
                        out.append((s2, sig))
                        continue
                    for s3, sig3 in rec(items[1:], s2):
                        self.emit(s3, Event('with_exit', 'with', v,
                                            node=it.context_expr,
                                            caller=self.caller()))
                        out.append((s3, sig3))
            return out
        return rec(n.items, st)

    def x_Try(self, n, st):
        st.tryd += 1
        outs = self.exec_block(n.body, st)
        res = []
        for s, sig in outs:
            s.tryd -= 1
            if sig is None:
                if n.orelse:
                    res.extend(self.exec_block(n.orelse, s))
                else:
                    res.append((s, None))
            elif sig[0] == 'raise' and n.handlers:
                res.extend(self.handle(n, s, sig))
            else:
                res.append((s, sig))
        if not n.finalbody:
            return self.merge(res)
        out = []
        for s, sig in res:
            for s2, sig2 in self.exec_block(n.finalbody, s):
                out.append((s2, sig2 if sig2 is not None else sig))
        return self.merge(out)

    def handle(self, n, s, sig):
        r = sig[1]
        out = []
        for h in n.handlers:
            if h.type is None:
                match = True
                tv = None
            else:
                evd = self.ev(h.type, s)
                if len(evd) != 1 or isinstance(evd[0][1], Raised):
                    match = None
                    tv = None
                else:
                    s, tv = evd[0]
                    match = self.exc_match(r.cls, tv)
            if match is False:
                continue
            s2 = s.fork() if match is None or r.cls is None else s
            if h.name:
                s2.env[h.name] = r.exc if isinstance(r.exc, Val) \
                    else S('exc', '?')
            old = s2.env.get('__exc__')
            s2.env['__exc__'] = r
            for s3, sig3 in self.exec_block(h.body, s2):
                if old is None:
                    s3.env.pop('__exc__', None)
                else:
                    s3.env['__exc__'] = old
                out.append((s3, sig3))
            if match is True and r.cls is not None:
                return out
            if match is True:
                # unknown exception class, catch-all or assumed caught
                return out
        if r.cls is None and out:
            return out
        out.append((s, sig))
        return out

    def exc_match(self, cls, tv):
        if isinstance(tv, Tup):
            rs = [self.exc_match(cls, x) for x in tv.items]
            if any(x is True for x in rs):
                return True
            if all(x is False for x in rs):
                return False
            return None
        c = self.as_class(tv)
        if c is None:
            return None
        if cls is None:
            if c.fq in ('builtins.Exception', 'builtins.BaseException'):
                return True
            return None
        if isinstance(cls, ExtClass) and isinstance(c, ExtClass):
            r = self.p.issub(cls, c)
            return r
        if isinstance(cls, ClassInfo) and isinstance(c, ExtClass):
            for k in self.p.mro(cls):
                if isinstance(k, ExtClass) and self.p.issub(k, c):
                    return True
            return False
        return bool(self.p.issub(cls, c))

    def x_Match(self, n, st):
        out = []
        for s, v in self.ev(n.subject, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v)))
                continue
            cur = [s]
            for case in n.cases:
                nxt = []
                for s1 in cur:
                    for s2, b in self.match_pat(case.pattern, v, s1):
                        if not b:
                            nxt.append(s2)
                            continue
                        if case.guard is not None:
                            for s3, g in self.ev(case.guard, s2):
                                if isinstance(g, Raised):
                                    out.append((s3, ('raise', g)))
                                    continue
                                for s4, gb in self.branch(s3, g):
                                    if gb:
                                        out.extend(self.exec_block(
                                            case.body, s4))
                                    else:
                                        nxt.append(s4)
                        else:
                            out.extend(self.exec_block(case.body, s2))
                cur = nxt
            out.extend((s1, None) for s1 in cur)
        return self.merge(out)

    def match_pat(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, x in self.ev(p.value, st):
                if isinstance(x, Raised):
                    continue
                for s1, c in self.compare(s, 'eq', v, x, p):
                    out.extend(self.branch(s1, c))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch(st, self.cmp_is(st, v, C(p.value)))
        if isinstance(p, ast.MatchOr):
            out = []
            cur = [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, b in self.match_pat(q, v, s):
                        if b:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st.env[p.name] = v
                return [(st, True)]
            out = []
            for s, b in self.match_pat(p.pattern, v, st):
                if b and p.name:
                    s.env[p.name] = v
                out.append((s, b))
            return out
        if isinstance(p, ast.MatchClass) and not p.patterns and \
                not p.kwd_patterns:
            out = []
            for s, c in self.ev(p.cls, st):
                if not isinstance(c, Raised):
                    out.extend(self.branch(s, S('isinstance', v, c)))
            return out
        if isinstance(p, ast.MatchSequence) and isinstance(v, Tup) and not \
                any(isinstance(q, ast.MatchStar) for q in p.patterns):
            if len(v.items) != len(p.patterns):
                return [(st, False)]
            out = []
            cur = [st]
            for q, x in zip(p.patterns, v.items):
                nxt = []
                for s in cur:
                    for s2, b in self.match_pat(q, x, s):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
                cur = nxt
            return out + [(s, True) for s in cur]
        return self.branch(st, S('match', v, id(p)))

    # -- expressions -------------------------------------------------------
    def ev(self, n, st):
        self.steps += 1
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return [(st, S('unknown', id(n)))]
        return m(n, st)

    def e_Constant(self, n, st):
        return [(st, C(n.value))]

    def e_Name(self, n, st):
        v = st.env.get(n.id)
        if v is not None and not isinstance(v, Raised):
            return [(st, v)]
        mod = self.stack[-1][1]
        g = self.global_value(mod, n.id, st)
        if g is None:
            if hasattr(builtins, n.id):
                if n.id == 'NotImplemented':
                    return [(st, X('builtins.NotImplemented'))]
                return [(st, X('builtins.' + n.id))]
            # unbound local (e.g. assigned on another path)
            return [(st, S('unbound', n.id))]
        return [(st, g)]

    def e_NamedExpr(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            if not isinstance(v, Raised):
                s.env[n.target.id] = v
            out.append((s, v))
        return out

    def e_JoinedStr(self, n, st):
        exprs = []
        for p in n.values:
            exprs.append(p)
        res = []
        for s, vs in self.evs([p.value if isinstance(p, ast.FormattedValue)
                               else p for p in exprs], st):
            if isinstance(vs, Raised):
                res.append((s, vs))
                continue
            if all(isinstance(v, Const) for v in vs) and all(
                    not isinstance(p, ast.FormattedValue) or (
                        p.format_spec is None and p.conversion == -1)
                    for p in exprs):
                res.append((s, C(''.join(str(v.v) for v in vs))))
            elif all(not isinstance(p, ast.FormattedValue) or (
                    p.format_spec is None and p.conversion in (-1, 115))
                    for p in exprs):
                res.append((s, self.mkcat(s, vs)))
            else:
                res.append((s, S('fstr', *vs)))
        return res

    def mkcat(self, st, parts):
        """Text made of parts, flattened, adjacent constants merged."""
        flat = []
        for v in parts:
            v = st.eqs.get(v, v)
            if isinstance(v, Sym) and v.op == 'call' and len(v.args) == 2 \
                    and v.args[0] is X('builtins.str'):
                v = v.args[1]
            for x in (v.args if isinstance(v, Sym) and v.op == 'cat'
                      else [v]):
                if isinstance(x, Const):
                    x = C(str(x.v))
                    if not x.v:
                        continue
                    if flat and isinstance(flat[-1], Const):
                        flat[-1] = C(flat[-1].v + x.v)
                        continue
                elif isinstance(x, Obj):
                    x = self.freeze(st, x)
                flat.append(x)
        if not flat:
            return C('')
        if len(flat) == 1:
            if isinstance(flat[0], Const) or self.is_str(st, flat[0]):
                return flat[0]
        return S('cat', *flat)

    def is_str(self, st, v):
        t = self.ctype(st, v)
        return bool(t and isinstance(t[0], ExtClass)
                    and t[0].name == 'builtins.str')

    def fmt_parts(self, tmpl, args, kw):
        """Parts of a str.format() call with plain fields, or None."""
        import string
        out = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(tmpl):
                if lit:
                    out.append(C(lit))
                if field is None:
                    continue
                if spec or conv not in (None, 's'):
                    return None
                if field == '':
                    out.append(args[auto])
                    auto += 1
                elif field.isdigit():
                    out.append(args[int(field)])
                elif field in kw:
                    out.append(kw[field])
                else:
                    return None
        except (ValueError, IndexError):
            return None
        return out

    def pct_parts(self, tmpl, b):
        args = list(b.items) if isinstance(b, Tup) else [b]
        out = []
        parts = tmpl.replace('%%', '\0').split('%')
        if parts[0]:
            out.append(C(parts[0].replace('\0', '%')))
        if len(parts) - 1 != len(args):
            return None
        for x, a in zip(parts[1:], args):
            if not x.startswith('s'):
                return None
            out.append(a)
            if x[1:]:
                out.append(C(x[1:].replace('\0', '%')))
        return out

    def e_Tuple(self, n, st):
        return self._seq(n, st, 'tuple')

    def e_List(self, n, st):
        return self._seq(n, st, 'list')

    def e_Set(self, n, st):
        return self._seq(n, st, 'set')

    def _seq(self, n, st, kind):
        out = []
        exprs = [e.value if isinstance(e, ast.Starred) else e
                 for e in n.elts]
        for s, vs in self.evs(exprs, st):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            items = []
            tail = None
            for e, v in zip(n.elts, vs):
                if isinstance(e, ast.Starred):
                    k = self.known_items(s, v)
                    if k is None:
                        tail = v if tail is None else True
                    else:
                        if tail is not None:
                            tail = True
                        items.extend(k)
                else:
                    if tail is not None:
                        tail = True
                    items.append(v)
            if kind == 'tuple' and tail is None:
                out.append((s, T(items)))
            else:
                k = 'list' if kind == 'tuple' else kind
                if k == 'set':
                    items = list(dict.fromkeys(items))
                out.append((s, self.new_list(s, items, n, tail, k)))
        return out

    def known_items(self, st, v):
        if self.on_items is not None and isinstance(v, Sym):
            r = self.on_items(self, st, v)
            if r is not None:
                return list(r)
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Const) and isinstance(v.v, str):
            return [C(x) for x in v.v]
        if isinstance(v, Obj):
            c = self.cont(st, v)
            if c is not None and c[2] is None:
                if c[0] == 'dict':
                    return [k for k, _ in c[1]]
                return list(c[1])
            if c is not None:
                return None
        if isinstance(v, Sym) and v.op == 'call' and \
                isinstance(v.args[0], ExtV) and v.args[0].name in (
                    'builtins.range', 'builtins.zip', 'builtins.enumerate',
                    'builtins.reversed', 'builtins.iter'):
            r = self.stream(st, v, None)
            if len(r) == 1 and not isinstance(r[0][1], Raised) and \
                    r[0][1][1] is None:
                return list(r[0][1][0])
        return None

    def e_Dict(self, n, st):
        out = []
        exprs = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        for s, vs in self.evs(exprs, st):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            items = {}
            tail = None
            i = 0
            for k in n.keys:
                if k is None:
                    c = self.cont(s, vs[i]) if isinstance(vs[i], Obj) \
                        else None
                    if c is not None and c[0] == 'dict':
                        items.update(c[1])
                        tail = tail or c[2]
                    else:
                        tail = vs[i] if tail is None else True
                    i += 1
                else:
                    items[vs[i]] = vs[i + 1]
                    i += 2
            out.append((s, self.new_dict(s, items.items(), n, tail)))
        return out

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        cur = [(st, None)]
        out = []
        for i, e in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s, _ in cur:
                for s1, v in self.ev(e, s):
                    if isinstance(v, Raised) or last:
                        out.append((s1, v))
                        continue
                    for s2, b in self.branch(s1, v, e):
                        if b == is_and:
                            nxt.append((s2, None))
                        else:
                            # short circuit
                            if isinstance(v, Sym) and not b and \
                                    v.op in ('eq', 'is', 'in', 'isinstance',
                                             'lt', 'le', 'gt', 'ge', 'not'):
                                v2 = FALSE
                            elif isinstance(v, Sym) and b and \
                                    v.op in ('eq', 'is', 'in', 'isinstance',
                                             'lt', 'le', 'gt', 'ge', 'not'):
                                v2 = TRUE
                            else:
                                v2 = v
                            out.append((s2, v2))
            cur = nxt
        return out

    def e_UnaryOp(self, n, st):
        out = []
        for s, v in self.ev(n.operand, st):
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            if isinstance(n.op, ast.Not):
                d = self.decide(s, v)
                if d is not None:
                    out.append((s, boolv(not d)))
                elif isinstance(v, Sym) and v.op == 'not':
                    x = v.args[0]
                    out.append((s, x if isinstance(x, Sym) and x.op in (
                        'eq', 'is', 'in', 'isinstance') else S('not', v)))
                else:
                    out.append((s, S('not', v)))
                continue
            name = {ast.USub: '__neg__', ast.UAdd: '__pos__',
                    ast.Invert: '__invert__'}[type(n.op)]
            if isinstance(v, Const):
                try:
                    f = {ast.USub: operator.neg, ast.UAdd: operator.pos,
                         ast.Invert: operator.invert}[type(n.op)]
                    out.append((s, C(f(v.v))))
                    continue
                except TypeError:
                    out.append((s, self.raise_(s, 'TypeError', n)))
                    continue
            t = self.ctype(s, v)
            if t and isinstance(t[0], ClassInfo) and isinstance(
                    self.p.find_member(t[0], name)[0], FuncInfo):
                out.extend(self.call_method(s, v, name, [], {}, n))
            elif name == '__neg__' and arrays.is_array(v) and \
                    arrays.shape_items(self, s, v) is not None:
                out.append((s, arrays.negated(self, s, v, n)))
            else:
                if name == '__neg__' and isinstance(v, Sym) and v.op == 'neg':
                    out.append((s, v.args[0]))
                else:
                    out.append((s, S({'__neg__': 'neg', '__pos__': 'pos',
                                      '__invert__': 'inv'}[name], v)))
        return out

    def e_BinOp(self, n, st):
        out = []
        for s, r in self.evs([n.left, n.right], st):
            if isinstance(r, Raised):
                out.append((s, r))
            else:
                out.extend(self.binop(s, n.op, r[0], r[1], n))
        return out

    def binop(self, st, op, a, b, node):
        sym, fn, m, rm, _ = _BINOPS[type(op)]
        a = st.eqs.get(a, a)
        b = st.eqs.get(b, b)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                r = fn(a.v, b.v)
                if isinstance(r, (str, bytes)) and len(r) > 20000:
                    return [(st, S('op', sym, a, b))]
                return [(st, C(r))]
            except TypeError:
                return [(st, self.raise_(st, 'TypeError', node))]
            except ZeroDivisionError:
                return [(st, self.raise_(st, 'ZeroDivisionError', node))]
            except Exception:
                return [(st, S('op', sym, a, b))]
        ta = self.ctype(st, a)
        tb = self.ctype(st, b)
        refl = tb and isinstance(tb[0], ClassInfo) and isinstance(
            self.p.find_member(tb[0], rm)[0], FuncInfo)
        if ta and isinstance(ta[0], ClassInfo) and isinstance(
                self.p.find_member(ta[0], m)[0], FuncInfo):
            out = []
            for s, v in self.call_method(st, a, m, [b], {}, node):
                if v is not NOTIMPL:
                    out.append((s, v))
                elif refl:
                    out.extend(self._reflected(s, a, b, rm, node))
                elif tb is None:
                    out.append((s, S('op', sym, a, b)))
                else:
                    out.append((s, self.raise_(s, 'TypeError', node)))
            return out
        if refl:
            return self._reflected(st, a, b, rm, node)
        if arrays.is_array(a) or arrays.is_array(b):
            r = arrays.binop(self, st, sym, a, b, node)
            if r is not None:
                return [(st, r)]
        if sym == '+':
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, T(a.items + b.items))]
            if isinstance(a, Obj) and isinstance(b, Obj):
                ca, cb = self.cont(st, a), self.cont(st, b)
                if ca and cb and ca[0] == cb[0] == 'list':
                    if ca[2] is None:
                        return [(st, self.new_list(
                            st, ca[1] + cb[1], node, cb[2]))]
                    return [(st, self.new_list(st, ca[1] + cb[1], node,
                                               True))]
        if sym == '|' and isinstance(a, Obj) and isinstance(b, Obj):
            ca, cb = self.cont(st, a), self.cont(st, b)
            if ca and cb and ca[0] == cb[0]:
                tail = ca[2] or cb[2]
                if ca[0] == 'dict':
                    d = dict(ca[1])
                    d.update(cb[1])
                    return [(st, self.new_dict(st, d.items(), node, tail))]
                if ca[0] == 'set':
                    return [(st, self.new_list(st, list(dict.fromkeys(
                        ca[1] + cb[1])), node, tail, 'set'))]
        if sym in '-&' and isinstance(a, Obj) and isinstance(b, Obj):
            ca, cb = self.cont(st, a), self.cont(st, b)
            if ca and cb and ca[0] == cb[0] == 'set' and ca[2] is None and \
                    cb[2] is None:
                keep = [x for x in ca[1] if (x in cb[1]) == (sym == '&')]
                return [(st, self.new_list(st, keep, node, None, 'set'))]
        if sym == '*':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Const) and isinstance(y.v, int) and \
                        0 <= y.v <= 64:
                    if isinstance(x, Tup):
                        return [(st, T(x.items * y.v))]
                    if isinstance(x, Obj):
                        c = self.cont(st, x)
                        if c and c[0] == 'list' and c[2] is None:
                            return [(st, self.new_list(st, c[1] * y.v,
                                                       node))]
        if sym == '%' and isinstance(a, Const) and isinstance(a.v, str) and \
                isinstance(b, Tup) and all(isinstance(x, Const)
                                           for x in b.items):
            try:
                return [(st, C(a.v % tuple(x.v for x in b.items)))]
            except Exception:
                pass
        if sym == '%' and isinstance(a, Const) and isinstance(a.v, str):
            ps = self.pct_parts(a.v, b)
            if ps is not None:
                return [(st, self.mkcat(st, ps))]
        if isinstance(a, Obj):
            a = self.freeze(st, a)
        if isinstance(b, Obj):
            b = self.freeze(st, b)
        if sym == '+' and (self.is_str(st, a) or self.is_str(st, b)):
            return [(st, self.mkcat(st, [a, b]))]
        return [(st, S('op', sym, a, b))]

    def _reflected(self, st, a, b, rm, node):
        return [(s, self.raise_(s, 'TypeError', node) if v is NOTIMPL else v)
                for s, v in self.call_method(st, b, rm, [a], {}, node)]

    def freeze(self, st, v, depth=3):
        """A value describing the present contents of a container."""
        if isinstance(v, Obj) and depth:
            c = self.cont(st, v)
            if c is not None:
                if c[0] == 'dict':
                    it = tuple(T([self.freeze(st, k, depth - 1),
                                  self.freeze(st, x, depth - 1)])
                               for k, x in c[1])
                else:
                    it = tuple(self.freeze(st, x, depth - 1) for x in c[1])
                tail = () if c[2] is None else (
                    c[2] if isinstance(c[2], Val) else C('...'),)
                return S(v.kind, T(it), *tail)
        return v

    def e_Compare(self, n, st):
        # chained comparisons are conjunctions
        out = []
        for s, left in self.ev(n.left, st):
            if isinstance(left, Raised):
                out.append((s, left))
                continue
            out.extend(self._cmp_chain(n, s, left, 0))
        return out

    def _cmp_chain(self, n, st, left, i):
        out = []
        for s, right in self.ev(n.comparators[i], st):
            if isinstance(right, Raised):
                out.append((s, right))
                continue
            opn = _CMP[type(n.ops[i])][0]
            for s1, v in self.compare(s, opn, left, right, n):
                if isinstance(v, Raised) or i == len(n.ops) - 1:
                    out.append((s1, v))
                    continue
                for s2, b in self.branch(s1, v, n):
                    if not b:
                        out.append((s2, FALSE))
                    else:
                        out.extend(self._cmp_chain(n, s2, right, i + 1))
        return out

    def cmp_is(self, st, a, b):
        a = st.eqs.get(a, a)
        b = st.eqs.get(b, b)
        if a is b:
            return TRUE
        kinds = (Const, FnV, ClsV, ModV, Tup, Obj, ExtV)
        if isinstance(a, kinds) and isinstance(b, kinds):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return S('is', a, b)
            return FALSE
        if isinstance(a, Const):
            a, b = b, a
        v = S('is', a, b)
        d = self._decide(st, v)
        return v if d is None else boolv(d)

    def _by_identity(self, st, v):
        """Is v an instance whose class leaves equality to object?"""
        t = self.ctype(st, v)
        if t is None or not isinstance(v, Obj) or not isinstance(
                t[0], ClassInfo):
            return False
        return all(isinstance(c, ClassInfo) or c.name == 'builtins.object'
                   for c in self.p.mro(t[0])) and \
            self.p.find_member(t[0], '__eq__')[0] is None

    def _same_cont(self, st, a, b):
        """Equality of two dicts or sets of constants, if known"""
        if not (isinstance(a, Obj) and isinstance(b, Obj)):
            return None
        c, d = self.cont(st, a), self.cont(st, b)
        if c is None or d is None or c[2] is not None or d[2] is not None \
                or c[0] != d[0] or c[0] not in ('dict', 'set'):
            return None
        if c[0] == 'set':
            if all(isinstance(x, Const) for x in c[1] + d[1]):
                return set(x.v for x in c[1]) == set(x.v for x in d[1])
            return None
        if not all(isinstance(x, Const) for kv in c[1] + d[1] for x in kv):
            if all(isinstance(k, Const) for k, _ in c[1] + d[1]) and \
                    {k.v for k, _ in c[1]} != {k.v for k, _ in d[1]}:
                return False
            return None
        x = [(k.v, v.v) for k, v in c[1]]
        y = [(k.v, v.v) for k, v in d[1]]
        if all(self._is_ordered(st, o) for o in (a, b)):
            return x == y
        return dict(x) == dict(y)

    def _is_ordered(self, st, o):
        t = self.ctype(st, o)
        return bool(t) and isinstance(t[0], ClassInfo) and any(
            isinstance(c, ExtClass) and c.name == 'collections.OrderedDict'
            for c in self.p.mro(t[0]))

    def compare(self, st, op, a, b, node):
        if op == 'is':
            return [(st, self.cmp_is(st, a, b))]
        if op == 'isnot':
            v = self.cmp_is(st, a, b)
            return [(st, boolv(not v.v) if isinstance(v, Const)
                     else S('not', v))]
        if op in ('in', 'notin'):
            out = []
            for s, v in self.contains(st, a, b, node):
                if isinstance(v, Raised) or op == 'in':
                    out.append((s, v))
                else:
                    d = self.decide(s, v)
                    out.append((s, boolv(not d) if d is not None
                                else S('not', v)))
            return out
        a = st.eqs.get(a, a)
        b = st.eqs.get(b, b)
        if isinstance(a, Const) and isinstance(b, Const):
            f = getattr(operator, op)
            try:
                return [(st, boolv(bool(f(a.v, b.v))))]
            except TypeError:
                return [(st, self.raise_(st, 'TypeError', node))]
        ta = self.ctype(st, a)
        mname = '__%s__' % op
        if ta and isinstance(ta[0], ClassInfo):
            m = self.p.find_member(ta[0], mname)[0]
            if not isinstance(m, FuncInfo) and op == 'ne':
                m = self.p.find_member(ta[0], '__eq__')[0]
                if isinstance(m, FuncInfo) and self.can_inline(m):
                    out = []
                    for s, v in self.call_method(st, a, '__eq__', [b], {},
                                                 node):
                        if isinstance(v, Raised):
                            out.append((s, v))
                        else:
                            d = self.decide(s, v)
                            out.append((s, boolv(not d) if d is not None
                                        else S('not', v)))
                    return out
            if isinstance(m, FuncInfo) and self.can_inline(m):
                return self.call_method(st, a, mname, [b], {}, node)
        if op in ('eq', 'ne'):
            r = None
            if a is b:
                r = True
            elif self._by_identity(st, a) and self._by_identity(st, b):
                d = self.cmp_is(st, a, b)
                r = d.v if isinstance(d, Const) else None
            elif self._same_cont(st, a, b) is not None:
                r = self._same_cont(st, a, b)
            else:
                fa, fb = self.freeze(st, a), self.freeze(st, b)
                if isinstance(fa, Tup) and isinstance(fb, Tup):
                    if len(fa.items) != len(fb.items):
                        r = False
                    elif all(isinstance(x, Const) for x in
                             fa.items + fb.items):
                        r = fa.items == fb.items
                elif isinstance(a, Obj) and isinstance(b, Const) or \
                        isinstance(b, Obj) and isinstance(a, Const):
                    if (a if isinstance(a, Obj) else b).kind in (
                            'list', 'dict', 'set'):
                        r = False
                elif isinstance(a, Obj) and isinstance(b, Obj):
                    ca, cb = self.cont(st, a), self.cont(st, b)
                    if ca and cb and ca[2] is None and cb[2] is None:
                        if len(ca[1]) != len(cb[1]):
                            r = False
                        elif ca[0] == 'list' and all(
                                isinstance(x, Const)
                                for x in ca[1] + cb[1]):
                            r = ca[1] == cb[1]
                elif isinstance(a, (ClsV, FnV, ExtV)) and \
                        isinstance(b, (ClsV, FnV, ExtV, Const)):
                    r = False
                v = self.mk_eq(fa, fb)
                # len(x) == 0  <=>  not x
                if isinstance(v, Sym) and v.op == 'eq' and \
                        v.args[1] is C(0) and isinstance(v.args[0], Sym) \
                        and v.args[0].op == 'call' and \
                        v.args[0].args[0] is X('builtins.len'):
                    x = v.args[0].args[1]
                    d = self.decide(st, x)
                    if d is not None:
                        r = not d
                    else:
                        v = S('not', x)
                        return [(st, v if op == 'eq' else x)]
                if r is None:
                    r = self.decide(st, v)
            if r is not None:
                return [(st, boolv(r if op == 'eq' else not r))]
            return [(st, v if op == 'eq' else S('not', v))]
        a = self.freeze(st, a)
        b = self.freeze(st, b)
        # canonical orderings: a<b, a<=b only
        if op == 'gt':
            if b is C(0):
                v = S('gt', a, b)
                d = self.decide(st, v)
                return [(st, v if d is None else boolv(d))]
            v = S('lt', b, a)
        elif op == 'ge':
            v = S('le', b, a)
        else:
            v = S(op, a, b)
        d = self.decide(st, v)
        return [(st, v if d is None else boolv(d))]

    def contains(self, st, a, b, node):
        b = st.eqs.get(b, b)
        a = st.eqs.get(a, a)
        if isinstance(b, Const) and isinstance(b.v, (str, bytes)):
            if isinstance(a, Const):
                try:
                    return [(st, boolv(a.v in b.v))]
                except TypeError:
                    return [(st, self.raise_(st, 'TypeError', node))]
            return [(st, S('insub', a, b))]
        items = None
        if isinstance(b, Tup):
            items, tail = b.items, None
        elif isinstance(b, Obj):
            c = self.cont(st, b)
            if c is not None:
                tail = c[2]
                items = tuple(k for k, _ in c[1]) if c[0] == 'dict' \
                    else c[1]
        elif isinstance(b, Sym) and b.op == 'call' and \
                isinstance(b.args[0], BoundV) and \
                b.args[0].name == 'keys':
            return self.contains(st, a, b.args[0].recv, node)
        if items is not None:
            if a in items:
                return [(st, TRUE)]
            if tail is None and all(isinstance(x, Const) for x in items):
                if isinstance(a, Const):
                    try:
                        return [(st, boolv(any(a.v == x.v for x in items)))]
                    except Exception:
                        pass
                if not items:
                    return [(st, FALSE)]
                v = S('in', a, T(items))
                d = self.decide(st, v)
                return [(st, v if d is None else boolv(d))]
            if tail is None and isinstance(a, Sym):
                ds = []
                for x in items:
                    e = self.mk_eq(a, x)
                    ds.append(self.decide(st, e) if isinstance(e, Sym)
                              else isinstance(e, Const) and e.v)
                if True in ds:
                    return [(st, TRUE)]
                if all(d is False for d in ds):
                    return [(st, FALSE)]
            fb = self.freeze(st, b)
            v = S('in', a, fb)
            d = self.decide(st, v)
            return [(st, v if d is None else boolv(d))]
        t = self.ctype(st, b)
        if t and isinstance(t[0], ClassInfo):
            m = self.p.find_member(t[0], '__contains__')[0]
            if isinstance(m, FuncInfo) and self.can_inline(m):
                return self.call_method(st, b, '__contains__', [a], {}, node)
        v = S('in', a, b)
        d = self.decide(st, v)
        return [(st, v if d is None else boolv(d))]

    def e_IfExp(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            for s2, b in self.branch(s, v, n):
                out.extend(self.ev(n.body if b else n.orelse, s2))
        return out

    def e_Lambda(self, n, st):
        return [(st, self.make_closure(n, st))]

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        if n.value is None:
            st.yields = (st.yields or ()) + (NONE,)
            return [(st, S('sent', id(n)))]
        out = []
        for s, v in self.ev(n.value, st):
            if not isinstance(v, Raised):
                s.yields = (s.yields or ()) + (v,)
                v = S('sent', id(n))
            out.append((s, v))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            for s1, r in self.stream(s, v, n):
                if isinstance(r, Raised):
                    out.append((s1, r))
                    continue
                known, sym = r
                ys = tuple(known)
                if sym:
                    ys += (sym[1](0, s1),)
                s1.yields = (s1.yields or ()) + ys
                out.append((s1, S('sent', id(n))))
        return out

    # comprehensions
    def e_ListComp(self, n, st):
        return self._comp(n, st, 'list')

    def e_SetComp(self, n, st):
        return self._comp(n, st, 'set')

    def e_GeneratorExp(self, n, st):
        return self._comp(n, st, 'gen')

    def e_DictComp(self, n, st):
        return self._comp(n, st, 'dict')

    def _comp(self, n, st, kind):
        key = ('__comp__', id(n))
        saved = dict(st.env)
        st.env[key] = ()

        def rec(gens, s):
            if not gens:
                out = []
                if kind == 'dict':
                    exprs = [n.key, n.value]
                else:
                    exprs = [n.elt]
                for s1, vs in self.evs(exprs, s):
                    if isinstance(vs, Raised):
                        out.append((s1, ('raise', vs)))
                        continue
                    s1.env[key] = s1.env[key] + (
                        (vs[0], vs[1]) if kind == 'dict' else vs[0],)
                    out.append((s1, None))
                return out
            g = gens[0]
            out = []
            for s1, it in self.ev(g.iter, s):
                if isinstance(it, Raised):
                    out.append((s1, ('raise', it)))
                    continue

                def body(s2, elem):
                    res = []
                    for s3, sig in self.assign(g.target, elem, s2):
                        if sig is not None:
                            res.append((s3, sig))
                            continue
                        cur = [s3]
                        for cond in g.ifs:
                            nxt = []
                            for s4 in cur:
                                for s5, c in self.ev(cond, s4):
                                    if isinstance(c, Raised):
                                        res.append((s5, ('raise', c)))
                                        continue
                                    for s6, b in self.branch(s5, c):
                                        if b:
                                            nxt.append(s6)
                                        else:
                                            res.append((s6, None))
                            cur = nxt
                        for s4 in cur:
                            res.extend(rec(gens[1:], s4))
                    return res
                done, brk = self.loop(s1, it, body, n)
                out.extend(done)
                out.extend(brk)
            return out
        res = []
        for s, sig in rec(n.generators, st):
            items = s.env.get(key, ())
            walrus = {x.target.id: s.env[x.target.id] for x in ast.walk(n)
                      if isinstance(x, ast.NamedExpr)
                      and x.target.id in s.env}
            s.env = dict(saved)
            s.env.update(walrus)
            if sig is not None:
                res.append((s, sig[1]))
                continue
            if kind == 'dict':
                d = {}
                for k, v in items:
                    d[k] = v
                res.append((s, self.new_dict(s, d.items(), n)))
            else:
                if kind == 'set':
                    items = tuple(dict.fromkeys(items))
                o = self.alloc(s, kind, n)
                s.cont[o] = ('set' if kind == 'set' else 'list', items, None)
                res.append((s, o))
        return res

    # -- attribute access --------------------------------------------------
    def e_Attribute(self, n, st):
        out = []
        for s, o in self.ev(n.value, st):
            if isinstance(o, Raised):
                out.append((s, o))
            else:
                out.extend(self.getattr_(s, o, n.attr, n))
        return out

    def getattr_(self, st, o, name, node):
        if isinstance(o, Sym) and o in st.eqs:
            o = st.eqs[o]
        if self.on_getattr is not None:
            r = self.on_getattr(self, st, o, name, node)
            if r is not None:
                return r
        if isinstance(o, ModV):
            v = self.wrap_global(self.p.lookup_global(o.mod, name), name, st)
            if v is None:
                sub = o.mod.name + '.' + name
                if sub in self.p.modules:
                    v = M(self.p.modules[sub])
                else:
                    v = S('global', o.mod.name, name)
            return [(st, v)]
        if isinstance(o, ExtV):
            return [(st, X(o.name + '.' + name))]
        if isinstance(o, ClsV):
            return [(st, self.class_getattr(st, o, name))]
        if isinstance(o, SuperV):
            return self.super_getattr(st, o, name, node)
        if isinstance(o, FnV):
            if name in ('__name__',):
                return [(st, C(o.fi.name))]
            return [(st, S('attr', o, name))]
        if isinstance(o, Const):
            if o.v is None:
                if name.startswith('__'):
                    return [(st, S('attr', o, name))]
                return [(st, self.raise_(st, 'AttributeError', node))]
            if not hasattr(o.v, name):
                return [(st, self.raise_(st, 'AttributeError', node))]
            a = getattr(o.v, name)
            if not callable(a) and isinstance(a, (int, float)):
                return [(st, C(a))]
            return [(st, B(o, name))]
        if isinstance(o, (Tup, BoundV)):
            return [(st, B(o, name))]
        if arrays.is_array(o):
            r = arrays.attribute(self, st, o, name, node)
            if r is not None:
                return r
        # Sym / Obj
        if name == '__class__':
            t = self.ctype(st, o)
            if t and isinstance(t[0], ClassInfo) and t[1]:
                return [(st, K(t[0]))]
            return [(st, S('call', X('builtins.type'), o))]
        if name == '__dict__':
            return [(st, S('attr', o, name))]
        t = self.ctype(st, o)
        if t and isinstance(t[0], ClassInfo):
            m, owner = self.p.find_member(t[0], name)
            if isinstance(m, PropInfo):
                v = self.field(st, o, '@' + name)
                if v is not None:
                    return [(st, v)]
                if m.getter is None:
                    return [(st, self.raise_(st, 'AttributeError', node))]
                res = self.invoke(m.getter, o, [], {}, st, node)
                return res
            v = self.field(st, o, name)
            if v is not None:
                return [(st, v)]
            if isinstance(m, FuncInfo):
                if m.kind == 'class':
                    return [(st, F(m, K(t[0])))]
                if m.kind == 'static':
                    return [(st, F(m))]
                return [(st, F(m, o))]
            if isinstance(m, ClassInfo):
                return [(st, K(m))]
            if isinstance(m, ast.AST):
                return [(st, self.class_attr(owner, name, m))]
            ft = self.field_types.get((t[0].name, name))
            if ft is None:
                for c in self.p.mro(t[0]):
                    ft = self.field_types.get((c.fq, name)) or \
                        self.field_types.get((c.fq.split('.')[-1], name))
                    if ft is not None:
                        break
            if isinstance(o, Obj) and m is None and hasattr(dict, name):
                c = self.cont(st, o)
                if c is not None and c[0] == 'dict':
                    return [(st, B(o, name))]
            if owner is not None and isinstance(owner, ExtClass) and \
                    ft is None and name in _ext_methods(owner):
                return [(st, B(o, name, owner.name))]
            v = S('attr', o, name)
            if ft is not None and v not in st.types:
                st.types[v] = ft if isinstance(ft, tuple) else (ft, True)
            st.fields[(o, name)] = v
            return [(st, v)]
        v = self.field(st, o, name)
        if v is not None:
            return [(st, v)]
        if isinstance(o, Obj) and o.kind in ('list', 'dict', 'set', 'gen'):
            return [(st, B(o, name))]
        if t and isinstance(t[0], ExtClass) and t[0].name.startswith(
                'builtins.'):
            return [(st, B(o, name))]
        v = S('attr', o, name)
        return [(st, v)]

    def class_getattr(self, st, o, name):
        ci = o.ci
        v = self.field(st, o, name)
        if v is not None:
            return v
        m, owner = self.p.find_member(ci, name)
        if isinstance(m, FuncInfo):
            if m.kind == 'class':
                return F(m, o)
            return F(m)
        if isinstance(m, ClassInfo):
            return K(m)
        if isinstance(m, ast.AST):
            return self.class_attr(owner, name, m)
        if name == '__name__':
            return C(ci.name)
        if name == '__mro__':
            return T([K(c) if isinstance(c, ClassInfo) else X(c.name)
                      for c in self.p.mro(ci)])
        if m is None and isinstance(owner, ExtClass):
            return B(o, name, owner.name)
        return S('attr', o, name)

    def super_getattr(self, st, o, name, node):
        t = self.ctype(st, o.recv)
        if isinstance(o.recv, ClsV):
            t = (o.recv.ci, True)
        start = t[0] if t and isinstance(t[0], ClassInfo) else o.after
        if o.after not in self.p.mro(start):
            start = o.after
        m, owner = self.p.find_member(start, name, after=o.after)
        if isinstance(m, FuncInfo):
            if m.kind == 'static':
                return [(st, F(m))]
            return [(st, F(m, o.recv))]
        if isinstance(m, PropInfo):
            if m.getter:
                return self.invoke(m.getter, o.recv, [], {}, st, node)
        if isinstance(m, ast.AST):
            return [(st, self.class_attr(owner, name, m))]
        return [(st, B(o.recv, name,
                       owner.name if isinstance(owner, ExtClass)
                       else 'builtins.object'))]

    def setattr_(self, st, o, name, v, node):
        """[(state, None|Raised)]"""
        if isinstance(o, SuperV):
            o2 = o.recv
            t = self.ctype(st, o2)
            m, _ = self.p.find_member(t[0] if t else o.after, name,
                                      after=o.after)
            if isinstance(m, PropInfo) and m.setter:
                return self.invoke(m.setter, o2, [v], {}, st, node)
            self.emit(st, Event('setattr', name, o2, (v,), node=node,
                                caller=self.caller(), extra='super'))
            return [(st, None)]
        t = self.ctype(st, o)
        if t and isinstance(t[0], ClassInfo) and not isinstance(o, ClsV):
            m, _ = self.p.find_member(t[0], name)
            if isinstance(m, PropInfo):
                if m.setter is None:
                    return [(st, self.raise_(st, 'AttributeError', node))]
                st.fields.pop((o, '@' + name), None)
                return self.invoke(m.setter, o, [v], {}, st, node)
        self.emit(st, Event('setattr', name, o, (v,), node=node,
                            caller=self.caller()))
        st.fields[(o, name)] = v
        return [(st, None)]

    # -- subscripts --------------------------------------------------------
    def e_Slice(self, n, st):
        out = []
        exprs = [x if x is not None else ast.Constant(None)
                 for x in (n.lower, n.upper, n.step)]
        for s, vs in self.evs(exprs, st):
            out.append((s, vs if isinstance(vs, Raised)
                        else S('slicespec', *vs)))
        return out

    def e_Subscript(self, n, st):
        out = []
        for s, r in self.evs([n.value, n.slice], st):
            if isinstance(r, Raised):
                out.append((s, r))
            else:
                out.extend(self.getitem(s, r[0], r[1], n))
        return out

    def getitem(self, st, o, k, node):
        o = st.eqs.get(o, o)
        k = st.eqs.get(k, k)
        items = None
        if isinstance(o, Const) and isinstance(o.v, (str, bytes)):
            if isinstance(k, Const):
                try:
                    return [(st, C(o.v[k.v]))]
                except (IndexError, TypeError) as e:
                    return [(st, self.raise_(st, type(e).__name__, node))]
            sl = _const_slice(k)
            if sl is not None:
                return [(st, C(o.v[sl]))]
        if isinstance(o, Tup):
            items, tail = o.items, None
        elif arrays.is_array(o):
            r = arrays.getitem(self, st, o, k, node)
            if r is not None:
                return r
            return [(st, S('idx', self.freeze(st, o), k))]
        elif isinstance(o, Obj):
            c = self.cont(st, o)
            if c is not None:
                if c[0] == 'dict':
                    return self._dict_get(st, o, c, k, node)
                items, tail = c[1], c[2]
        elif isinstance(o, Sym) and self.on_items is not None:
            known = self.on_items(self, st, o)
            if known is not None:
                items, tail = tuple(known), None
        if items is not None:
            if isinstance(k, Const) and isinstance(k.v, int):
                i = k.v
                if tail is None:
                    if -len(items) <= i < len(items):
                        return [(st, items[i])]
                    return [(st, self.raise_(st, 'IndexError', node))]
                if 0 <= i < len(items):
                    return [(st, items[i])]
                return [(st, S('idx', self.freeze(st, o), k))]
            sl = _const_slice(k)
            if sl is not None and tail is None:
                sub = items[sl]
                if isinstance(o, Tup):
                    return [(st, T(sub))]
                return [(st, self.new_list(st, sub, node))]
            return [(st, S('idx', self.freeze(st, o), k))]
        t = self.ctype(st, o)
        if t and isinstance(t[0], ClassInfo):
            m = self.p.find_member(t[0], '__getitem__')[0]
            if isinstance(m, FuncInfo):
                return self.call_method(st, o, '__getitem__', [k], {}, node)
        if isinstance(o, ClsV):
            return [(st, S('idx', o, k))]
        # remembered stores into unknown containers
        v = st.fields.get((o, ('item', k)))
        if v is not None:
            return [(st, v)]
        if isinstance(k, Sym) and k.op == 'slicespec':
            v = S('slice', o, *k.args)
        else:
            v = S('idx', o, k)
        et = self.field_types.get(('elem', o))
        if et is not None and v not in st.types:
            st.types[v] = et
        out = [(st, v)]
        if st.tryd:
            s2 = st.fork()
            out.append((s2, Raised(S('exc', 'LookupError'),
                                   None, node)))
        return out

    def _dict_get(self, st, o, c, k, node):
        for kk, v in reversed(c[1]):
            if kk is k:
                return [(st, v)]
        if isinstance(k, Const) and all(isinstance(x, Const)
                                        for x, _ in c[1]):
            for kk, v in c[1]:
                try:
                    if kk.v == k.v:
                        return [(st, v)]
                except Exception:
                    pass
            if c[2] is None:
                return [(st, self.raise_(st, 'KeyError', node))]
        v = S('idx', self.freeze(st, o), k)
        out = [(st, v)]
        if st.tryd:
            s2 = st.fork()
            out.append((s2, self.raise_(s2, 'KeyError', node)))
        return out

    def setitem(self, st, o, k, v, node):
        t = self.ctype(st, o)
        if t and isinstance(t[0], ClassInfo):
            m = self.p.find_member(t[0], '__setitem__')[0]
            if isinstance(m, FuncInfo):
                return self.call_method(st, o, '__setitem__', [k, v], {},
                                        node)
        self.emit(st, Event('setitem', '__setitem__', o, (k, v), node=node,
                            caller=self.caller()))
        if isinstance(o, Obj):
            if arrays.is_array(o):
                arrays.setitem(self, st, o, k, v, node)
                return [(st, None)]
            c = self.cont(st, o)
            if c is not None:
                if c[0] == 'dict':
                    if any(x is k for x, _ in c[1]):
                        items = tuple((x, v if x is k else y)
                                      for x, y in c[1])
                    else:
                        items = c[1] + ((k, v),)
                    st.cont[o] = ('dict', items, c[2])
                elif c[0] == 'list':
                    if isinstance(k, Const) and isinstance(k.v, int) and \
                            -len(c[1]) <= k.v < len(c[1]):
                        l = list(c[1])
                        l[k.v] = v
                        st.cont[o] = ('list', tuple(l), c[2])
                    elif isinstance(k, Const) and isinstance(k.v, int) and \
                            c[2] is None:
                        return [(st, self.raise_(st, 'IndexError', node))]
                    elif _const_slice(k) is not None and c[2] is None and \
                            _const_slice(k).step in (None, 1) and \
                            self.known_items(st, v) is not None:
                        l = list(c[1])
                        l[_const_slice(k)] = self.known_items(st, v)
                        st.cont[o] = ('list', tuple(l), None)
                    else:
                        st.cont[o] = ('list', (), S('modified', v,
                                                    id(node)))
                return [(st, None)]
        st.fields[(o, ('item', k))] = v
        return [(st, None)]

    def delitem(self, st, o, k, node):
        t = self.ctype(st, o)
        if t and isinstance(t[0], ClassInfo):
            m = self.p.find_member(t[0], '__delitem__')[0]
            if isinstance(m, FuncInfo):
                return self.call_method(st, o, '__delitem__', [k], {}, node)
        self.emit(st, Event('delitem', '__delitem__', o, (k,), node=node,
                            caller=self.caller()))
        if isinstance(o, Obj):
            c = self.cont(st, o)
            if c is not None:
                if c[0] == 'dict':
                    if any(x is k for x, _ in c[1]) or c[2] is not None or \
                            not isinstance(k, Const):
                        st.cont[o] = ('dict', tuple(
                            (x, y) for x, y in c[1] if x is not k), c[2])
                    else:
                        return [(st, self.raise_(st, 'KeyError', node))]
                elif c[0] == 'list':
                    sl = _const_slice(k)
                    if isinstance(k, Const) and isinstance(k.v, int) and \
                            c[2] is None:
                        l = list(c[1])
                        if not -len(l) <= k.v < len(l):
                            return [(st, self.raise_(st, 'IndexError',
                                                     node))]
                        del l[k.v]
                        st.cont[o] = ('list', tuple(l), None)
                    elif sl is not None and c[2] is None:
                        l = list(c[1])
                        del l[sl]
                        st.cont[o] = ('list', tuple(l), None)
                    else:
                        st.cont[o] = ('list', (), S('modified', o, id(node)))
                return [(st, None)]
        st.fields.pop((o, ('item', k)), None)
        return [(st, None)]

    # -- calls -------------------------------------------------------------
    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                'super' not in st.env:
            fi = self.stack[-1][0]
            if not n.args:
                ci = getattr(fi, 'cls', None) or getattr(fi, 'lexcls', None)
                recv = None
                if fi is not None and fi.cls is not None and fi.params:
                    recv = st.env.get(fi.params[0])
                else:
                    recv = st.env.get('self')
                if ci is not None and recv is not None:
                    return [(st, SUP(ci, recv))]
            else:
                out = []
                for s, r in self.evs(n.args, st):
                    if isinstance(r, Raised):
                        out.append((s, r))
                    elif isinstance(r[0], ClsV) and len(r) > 1:
                        out.append((s, SUP(r[0].ci, r[1])))
                    else:
                        out.append((s, S('super')))
                return out
        out = []
        for s, fn in self.ev(n.func, st):
            if isinstance(fn, Raised):
                out.append((s, fn))
                continue
            exprs = [a.value if isinstance(a, ast.Starred) else a
                     for a in n.args] + [k.value for k in n.keywords]
            for s1, vs in self.evs(exprs, s):
                if isinstance(vs, Raised):
                    out.append((s1, vs))
                    continue
                args = []
                kw = {}
                for a, v in zip(n.args, vs):
                    if isinstance(a, ast.Starred):
                        k = self.known_items(s1, v)
                        if k is None:
                            args.append(S('star', v))
                        else:
                            args.extend(k)
                    else:
                        args.append(v)
                for kx, v in zip(n.keywords, vs[len(n.args):]):
                    if kx.arg is None:
                        c = self.cont(s1, v) if isinstance(v, Obj) else None
                        if c is not None and c[0] == 'dict':
                            for a, b in c[1]:
                                if isinstance(a, Const) and \
                                        isinstance(a.v, str):
                                    kw[a.v] = b
                            if c[2] is not None:
                                kw['**'] = c[2] if isinstance(c[2], Val) \
                                    else v
                        else:
                            kw['**'] = v
                    else:
                        kw[kx.arg] = v
                out.extend(self.call(fn, args, kw, s1, n))
        return out

    def can_inline(self, fi):
        if self.opaque(fi):
            return False
        depth = sum(1 for f, _ in self.stack if f is not None)
        if depth >= self.max_depth:
            return False
        if sum(1 for f, _ in self.stack if f is fi) >= self.recursion:
            return False
        return True

    def call_method(self, st, o, name, args, kw, node):
        out = []
        for s, fn in self.getattr_(st, o, name, node):
            if isinstance(fn, Raised):
                out.append((s, fn))
            else:
                out.extend(self.call(fn, args, kw, s, node))
        return out

    def call(self, fn, args, kw, st, node):
        if isinstance(fn, Sym) and fn in st.eqs:
            fn = st.eqs[fn]
        if self.on_call is not None:
            r = self.on_call(self, fn, args, kw, st, node)
            if r is not None:
                return r
        if isinstance(fn, FnV):
            return self.invoke(fn.fi, fn.recv, args, kw, st, node, fn.clo)
        if isinstance(fn, ClsV):
            return self.instantiate(fn.ci, args, kw, st, node)
        if isinstance(fn, ExtV):
            return self.ext_call(fn, args, kw, st, node)
        if isinstance(fn, BoundV):
            return self.bound_call(fn, args, kw, st, node)
        if isinstance(fn, Const):
            return [(st, self.raise_(st, 'TypeError', node))]
        if isinstance(fn, Obj) or isinstance(fn, Sym):
            t = self.ctype(st, fn)
            if t and isinstance(t[0], ClassInfo):
                m = self.p.find_member(t[0], '__call__')[0]
                if isinstance(m, FuncInfo):
                    return self.invoke(m, fn, args, kw, st, node)
        # method of an unknown object: attr(recv, name)
        if isinstance(fn, Sym) and fn.op == 'attr' and not kw:
            rx = self.as_regex(fn.args[0])
            r = self.regex_call(st, rx, fn.args[1], args, node) \
                if rx is not None else None
            if r is not None:
                return r
        if isinstance(fn, Sym) and fn.op == 'attr':
            recv, name = fn.args
            return self.opaque_call(name, recv, args, kw, st, node, fn)
        return self.opaque_call('?', fn, args, kw, st, node, fn)

    def opaque_call(self, name, recv, args, kw, st, node, fn, fi=None,
                    res=None):
        fargs = [self.freeze(st, a) for a in args]
        fkw = tuple(S('kw', k, self.freeze(st, v))
                    for k, v in sorted(kw.items()))
        if res is None:
            extra = ()
            if name in _IMPURE_METHODS or fi is not None and False:
                k = ('imp', id(node))
                c = st.ctr.get(k, 0)
                st.ctr[k] = c + 1
                extra = (id(node), c)
            base = fn if isinstance(fn, Val) else S('attr', recv, name)
            res = S('call', base, *fargs, *fkw, *extra)
        ev = Event('call', name, recv, tuple(args), dict(kw), node, fi, res,
                   self.caller(), fn=fn)
        if st.tryd or self.raise_outside:
            s2 = st.fork()
            ev2 = Event('call', name, recv, tuple(args), dict(kw), node, fi,
                        res, self.caller(), extra='raised', fn=fn)
            self.emit(s2, ev2)
            self.emit(st, ev)
            return [(st, res), (s2, Raised(S('exc', '?', id(node)), None,
                                           node))]
        self.emit(st, ev)
        return [(st, res)]

    def bind(self, fi, recv, args, kw, st, node):
        """env dict or Raised"""
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        vals = list(args)
        if fi.cls is not None and fi.kind != 'static' and recv is not None:
            vals = [recv] + vals
        kw = dict(kw)
        dstar = kw.pop('**', None)
        star = None
        i = 0
        for j, n in enumerate(pos):
            if i < len(vals):
                v = vals[i]
                if isinstance(v, Sym) and v.op == 'star':
                    star = v.args[0]
                    rest = vals[i + 1:]
                    env[n] = S('idx', star, C(j - i))
                    vals = vals[:i + 1]
                    # remaining positional parameters also from the star
                    for m_, n2 in enumerate(pos[j + 1:], 1):
                        if n2 in kw:
                            env[n2] = kw.pop(n2)
                        else:
                            env[n2] = S('idx', star, C(m_))
                    i = len(vals)
                    break
                env[n] = v
                i += 1
            elif n in kw:
                env[n] = kw.pop(n)
            else:
                env[n] = None
        extra = vals[i:]
        if a.vararg:
            if any(isinstance(x, Sym) and x.op == 'star' for x in extra):
                if len(extra) == 1:
                    env[a.vararg.arg] = extra[0].args[0]
                else:
                    items = []
                    tail = None
                    for x in extra:
                        if isinstance(x, Sym) and x.op == 'star':
                            tail = x.args[0]
                        elif tail is None:
                            items.append(x)
                        else:
                            tail = True
                    env[a.vararg.arg] = self.new_list(st, items, node, tail)
            elif star is not None:
                env[a.vararg.arg] = S('slice', star)
            else:
                env[a.vararg.arg] = T(extra)
        elif extra and not any(isinstance(x, Sym) and x.op == 'star'
                               for x in extra):
            return self.raise_(st, 'TypeError', node)
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            else:
                env[x.arg] = None
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in list(env):
            if env[n] is None:
                if dstar is not None:
                    env[n] = S('kwget', dstar, n)
                elif n in defaults:
                    env[n] = self.default_value(fi, n, defaults[n])
                else:
                    return self.raise_(st, 'TypeError', node)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(
                st, [(C(k), v) for k, v in kw.items()], node, dstar)
        elif kw:
            return self.raise_(st, 'TypeError', node)
        return env

    def default_value(self, fi, name, expr):
        key = ('default', fi.fq, name, id(expr))
        if key not in self.clsattr:
            st = State()
            if fi.cls is not None:
                st.env = _ClassScope(self, fi.cls)
            self.stack.append((None, fi.module))
            try:
                r = self.ev(expr, st)
            finally:
                self.stack.pop()
            s, v = r[0]
            if isinstance(v, Raised):
                v = S('default', fi.fq, name)
            self.base_cont.update(s.cont)
            self.base_types.update(s.types)
            self.base_fields.update(s.fields)
            self.clsattr[key] = v
        return self.clsattr[key]

    def invoke(self, fi, recv, args, kw, st, node, clo=None):
        if not self.can_inline(fi):
            return self.opaque_call(fi.name, recv, args, kw, st, node,
                                    F(fi, recv), fi)
        env = self.bind(fi, recv, args, kw, st, node)
        if isinstance(env, Raised):
            return [(st, env)]
        self.emit(st, Event('enter', fi.name, recv, tuple(args), dict(kw),
                            node, fi, None, self.caller(), extra=env))
        out = []
        for s, v in self.exec_func(fi, env, st, clo):
            self.emit(s, Event('exit', fi.name, recv, tuple(args), dict(kw),
                               node, fi, v, self.caller()))
            out.append((s, v))
        return out

    def instantiate(self, ci, args, kw, st, node):
        m, owner = self.p.find_member(ci, '__new__')
        if isinstance(m, FuncInfo) and self.can_inline(m):
            res = self.invoke(m, None, [K(ci)] + args, kw, st, node)
            out = []
            for s, v in res:
                if isinstance(v, Raised):
                    out.append((s, v))
                    continue
                t = self.ctype(s, v)
                if t and isinstance(t[0], ClassInfo) and \
                        self.p.issub(t[0], ci):
                    out.extend(self._init(s, v, t[0], args, kw, node))
                else:
                    out.append((s, v))
            return out
        o = self.alloc(st, 'inst', node)
        st.types[o] = (ci, True)
        if self._is_dict(ci):
            st.cont[o] = ('dict', (), None)
        self.emit(st, Event('new', ci.fq, o, tuple(args), dict(kw), node,
                            None, o, self.caller()))
        return self._init(st, o, ci, args, kw, node)

    def _init(self, st, o, ci, args, kw, node):
        m, owner = self.p.find_member(ci, '__init__')
        if isinstance(m, FuncInfo):
            if not self.can_inline(m):
                st.fields[(o, '@args')] = T(
                    [self.freeze(st, a) for a in args])
                out = []
                for s, v in self.opaque_call('__init__', o, args, kw, st,
                                             node, F(m, o), m, res=NONE):
                    out.append((s, v if isinstance(v, Raised) else o))
                return out
            out = []
            for s, v in self.invoke(m, o, args, kw, st, node):
                out.append((s, v if isinstance(v, Raised) else o))
            return out
        if self._is_dict(ci):
            return [(s, v if isinstance(v, Raised) else o) for s, v in
                    self.container_method(o, 'update', args, kw, st, node)]
        st.fields[(o, '@args')] = T([self.freeze(st, a) for a in args])
        return [(st, o)]

    def _is_dict(self, ci):
        """Derived from dict, with the storage of dict?"""
        mro = self.p.mro(ci)
        return any(isinstance(c, ExtClass) and c.name in (
            'builtins.dict', 'collections.OrderedDict') for c in mro) and \
            not any(isinstance(self.p.find_member(ci, m)[0], FuncInfo)
                    for m in ('__getitem__', '__setitem__', '__iter__',
                              '__new__', '__init__'))

    # -- builtins ----------------------------------------------------------
    def ext_call(self, fn, args, kw, st, node):
        name = fn.name
        if name.startswith('re.') and len(args) > 1 and not kw and \
                isinstance(args[0], Const):
            rx = self.as_regex(S('call', X('re.compile'), args[0]))
            r = self.regex_call(st, rx, name[3:], args[1:], node) \
                if rx is not None else None
            if r is not None:
                return r
        if name == 'collections.abc.KeysView' and len(args) == 1:
            # iterates over, and is as long as, what it is a view of
            k = self.known_items(st, args[0])
            if k is not None:
                return [(st, self.new_list(st, k, node))]
        if name.startswith('builtins.'):
            m = getattr(self, 'b_' + name[9:].replace('.', '_'), None)
            if m is not None:
                r = m(args, kw, st, node)
                if r is not None:
                    return r
            short = name[9:]
            if short in _PURE_BUILTINS and args and not kw and \
                    all(isinstance(a, Const) for a in args):
                try:
                    return [(st, C(getattr(builtins, short)(
                        *[a.v for a in args])))]
                except Exception as e:
                    return [(st, self.raise_(st, type(e).__name__, node))]
            if '.' in short:
                # str.lower(x), dict.fromkeys(...)
                cn, meth = short.split('.', 1)
                if meth == 'fromkeys' and args:
                    k = self.known_items(st, args[0])
                    if k is not None:
                        v = args[1] if len(args) > 1 else NONE
                        return [(st, self.new_dict(
                            st, [(x, v) for x in k], node))]
                elif args and cn in ('str', 'list', 'dict', 'set'):
                    return self.bound_call(B(args[0], meth), args[1:], kw,
                                           st, node)
            pyc = getattr(builtins, short, None)
            if isinstance(pyc, type) and issubclass(pyc, BaseException):
                o = S('call', fn, *[self.freeze(st, a) for a in args])
                st.types[o] = (ExtClass(name), True)
                return [(st, o)]
            return self.opaque_call(short, None, args, kw, st, node, fn)
        if name.startswith('numpy.'):
            r = arrays.ext_call(self, name, args, kw, st, node)
            if r is not None:
                return r
        if name == 'copy.copy' and args:
            return self.copy_val(st, args[0], node, False)
        if name == 'copy.deepcopy' and args:
            return self.copy_val(st, args[0], node, True)
        if name == 'collections.OrderedDict':
            return self.b_dict(args, kw, st, node)
        if name == 'operator.attrgetter' or name == 'operator.itemgetter':
            return [(st, S('call', fn, *args))]
        if name in ('functools.partial',):
            return [(st, S('partial', *args))]
        if name.startswith('math.') and args and all(
                isinstance(a, Const) for a in args):
            import math
            f = getattr(math, name[5:], None)
            if f is not None:
                try:
                    r = f(*[a.v for a in args])
                except Exception as e:
                    return [(st, self.raise_(st, type(e).__name__, node))]
                if name not in ('math.sqrt', 'math.hypot') or r == int(r):
                    # other roots stay exact
                    return [(st, C(r))]
        return self.opaque_call(name, None, args, kw, st, node, fn)

    def copy_val(self, st, v, node, deep):
        if isinstance(v, Const) or isinstance(v, Tup) and not deep:
            return [(st, v)]
        if isinstance(v, Tup):
            return [(s, T(items)) for s, items in
                    self.copy_items(st, v.items, node)]
        if self.is_num(st, v):
            return [(st, v)]
        if isinstance(v, Obj):
            c = self.cont(st, v)
            if c is not None:
                if deep and c[0] == 'list' and not arrays.is_array(v):
                    out = []
                    for s, items in self.copy_items(st, c[1], node):
                        o = self.alloc(s, v.kind, node)
                        s.cont[o] = (c[0], tuple(items)) + tuple(c[2:])
                        self.emit(s, Event('copy', 'deep', v, (), node=node,
                                           res=o, caller=self.caller()))
                        out.append((s, o))
                    return out
                o = self.alloc(st, v.kind, node)
                st.cont[o] = c
                self.emit(st, Event('copy', 'deep' if deep else 'shallow', v,
                                    (), node=node, res=o,
                                    caller=self.caller()))
                return [(st, o)]
        t = self.ctype(st, v)
        if t and isinstance(t[0], ClassInfo):
            mn = '__deepcopy__' if deep else '__copy__'
            m = self.p.find_member(t[0], mn)[0]
            if isinstance(m, FuncInfo):
                return self.invoke(m, v, [S('memo')] if deep else [], {}, st,
                                   node)
            o = self.alloc(st, 'inst', node)
            st.types[o] = t
            for (k, n), x in list(self.base_fields.items()) + \
                    list(st.fields.items()):
                if k is v:
                    if deep:
                        for s2, x2 in self.copy_val(st, x, node, True):
                            x = x2
                    st.fields[(o, n)] = x
            st.fields[(o, '@copy_of')] = v
            self.emit(st, Event('copy', 'deep' if deep else 'shallow', v, (),
                                node=node, res=o, caller=self.caller()))
            return [(st, o)]
        r = S('call', X('copy.deepcopy' if deep else 'copy.copy'), v)
        self.emit(st, Event('copy', 'deep' if deep else 'shallow', v, (),
                            node=node, res=r, caller=self.caller()))
        return [(st, r)]

    def copy_items(self, st, items, node):
        worlds = [(st, [])]
        for x in items:
            worlds = [(s2, done + [y]) for s, done in worlds
                      for s2, y in (self.copy_val(s, x, node, True)
                                    if isinstance(x, Val) else [(s, x)])]
        return worlds

    def b_isinstance(self, args, kw, st, node):
        if len(args) != 2:
            return None
        v, t = args
        if isinstance(t, Obj):
            c = self.cont(st, t)
            if c and c[2] is None:
                t = T(c[1])
        s = S('isinstance', v, t)
        d = self.decide(st, s)
        return [(st, s if d is None else boolv(d))]

    def b_issubclass(self, args, kw, st, node):
        if len(args) == 2:
            a, b = self.as_class(args[0]), self.as_class(args[1])
            if a is not None and b is not None:
                r = self.p.issub(a, b)
                if r is not None:
                    return [(st, boolv(r))]
            if isinstance(args[1], Tup) and a is not None:
                rs = [self.p.issub(a, self.as_class(x))
                      for x in args[1].items if self.as_class(x)]
                if any(r is True for r in rs):
                    return [(st, TRUE)]
                if rs and all(r is False for r in rs):
                    return [(st, FALSE)]
        return None

    def b_type(self, args, kw, st, node):
        if len(args) == 1:
            t = self.ctype(st, args[0])
            if t and t[1]:
                return [(st, K(t[0]) if isinstance(t[0], ClassInfo)
                         else X(t[0].name))]
        return [(st, S('call', X('builtins.type'), *args))]

    def b_len(self, args, kw, st, node):
        if len(args) != 1:
            return None
        v = st.eqs.get(args[0], args[0])
        if isinstance(v, Tup):
            return [(st, C(len(v.items)))]
        if isinstance(v, Const):
            try:
                return [(st, C(len(v.v)))]
            except TypeError:
                return [(st, self.raise_(st, 'TypeError', node))]
        if isinstance(v, Obj):
            c = self.cont(st, v)
            if c is not None:
                if c[2] is None:
                    return [(st, C(len(c[1])))]
                return [(st, S('call', X('builtins.len'),
                               self.freeze(st, v)))]
        t = self.ctype(st, v)
        if t and isinstance(t[0], ClassInfo):
            m = self.p.find_member(t[0], '__len__')[0]
            if isinstance(m, FuncInfo):
                return self.call_method(st, v, '__len__', [], {}, node)
        return [(st, S('call', X('builtins.len'), v))]

    def b_bool(self, args, kw, st, node):
        if len(args) != 1:
            return None
        d = self.decide(st, args[0])
        if d is not None:
            return [(st, boolv(d))]
        out = []
        for s, b in self.branch(st, args[0]):
            out.append((s, boolv(b)))
        return out

    def _mkseq(self, args, st, node, kind):
        if not args:
            return [(st, self.new_list(st, [], node, None, kind)
                     if kind != 'tuple' else T([]))]
        v = args[0]
        out = []
        for s, r in self.stream(st, v, node):
            if isinstance(r, Raised):
                out.append((s, r))
                continue
            known, sym = r
            if sym is None:
                if kind == 'set':
                    known = list(dict.fromkeys(known))
                out.append((s, T(known) if kind == 'tuple' else
                            self.new_list(s, known, node, None, kind)))
            else:
                if kind == 'tuple' and not known:
                    out.append((s, S('call', X('builtins.tuple'), v)))
                else:
                    tail = v if not known else (
                        sym[0] if isinstance(sym[0], Val) else True)
                    if isinstance(v, Obj):
                        c = self.cont(s, v)
                        tail = c[2] if c is not None else v
                    k2 = 'list' if kind == 'tuple' else kind
                    out.append((s, self.new_list(s, known, node, tail, k2)))
        return out

    def b_list(self, args, kw, st, node):
        return self._mkseq(args, st, node, 'list')

    def b_tuple(self, args, kw, st, node):
        return self._mkseq(args, st, node, 'tuple')

    def b_set(self, args, kw, st, node):
        return self._mkseq(args, st, node, 'set')

    b_frozenset = b_set

    def b_sorted(self, args, kw, st, node):
        k = self.known_items(st, args[0]) if args else None
        if k is not None and all(isinstance(x, Const) for x in k) and \
                'key' not in kw:
            try:
                r = kw.get('reverse')
                l = sorted(k, key=lambda x: x.v,
                           reverse=bool(r is not None and r.v))
                return [(st, self.new_list(st, l, node))]
            except Exception:
                pass
        if k is not None and kw.get('key', NONE) is not NONE:
            r = self._sort_by(k, kw, st, node)
            if r is not None:
                return r
        if k is not None:
            return [(st, self.new_list(st, k, node))]
        if args:
            return [(st, self.new_list(st, [], node, S(
                'call', X('builtins.sorted'), args[0])))]
        return None

    def _sort_by(self, items, kw, st, node):
        """sorted() by a key function with known results, or None"""
        rev = kw.get('reverse', FALSE)
        if not isinstance(rev, Const):
            return None
        keys, st2 = [], st.fork()
        for x in items:
            r = self.call(kw['key'], [x], {}, st2, node)
            if len(r) != 1 or isinstance(r[0][1], Raised) or \
                    not isinstance(r[0][1], Const):
                return None
            st2 = r[0][0]
            keys.append(r[0][1].v)
        try:
            order = sorted(range(len(keys)), key=lambda i: keys[i],
                           reverse=bool(rev.v))
        except TypeError:
            return None
        return [(st2, self.new_list(st2, [items[i] for i in order], node))]

    def b_dict(self, args, kw, st, node):
        items = {}
        tail = None
        if args:
            v = args[0]
            c = self.cont(st, v) if isinstance(v, Obj) else None
            if c is not None and c[0] == 'dict':
                items.update(c[1])
                tail = c[2]
            else:
                k = self.known_items(st, v)
                if k is not None and all(
                        isinstance(x, Tup) and len(x.items) == 2
                        for x in k):
                    for x in k:
                        items[x.items[0]] = x.items[1]
                else:
                    tail = v
        for a, b in kw.items():
            if a == '**':
                tail = b if tail is None else True
            else:
                items[C(a)] = b
        return [(st, self.new_dict(st, items.items(), node, tail))]

    def b_iter(self, args, kw, st, node):
        if len(args) == 1:
            k = self.known_items(st, args[0])
            if k is not None:
                o = self.alloc(st, 'gen', node)
                st.cont[o] = ('list', tuple(k), None)
                return [(st, o)]
            return [(st, S('call', X('builtins.iter'), args[0]))]
        return None

    def b_next(self, args, kw, st, node):
        if args and isinstance(args[0], Obj):
            c = self.cont(st, args[0])
            if c is not None and c[2] is None:
                if c[1]:
                    st.cont[args[0]] = (c[0], c[1][1:], None)
                    return [(st, c[1][0])]
                if len(args) > 1:
                    return [(st, args[1])]
                return [(st, self.raise_(st, 'StopIteration', node))]
        if args:
            out = []
            for s, b in self.branch(st, S('more', args[0], st.ctr.get(
                    ('next', args[0]), 0))):
                if b:
                    k = ('next', args[0])
                    i = s.ctr.get(k, 0)
                    s.ctr[k] = i + 1
                    out.append((s, S('elem', args[0], i)))
                elif len(args) > 1:
                    out.append((s, args[1]))
                else:
                    out.append((s, self.raise_(s, 'StopIteration', node)))
            return out
        return None

    def b_enumerate(self, args, kw, st, node):
        if 'start' in kw:
            args = args + [kw['start']]
        return [(st, S('call', X('builtins.enumerate'), *args))]

    def b_zip(self, args, kw, st, node):
        return [(st, S('call', X('builtins.zip'), *args))]

    def b_reversed(self, args, kw, st, node):
        return [(st, S('call', X('builtins.reversed'), *args))]

    def b_range(self, args, kw, st, node):
        return [(st, S('call', X('builtins.range'), *args))]

    def b_map(self, args, kw, st, node):
        if len(args) == 2:
            k = self.known_items(st, args[1])
            if k is not None:
                cur = [(st, [])]
                for x in k:
                    nxt = []
                    for s, vs in cur:
                        if isinstance(vs, Raised):
                            nxt.append((s, vs))
                            continue
                        for s2, v in self.call(args[0], [x], {}, s, node):
                            nxt.append((s2, v if isinstance(v, Raised)
                                        else vs + [v]))
                    cur = nxt
                out = []
                for s, vs in cur:
                    if isinstance(vs, Raised):
                        out.append((s, vs))
                    else:
                        o = self.alloc(s, 'gen', node)
                        s.cont[o] = ('list', tuple(vs), None)
                        out.append((s, o))
                return out
        return None

    def b_filter(self, args, kw, st, node):
        return None

    def b_any(self, args, kw, st, node):
        return self._anyall(args, st, node, True)

    def b_all(self, args, kw, st, node):
        return self._anyall(args, st, node, False)

    def _anyall(self, args, st, node, want):
        k = self.known_items(st, args[0]) if args else None
        if k is None:
            return None
        cur = [st]
        out = []
        for x in k:
            nxt = []
            for s in cur:
                for s2, b in self.branch(s, x):
                    if b == want:
                        out.append((s2, boolv(want)))
                    else:
                        nxt.append(s2)
            cur = nxt
        out.extend((s, boolv(not want)) for s in cur)
        return out

    def b_min(self, args, kw, st, node):
        return self._minmax('min', args, kw, st, node)

    def b_max(self, args, kw, st, node):
        return self._minmax('max', args, kw, st, node)

    def _minmax(self, name, args, kw, st, node):
        if len(args) == 1:
            k = self.known_items(st, args[0])
            if k is not None and k:
                args = k
        if len(args) > 1 and all(isinstance(a, Const) for a in args) and \
                not kw:
            try:
                return [(st, C(getattr(builtins, name)(
                    *[a.v for a in args])))]
            except Exception:
                return None
        if len(args) > 1 and not kw and all(
                isinstance((self.ctype(st, a) or (None,))[0], ClassInfo)
                for a in args):
            worlds = [(st, args[0])]
            for x in args[1:]:
                nxt = []
                for s, best in worlds:
                    if isinstance(best, Raised):
                        nxt.append((s, best))
                        continue
                    for s1, v in self.compare(s, 'gt' if name == 'max'
                                              else 'lt', x, best, node):
                        if isinstance(v, Raised):
                            nxt.append((s1, v))
                            continue
                        for s2, b in self.branch(s1, v, node):
                            nxt.append((s2, x if b else best))
                worlds = nxt
            return worlds
        if len(args) > 1 and not kw:
            args = sorted(dict.fromkeys(args), key=lambda v: repr(v))
            if len(args) == 1:
                return [(st, args[0])]
        return [(st, S('call', X('builtins.' + name),
                       *[self.freeze(st, a) for a in args]))]

    def b_sum(self, args, kw, st, node):
        k = self.known_items(st, args[0]) if args else None
        if k is None:
            return None
        first = args[1] if len(args) > 1 else kw.get('start', C(0))
        out = [(st, first)]
        for x in k:
            nxt = []
            for s, v in out:
                if isinstance(v, Raised):
                    nxt.append((s, v))
                else:
                    nxt.extend(self.binop(s, ast.Add(), v, x, node))
            out = nxt
        return out

    def b_getattr(self, args, kw, st, node):
        if len(args) >= 2 and isinstance(args[1], Const):
            out = []
            if len(args) == 3:
                t = self.ctype(st, args[0])
                out = []
                for s, v in self.getattr_(st, args[0], args[1].v, node):
                    if isinstance(v, Raised):
                        out.append((s, args[2]))
                    else:
                        out.append((s, v))
                return out
            return self.getattr_(st, args[0], args[1].v, node)
        return None

    def b_setattr(self, args, kw, st, node):
        if len(args) == 3 and isinstance(args[1], Const):
            return [(s, NONE if r is None or not isinstance(r, Raised)
                     else r)
                    for s, r in self.setattr_(st, args[0], args[1].v,
                                              args[2], node)]
        if len(args) == 3:
            self.emit(st, Event('setattr', '*', args[0], (args[2],),
                                node=node, caller=self.caller()))
            return [(st, NONE)]
        return None

    def b_hasattr(self, args, kw, st, node):
        if len(args) == 2 and isinstance(args[1], Const):
            t = self.ctype(st, args[0])
            if t and isinstance(t[0], ClassInfo):
                m, o = self.p.find_member(t[0], args[1].v)
                if m is not None:
                    return [(st, TRUE)]
            if isinstance(args[0], Const):
                return [(st, boolv(hasattr(args[0].v, args[1].v)))]
            if isinstance(args[0], Obj) and args[0].kind in (
                    'list', 'dict', 'set'):
                return [(st, boolv(hasattr(
                    getattr(builtins, args[0].kind), args[1].v)))]
            return [(st, S('hasattr', args[0], args[1]))]
        return None

    def b_callable(self, args, kw, st, node):
        if args and isinstance(args[0], (FnV, ClsV)):
            return [(st, TRUE)]
        return None

    def b_str(self, args, kw, st, node):
        if len(args) == 1:
            t = self.ctype(st, args[0])
            if t and isinstance(t[0], ExtClass) and \
                    t[0].name == 'builtins.str':
                return [(st, args[0])]
            if t and isinstance(t[0], ClassInfo):
                m = self.p.find_member(t[0], '__str__')[0]
                if isinstance(m, FuncInfo) and self.can_inline(m):
                    return self.call_method(st, args[0], '__str__', [], {},
                                            node)
        if not args:
            return [(st, C(''))]
        return None

    def b_float(self, args, kw, st, node):
        if len(args) == 1:
            t = self.ctype(st, args[0])
            if t and isinstance(t[0], ClassInfo):
                m = self.p.find_member(t[0], '__float__')[0]
                if isinstance(m, FuncInfo) and self.can_inline(m):
                    return self.call_method(st, args[0], '__float__', [],
                                            {}, node)
        return None

    def _list_extend(self, st, o, v):
        c = self.cont(st, o)
        k = self.known_items(st, v)
        if k is not None and c[2] is None:
            st.cont[o] = (c[0], c[1] + tuple(k), None)
        elif c[2] is None and k is None:
            tail = v
            if isinstance(v, Obj):
                c2 = self.cont(st, v)
                if c2 is not None:
                    st.cont[o] = (c[0], c[1] + c2[1], c2[2])
                    return
            st.cont[o] = (c[0], c[1], tail)
        else:
            st.cont[o] = (c[0], c[1], S('concat', c[2] if isinstance(
                c[2], Val) else C('...'), self.freeze(st, v)))

    def bound_call(self, fn, args, kw, st, node):
        o, name = fn.recv, fn.name
        if fn.ext is not None:
            return self.opaque_call(name, o, args, kw, st, node, fn)
        if isinstance(o, Const):
            r = self.const_method(o, name, args, kw, st, node)
            if r is not None:
                return r
        if isinstance(o, Sym) and o.op == 'cat' and len(args) == 1 and \
                name in ('startswith', 'endswith'):
            e = o.args[0 if name == 'startswith' else -1]
            a = args[0]
            if isinstance(e, Const) and isinstance(a, Const) and \
                    isinstance(a.v, str):
                if getattr(e.v, name)(a.v):
                    return [(st, TRUE)]
                if len(e.v) >= len(a.v):
                    return [(st, FALSE)]
        if isinstance(o, Sym):
            rx = self.as_regex(o)
            if rx is not None and not kw:
                r = self.regex_call(st, rx, name, args, node)
                if r is not None:
                    return r
        if isinstance(o, Tup):
            if name == 'index' and args and args[0] in o.items:
                return [(st, C(o.items.index(args[0])))]
            if name == 'count':
                return [(st, C(o.items.count(args[0])))]
        if arrays.is_array(o):
            r = arrays.method(self, o, name, args, kw, st, node)
            if r is not None:
                return r
        elif isinstance(o, Obj) and self.cont(st, o) is not None:
            r = self.container_method(o, name, args, kw, st, node)
            if r is not None:
                return r
        return self.opaque_call(name, o, args, kw, st, node, fn)

    def const_method(self, o, name, args, kw, st, node):
        v = o.v
        if isinstance(v, (str, bytes)):
            if name == 'join' and len(args) == 1:
                k = self.known_items(st, args[0])
                if k is not None and all(isinstance(x, Const) for x in k):
                    try:
                        return [(st, C(v.join(x.v for x in k)))]
                    except TypeError:
                        return [(st, self.raise_(st, 'TypeError', node))]
                if k is not None and isinstance(v, str):
                    ps = []
                    for i, x in enumerate(k):
                        if i:
                            ps.append(o)
                        ps.append(x)
                    return [(st, self.mkcat(st, ps))]
                return [(st, S('strjoin', o, self.freeze(st, args[0])))]
            al = []
            for a in args:
                if isinstance(a, Const):
                    al.append(a.v)
                elif isinstance(a, Tup) and all(isinstance(x, Const)
                                                for x in a.items):
                    al.append(tuple(x.v for x in a.items))
                else:
                    al = None
                    break
            if al is not None and all(isinstance(x, Const)
                                      for x in kw.values()):
                try:
                    r = getattr(v, name)(*al, **{k: x.v
                                                 for k, x in kw.items()})
                except Exception as e:
                    return [(st, self.raise_(st, type(e).__name__, node))]
                return [(st, self.lift(st, r, node))]
            if name == 'format' and isinstance(v, str):
                ps = self.fmt_parts(v, args, kw)
                if ps is not None:
                    return [(st, self.mkcat(st, ps))]
                return [(st, S('fstr', o, *[self.freeze(st, a)
                                            for a in args],
                               *[S('kw', k, self.freeze(st, x))
                                 for k, x in sorted(kw.items())]))]
        elif isinstance(v, (int, float, re.Match)) and all(
                isinstance(a, Const) for a in args):
            try:
                return [(st, self.lift(st, getattr(v, name)(
                    *[a.v for a in args]), node))]
            except Exception:
                return None
        return None

    def lift(self, st, r, node):
        if isinstance(r, tuple):
            return T([self.lift(st, x, node) for x in r])
        if isinstance(r, list):
            return self.new_list(st, [self.lift(st, x, node) for x in r],
                                 node)
        if isinstance(r, dict):
            return self.new_dict(st, [(C(k), self.lift(st, x, node))
                                      for k, x in r.items()], node)
        return C(r)

    def container_method(self, o, name, args, kw, st, node):
        c = self.cont(st, o)
        kind, items, tail = c

        def bump():
            k = ('v', o)
            st.ctr[k] = st.ctr.get(k, 0) + 1

        def mut():
            bump()
            self.emit(st, Event('mutate', name, o, tuple(args), dict(kw),
                                node, None, None, self.caller()))
        if kind == 'list':
            if name == 'append' and len(args) == 1:
                mut()
                if tail is None:
                    st.cont[o] = (kind, items + (args[0],), None)
                else:
                    st.cont[o] = (kind, items, S(
                        'concat', tail if isinstance(tail, Val)
                        else C('...'), S('list', T([args[0]]))))
                return [(st, NONE)]
            if name == 'extend' and len(args) == 1:
                mut()
                self._list_extend(st, o, args[0])
                return [(st, NONE)]
            if name == 'insert' and len(args) == 2:
                mut()
                if tail is None and isinstance(args[0], Const):
                    l = list(items)
                    l.insert(args[0].v, args[1])
                    st.cont[o] = (kind, tuple(l), None)
                else:
                    st.cont[o] = (kind, (), S('modified', args[1], id(node)))
                return [(st, NONE)]
            if name == 'pop':
                mut()
                i = args[0].v if args and isinstance(args[0], Const) else -1
                if args and not isinstance(args[0], Const):
                    st.cont[o] = (kind, (), S('modified', o, id(node)))
                    return [(st, S('idx', self.freeze(st, o), args[0]))]
                if tail is None:
                    if not items or not -len(items) <= i < len(items):
                        return [(st, self.raise_(st, 'IndexError', node))]
                    l = list(items)
                    v = l.pop(i)
                    st.cont[o] = (kind, tuple(l), None)
                    return [(st, v)]
                if i >= 0 and i < len(items):
                    l = list(items)
                    v = l.pop(i)
                    st.cont[o] = (kind, tuple(l), tail)
                    return [(st, v)]
                k = ('pop', id(node), o)
                nn = st.ctr.get(k, 0)
                st.ctr[k] = nn + 1
                return [(st, S('pop', self.freeze(st, o), nn))]
            if name == 'remove' and args:
                mut()
                if args[0] in items:
                    l = list(items)
                    l.remove(args[0])
                    st.cont[o] = (kind, tuple(l), tail)
                    return [(st, NONE)]
                if tail is None and all(isinstance(x, Const)
                                        for x in items) and \
                        isinstance(args[0], Const):
                    return [(st, self.raise_(st, 'ValueError', node))]
                st.cont[o] = (kind, (), S('modified', o, id(node)))
                return [(st, NONE)]
            if name == 'clear':
                mut()
                st.cont[o] = (kind, (), None)
                return [(st, NONE)]
            if name in ('reverse', 'sort'):
                mut()
                if name == 'reverse' and tail is None:
                    st.cont[o] = (kind, items[::-1], None)
                return [(st, NONE)]
            if name == 'index' and args and args[0] in items:
                return [(st, C(items.index(args[0])))]
            if name == 'index' and args and isinstance(args[0], Const) and \
                    tail is None and all(isinstance(x, Const)
                                         for x in items):
                return [(st, self.raise_(st, 'ValueError', node))]
            if name == 'count' and args and tail is None and \
                    all(isinstance(x, Const) for x in items) and \
                    isinstance(args[0], Const):
                return [(st, C(items.count(args[0])))]
            if name == 'copy':
                return [(st, self.new_list(st, items, node, tail))]
        elif kind == 'dict':
            if name in ('get', 'pop', 'setdefault') and args:
                k = st.eqs.get(args[0], args[0])
                hit = None
                for kk, v in items:
                    if kk is k:
                        hit = v
                allc = all(isinstance(x, Const) for x, _ in items)
                if hit is None and isinstance(k, Const) and allc:
                    for kk, v in items:
                        try:
                            if kk.v == k.v:
                                hit = v
                        except Exception:
                            pass
                if name == 'pop':
                    mut()
                if hit is not None:
                    if name == 'pop':
                        st.cont[o] = (kind, tuple(
                            (a, b) for a, b in items if a is not k), tail)
                    return [(st, hit)]
                miss = tail is None and isinstance(k, Const) and allc
                default = args[1] if len(args) > 1 else kw.get('default',
                                                               NONE)
                if name == 'setdefault':
                    mut()
                    if miss:
                        st.cont[o] = (kind, items + ((k, default),), tail)
                        return [(st, default)]
                    v = S('idx', self.freeze(st, o), k)
                    return [(st, v)]
                if miss:
                    if name == 'pop' and len(args) == 1:
                        return [(st, self.raise_(st, 'KeyError', node))]
                    return [(st, default)]
                if not items and tail is None:
                    return [(st, default)]
                # unknown key: present or absent
                fo = self.freeze(st, o)
                v = S('in', k, T([x for x, _ in items])
                      if tail is None and allc else fo)
                out = []
                for s, b in self.branch(st, v):
                    out.append((s, S('idx', fo, k) if b else default))
                return out
            if name == 'move_to_end' and args and tail is None and \
                    all(isinstance(x, Const) for x, _ in items) and \
                    isinstance(args[0], Const):
                mut()
                last = args[1] if len(args) > 1 else kw.get('last', TRUE)
                it = [x for x in items if x[0] is args[0]]
                rest = tuple(x for x in items if x[0] is not args[0])
                if not it:
                    return [(st, self.raise_(st, 'KeyError', node))]
                if isinstance(last, Const):
                    st.cont[o] = (kind, rest + tuple(it) if last.v else
                                  tuple(it) + rest, None)
                    return [(st, NONE)]
            if name == 'popitem' and tail is None and items:
                mut()
                last = args[0] if args else kw.get('last', TRUE)
                if isinstance(last, Const):
                    a, b = items[-1 if last.v else 0]
                    st.cont[o] = (kind, items[:-1] if last.v else items[1:],
                                  None)
                    return [(st, T([a, b]))]
            if name == 'items' and not args:
                if tail is None:
                    return [(st, self.new_list(
                        st, [T([a, b]) for a, b in items], node))]
                o2 = self.new_list(st, [T([a, b]) for a, b in items], node,
                                   S('call', B(tail, 'items'))
                                   if isinstance(tail, Val) else True)
                return [(st, o2)]
            if name == 'keys' and not args:
                return [(st, self.new_list(st, [a for a, _ in items], node,
                                           tail))]
            if name == 'values' and not args:
                return [(st, self.new_list(
                    st, [b for _, b in items], node,
                    None if tail is None else True))]
            if name == 'update':
                mut()
                d = dict(items)
                tl = tail
                if args:
                    v = args[0]
                    c2 = self.cont(st, v) if isinstance(v, Obj) else None
                    if c2 is not None and c2[0] == 'dict':
                        d.update(c2[1])
                        tl = tl or c2[2]
                    else:
                        k = self.known_items(st, v)
                        if k is not None and all(
                                isinstance(x, Tup) and len(x.items) == 2
                                for x in k):
                            for x in k:
                                d[x.items[0]] = x.items[1]
                        else:
                            tl = v if tl is None else True
                for a, b in kw.items():
                    if a == '**':
                        tl = b if tl is None else True
                    else:
                        d[C(a)] = b
                st.cont[o] = (kind, tuple(d.items()), tl)
                return [(st, NONE)]
            if name == 'copy':
                d = self.new_dict(st, items, node, tail)
                t = st.types.get(o)
                if t and isinstance(t[0], ClassInfo):
                    st.types[d] = t
                return [(st, d)]
            if name == 'clear':
                mut()
                st.cont[o] = (kind, (), None)
                return [(st, NONE)]
        elif kind == 'set':
            if name == 'add' and args:
                mut()
                if args[0] not in items:
                    st.cont[o] = (kind, items + (args[0],), tail)
                return [(st, NONE)]
            if name in ('discard', 'remove') and args:
                mut()
                st.cont[o] = (kind, tuple(x for x in items
                                          if x is not args[0]), tail)
                return [(st, NONE)]
            if name in ('update',):
                mut()
                for a in args:
                    k = self.known_items(st, a)
                    c1 = self.cont(st, o)
                    if k is None:
                        st.cont[o] = (kind, c1[1], a)
                    else:
                        st.cont[o] = (kind, tuple(dict.fromkeys(
                            c1[1] + tuple(k))), c1[2])
                return [(st, NONE)]
            if name in ('copy', 'union'):
                its = items
                tl = tail
                for a in args:
                    k = self.known_items(st, a)
                    if k is None:
                        tl = a
                    else:
                        its = its + tuple(k)
                return [(st, self.new_list(st, list(dict.fromkeys(its)),
                                           node, tl, 'set'))]
        if name in LIST_MUT | DICT_MUT | SET_MUT:
            mut()
            st.cont[o] = (kind, (), S('modified', o, id(node)))
            return [(st, S('call', B(o, name), *args))]
        return None


class _ClassScope(dict):
    """Name lookups while evaluating an expression of a class body."""

    def __init__(self, eng, ci):
        super().__init__()
        self.eng = eng
        self.ci = ci

    def copy(self):
        r = _ClassScope(self.eng, self.ci)
        r.update(self)
        return r

    def get(self, k, d=None):
        if k in self:
            return dict.get(self, k)
        m = self.ci.members.get(k) if isinstance(k, str) else None
        if isinstance(m, ast.AST):
            return self.eng.class_attr(self.ci, k, m)
        if isinstance(m, FuncInfo):
            return F(m)
        if isinstance(m, ClassInfo):
            return K(m)
        return d


def _ext_methods(owner):
    from .project import _EXT_ATTRS
    s = _EXT_ATTRS.get(owner.name, ())
    return [x for x in s if x not in (
        'attrib', 'base', 'nsmap', 'prefix', 'sourceline', 'tag', 'tail',
        'text', 'target')]


def _const_slice(k):
    if isinstance(k, Sym) and k.op == 'slicespec' and all(
            isinstance(a, Const) for a in k.args):
        return slice(*[a.v for a in k.args])
    return None


def _as_load(t):
    t2 = getattr(t, '_load', None)
    if t2 is None:
        import copy as _copy
        if isinstance(t, ast.Name):
            t2 = ast.Name(id=t.id, ctx=ast.Load())
        elif isinstance(t, ast.Attribute):
            t2 = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        elif isinstance(t, ast.Subscript):
            t2 = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
        ast.copy_location(t2, t)
        t2._module = getattr(t, '_module', None)
        t._load = t2
    return t2


def _declared_global(fi, name):
    g = getattr(fi, '_globals', None)
    if g is None:
        g = set()
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Global):
                g.update(x.names)
        fi._globals = g
    return name in g


def _dkey(d):
    return frozenset((k if not isinstance(k, Raised) else id(k),
                      v if not isinstance(v, Raised) else id(v))
                     for k, v in d.items())


def _sigkey(sig):
    if sig is None:
        return None
    if sig[0] == 'return':
        return sig
    if sig[0] == 'raise':
        return ('raise', id(sig[1]))
    return sig

"""Interprocedural effect and alias analysis (join based, all functions).

Every value is abstracted by the set of origins the object itself may be
(`own`) and the origins reachable inside it (`inner`), plus the classes it may
have. Origins: ('param', i) the i-th argument itself, ('in', i) something
reachable from it, ('glob', module, name) / ('clsattr', class, name) /
('default', function, parameter) long-lived package objects, ('inglob', ..)
something inside them, ('field', name) an object held by an object's
attribute. Function summaries (what is mutated, what is returned, what is
stored in which attribute) are computed to a fixpoint over the whole package
and instantiated at call sites; receivers of unknown class resolve to every
package method of that name."""

import ast

from .project import (AnalysisBroken, ClassInfo, ExtClass, FuncInfo, Module,
                      PropInfo, dotted)

EMPTY = frozenset()
LIST_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear',
            'reverse', 'sort', 'update', 'setdefault', 'popitem', 'move_to_end', 'add',
            'discard', 'intersection_update', 'difference_update',
            'symmetric_difference_update', 'appendleft', 'popleft',
            '__setitem__', '__delitem__', '__iadd__'}
# mutators inherited from the abstract collections: what they run
MIXIN = {'append': ('insert',), 'extend': ('insert',),
         '__iadd__': ('insert', '__setitem__'), 'pop': ('__delitem__',),
         'popitem': ('__delitem__',), 'clear': ('__delitem__',),
         'remove': ('__delitem__',), 'reverse': ('__setitem__',),
         'update': ('__setitem__',), 'setdefault': ('__setitem__',)}
INPLACE = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__',
           'Div': '__itruediv__', 'MatMult': '__imatmul__',
           'BitOr': '__ior__', 'BitAnd': '__iand__', 'Mod': '__imod__',
           'FloorDiv': '__ifloordiv__', 'Pow': '__ipow__',
           'BitXor': '__ixor__'}
SCALARS = frozenset(['str', 'int', 'float', 'bool', 'bytes', 'NoneType',
                     'complex'])
COPIES = {'list', 'dict', 'tuple', 'set', 'sorted', 'frozenset', 'reversed',
          'enumerate', 'zip', 'filter', 'map', 'iter', 'OrderedDict',
          'KeysView', 'ItemsView', 'ValuesView'}
SCALAR_FN = {'len', 'int', 'float', 'str', 'bool', 'abs', 'round', 'ord',
             'chr', 'repr', 'hash', 'isinstance', 'issubclass', 'callable',
             'hasattr', 'format', 'sum', 'any', 'all', 'print', 'range',
             'id', 'divmod', 'pow', 'bytes', 'type', 'hex', 'bin'}
STR_METHODS = {'format', 'join', 'split', 'strip', 'lower', 'upper',
               'replace', 'startswith', 'endswith', 'encode', 'decode',
               'rstrip', 'lstrip', 'find', 'rfind', 'partition',
               'rpartition', 'splitlines', 'isdigit', 'isupper', 'islower',
               'isspace', 'isalpha', 'capitalize', 'title', 'zfill',
               'count', 'index', 'rsplit', 'islower', 'casefold', 'isalnum'}

BUILTIN_NAMES = frozenset(
    n for t in (list, dict, set, str, tuple, bytes, int, float)
    for n in dir(t)) | frozenset([
        'xpath', 'iter', 'addnext', 'addprevious', 'find', 'findall',
        'findtext', 'get', 'set', 'getchildren', 'getiterator', 'getnext',
        'getparent', 'getprevious', 'getroottree', 'iterancestors',
        'iterchildren', 'iterdescendants', 'iterfind', 'itersiblings',
        'itertext', 'makeelement', 'replace', 'cssselect', 'group', 'groups',
        'groupdict', 'match', 'search', 'tostring', 'parse', 'fromstring',
        'tolist', 'multiply', 'inverse', 'read', 'write', 'close', 'start',
        'end', 'span', 'sub', 'dot', 'any', 'all', 'prepend', 'matches'])


class V:
    """own: what the object itself may be; inner: what it may hold; t: class
    names (None: unknown); f: fields of an object made here; e: its elements;
    pos: its elements by position."""
    __slots__ = ('own', 'inner', 't', 'f', 'e', 'pos', 'd')

    def __init__(self, own=EMPTY, inner=EMPTY, t=None, f=None, e=None,
                 pos=None):
        self.own = own
        self.inner = inner
        self.t = t           # None unknown | frozenset of class names
        self.f = f           # fields of an object made here | None
        d = 0
        if e is not None:
            d = e.d + 1
        if pos is not None:
            d = max([d] + [x.d + 1 for x in pos])
        if d > 4 or own:
            e = pos = None
            d = 0
        self.e = e
        self.pos = pos
        self.d = d

    def join(self, o):
        if o is self:
            return self
        t = None if self.t is None or o.t is None else self.t | o.t
        f = None
        if self.f is not None and o.f is not None:
            f = {k: self.f.get(k, EMPTY) | o.f.get(k, EMPTY)
                 for k in set(self.f) | set(o.f)}
        elif self.f is not None and not o.inner:
            f = self.f
        elif o.f is not None and not self.inner:
            f = o.f
        pos = None
        e = None
        if self.pos is not None and o.pos is not None and \
                len(self.pos) == len(o.pos):
            pos = tuple(x.join(y) for x, y in zip(self.pos, o.pos))
        elif self.pos is not None and o.bare():
            pos = self.pos
        elif o.pos is not None and self.bare():
            pos = o.pos
        if self.e is not None and o.e is not None:
            e = self.e.join(o.e)
        elif self.e is not None and o.bare():
            e = self.e
        elif o.e is not None and self.bare():
            e = o.e
        return V(self.own | o.own, self.inner | o.inner, t, f, e, pos)

    def bare(self):
        return not self.own and not self.inner

    def key(self):
        return (self.own, self.inner, self.t, None if self.f is None else
                frozenset(self.f.items()),
                None if self.e is None else self.e.key(),
                None if self.pos is None else
                tuple(x.key() for x in self.pos))

    @property
    def all(self):
        return self.own | self.inner


FRESH = V()
SCALAR = V(t=frozenset(['str']))


def inside(o):
    """Origin of something reachable from origin o."""
    k = o[0]
    if k == 'param':
        return ('in', o[1])
    if k == 'fld':
        return ('fldin', o[1], o[2])
    if k in ('glob', 'clsattr', 'default'):
        return ('in' + k,) + o[1:]
    return o


def reach(v):
    return v.inner | frozenset(inside(o) for o in v.own)


class Summary:
    def __init__(self):
        self.mut = {}        # (origin, kind, site_fq, lineno, what) -> True
        self.ret = V(t=frozenset())
        self.stores = {}     # (field, origin) -> site

    def size(self):
        return (len(self.mut), self.ret.key(), len(self.stores))


class Effects:
    def __init__(self, project, stop=lambda fi: False):
        self.p = project
        self.stop = stop
        self.sum = {}
        self.fields = {}        # field name -> frozenset of ext origins
        self.funcs = []
        for fi in self._all_functions():
            self.funcs.append(fi)
            self.sum[fi] = Summary()
        self.by_name = {}
        for fi in self.funcs:
            if fi.cls is not None and '@' not in fi.fq and not any(
                    dotted(d) in ('property', 'functools.cached_property')
                    for d in fi.node.decorator_list):
                self.by_name.setdefault(fi.name, []).append(fi)
        self.setters = {}
        for ci in project.classes.values():
            for n, m in ci.members.items():
                if isinstance(m, PropInfo) and m.setter is not None:
                    self.setters.setdefault(n, []).append(m.setter)
        self.getters = {}
        for ci in project.classes.values():
            for n, m in ci.members.items():
                if isinstance(m, PropInfo) and m.getter is not None:
                    self.getters.setdefault(n, []).append(m.getter)
        self.field_t = {}
        self.glob_v = {}
        self.rounds = 0
        self._solve()

    def _all_functions(self):
        seen = []
        for fi in self.p.functions.values():
            seen.append(fi)
        ids = {id(f) for f in seen}
        for ci in self.p.classes.values():
            for m in ci.members.values():
                ms = [m] if isinstance(m, FuncInfo) else \
                    [x for x in (m.getter, m.setter, m.deleter) if x] \
                    if isinstance(m, PropInfo) else []
                for f in ms:
                    if id(f) not in ids:
                        ids.add(id(f))
                        seen.append(f)
        return seen

    def _solve(self):
        for r in range(12):
            self.rounds = r + 1
            changed = False
            for fi in self.funcs:
                old = self.sum[fi].size()
                _Fn(self, fi).run()
                if self.sum[fi].size() != old:
                    changed = True
            if not changed:
                return
        # not converged: summaries only grow, findings stay meaningful

    # -- receivers -------------------------------------------------------
    def methods(self, v, name, cls_hint=None):
        """Package methods `name` a receiver may run."""
        if v.t is not None:
            out = []
            for t in v.t:
                ci = self.p.classes.get(t)
                if ci is None:
                    continue
                out += self.class_methods(ci, name)
            return out
        return self.by_name.get(name, [])

    def class_methods(self, ci, name):
        out = []
        m, _ = self.p.find_member(ci, name)
        if isinstance(m, FuncInfo):
            out.append(m)
        for s in self.p.subclasses(ci):
            m = s.members.get(name)
            if isinstance(m, FuncInfo) and m not in out:
                out.append(m)
        return out


class _Fn:
    def __init__(self, eff, fi):
        self.e = eff
        self.p = eff.p
        self.fi = fi
        self.s = eff.sum[fi]
        self.mod = fi.module
        self.globals = set()

    # -- driver ----------------------------------------------------------
    def run(self):
        a = self.fi.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):],
                            a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(x.arg)
            if d is not None:
                defaults[x.arg] = d
        for i, n in enumerate(names):
            own = {('param', n)}
            t = None
            if i == 0 and self.fi.cls is not None and \
                    self.fi.kind not in ('static', 'function') and \
                    self.is_method():
                t = frozenset([self.fi.cls.fq])
            d = defaults.get(n)
            if d is not None and not isinstance(d, ast.Constant) and \
                    self.mutable_expr(d):
                own.add(('default', self.fi.fq, n))
            env[n] = V(frozenset(own), frozenset([('in', n)]), t)
        if a.vararg:
            env[a.vararg.arg] = V(EMPTY, frozenset([('param', a.vararg.arg),
                                                    ('in', a.vararg.arg)]),
                                  frozenset(['tuple']))
        if a.kwarg:
            env[a.kwarg.arg] = V(EMPTY, frozenset([('param', a.kwarg.arg),
                                                   ('in', a.kwarg.arg)]),
                                 frozenset(['dict']))
        self.block(self.fi.node.body, env)

    def is_method(self):
        return self.fi.cls is not None

    def mutable_expr(self, d):
        return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                              ast.DictComp, ast.SetComp)) or \
            isinstance(d, ast.Call)

    # -- effects ---------------------------------------------------------
    def mutate(self, v, kind, node, what):
        for o in v.own:
            self.s.mut[(o, kind, self.fi.fq, getattr(node, 'lineno', 0),
                        what)] = True

    def store_field(self, base, name, v, node):
        for b in base.own:
            for o in v.own:
                self.s.stores[(b, name, o)] = (self.fi.fq, node.lineno)
            for o in v.inner:
                self.s.stores[(b, name, ('inner', o))] = (self.fi.fq,
                                                          node.lineno)

    # -- statements ------------------------------------------------------
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def join_into(self, env, *envs):
        keys = set()
        for e in envs:
            keys |= set(e)
        for k in keys:
            vs = [e[k] for e in envs if k in e]
            v = vs[0]
            for x in vs[1:]:
                v = v.join(x)
            env[k] = v

    def stmt(self, n, env):
        if isinstance(n, ast.Assign):
            v = self.ev(n.value, env)
            for t in n.targets:
                self.assign(t, v, env, n)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.assign(n.target, self.ev(n.value, env), env, n)
        elif isinstance(n, ast.AugAssign):
            v = self.ev(n.value, env)
            if isinstance(n.target, ast.Name):
                old = self.name(n.target.id, env)
                if n.target.id in self.globals:
                    self.s.mut[(('glob', self.mod.name, n.target.id),
                                'rebind', self.fi.fq, n.lineno,
                                n.target.id)] = True
                if old.t is None or old.t - SCALARS:
                    ms = self.dunder(old, n.op)
                    if ms:
                        self.apply(ms, old, [v], {}, env, n)
                    if self.scalarish(v) is False:
                        self.mutate(old, 'aug', n, 'augmented assignment')
                env[n.target.id] = V(
                    old.own, old.inner | v.inner, old.t, old.f,
                    self.grow(old, self.elem(v)) if v.e or v.pos or v.bare()
                    else None)
            elif isinstance(n.target, ast.Attribute):
                b = self.ev(n.target.value, env)
                if self.scalarish(v) is False or \
                        self.holds_container(b, n.target.attr):
                    f = self.ev(n.target, env)
                    self.mutate(f, 'aug', n, 'augmented assignment')
                self.shared_attr(n.target, env, n)
                self.setattr(b, n.target.attr, v, env, n)
            else:
                b = self.ev(n.target.value, env)
                self.ev(n.target.slice, env)
                self.mutate(b, 'item', n, 'augmented item assignment')
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    b = self.ev(t.value, env)
                    self.ev(t.slice, env)
                    ms = self.e.methods(b, '__delitem__') \
                        if b.t is not None else []
                    if ms:
                        self.apply(ms, b, [FRESH], {}, env, n)
                    else:
                        self.mutate(b, 'item', n, 'item deletion')
                elif isinstance(t, ast.Attribute):
                    b = self.ev(t.value, env)
                    self.shared_attr(t, env, n)
                    self.mutate(b, 'attr', n, 'del .' + t.attr)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(n, ast.Return):
            if n.value is not None:
                v = self.ev(n.value, env)
                self.s.ret = self.s.ret.join(v) if self.s.ret.key() != V(
                    t=frozenset()).key() else v
            else:
                self.s.ret = self.s.ret.join(V(t=frozenset(['NoneType'])))
        elif isinstance(n, ast.Expr):
            self.ev(n.value, env)
        elif isinstance(n, ast.If):
            self.ev(n.test, env)
            e1, e2 = dict(env), dict(env)
            self.narrow(n.test, e1, True)
            self.narrow(n.test, e2, False)
            self.block(n.body, e1)
            self.block(n.orelse, e2)
            d1, d2 = self.ends(n.body), self.ends(n.orelse)
            env.clear()
            if d1 and not d2:
                env.update(e2)
            elif d2 and not d1:
                env.update(e1)
            else:
                self.join_into(env, e1, e2)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            it = self.ev(n.iter, env)
            for _ in range(3):
                e1 = dict(env)
                self.assign(n.target, self.elem(it), e1, n)
                self.block(n.body, e1)
                before = {k: v.key() for k, v in env.items()}
                self.join_into(env, dict(env), e1)
                if before == {k: v.key() for k, v in env.items()}:
                    break
            self.block(n.orelse, env)
        elif isinstance(n, ast.While):
            for _ in range(3):
                self.ev(n.test, env)
                e1 = dict(env)
                self.narrow(n.test, e1, True)
                self.block(n.body, e1)
                before = {k: v.key() for k, v in env.items()}
                self.join_into(env, dict(env), e1)
                if before == {k: v.key() for k, v in env.items()}:
                    break
            self.block(n.orelse, env)
        elif isinstance(n, ast.Try):
            e0 = dict(env)
            self.block(n.body, env)
            outs = []
            for h in n.handlers:
                e1 = {}
                self.join_into(e1, dict(e0), dict(env))
                if h.name:
                    e1[h.name] = FRESH
                self.block(h.body, e1)
                outs.append(e1)
            self.block(n.orelse, env)
            for e1 in outs:
                self.join_into(env, dict(env), e1)
            self.block(n.finalbody, env)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, n)
            self.block(n.body, env)
        elif isinstance(n, ast.Raise):
            for x in (n.exc, n.cause):
                if x is not None:
                    self.ev(x, env)
        elif isinstance(n, ast.Assert):
            self.ev(n.test, env)
        elif isinstance(n, ast.Global):
            self.globals |= set(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # nested function: its body sees this environment
            e1 = dict(env)
            for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                e1[x.arg] = FRESH
            self.block(n.body, e1)
            env[n.name] = FRESH
        elif isinstance(n, ast.Match):
            self.ev(n.subject, env)
            outs = []
            for c in n.cases:
                e1 = dict(env)
                self.block(c.body, e1)
                outs.append(e1)
            self.join_into(env, dict(env), *outs)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                env[(a.asname or a.name).split('.')[0]] = FRESH

    def ends(self, body):
        return bool(body) and isinstance(body[-1], (
            ast.Return, ast.Raise, ast.Continue, ast.Break))

    def narrow(self, test, env, pos):
        """isinstance / None tests on plain names."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, env, not pos)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == pos:
                for x in test.values:
                    self.narrow(x, env, pos)
            return
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) \
                and test.func.id == 'isinstance' and len(test.args) == 2 \
                and isinstance(test.args[0], ast.Name):
            n = test.args[0].id
            if n not in env:
                return
            cs = test.args[1].elts if isinstance(test.args[1], ast.Tuple) \
                else [test.args[1]]
            ts = set()
            for c in cs:
                t = self.class_name(c)
                if t is None:
                    return
                ts.add(t)
            v = env[n]
            if pos:
                env[n] = V(EMPTY, EMPTY, frozenset(ts)) if ts <= SCALARS \
                    else V(v.own, v.inner, frozenset(ts))
            elif v.t is not None:
                t = v.t - ts
                if t:
                    env[n] = V(v.own, v.inner, t)
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None and \
                test.left.id in env:
            if isinstance(test.ops[0], ast.Is) == pos and \
                    isinstance(test.ops[0], (ast.Is, ast.IsNot)):
                v = env[test.left.id]
                env[test.left.id] = V(EMPTY, EMPTY,
                                      frozenset(['NoneType']))

    def class_name(self, c):
        if isinstance(c, ast.Name):
            r = self.p.lookup_global(self.mod, c.id)
            if isinstance(r, ClassInfo):
                return r.fq
            if r is None or (isinstance(r, tuple) and r[0] == 'ext'):
                return c.id if c.id in SCALARS or c.id in (
                    'list', 'dict', 'tuple', 'set') else \
                    (r[1] if r else None)
        if isinstance(c, ast.Attribute):
            return dotted(c)
        return None

    def scalarish(self, v):
        if v.t is not None and v.t <= SCALARS:
            return True
        if v.t is None and not v.own:
            return None
        if v.t is None:
            return None
        if v.t & {'list', 'dict', 'set'}:
            return False
        return None

    def holds_container(self, b, name):
        """The attribute is only ever given containers or arrays."""
        got = False
        for t in b.t or ():
            ci = self.p.classes.get(t)
            for c in self.p.mro(ci) if ci is not None else ():
                if not isinstance(c, ClassInfo):
                    continue
                for x in ast.walk(c.node):
                    if not isinstance(x, ast.Assign) or not any(
                            isinstance(y, ast.Attribute) and y.attr == name
                            for y in x.targets):
                        continue
                    v = x.value
                    d = ast.unparse(v.func) if isinstance(v, ast.Call) \
                        else ''
                    if isinstance(v, (ast.List, ast.Dict, ast.Set,
                                      ast.ListComp, ast.DictComp)) or \
                            d in ('list', 'dict', 'set', 'deque') or \
                            d.startswith(('np.', 'numpy.')) or \
                            self.gives_array(c.module, v):
                        got = True
                    elif isinstance(v, ast.Constant) and v.value is None:
                        pass
                    else:
                        return False
        return got

    def gives_array(self, mod, v):
        """A call of a package function that returns numpy arrays."""
        r = self.p.lookup_global(mod, v.func.id) if isinstance(
            v, ast.Call) and isinstance(v.func, ast.Name) else None
        rs = [x.value for x in ast.walk(r.node) if isinstance(
            x, ast.Return)] if isinstance(r, FuncInfo) else []
        return bool(rs) and all(
            isinstance(x, ast.Call) and ast.unparse(x.func).startswith(
                ('np.', 'numpy.')) for x in rs)

    def assign(self, t, v, env, node):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.s.mut[(('glob', self.mod.name, t.id), 'rebind',
                            self.fi.fq, node.lineno, t.id)] = True
            env[t.id] = v
            for k in [k for k in env if k.startswith(t.id + '.')]:
                del env[k]
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if v.pos is not None and len(v.pos) == len(t.elts) and \
                        not any(isinstance(y, ast.Starred) for y in t.elts):
                    self.assign(x, v.pos[i], env, node)
                elif isinstance(x, ast.Starred):
                    self.assign(x.value, V(EMPTY, reach(v),
                                           frozenset(['list'])), env, node)
                else:
                    self.assign(x, self.elem(v), env, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.shared_attr(t, env, node)
            self.setattr(b, t.attr, v, env, node)
            if isinstance(t.value, ast.Name):
                # what the field holds from here on in this function
                env['%s.%s' % (t.value.id, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            ms = self.e.methods(b, '__setitem__') if b.t is not None else []
            if ms:
                self.apply(ms, b, [k, v], {}, env, node)
            else:
                self.mutate(b, 'item', node, 'item assignment')
            if isinstance(t.value, ast.Name) and t.value.id in env:
                o = env[t.value.id]
                env[t.value.id] = V(o.own, o.inner | v.all, o.t, o.f,
                                    self.grow(o, v))

    def shared_owner(self, x, env):
        """Class, module or external module an expression names, or None."""
        if isinstance(x, ast.Name):
            if x.id in env:
                ps = self.fi.params
                if self.fi.kind == 'class' and ps and x.id == ps[0]:
                    return self.fi.cls.fq
                return None
            r = self.p.lookup_global(self.mod, x.id)
            if isinstance(r, ClassInfo):
                return r.fq
            if isinstance(r, Module):
                return r.name
            if isinstance(r, tuple) and r[0] == 'ext':
                return r[1]
            return None
        if isinstance(x, ast.Attribute):
            if x.attr == '__class__' and self.fi.cls is not None:
                return self.fi.cls.fq
            o = self.shared_owner(x.value, env)
            return None if o is None else o + '.' + x.attr
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == 'type' and len(x.args) == 1 and \
                self.fi.cls is not None:
            return self.fi.cls.fq
        return None

    def shared_attr(self, t, env, node):
        o = self.shared_owner(t.value, env)
        if o is not None:
            self.s.mut[(('clsattr', o, t.attr), 'rebind', self.fi.fq,
                        node.lineno, 'assignment to %s.%s' % (o, t.attr))
                       ] = True

    def grow(self, o, v):
        """Element of container o after v was put in."""
        if o.e is not None:
            return o.e.join(v)
        if o.pos is not None:
            return self.elem(o).join(v)
        return v if o.bare() else None

    def setattr(self, b, name, v, env, node):
        ss = []
        if b.t is not None:
            for t in b.t:
                ci = self.p.classes.get(t)
                if ci is None:
                    continue
                m, _ = self.p.find_member(ci, name)
                if isinstance(m, PropInfo) and m.setter is not None:
                    ss.append(m.setter)
        if ss:
            self.apply(ss, b, [v], {}, env, node)
            if b.t is not None:
                return
        self.mutate(b, 'attr', node, '.' + name)
        self.store_field(b, name, v, node)
        if b.f is not None:
            # an object made here: remember what its field holds
            b.f[name] = b.f.get(name, EMPTY) | v.own
            b.f[(name, 'in')] = b.f.get((name, 'in'), EMPTY) | v.inner

    def elem(self, v):
        if v.t is not None and v.t <= SCALARS and v.t:
            return SCALAR
        if v.pos is not None and v.pos:
            x = v.pos[0]
            for y in v.pos[1:]:
                x = x.join(y)
            return x
        if v.e is not None:
            return v.e
        return V(reach(v), reach(v))

    # -- expressions -----------------------------------------------------
    def name(self, id, env):
        if id in env:
            return env[id]
        r = self.p.lookup_global(self.mod, id)
        if isinstance(r, tuple) and r[0] == 'value':
            return self.glob_value(r[1], r[2])
        return FRESH

    def glob_value(self, mod, name):
        k = (mod.name, name)
        if k not in self.e.glob_v:
            inits = [st.value for st in ast.walk(mod.tree)
                     if isinstance(st, (ast.Assign, ast.AnnAssign))
                     and st.value is not None
                     for t in (st.targets if isinstance(st, ast.Assign)
                               else [st.target])
                     if isinstance(t, ast.Name) and t.id == name]
            o = ('glob', mod.name, name)
            self.e.glob_v[k] = self.long_lived(o, inits, mod,
                                               self.glob_type(mod, name))
        return self.e.glob_v[k]

    def long_lived(self, o, inits, mod, t=None):
        """A module or class level object: tracked where its initialiser
        makes a mutable object."""
        own = any(self.container(x, mod) for x in inits)
        inner = any(self.container(y, mod)
                    for x in inits for y in ast.walk(x) if y is not x)
        return V(frozenset([o]) if own else EMPTY,
                 frozenset([inside(o)]) if own and inner else EMPTY,
                 t if own else None)

    def container(self, x, mod):
        if isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.DictComp, ast.SetComp)):
            return True
        if isinstance(x, ast.Call):
            d = dotted(x.func) or ''
            last = d.split('.')[-1]
            if last in ('list', 'dict', 'set', 'OrderedDict', 'defaultdict',
                        'deque', 'bytearray', 'deepcopy', 'copy', 'Counter',
                        'WeakKeyDictionary', 'WeakValueDictionary'):
                return True
            if isinstance(x.func, ast.Name):
                r = self.p.lookup_global(mod, x.func.id)
                return isinstance(r, ClassInfo) and not any(
                    getattr(c, 'fq', '').startswith('enum.')
                    for c in self.p.mro(r))
        return False

    def glob_type(self, mod, name):
        k = (mod.name, name)
        c = self.e.field_t.get(k)
        if c is None:
            ts = set()
            for st in mod.tree.body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            v = st.value
                            if isinstance(v, (ast.List, ast.ListComp)):
                                ts.add('list')
                            elif isinstance(v, (ast.Dict, ast.DictComp)):
                                ts.add('dict')
                            elif isinstance(v, (ast.Set, ast.SetComp)):
                                ts.add('set')
                            elif isinstance(v, (ast.Constant, ast.JoinedStr,
                                                ast.BinOp)):
                                ts.add('str')
                            else:
                                ts.add('?')
            c = None if not ts or '?' in ts else frozenset(ts)
            self.e.field_t[k] = c if c is not None else '?'
        return None if c == '?' else c

    def ev(self, n, env):
        if n is None:
            return FRESH
        if isinstance(n, ast.Name):
            return self.name(n.id, env)
        if isinstance(n, ast.Constant):
            return V(t=frozenset([type(n.value).__name__]))
        if isinstance(n, ast.Attribute):
            return self.attr(n, env)
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            own = EMPTY
            pos = []
            for x in n.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x,
                            env)
                own |= reach(v) if isinstance(x, ast.Starred) else v.all
                pos.append(self.elem(v) if isinstance(x, ast.Starred) else v)
            e = None
            for v in pos:
                e = v if e is None else e.join(v)
            fixed = isinstance(n, (ast.Tuple, ast.List)) and not any(
                isinstance(x, ast.Starred) for x in n.elts)
            return V(EMPTY, own, frozenset([
                type(n).__name__.lower()]), None, e,
                tuple(pos) if fixed else None)
        if isinstance(n, ast.Dict):
            own = EMPTY
            for k, x in zip(n.keys, n.values):
                if k is not None:
                    self.ev(k, env)
                    own |= self.ev(x, env).all
                else:
                    own |= reach(self.ev(x, env))
            return V(EMPTY, own, frozenset(['dict']))
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            e1 = dict(env)
            for g in n.generators:
                it = self.ev(g.iter, e1)
                self.assign(g.target, self.elem(it), e1, n)
                for c in g.ifs:
                    self.ev(c, e1)
            if isinstance(n, ast.DictComp):
                self.ev(n.key, e1)
                v = self.ev(n.value, e1)
                return V(EMPTY, v.all, frozenset(['dict']), None, v)
            v = self.ev(n.elt, e1)
            return V(EMPTY, v.all, frozenset(
                ['set' if isinstance(n, ast.SetComp) else 'list']), None, v)
        if isinstance(n, ast.Subscript):
            b = self.ev(n.value, env)
            if isinstance(n.slice, ast.Slice):
                for x in (n.slice.lower, n.slice.upper, n.slice.step):
                    self.ev(x, env)
                return V(EMPTY, reach(b), b.t, None,
                         self.elem(b) if b.e or b.pos else None)
            self.ev(n.slice, env)
            if b.t is not None and b.t and b.t <= SCALARS:
                return SCALAR
            if b.t is not None:
                ms = self.e.methods(b, '__getitem__')
                if ms:
                    return self.apply(ms, b, [FRESH], {}, env, n)
            if b.pos is not None and isinstance(n.slice, ast.Constant) and \
                    isinstance(n.slice.value, int) and \
                    -len(b.pos) <= n.slice.value < len(b.pos):
                return b.pos[n.slice.value]
            return self.elem(b)
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left, env), self.ev(n.right, env)
            if isinstance(n.op, ast.Mod) and a.t == frozenset(['str']):
                return SCALAR
            if a.t is not None and b.t is not None and \
                    a.t <= SCALARS and b.t <= SCALARS:
                return SCALAR
            return V(EMPTY, reach(a) | reach(b),
                     a.t if a.t is not None and not a.t <= SCALARS else
                     None)
        if isinstance(n, ast.BoolOp):
            vs = [self.ev(x, env) for x in n.values]
            v = vs[0]
            for x in vs[1:]:
                v = v.join(x)
            return v
        if isinstance(n, ast.UnaryOp):
            self.ev(n.operand, env)
            return FRESH
        if isinstance(n, ast.Compare):
            self.ev(n.left, env)
            for c in n.comparators:
                self.ev(c, env)
            return SCALAR
        if isinstance(n, ast.IfExp):
            self.ev(n.test, env)
            e1, e2 = dict(env), dict(env)
            self.narrow(n.test, e1, True)
            self.narrow(n.test, e2, False)
            return self.ev(n.body, e1).join(self.ev(n.orelse, e2))
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value, env)
            self.assign(n.target, v, env, n)
            return v
        if isinstance(n, ast.JoinedStr):
            for x in n.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value, env)
            return SCALAR
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            if n.value is not None:
                v = self.ev(n.value, env)
                self.s.ret = self.s.ret.join(V(EMPTY, v.all))
            return FRESH
        if isinstance(n, ast.Starred):
            return self.ev(n.value, env)
        if isinstance(n, ast.Lambda):
            e1 = dict(env)
            for x in n.args.args:
                e1[x.arg] = FRESH
            self.ev(n.body, e1)
            return FRESH
        if isinstance(n, ast.Await):
            return self.ev(n.value, env)
        return FRESH

    def attr(self, n, env):
        if isinstance(n.value, ast.Name) and n.value.id not in env:
            r = self.p.lookup_global(self.mod, n.value.id)
            if isinstance(r, Module):
                return self.global_attr(r, n.attr)
            if isinstance(r, ClassInfo):
                return self.clsattr(r, n.attr)
            if isinstance(r, tuple) and r[0] == 'ext':
                return FRESH
        b = self.ev(n.value, env)
        v = self.load(b, n.attr, env, n)
        if isinstance(n.value, ast.Name):
            w = env.get('%s.%s' % (n.value.id, n.attr))
            if w is not None:
                return V(v.own | w.own, v.inner | w.inner,
                         v.t if v.t is not None else w.t)
        return v

    def global_attr(self, mod, name):
        if self.p.lookup_global(mod, name) is not None:
            r = self.p.lookup_global(mod, name)
            if isinstance(r, tuple) and r[0] == 'value':
                return self.glob_value(r[1], r[2])
        return FRESH

    def clsattr(self, ci, name):
        m, owner = self.p.find_member(ci, name)
        if isinstance(m, ast.AST) and not isinstance(m, (FuncInfo,)):
            if isinstance(m, ast.Constant):
                return V(t=frozenset([type(m.value).__name__]))
            o = ('clsattr', owner.fq, name)
            k = (owner.fq, name)
            if k not in self.e.glob_v:
                self.e.glob_v[k] = self.long_lived(o, [m], owner.module)
            return self.e.glob_v[k]
        return FRESH

    def load(self, b, name, env, n):
        if b.t is not None and b.t and b.t <= SCALARS:
            return SCALAR
        gs = []
        ca = []
        if b.t is not None:
            for t in b.t:
                ci = self.p.classes.get(t)
                if ci is None:
                    continue
                m, owner = self.p.find_member(ci, name)
                if isinstance(m, PropInfo) and m.getter is not None:
                    gs.append(m.getter)
                elif isinstance(m, FuncInfo):
                    return V(b.own, b.inner, None)
                elif isinstance(m, ast.AST):
                    ca.append(self.clsattr(ci, name))
        if gs:
            v = self.apply(gs, b, [], {}, env, n)
            if b.t is not None:
                for c in ca:
                    v = v.join(c)
                return v
            return v
        own = set()
        for o in b.own:
            own.add(('fld', o[1], name) if o[0] == 'param' else inside(o))
        if b.f is not None:
            own |= b.f.get(name, EMPTY)
        else:
            # what is reachable from a parameter is covered by its fields
            cover = {inside(o) for o in b.own if o[0] == 'param'}
            own |= b.inner - cover
        own = frozenset(own)
        v = V(own, frozenset(inside(o) for o in own) | (
            b.inner - cover if b.f is None else
            b.f.get((name, 'in'), EMPTY)))
        for c in ca:
            v = v.join(c)
        return v

    # -- calls -----------------------------------------------------------
    def call(self, n, env):
        args = []
        star = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                star.append(self.ev(x.value, env))
            else:
                args.append(self.ev(x, env))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                star.append(v)
            else:
                kw[k.arg] = v
        f = n.func
        if isinstance(f, ast.Name) and f.id not in env:
            r = self.p.lookup_global(self.mod, f.id)
            if isinstance(r, FuncInfo):
                return self.apply([r], None, args, kw, env, n, star)
            if isinstance(r, ClassInfo):
                return self.construct(r, args, kw, env, n, star)
            if f.id == 'super':
                return FRESH
            if f.id in SCALAR_FN:
                return SCALAR
            if f.id == 'getattr':
                return self.load(args[0], '*', env, n) if args else FRESH
            if f.id == 'setattr' and args:
                o = self.shared_owner(n.args[0], env)
                if o is not None:
                    self.s.mut[(('clsattr', o, '*'), 'rebind', self.fi.fq,
                                n.lineno, 'setattr on ' + o)] = True
                self.mutate(args[0], 'attr', n, 'setattr')
                return FRESH
            if f.id in COPIES:
                inner = EMPTY
                for a in args + star:
                    inner |= reach(a)
                e = pos = None
                if f.id in ('list', 'tuple', 'set', 'sorted', 'reversed',
                            'iter', 'frozenset') and args:
                    e = self.elem(args[0])
                elif f.id == 'enumerate' and args:
                    e = self.elem(args[0])
                    e = V(EMPTY, e.all, frozenset(['tuple']), None, None,
                          (SCALAR, e))
                elif f.id == 'zip' and args and not star:
                    es = tuple(self.elem(a) for a in args)
                    inn = EMPTY
                    for x in es:
                        inn |= x.all
                    e = V(EMPTY, inn, frozenset(['tuple']), None, None, es)
                return V(EMPTY, inner, frozenset([f.id]) if f.id in (
                    'list', 'dict', 'tuple', 'set') else
                    frozenset(['list']) if f.id == 'sorted' else None,
                    None, e, pos)
            if f.id in ('min', 'max', 'next'):
                inner = EMPTY
                for a in args + star:
                    inner |= reach(a) | (a.own if len(args) > 1 else EMPTY)
                return V(inner, inner)
            inner = EMPTY
            return V(EMPTY, inner)
        if isinstance(f, ast.Attribute):
            return self.method_call(f, n, args, kw, star, env)
        v = self.ev(f, env)
        return V(EMPTY, EMPTY)

    def construct(self, ci, args, kw, env, n, star):
        m, _ = self.p.find_member(ci, '__init__')
        inner = EMPTY
        for a in list(args) + list(kw.values()) + list(star):
            inner |= a.all
        me = V(EMPTY, inner, frozenset([ci.fq]))
        if isinstance(m, FuncInfo):
            f = {}
            self.apply([m], V(EMPTY, EMPTY, frozenset([ci.fq]), {}), args,
                       kw, env, n, star, fields=f)
            me = V(EMPTY, inner, frozenset([ci.fq]), f)
        return me

    def method_call(self, f, n, args, kw, star, env):
        name = f.attr
        base = f.value
        # super().m()
        if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) \
                and base.func.id == 'super' and self.fi.cls is not None:
            m, owner = self.p.find_member(self.fi.cls, name,
                                          after=self.fi.cls)
            me = env.get(self.fi.params[0] if self.fi.params else '')
            if isinstance(m, FuncInfo):
                return self.apply([m], me, args, kw, env, n, star)
            if me is not None and name in LIST_MUT:
                self.mutate(me, 'call', n, 'super().%s()' % name)
            return FRESH
        if isinstance(base, ast.Name) and base.id not in env:
            r = self.p.lookup_global(self.mod, base.id)
            if isinstance(r, Module):
                x = self.p.lookup_global(r, name)
                if isinstance(x, FuncInfo):
                    return self.apply([x], None, args, kw, env, n, star)
                if isinstance(x, ClassInfo):
                    return self.construct(x, args, kw, env, n, star)
            elif isinstance(r, ClassInfo):
                m, _ = self.p.find_member(r, name)
                if isinstance(m, FuncInfo):
                    if m.kind == 'static':
                        return self.apply([m], None, args, kw, env, n, star)
                    if m.kind == 'class':
                        return self.apply([m], FRESH, args, kw, env, n,
                                          star)
                    if args:
                        return self.apply([m], args[0], args[1:], kw, env,
                                          n, star)
            elif isinstance(r, tuple) and r[0] == 'ext':
                return self.ext(base.id + '.' + name, args, kw, star, n)
        b = self.ev(base, env)
        ms = []
        builtin = True
        if b.t is not None:
            ms = self.e.methods(b, name)
            builtin = any(t not in self.p.classes for t in b.t)
            if b.t and b.t <= SCALARS:
                return V(EMPTY, EMPTY,
                         frozenset(['list']) if name in (
                             'split', 'rsplit', 'splitlines', 'partition',
                             'rpartition') else frozenset(['str']))
            if not ms and not builtin:
                # inherited from outside the package
                builtin = True
                for x in MIXIN.get(name, ()):
                    ms2 = self.e.methods(b, x)
                    if ms2:
                        self.apply(ms2, b, [], {}, env, n, args + star)
        elif name in self.e.by_name and name not in BUILTIN_NAMES:
            # unknown receiver, a name only package classes define
            ms = [m for m in self.e.by_name[name] if m.kind != 'static']
            self.by_name_attr(b, name, n)
            if ms:
                return self.apply(ms, b, args, kw, env, n, star,
                                  effects=False)
        else:
            self.by_name_attr(b, name, n)
        r = None
        if ms:
            r = self.apply(ms, b, args, kw, env, n, star)
        if builtin:
            if name in LIST_MUT:
                self.mutate(b, 'call', n, '.%s()' % name)
                if isinstance(base, ast.Name) and base.id in env:
                    inner = b.inner
                    for a in (args[1:] if name in ('setdefault', 'insert',
                                                   '__setitem__')
                              else args):
                        inner |= reach(a) if name in (
                            'extend', 'update') else a.all
                    o = env[base.id]
                    e = o.e
                    for a in (args[1:] if name in ('setdefault', 'insert',
                                                   '__setitem__')
                              else args):
                        if name == 'update':
                            e = None
                            break
                        if name in ('append', 'add', 'insert', 'appendleft',
                                    'setdefault', '__setitem__', 'extend',
                                    '__iadd__'):
                            x = self.elem(a) if name in (
                                'extend', '__iadd__') else a
                            e = self.grow(V(EMPTY, o.inner, None, None, e,
                                            o.pos), x)
                    env[base.id] = V(o.own, o.inner | inner, o.t, o.f, e)
            if name in STR_METHODS and name not in ('count', 'index') and \
                    not ms:
                return V(EMPTY, EMPTY, frozenset(
                    ['list']) if 'split' in name else frozenset(['str']))
            if name in ('copy', 'items', 'keys', 'values', '__copy__'):
                v = V(EMPTY, reach(b), b.t if name == 'copy' else None,
                      None, b.e if name in ('copy', 'values', '__copy__')
                      else None,
                      b.pos if name == 'copy' else None)
            elif name in ('get', 'pop', 'setdefault', 'popitem'):
                v = self.elem(b)
                for a in args[1:]:
                    v = v.join(a)
            else:
                v = V(reach(b), reach(b))
            r = v if r is None else r.join(v)
        return r if r is not None else FRESH

    def by_name_attr(self, b, name, n):
        """Unknown receiver: a package method of that name that changes its
        own receiver changes this one."""
        for m in self.e.by_name.get(name, ()):
            if not m.params or m.kind == 'static':
                continue
            me = ('param', m.params[0])
            for (o, kind, fq, line, what) in list(self.e.sum[m].mut):
                if o == me and kind == 'attr':
                    for o2 in b.own:
                        self.s.mut.setdefault(
                            (o2, 'attr', self.fi.fq, n.lineno,
                             '.%s()' % name), True)

    def ext(self, name, args, kw, star, n):
        if name.endswith('.deepcopy'):
            return V(EMPTY, EMPTY, args[0].t if args else None)
        if name.endswith('.copy'):
            return V(EMPTY, reach(args[0]) if args else EMPTY,
                     args[0].t if args else None)
        return FRESH

    def apply(self, fns, me, args, kw, env, n, star=(), fields=None,
              effects=True):
        """Instantiates callee summaries at a call site."""
        out = None
        for fi in fns:
            if fi not in self.e.sum or self.e.stop(fi):
                continue
            names = [x.arg for x in fi.node.args.posonlyargs +
                     fi.node.args.args]
            bind = {}
            rest = names
            if fi.cls is not None and fi.kind not in ('static',) and names:
                bind[names[0]] = me or FRESH
                rest = names[1:]
            elif fi.cls is None and me is not None and False:
                pass
            for k, a in zip(rest, args):
                bind[k] = a
            extra = args[len(rest):]
            va = fi.node.args.vararg
            if va is not None and extra:
                v = extra[0]
                for x in extra[1:]:
                    v = v.join(x)
                bind[va.arg] = v
            for k, a in kw.items():
                bind[k] = a
            if star:
                v = star[0]
                for x in star[1:]:
                    v = v.join(x)
                e = self.elem(v)
                for k in rest:
                    if k not in bind:
                        bind[k] = e
                if va is not None and va.arg not in bind:
                    bind[va.arg] = e
            s = self.e.sum[fi]
            for (o, kind, fq, line, what) in (list(s.mut) if effects
                                              else ()):
                for o2 in self.subst(o, bind, fi):
                    self.s.mut.setdefault((o2, kind, fq, line, what), True)
            for (b, field, o), site in (list(s.stores.items()) if effects
                                        else ()):
                inn = o[0] == 'inner'
                for o2 in self.subst(o[1] if inn else o, bind, fi):
                    if fields is not None and b == ('param', names[0]):
                        k = (field, 'in') if inn else field
                        fields[k] = fields.get(k, EMPTY) | frozenset([o2])
                        continue
                    for b2 in self.subst(b, bind, fi):
                        self.s.stores.setdefault(
                            (b2, field, ('inner', o2) if inn else o2), site)
            r = s.ret
            own = EMPTY
            for o in r.own:
                own |= frozenset(self.subst(o, bind, fi))
            inner = EMPTY
            for o in r.inner:
                inner |= frozenset(self.subst(o, bind, fi))
            v = V(own, inner, r.t if r.t else (
                None if r.t is None else frozenset(['NoneType'])), None,
                self.inst(r.e, bind, fi),
                None if r.pos is None else
                tuple(self.inst(x, bind, fi) for x in r.pos))
            out = v if out is None else out.join(v)
        return out if out is not None else FRESH

    def inst(self, r, bind, fi):
        if r is None:
            return None
        own = EMPTY
        for o in r.own:
            own |= frozenset(self.subst(o, bind, fi))
        inner = EMPTY
        for o in r.inner:
            inner |= frozenset(self.subst(o, bind, fi))
        return V(own, inner, r.t, None, self.inst(r.e, bind, fi),
                 None if r.pos is None else
                 tuple(self.inst(x, bind, fi) for x in r.pos))

    def subst(self, o, bind, fi):
        if o[0] == 'param':
            v = bind.get(o[1])
            if v is None:
                return ()
            return v.own
        if o[0] == 'in':
            v = bind.get(o[1])
            if v is None:
                return ()
            return reach(v)
        if o[0] in ('fld', 'fldin'):
            v = bind.get(o[1])
            if v is None:
                return ()
            out = set()
            for x in v.own:
                out.add((o[0], x[1], o[2]) if x[0] == 'param'
                        else inside(x))
            if v.f is not None:
                if o[0] == 'fld':
                    out |= v.f.get(o[2], EMPTY)
                else:
                    out |= v.f.get((o[2], 'in'), EMPTY)
                    out |= {inside(x) for x in v.f.get(o[2], EMPTY)}
            else:
                out |= v.inner
            return out
        return (o,)

    def dunder(self, v, op):
        """In-place operators of the package classes v may be."""
        name = INPLACE.get(type(op).__name__)
        if name is None or v.t is None:
            return []
        ms = self.e.methods(v, name)
        if not ms:
            for x in MIXIN.get(name, ()):
                ms = ms + self.e.methods(v, x)
        return ms

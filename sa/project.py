"""Source model: parses every module of the package under analysis and
resolves names, classes, method resolution orders, properties and functions.
Nothing of the package is imported or executed."""

import ast
import hashlib
import os


class AnalysisBroken(Exception):
    """An anchor the rule needs is gone or could not be analysed."""


class FuncInfo:
    def __init__(self, module, node, qualname, cls=None, kind='function'):
        self.module = module
        self.node = node
        self.name = node.name
        self.qualname = qualname
        self.cls = cls
        self.kind = kind  # function|method|static|class|getter|setter|deleter

    @property
    def fq(self):
        return self.module.name + '.' + self.qualname

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def is_generator(self):
        g = getattr(self, '_gen', None)
        if g is None:
            g = _contains_yield(self.node)
            self._gen = g
        return g

    @property
    def is_abstract(self):
        return any(dotted(d) in ('abstractmethod', 'abc.abstractmethod')
                   for d in self.node.decorator_list)

    def where(self, node=None):
        n = node if node is not None else self.node
        return '%s:%s' % (self.module.relpath, getattr(n, 'lineno', '?'))

    def __repr__(self):
        return '<F %s>' % self.fq


def _contains_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class PropInfo:
    def __init__(self, name, getter=None, setter=None, deleter=None):
        self.name = name
        self.getter = getter
        self.setter = setter
        self.deleter = deleter

    def clone(self):
        return PropInfo(self.name, self.getter, self.setter, self.deleter)


class ClassInfo:
    def __init__(self, module, node, qualname):
        self.module = module
        self.node = node
        self.name = node.name
        self.qualname = qualname
        self.members = {}    # name -> FuncInfo | PropInfo | ast expr | ClassInfo
        self.patches = {}    # name -> statements that change its value
        self._mro = None

    @property
    def fq(self):
        return self.module.name + '.' + self.qualname

    def where(self):
        return '%s:%s' % (self.module.relpath, self.node.lineno)

    def __repr__(self):
        return '<C %s>' % self.fq


def _index_patches(ci, body):
    """Statements of a class body that change an object in place."""
    def base(t):
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        return t.id if isinstance(t, ast.Name) else None

    for st in body:
        names = set()
        for n in ast.walk(st) if not isinstance(st, (
                ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else ():
            ts = []
            if isinstance(n, (ast.Assign, ast.Delete)):
                ts = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                ts = [n.target]
            elif isinstance(n, ast.Expr) and isinstance(
                    n.value, ast.Call) and isinstance(
                        n.value.func, ast.Attribute):
                ts = [n.value.func]
            for t in ts:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    names.add(base(t))
        for k in names:
            if isinstance(ci.members.get(k), ast.AST):
                ci.patches.setdefault(k, []).append(st)


class ExtClass:
    """A class outside the package (known only by its dotted name)."""
    _all = {}

    def __new__(cls, name):
        self = cls._all.get(name)
        if self is None:
            self = object.__new__(cls)
            self.name = name
            cls._all[name] = self
        return self

    @property
    def fq(self):
        return self.name

    def __repr__(self):
        return '<X %s>' % self.name


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return None if b is None else b + '.' + node.attr
    return None


class Module:
    def __init__(self, name, path, relpath, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.is_pkg = is_pkg
        with open(path, 'rb') as f:
            data = f.read()
        self.src = data.decode('utf-8')
        self.digest = hashlib.sha256(data).hexdigest()
        self.tree = ast.parse(self.src, filename=path)
        self.functions = {}
        self.classes = {}
        self.imports = {}    # local name -> ('module', fq) | ('from', fq, attr)
        self.assigned = {}   # name -> [nodes]
        self.stars = []

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]


class Project:
    def __init__(self, root, package='svgpy'):
        self.root = root
        self.package = package
        self.modules = {}
        self.classes = {}     # fq -> ClassInfo
        self.functions = {}   # fq -> FuncInfo (incl. methods)
        self.mixins = False   # whether collections.abc methods have bodies
        self._prelude = None
        self._load()

    # -- loading -----------------------------------------------------------
    def _load(self):
        base = os.path.join(self.root, self.package)
        if not os.path.isdir(base):
            raise AnalysisBroken('package directory %s is missing' % base)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                self.modules[name] = Module(name, path, rel, is_pkg)
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                n._module = m
            self._index_body(m, m.tree.body, None, '')
        # parents
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    c._parent = n

    def _index_body(self, m, body, cls, prefix):
        for st in body:
            self._index_stmt(m, st, cls, prefix)

    def _index_stmt(self, m, st, cls, prefix):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self._index_func(m, st, cls, prefix)
        elif isinstance(st, ast.ClassDef):
            ci = ClassInfo(m, st, prefix + st.name)
            self.classes[ci.fq] = ci
            if cls is None:
                m.classes[st.name] = ci
            else:
                cls.members[st.name] = ci
            self._index_body(m, st.body, ci, prefix + st.name + '.')
            _index_patches(ci, st.body)
        elif isinstance(st, ast.Import) and cls is None:
            for a in st.names:
                if a.asname:
                    m.imports[a.asname] = ('module', a.name)
                else:
                    m.imports[a.name.split('.')[0]] = (
                        'module', a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom) and cls is None:
            src = self.resolve_from(m, st)
            for a in st.names:
                if a.name == '*':
                    m.stars.append(src)
                else:
                    m.imports[a.asname or a.name] = ('from', src, a.name)
        elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for f in ('body', 'orelse', 'finalbody'):
                self._index_body(m, getattr(st, f, []) or [], cls, prefix)
            for h in getattr(st, 'handlers', []):
                self._index_body(m, h.body, cls, prefix)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                self._index_target(m, t, st, cls)
        elif isinstance(st, (ast.AnnAssign, ast.AugAssign)):
            if getattr(st, 'value', None) is not None:
                self._index_target(m, st.target, st, cls)

    def _index_target(self, m, t, st, cls):
        if isinstance(t, ast.Name):
            if cls is None:
                m.assigned.setdefault(t.id, []).append(st)
            else:
                if isinstance(st, ast.Assign):
                    v = st.value
                    if isinstance(v, ast.Call) and dotted(v.func) == 'property':
                        kw = {k.arg: k.value for k in v.keywords}
                        args = list(v.args) + [None] * 4

                        def get(i, n):
                            e = kw.get(n, args[i])
                            if isinstance(e, ast.Name):
                                x = cls.members.get(e.id)
                                return x if isinstance(x, FuncInfo) else None
                            return None
                        cls.members[t.id] = PropInfo(
                            t.id, get(0, 'fget'), get(1, 'fset'),
                            get(2, 'fdel'))
                        return
                    if isinstance(v, ast.Name) and isinstance(
                            cls.members.get(v.id), (FuncInfo, PropInfo)):
                        cls.members[t.id] = cls.members[v.id]
                        return
                if isinstance(st, ast.AugAssign) and isinstance(
                        cls.members.get(t.id), ast.AST):
                    cls.patches.setdefault(t.id, []).append(st)
                    return
                cls.patches.pop(t.id, None)
                cls.members[t.id] = st.value
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    e = e.value
                if isinstance(e, ast.Name):
                    if cls is None:
                        m.assigned.setdefault(e.id, []).append(st)
                    else:
                        v = ast.Subscript(st.value, ast.Constant(i),
                                          ast.Load())
                        cls.members[e.id] = ast.fix_missing_locations(
                            ast.copy_location(v, st.value))

    def _index_func(self, m, st, cls, prefix):
        q = prefix + st.name
        if cls is None:
            fi = FuncInfo(m, st, q)
            m.functions[st.name] = fi
            self.functions[fi.fq] = fi
            return
        kind = 'method'
        for d in st.decorator_list:
            dn = dotted(d) or (dotted(d.func) if isinstance(d, ast.Call)
                               else None)
            if dn == 'staticmethod':
                kind = 'static'
            elif dn == 'classmethod':
                kind = 'class'
            elif dn in ('property', 'functools.cached_property',
                        'cached_property', 'abc.abstractproperty'):
                kind = 'getter'
            elif dn and dn.split('.')[-1] in ('setter', 'deleter', 'getter') \
                    and '.' in dn:
                kind = dn.split('.')[-1]
                fi = FuncInfo(m, st, q + '@' + kind, cls, kind)
                self.functions[fi.fq] = fi
                base = dn.rsplit('.', 1)[0]
                src = None
                if '.' in base:
                    # @Base.prop.setter
                    cn, pn = base.rsplit('.', 1)
                    src = ('base', cn, pn)
                    cls.members.setdefault('__deferred__', []).append(
                        (st.name, kind, fi, cn, pn))
                    return
                old = cls.members.get(base)
                p = old.clone() if isinstance(old, PropInfo) \
                    else PropInfo(st.name)
                setattr(p, kind, fi)
                p.name = st.name
                cls.members[st.name] = p
                return
        if kind == 'getter':
            fi = FuncInfo(m, st, q, cls, kind)
            self.functions[fi.fq] = fi
            cls.members[st.name] = PropInfo(st.name, fi)
            return
        if st.name == '__new__':
            kind = 'static'
        fi = FuncInfo(m, st, q, cls, kind)
        self.functions[fi.fq] = fi
        cls.members[st.name] = fi

    def resolve_from(self, m, st):
        if st.level == 0:
            return st.module or ''
        base = m.package
        for _ in range(st.level - 1):
            base = base.rpartition('.')[0]
        if st.module:
            return base + '.' + st.module
        return base

    # -- lookups -----------------------------------------------------------
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken('module %s not found' % name)
        return m

    def lookup_global(self, m, name, seen=None):
        """Resolves a module-level name to FuncInfo, ClassInfo, Module,
        ('value', module, name), ('ext', dotted) or None."""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        if name in m.classes:
            return m.classes[name]
        if name in m.functions:
            return m.functions[name]
        if name in m.assigned:
            return ('value', m, name)
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'module':
                if imp[1] in self.modules:
                    return self.modules[imp[1]]
                return ('ext', imp[1])
            src, attr = imp[1], imp[2]
            if src in self.modules:
                r = self.lookup_global(self.modules[src], attr, seen)
                if r is not None:
                    return r
                if src + '.' + attr in self.modules:
                    return self.modules[src + '.' + attr]
                return None
            return ('ext', src + '.' + attr)
        if m.is_pkg and m.name + '.' + name in self.modules:
            return self.modules[m.name + '.' + name]
        for s in m.stars:
            if s in self.modules:
                r = self.lookup_global(self.modules[s], name, seen)
                if r is not None:
                    return r
        return None

    def resolve_expr_class(self, m, expr):
        d = dotted(expr)
        if d is None:
            if isinstance(expr, ast.Subscript):
                return self.resolve_expr_class(m, expr.value)
            return ExtClass('?')
        parts = d.split('.')
        cur = self.lookup_global(m, parts[0])
        if cur is None:
            return ExtClass('builtins.' + d)
        for p in parts[1:]:
            if isinstance(cur, Module):
                cur = self.lookup_global(cur, p)
            elif isinstance(cur, ClassInfo):
                cur = self.find_member(cur, p)[0]
            elif isinstance(cur, tuple) and cur[0] == 'ext':
                cur = ('ext', cur[1] + '.' + p)
            else:
                return ExtClass('?' + d)
        if isinstance(cur, ClassInfo):
            return cur
        if isinstance(cur, tuple) and cur[0] == 'ext':
            return ExtClass(cur[1])
        if isinstance(cur, tuple) and cur[0] == 'value':
            # alias X = Y
            sts = cur[1].assigned[cur[2]]
            v = getattr(sts[-1], 'value', None)
            if v is not None and dotted(v):
                return self.resolve_expr_class(cur[1], v)
        return ExtClass('?' + d)

    def bases(self, ci):
        return [self.resolve_expr_class(ci.module, b) for b in ci.node.bases]

    def mro(self, ci):
        if isinstance(ci, ExtClass):
            return [ci]
        if ci._mro is None:
            ci._mro = [ci]   # cycle guard
            seqs = [list(self.mro(b)) for b in self.bases(ci)]
            seqs.append(list(self.bases(ci)))
            out = [ci]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            ci._mro = out
            self._resolve_deferred(ci)
        return ci._mro

    def _resolve_deferred(self, ci):
        for c in ci._mro:
            if isinstance(c, ExtClass):
                continue
            for name, kind, fi, cn, pn in c.members.pop('__deferred__', []):
                src = self.resolve_expr_class(c.module,
                                              ast.parse(cn, mode='eval').body)
                old = c.members.get(name)
                if not isinstance(old, PropInfo) and isinstance(src, ClassInfo):
                    old = self.find_member(src, pn)[0]
                p = old.clone() if isinstance(old, PropInfo) \
                    else PropInfo(name)
                setattr(p, kind, fi)
                c.members[name] = p

    def find_member(self, ci, name, after=None):
        """(member, owner class) following the MRO; an ExtClass owner means
        the lookup reached a class outside the package."""
        mro = self.mro(ci)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro[1:]
        exts = []
        for c in mro:
            if isinstance(c, ExtClass):
                exts.append(c)
                continue
            if name in c.members:
                # an external class earlier in the MRO might define it; the
                # package relies on lxml classes only for lxml methods
                if exts and ext_has(exts, name):
                    return None, ext_has(exts, name)
                return c.members[name], c
        if self.mixins:
            for c in exts:
                m = self.mixin(c.name, name)
                if m is not None:
                    return m, c
        return None, (exts[0] if exts else None)

    def mixin(self, cname, name):
        """The body of a method the abstract collections provide."""
        if not cname.startswith('collections.abc.'):
            return None
        if self._prelude is None:
            path = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                'prelude', 'abc.txt')
            m = Module('collections.abc', path, 'collections/abc', False)
            saved = self.classes, self.functions
            self.classes, self.functions = {}, {}
            for n in ast.walk(m.tree):
                n._module = m
                for c in ast.iter_child_nodes(n):
                    c._parent = n
            self._index_body(m, m.tree.body, None, '')
            self.classes, self.functions = saved
            self._prelude = m
        c = self._prelude.classes.get(cname.split('.')[-1])
        while c is not None:
            if name in c.members:
                return c.members[name]
            b = c.node.bases
            c = self._prelude.classes.get(b[0].id) if b else None
        return None

    def issub(self, a, b):
        """True/False/None(unknown): is class a a subclass of b?"""
        if a is b:
            return True
        if isinstance(a, ExtClass) or isinstance(b, ExtClass):
            return ext_issub(self, a, b)
        return b in self.mro(a)

    def subclasses(self, ci):
        return [c for c in self.classes.values() if ci in self.mro(c)]

    def func(self, fq):
        f = self.functions.get(fq)
        if f is None:
            raise AnalysisBroken('function %s not found' % fq)
        return f

    def cls(self, fq):
        c = self.classes.get(fq)
        if c is None:
            # follow re-exports
            mod, _, name = fq.rpartition('.')
            if mod in self.modules:
                r = self.lookup_global(self.modules[mod], name)
                if isinstance(r, ClassInfo):
                    return r
            raise AnalysisBroken('class %s not found' % fq)
        return c

    def method(self, clsfq, name):
        ci = self.cls(clsfq) if isinstance(clsfq, str) else clsfq
        m, owner = self.find_member(ci, name)
        if not isinstance(m, FuncInfo):
            raise AnalysisBroken('method %s.%s not found' % (ci.fq, name))
        return m


_LXML_ELEMENT = {
    'addnext', 'addprevious', 'append', 'clear', 'cssselect', 'extend',
    'find', 'findall', 'findtext', 'get', 'getchildren', 'getiterator',
    'getnext', 'getparent', 'getprevious', 'getroottree', 'index', 'insert',
    'items', 'iter', 'iterancestors', 'iterchildren', 'iterdescendants',
    'iterfind', 'itersiblings', 'itertext', 'keys', 'makeelement', 'remove',
    'replace', 'set', 'values', 'xpath', 'attrib', 'base', 'nsmap', 'prefix',
    'sourceline', 'tag', 'tail', 'text', '__len__', '__iter__',
    '__getitem__', '__setitem__', '__delitem__', '__contains__', '__bool__',
    '__copy__', '__deepcopy__', '__reversed__'}
_EXT_ATTRS = {
    'lxml.etree.ElementBase': _LXML_ELEMENT,
    'lxml.etree.CommentBase': _LXML_ELEMENT,
    'lxml.etree.PIBase': _LXML_ELEMENT | {'target'},
}


def ext_has(exts, name):
    for e in exts:
        if name in _EXT_ATTRS.get(e.name, ()):
            return e
    return None


def _py_class(name):
    import builtins
    import collections.abc
    import numbers
    import decimal
    import fractions
    n = name
    if n == 'builtins.NoneType':
        return type(None)
    if n.startswith('builtins.'):
        return getattr(builtins, n[9:], None)
    if n.startswith('collections.abc.'):
        return getattr(collections.abc, n[16:], None)
    if n.startswith('numbers.'):
        return getattr(numbers, n[8:], None)
    if n == 'decimal.Decimal':
        return decimal.Decimal
    if n == 'fractions.Fraction':
        return fractions.Fraction
    return None


def ext_issub(p, a, b):
    if isinstance(a, ClassInfo) and isinstance(b, ExtClass):
        if b.name == 'builtins.object':
            return True
        for c in p.mro(a):
            if isinstance(c, ExtClass):
                r = ext_issub(p, c, b)
                if r:
                    return True
                if r is None and not c.name.startswith('lxml.'):
                    pass
        pb = _py_class(b.name)
        if pb in (str, int, float, bool, bytes, list, tuple, dict, set,
                  complex):
            return any(isinstance(c, ExtClass) and c.name == b.name
                       for c in p.mro(a))
        if b.name.startswith('lxml.etree.'):
            if any(isinstance(c, ExtClass) and c.name.startswith('lxml.')
                   for c in p.mro(a)):
                return None if b.name in ('lxml.etree._Element',) else False
            return False
        if b.name.startswith('collections.abc.'):
            return None
        if b.name.startswith('numbers.'):
            return False
        return None
    if isinstance(a, ExtClass) and isinstance(b, ClassInfo):
        if _py_class(a.name) is not None:
            return False
        return None
    if isinstance(a, ExtClass) and isinstance(b, ExtClass):
        pa, pb = _py_class(a.name), _py_class(b.name)
        if pa is not None and pb is not None:
            try:
                return issubclass(pa, pb)
            except TypeError:
                return None
        if a.name == b.name:
            return True
        return None
    return None

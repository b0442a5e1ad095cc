"""Abstract values. All values are interned, so equality is identity."""

_intern = {}


class Val:
    __slots__ = ('_k',)

    def __repr__(self):
        return show(self)


class Const(Val):
    __slots__ = ('v',)


class Sym(Val):
    """An unknown value identified by the expression that produced it."""
    __slots__ = ('op', 'args', 'depth')


class Obj(Val):
    """A heap object allocated during the analysis."""
    __slots__ = ('kind', 'site', 'n')


class Tup(Val):
    __slots__ = ('items',)


class FnV(Val):
    __slots__ = ('fi', 'recv', 'clo')


class ClsV(Val):
    __slots__ = ('ci',)


class ModV(Val):
    __slots__ = ('mod',)


class ExtV(Val):
    """A name from outside the package: module, class or function."""
    __slots__ = ('name',)


class BoundV(Val):
    """Method `name` of `recv` that is not defined by the package."""
    __slots__ = ('recv', 'name', 'ext')


class SuperV(Val):
    __slots__ = ('after', 'recv')


class PartialV(Val):
    __slots__ = ('fn', 'args', 'kw')


def _mk(cls, key, **kw):
    k = (cls,) + key
    v = _intern.get(k)
    if v is None:
        v = object.__new__(cls)
        v._k = k
        for a, b in kw.items():
            setattr(v, a, b)
        _intern[k] = v
    return v


def C(v):
    if isinstance(v, float):
        key = ('float', repr(v))
    else:
        key = (type(v).__name__, v)
    return _mk(Const, key, v=v)


def S(op, *args):
    k = (Sym, op) + args
    v = _intern.get(k)
    if v is None:
        v = object.__new__(Sym)
        v._k = k
        v.op = op
        v.args = args
        d = 0
        for a in args:
            if isinstance(a, Sym):
                d = max(d, a.depth)
            elif isinstance(a, Tup):
                for b in a.items:
                    if isinstance(b, Sym):
                        d = max(d, b.depth)
        v.depth = d + 1
        _intern[k] = v
    return v


def O(kind, site, n):
    return _mk(Obj, (kind, site, n), kind=kind, site=site, n=n)


def T(items):
    items = tuple(items)
    return _mk(Tup, (items,), items=items)


def F(fi, recv=None, clo=None):
    return _mk(FnV, (fi, recv, id(clo) if clo is not None else None),
               fi=fi, recv=recv, clo=clo)


def K(ci):
    return _mk(ClsV, (ci,), ci=ci)


def M(mod):
    return _mk(ModV, (mod.name,), mod=mod)


def X(name):
    return _mk(ExtV, (name,), name=name)


def B(recv, name, ext=None):
    return _mk(BoundV, (recv, name, ext), recv=recv, name=name, ext=ext)


def SUP(after, recv):
    return _mk(SuperV, (after, recv), after=after, recv=recv)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def boolv(b):
    return TRUE if b else FALSE


def show(v, depth=4):
    if isinstance(v, Const):
        return repr(v.v)
    if isinstance(v, Tup):
        return '(' + ', '.join(show(x, depth - 1) for x in v.items) + ')'
    if isinstance(v, FnV):
        return 'fn:' + getattr(v.fi, 'qualname', 'lambda')
    if isinstance(v, ClsV):
        return 'class:' + v.ci.name
    if isinstance(v, ModV):
        return 'module:' + v.mod.name
    if isinstance(v, ExtV):
        return v.name
    if isinstance(v, BoundV):
        return show(v.recv, depth - 1) + '.' + v.name
    if isinstance(v, SuperV):
        return 'super()'
    if isinstance(v, Obj):
        return '<%s#%s>' % (v.kind, v.n)
    if isinstance(v, Sym):
        if depth <= 0:
            return '..'
        a = [show(x, depth - 1) if isinstance(x, Val) else str(x)
             for x in v.args]
        if v.op == 'param':
            return a[0]
        if v.op == 'attr':
            return a[0] + '.' + a[1]
        if v.op == 'idx':
            return '%s[%s]' % tuple(a)
        if v.op == 'elem':
            return 'elem%s(%s)' % (a[1], a[0])
        if v.op == 'global':
            return a[1]
        return '%s(%s)' % (v.op, ', '.join(a))
    return object.__repr__(v)


def subterms(v, out=None, into_objs=None):
    """All values occurring inside v (v included)."""
    if out is None:
        out = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if not isinstance(x, Val) or x in out:
            continue
        out.add(x)
        if isinstance(x, Sym):
            stack.extend(a for a in x.args if isinstance(a, Val))
        elif isinstance(x, Tup):
            stack.extend(x.items)
        elif isinstance(x, BoundV):
            stack.append(x.recv)
        elif isinstance(x, FnV) and x.recv is not None:
            stack.append(x.recv)
        elif isinstance(x, Obj) and into_objs is not None:
            stack.extend(into_objs(x))
    return out

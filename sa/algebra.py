"""Normal forms of arithmetic terms: polynomials over atoms.

A polynomial is a dict from monomials (sorted tuples of (atom, exponent)) to
rational coefficients. Functions, quotients and roots are atoms over the
normal form of their arguments, so two expressions that are equal by the ring
axioms have the same form however they were written. Equations known on a
path are used as rewrite rules (leading monomial -> rest)."""

from fractions import Fraction

from .values import C, NONE, BoundV, Const, ExtV, S, Sym, T, Tup, Val, X

ONE = ()
RAD = ('rad',)          # pi / 180


def skey(x):
    """A text that identifies x, for a fixed order."""
    if isinstance(x, tuple):
        return '(' + ','.join([skey(y) for y in x]) + ')'
    if isinstance(x, Val):
        return '#%d' % id(x)
    return str(x)


class NotNumber(Exception):
    pass


class Algebra:
    """Normal forms modulo the equations `eqs` (Sym -> Const)."""

    def __init__(self, eqs=None, conv=None):
        self.rules = []
        self.signs = []       # (polynomial, sign)
        self.cache = {}
        self.conv = conv
        for a, c in sorted((eqs or {}).items(), key=lambda x: getattr(
                x[0], 'depth', 0)):
            if isinstance(c, Const) and isinstance(c.v, (int, float)) and \
                    not isinstance(c.v, bool):
                try:
                    self.equation(a, c)
                except NotNumber:
                    pass

        # q * sqrt(q)^-2 = 1 for the roots the equations speak about
        for x in {x for m, _ in self.rules for x, n in m
                  if x[0] == 'sqrt' and n < 0}:
            p = {}
            for m, c in x[1]:
                e = dict(m)
                e[x] = e.get(x, 0) - 2
                p[tuple(sorted(((a, b) for a, b in e.items() if b),
                               key=skey))] = c
            self._rule(self.sub(self.reduce(p), {ONE: Fraction(1)}))
        for m, rest in list(self.rules):
            c = self._const(rest)
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'sqrt' and \
                    c is not None:
                self._rule(self.sub(self.reduce(dict(m[0][0][1])),
                                    {ONE: c * c} if c else {}))

    def equation(self, a, b):
        self._rule(self.sub(self.poly(a), self.poly(b)))

    def _rule(self, p):
        lead = [m for m in p if m != ONE]
        if not lead:
            return
        m = max(lead, key=lambda m: (sum(e for _, e in m), skey(m)))
        k = p[m]
        rest = {n: -c / k for n, c in p.items() if n != m}
        self.rules.append((m, rest))
        self.cache.clear()

    # -- ring operations
    @staticmethod
    def add(a, b):
        r = dict(a)
        for m, c in b.items():
            c2 = r.get(m, 0) + c
            if c2:
                r[m] = c2
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def scale(a, k):
        return {m: c * k for m, c in a.items()} if k else {}

    def sub(self, a, b):
        return self.add(a, self.scale(b, -1))

    def mul(self, a, b):
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                e = {}
                for x, n in m1 + m2:
                    e[x] = e.get(x, 0) + n
                m = tuple(sorted(((x, n) for x, n in e.items() if n),
                                 key=skey))
                c = r.get(m, 0) + c1 * c2
                if c:
                    r[m] = c
                else:
                    r.pop(m, None)
        return self.reduce(self.roots(r))

    @staticmethod
    def _const(p):
        if not p:
            return Fraction(0)
        if len(p) == 1 and ONE in p:
            return p[ONE]
        return None

    def roots(self, p):
        """sqrt(q)^2 -> q, and lead(q)*sqrt(q)^-2 -> 1 - rest*sqrt^-2."""
        for m in p:
            for x, n in m:
                if n < 0 and x[0] == 'sqrt' and len(x[1]) == 1 and \
                        x[1][0][0] == ONE:
                    # 1/sqrt(c) = sqrt(c)/c
                    left = tuple((a, b) for a, b in m if a != x)
                    if n != -2:
                        left = tuple(sorted(left + ((x, n + 2),), key=skey))
                    r = {a: c for a, c in p.items() if a != m}
                    return self.roots(self.add(r, {left: p[m] / x[1][0][1]}))
        for m in p:
            for x, n in m:
                if n <= -2 and x[0] == 'sqrt':
                    q = dict(x[1])
                    lm = max(q, key=skey)
                    left = self._div(m, lm) if lm != ONE else None
                    if left is None:
                        continue
                    e = dict(left)
                    e[x] = n + 2
                    up = tuple(sorted(((a, b) for a, b in e.items() if b),
                                      key=skey))
                    k = p[m] / q[lm]
                    rest = {a: c for a, c in q.items() if a != lm}
                    r = {a: c for a, c in p.items() if a != m}
                    r = self.add(r, {up: k})
                    r = self.add(r, self.scale(self.mul(
                        {tuple(left): Fraction(1)}, rest), -k))
                    return self.roots(r)
        for m in p:
            for x, n in m:
                if n >= 2 and x[0] == 'sqrt':
                    k = p[m]
                    rest = {a: c for a, c in p.items() if a != m}
                    left = tuple((a, b) for a, b in m if a != x)
                    if n > 2:
                        left = tuple(sorted(left + ((x, n - 2),), key=skey))
                    return self.add(self.roots(rest), self.mul(
                        {left: k}, dict(x[1])))
        return p

    def reduce(self, p):
        for _ in range(40):
            done = True
            for lm, rest in self.rules:
                for m in list(p):
                    q = self._div(m, lm)
                    if q is not None:
                        k = p.pop(m)
                        r = {}
                        for n, c in rest.items():
                            e = dict(q)
                            for x, t in n:
                                e[x] = e.get(x, 0) + t
                            mm = tuple(sorted(((x, t) for x, t in e.items()
                                               if t), key=skey))
                            r[mm] = r.get(mm, 0) + c * k
                        p = self.add(p, {a: b for a, b in r.items() if b})
                        done = False
                        break
                if not done:
                    break
            if done:
                return p
        return p

    @staticmethod
    def _div(m, lm):
        e = dict(m)
        for x, n in lm:
            have = e.get(x, 0)
            if n > 0 and have < n or n < 0 and have > n:
                return None
            e[x] = have - n
        return tuple(sorted(((x, n) for x, n in e.items() if n), key=skey))

    @staticmethod
    def key(p):
        return tuple(sorted(p.items(), key=skey))

    def inverse(self, p):
        c = self._const(p)
        if c is not None:
            if c == 0:
                raise NotNumber('division by zero')
            return {ONE: 1 / c}
        if len(p) == 1:
            ((m, k),) = p.items()
            return {tuple(sorted(((x, -n) for x, n in m), key=skey)): 1 / k}
        # factor out the leading coefficient
        m = max(p, key=skey)
        k = p[m]
        return {(((('poly', self.key(self.scale(p, 1 / k)))), -1),): 1 / k}

    def atom(self, name, *args):
        return {(((name,) + args, 1),): Fraction(1)}

    # -- terms
    def poly(self, v):
        r = self.cache.get(v)
        if r is None:
            r = self.reduce(dict(self._poly(v)))
            self.cache[v] = r
        return r

    def _poly(self, v):
        if self.conv is not None:
            w = self.conv(v)
            if w is not None:
                return w if isinstance(w, dict) else self.poly(w)
        if isinstance(v, Const):
            if isinstance(v.v, bool) or not isinstance(v.v, (int, float)):
                raise NotNumber(repr(v))
            if v.v != v.v or v.v in (float('inf'), float('-inf')):
                return self.atom('const', repr(v.v))
            f = Fraction(v.v) if isinstance(v.v, int) else \
                Fraction(v.v).limit_denominator(10 ** 9) \
                if abs(v.v) > 1e-3 else Fraction(v.v)
            return {ONE: f} if f else {}
        if isinstance(v, ExtV):
            if v.name in ('math.pi', 'numpy.pi'):
                return {((RAD, 1),): Fraction(180)}
            if v.name in ('math.tau',):
                return {((RAD, 1),): Fraction(360)}
            return self.atom('ext', v.name)
        if not isinstance(v, Sym):
            raise NotNumber(repr(v))
        op = v.op
        if op == 'op' and len(v.args) == 3:
            o, a, b = v.args
            if o == '+':
                return self.add(self.poly(a), self.poly(b))
            if o == '-':
                return self.sub(self.poly(a), self.poly(b))
            if o == '*':
                return self.mul(self.poly(a), self.poly(b))
            if o == '/':
                return self.mul(self.poly(a), self.inverse(self.poly(b)))
            if o == '**':
                e = self._const(self.poly(b))
                if e is not None and e.denominator == 1 and abs(e) <= 8:
                    p = self.poly(a)
                    if e < 0:
                        p = self.inverse(p)
                    r = {ONE: Fraction(1)}
                    for _ in range(abs(int(e))):
                        r = self.mul(r, p)
                    return r
                if e == Fraction(1, 2):
                    return self.sqrt(self.poly(a))
        if op == 'neg':
            return self.scale(self.poly(v.args[0]), -1)
        if op == 'pos':
            return self.poly(v.args[0])
        if op == 'call':
            f = v.args[0]
            args = v.args[1:]
            if isinstance(f, ExtV):
                n = f.name
                short = n.split('.')[-1]
                if n in ('builtins.float', 'decimal.Decimal',
                         'fractions.Fraction') and len(args) == 1:
                    if isinstance(args[0], Const) and isinstance(
                            args[0].v, str):
                        try:
                            c = Fraction(args[0].v)
                        except ValueError:
                            raise NotNumber(repr(v))
                        return {ONE: c} if c else {}
                    return self.poly(args[0])
                if n.startswith(('math.', 'numpy.')) or n in (
                        'builtins.abs', 'builtins.pow'):
                    try:
                        return self.func(short, args)
                    except NotNumber:
                        pass
                if n in ('builtins.min', 'builtins.max'):
                    try:
                        return self.extremum(short, [self.poly(a)
                                                     for a in args])
                    except NotNumber:
                        pass
        if op == 'minv':
            try:
                return self.atom('minv', tuple(
                    self.key(self.poly(x)) for x in v.args[0].items),
                    v.args[1], v.args[2])
            except NotNumber:
                pass
        return self.atom('term', v)

    def extremum(self, name, ps):
        """min/max of polynomials: nested ones are flattened, arguments of
        known order dropped."""
        flat = {}
        for p in ps:
            if len(p) == 1:
                ((m, k),) = p.items()
                if k == 1 and len(m) == 1 and m[0][1] == 1 and \
                        m[0][0][0] == name:
                    for q in m[0][0][1:]:
                        flat[q] = dict(q)
                    continue
            flat[self.key(p)] = p
        keep = dict(flat)
        for a in list(flat):
            for b in list(flat):
                if a is b or a not in keep or b not in keep:
                    continue
                s = self.sign(self.sub(flat[a], flat[b]))
                if s is not None and (s > 0) == (name == 'min') or s == 0:
                    keep.pop(a)
        if len(keep) == 1:
            return next(iter(keep.values()))
        return self.atom(name, *sorted(keep, key=skey))

    def sign(self, p):
        """1, 0, -1 when the sign of p is known."""
        c = self._const(p)
        if c is not None:
            return (c > 0) - (c < 0)
        for q, s in self.signs:
            k = self.ratio(p, q)
            if k is not None:
                return s if k > 0 else -s
        return None

    @staticmethod
    def ratio(p, q):
        """k with p == k*q, or None."""
        if len(p) != len(q) or not q:
            return None
        m = next(iter(q))
        if m not in p:
            return None
        k = p[m] / q[m]
        for n, c in q.items():
            if p.get(n) != c * k:
                return None
        return k

    def sqrt(self, p):
        """Root with the constant factor taken out: sqrt(n/d * q) is
        s/d * sqrt(m) * sqrt(q) where n*d = s*s*m and m has no square."""
        if not p or self.signs and self.sign(p) == 0:
            return {}
        import math
        n = d = 0
        for c in p.values():
            c = Fraction(c)
            n = math.gcd(n, abs(c.numerator))
            d = c.denominator if not d else d * c.denominator // math.gcd(
                d, c.denominator)
        const = self._const(p)
        if const is not None and const < 0 or n * d > 10 ** 12:
            return self.reduce(self.atom('sqrt', self.key(p)))
        m, s, i = n * d, 1, 2
        while i * i <= m and i < 10 ** 5:
            while m % (i * i) == 0:
                m //= i * i
                s *= i
            i += 1
        r = {ONE: Fraction(s, d)}
        if m != 1:
            r = self.mul(r, self.atom('sqrt', ((ONE, Fraction(m)),)))
        if const is None:
            q = self.scale(p, Fraction(d, n))
            r = self.mul(r, self.atom('sqrt', self.key(q)))
        return self.reduce(r)

    def _neg_first(self, p):
        """(sign, p or -p) with a canonical sign."""
        if not p:
            return 1, p
        m = max(p, key=skey)
        return (-1, self.scale(p, -1)) if p[m] < 0 else (1, p)

    def func(self, n, args):
        if n == 'radians' or n == 'deg2rad':
            return self.mul(self.poly(args[0]), {((RAD, 1),): Fraction(1)})
        if n == 'degrees' or n == 'rad2deg':
            return self.mul(self.poly(args[0]), {((RAD, -1),): Fraction(1)})
        if n == 'sqrt':
            return self.sqrt(self.poly(args[0]))
        if n == 'pow':
            return self.poly(S('op', '**', *args))
        if n == 'hypot':
            r = {}
            for a in args:
                p = self.poly(a)
                r = self.add(r, self.mul(p, p))
            return self.sqrt(r)
        if n in ('fabs', 'abs', 'absolute'):
            s = self.sign(self.poly(args[0]))
            if s is not None:
                return self.scale(self.poly(args[0]), s)
            _, p = self._neg_first(self.poly(args[0]))
            return self.atom('abs', self.key(p))
        if n in ('sin', 'tan', 'cos') and len(args) == 1:
            s, p = self._neg_first(self.poly(args[0]))
            if not p:
                return {ONE: Fraction(1)} if n == 'cos' else {}
            if n == 'tan':
                r = {(((('sin', self.key(p))), 1),): Fraction(1)}
                r = self.mul(r, {(((('cos', self.key(p))), -1),):
                                 Fraction(1)})
            else:
                r = self.atom(n, self.key(p))
            return self.scale(r, s) if n != 'cos' else r
        ps = [self.key(self.poly(a)) for a in args]
        return self.reduce(self.atom(n, *ps))

    def equal(self, a, b):
        """Whether two terms have the same normal form."""
        try:
            return self.sub(self.poly(a), self.poly(b)) == {}
        except NotNumber:
            return a is b

    def is_const(self, a, k):
        try:
            return self._const(self.poly(a)) == k
        except NotNumber:
            return False


def show_poly(p):
    if not p:
        return '0'
    return ' + '.join('%s*%s' % (c, '.'.join(
        '%s^%s' % (x[1] if x[0] == 'term' else x, e) if e != 1 else
        str(x[1] if x[0] == 'term' else x) for x, e in m) or '1')
        for m, c in sorted(p.items(), key=skey))

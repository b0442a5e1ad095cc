"""C09: computed font sizes, weights and line heights follow the CSS rules."""
import itertools

from ._path import *
from .p03 import called

EXPLANATION = (
    'CSSUtils.compute_font_weight, compute_font_size, compute_font_size_adjust '
    'and compute_line_height are interpreted for the last of one to four '
    'nested elements, for every combination of the kinds of values the '
    'attributes along the chain can have: none, inherit, each keyword, '
    'numbers, lengths, em, percentages and the relative keywords. The result '
    'is compared with the computed value CSS Fonts gives, starting with '
    'weight 400 and size 16.')
ASSUMPTIONS = ['lengths are worth what rule L01 says',
               'attributes hold the declarations of the elements (the '
               'cascade is rule C07)',
               'numpy.interp is linear interpolation']
CX = 'svgpy.core.'
EL = [S('param', 'element %d' % i) for i in range(4)]
INITIAL = {'font-size': 'medium', 'font-weight': 'normal'}
SIZES = {'xx-small': 10, 'x-small': 10, 'small': 13, 'medium': 16,
         'large': 18, 'x-large': 24, 'xx-large': 32}
MINIMUM = 10
WEIGHTS = [None, 'inherit', 'normal', 'bold', 'bolder', 'lighter'] + [
    str(100 * i) for i in range(1, 10)]
LENGTHS = [None, 'inherit', 'medium', 'xx-large', 'larger', 'smaller',
           '30px', '20', '2em', '150%']


def weight(chain):
    w = 400
    for v in chain:
        if v == 'normal':
            w = 400
        elif v == 'bold':
            w = 700
        elif v == 'bolder':
            w = 400 if w < 350 else 700 if w < 550 else 900
        elif v == 'lighter':
            w = 100 if w < 550 else 400 if w < 750 else 700
        elif v not in (None, 'inherit'):
            w = int(v)
    return w


def length(text, size):
    """Pixels of a length; `size` is what em and % refer to."""
    for unit, k in (('px', 1), ('em', size), ('%', size / 100), ('', 1)):
        if text.endswith(unit):
            try:
                return float(text[:len(text) - len(unit)]) * k
            except ValueError:
                return None


def size(chain):
    s = 16.0
    for v in chain:
        if v in SIZES:
            s = SIZES[v]
        elif v == 'larger':
            s *= 1.2
        elif v == 'smaller':
            s /= 1.2
        elif v not in (None, 'inherit'):
            s = max(length(v, s), MINIMUM)
    return max(s, MINIMUM)


class World:
    """Elements, their attributes, and lengths."""

    def __init__(self, p):
        self.len = p.cls(CX + 'SVGLength')
        self.name, self.chain = None, []
        self.lengths = {}

    def value_of(self, i, k):
        """inherited value of property k at element i"""
        if k == self.name:
            for v in reversed(self.chain[:i + 1]):
                if v not in (None, 'inherit'):
                    return v
        return INITIAL.get(k)

    def at(self, el):
        return EL.index(el) if el in EL[:len(self.chain)] else None

    def __call__(self, eng, fn, args, kw, st, node):
        if isinstance(fn, ClsV) and fn.ci is self.len:
            a = list(args) + [kw[k] for k in ('context',) if k in kw]
            if not a or not isinstance(a[0], Const):
                return None
            ctx = a[1] if len(a) > 1 else NONE
            v = S('length', a[0], ctx)
            i = self.at(ctx)
            base = size(self.chain[:i]) if i is not None and \
                self.name == 'font-size' else 16.0
            px = length(str(a[0].v), base)
            if px is None:
                return [(st, eng.raise_(st, 'ValueError', node))]
            st.facts[v] = True
            st.facts[S('is', v, NONE)] = False
            t = str(a[0].v)
            unit = t.lstrip('+-.0123456789')
            st.fields[(v, 'unit')] = C(unit or None)
            st.fields[(v, '_unit')] = C(unit or None)
            self.lengths[v] = (px, length(t, 100), unit)
            return [(st, v)]
        if isinstance(fn, ExtV) and fn.name == 'numpy.interp' and \
                len(args) == 3:
            xs, ys = (sequence(eng, st, a) for a in args[1:])
            if isinstance(args[0], Const) and xs and ys and \
                    all(isinstance(x, Const) for x in xs + ys):
                return [(st, C(interp(args[0].v, [x.v for x in xs],
                                      [y.v for y in ys])))]
        r = called(fn)
        if r is None:
            return None
        recv, name = r
        if recv in self.lengths:
            px, pc, unit = self.lengths[recv]
            a = list(args) + [kw[k] for k in ('unit',) if k in kw]
            if name == 'value':
                if a and a[0] is C('%') and unit == '%':
                    return [(st, C(pc))]
                if not a or a[0] is NONE or a[0] is C('px'):
                    return [(st, C(px))]
            return None
        i = self.at(recv)
        if i is None:
            return None
        if name == 'getparent' or name == 'get_parent':
            return [(st, EL[i - 1] if i else NONE)]
        if name == 'get' and args and isinstance(args[0], Const):
            v = self.chain[i] if args[0].v == self.name else None
            return [(st, (args[1] if len(args) > 1 else NONE)
                     if v is None else C(v))]
        if name == 'iterancestors' and not args:
            return [(st, eng.new_list(st, EL[:i][::-1], node))]
        if name in ('get_inherited_style', 'get_computed_style'):
            return [(st, self.style(eng, st, i, node))]
        return None

    def style(self, eng, st, i, node):
        return eng.new_dict(st, [(C(k), C(self.value_of(i, k)))
                                 for k in INITIAL], node)


def interp(x, xs, ys):
    if x <= xs[0]:
        return float(ys[0])
    for (a, b), (c, d) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
        if x <= c:
            return float(b + (x - a) * (d - b) / (c - a))
    return float(ys[-1])


def check(ctx):
    p = ctx.p
    w = World(p)
    eng = ctx.engine(mixins=True, on_call=w, recursion=8, max_depth=30,
                     loop_bound=20)
    n = 0
    for name, fn, values, want in (
            ('font-weight', 'compute_font_weight', WEIGHTS, weight),
            ('font-size', 'compute_font_size', LENGTHS, size)):
        fi = p.func(CX + 'CSSUtils.' + fn)
        few = [v for v in values if v in (
            None, 'inherit', 'bold', 'bolder', 'lighter', '500', 'larger',
            'smaller', '30px', '150%', '2em')]
        chains = [c for k in (1, 2, 3) for c in itertools.product(
            values, repeat=k) if k < 3 or ctx.thorough or c[1] in few and
            c[2] in few]
        chains += [(a, b, None, c) for a in few for b in few for c in few]
        if ctx.thorough:
            chains += list(itertools.product(few, repeat=4))
        if name == 'font-size':
            chains += [(a, b) for a in ('8px', '5%', '9') for b in
                       (None, 'inherit')]
            chains += [(k,) for k in SIZES]
        for chain in dict.fromkeys(chains):
            n += one(ctx, eng, w, fi, name, chain, want(chain))
    w.name, w.chain = None, [None, None]
    n += others(ctx, eng, w)
    ctx.floor('computed values compared', n, 1000)


def one(ctx, eng, w, fi, name, chain, want):
    w.name, w.chain, w.lengths = name, list(chain), {}
    lab = ' > '.join(str(v) for v in chain)
    i = len(chain) - 1
    n = 0
    for given in (False, True):
        st = setup()
        args = [EL[i]]
        kw = {}
        if given:
            kw['inherited_style'] = eng._outside(
                lambda: w.style(eng, st, i, fi.node))
        for o in eng.call_fn(F(fi), args, kw, st):
            n += 1
            known = again(chain) if name == 'font-size' else None
            if known is not None and abs(known - want) > 1e-6 and \
                    isinstance(o.value, Const) and o.value.v == known:
                ctx.bad(name, 'em or percentage of an ancestor', 'is '
                        'resolved again by the elements that inherit it',
                        fi.where())
                continue
            compare(ctx, name, lab, o, want, fi)
    return n


def again(chain):
    """The size if an inherited em or percentage counts once more."""
    own = [v for v in chain if v not in (None, 'inherit')]
    if own and own[-1] in ('2em', '150%') and chain[-1] in (None, 'inherit'):
        return max(length(own[-1], size(chain[:-1])), MINIMUM)
    return None


def setup():
    st = State()
    for x in EL:
        st.facts[x] = True
        st.facts[S('is', x, NONE)] = False
        for y in EL:
            if x is not y:
                st.facts[S('is', x, y)] = False
    return st


def compare(ctx, rule, lab, o, want, fi):
    if o.kind == 'raise':
        ctx.bad(rule, lab, 'raises ' + exc_name(o), fi.where())
        return
    if not isinstance(o.value, Const):
        raise AnalysisBroken('%s of %s is %s' % (rule, lab, show(o.value)))
    v = o.value.v
    ctx.obl(rule, lab, v == want if isinstance(want, str) or isinstance(
        v, str) else v is not None and abs(v - want) < 1e-6,
        'is %s instead of %s' % (v, want), fi.where())


def others(ctx, eng, w):
    p = ctx.p
    n = 0
    fi = p.func(CX + 'CSSUtils.compute_line_height')
    for fs in (10.0, 16.0, 25.0):
        for v, want in (('normal', 1.2 * fs), ('1.5', 1.5 * fs), ('2', 2 * fs),
                        ('150%', 1.5 * fs), ('80%', .8 * fs), ('20px', 20),
                        ('0', 0)):
            st = setup()
            d = eng._outside(lambda: eng.new_dict(
                st, [(C('line-height'), C(v)), (C('font-size'), C(fs))],
                fi.node))
            for o in eng.call_fn(F(fi), [EL[1]], {'computed_style': d}, st):
                n += 1
                compare(ctx, 'line-height', '%s at size %g' % (v, fs), o,
                        want, fi)
    fi = p.func(CX + 'CSSUtils.compute_font_size_adjust')
    for v, want in (('none', 'none'), ('0.5', .5), ('1', 1)):
        st = setup()
        d = eng._outside(lambda: eng.new_dict(
            st, [(C('font-size-adjust'), C(v))], fi.node))
        for o in eng.call_fn(F(fi), [d], {}, st):
            n += 1
            compare(ctx, 'font-size-adjust', v, o, want, fi)
    return n

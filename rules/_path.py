"""Path segments with unknown values, and the SVG reading of paths."""
from ._geo import *

PX = 'svgpy.path.'
COUNT = {'A': 7, 'B': 1, 'C': 6, 'H': 1, 'L': 2, 'M': 2, 'Q': 4, 'S': 4,
         'T': 2, 'V': 1, 'Z': 0}
LETTERS = 'ABCHLMQSTVZ'
ZERO, ONE = C(0), C(1)
# indices of the coordinates of each command: (x, y) pairs
PAIRS = {'A': [(5, 6)], 'C': [(0, 1), (2, 3), (4, 5)], 'L': [(0, 1)],
         'M': [(0, 1)], 'Q': [(0, 1), (2, 3)], 'S': [(0, 1), (2, 3)],
         'T': [(0, 1)]}


def op(o, *a):
    if o == 'neg':
        return S('neg', a[0])
    return S('op', o, *a)


def times(k, v):
    return op('*', C(k) if not isinstance(k, Val) else k, v)


def segment_class(p):
    return p.cls(PX + 'SVGPathSegment')


def segment(eng, st, cls, letter, vals):
    """(state, segment object)"""
    for v in vals:
        if isinstance(v, Sym) and v.op == 'param':
            num(st, v.args[0])
    res = build(eng, st, cls, [C(letter)] + list(vals), {})
    if len(res) != 1:
        raise AnalysisBroken('construction of a path segment: %d results'
                             % len(res))
    return res[0]


def names(letter, pre):
    return [S('param', '%s%d' % (pre, i)) for i in range(
        COUNT[letter.upper()])]


def read_segment(eng, st, seg):
    """(type letter, [values]) of a segment object, or None"""
    if not isinstance(seg, Obj):
        return None
    t = component(eng, st, seg, 'type')
    v = component(eng, st, seg, 'values')
    items = sequence(eng, st, v)
    if not isinstance(t, Const) or items is None:
        return None
    return t.v, items


def sequence(eng, st, v):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Const) and isinstance(v.v, tuple):
        return [C(x) for x in v.v]
    c = eng.cont(st, v) if isinstance(v, Obj) else None
    if c is not None and c[0] in ('list', 'tuple') and c[2] is None:
        return list(c[1])
    return None


def read_path(eng, st, v):
    """[(letter, values)] of a list of segments, or None"""
    items = sequence(eng, st, v)
    if items is None:
        return None
    out = [read_segment(eng, st, x) for x in items]
    return None if any(x is None for x in out) else out


def turned(x, y, bearing):
    """(x, y) rotated by `bearing` degrees (None: not at all)."""
    if bearing is None:
        return x, y
    from .g04 import trig
    c, s = trig('cos', bearing), trig('sin', bearing)
    return (op('-', times(c, x), times(s, y)),
            op('+', times(s, x), times(c, y)))


def absolute(letter, vals, cp, bearing):
    """The absolute segment a segment stands for."""
    up = letter.upper()
    vals = list(vals)
    if letter == up:
        return up, vals
    cx, cy = cp
    if up == 'Z':
        return up, vals
    if up == 'B':
        return up, [op('+', bearing or ZERO, vals[0])]
    if up in 'HV':
        x, y = (vals[0], ZERO) if up == 'H' else (ZERO, vals[0])
        x, y = turned(x, y, bearing)
        return 'L', [op('+', cx, x), op('+', cy, y)]
    for i, j in PAIRS[up]:
        x, y = turned(vals[i], vals[j], bearing)
        vals[i], vals[j] = op('+', cx, x), op('+', cy, y)
    if up == 'A' and bearing is not None:
        vals[2] = op('+', vals[2], bearing)
    return up, vals


def as_cubic(letter, vals, cp, ctrl):
    """The M, L, C or Z form of an absolute segment (not A or B); ctrl is
    the control point a smooth curve starts with."""
    cx, cy = cp
    if letter in 'MLCZ':
        return letter, list(vals)
    if letter == 'H':
        return 'L', [vals[0], cy]
    if letter == 'V':
        return 'L', [cx, vals[0]]
    if letter == 'S':
        return 'C', [ctrl[0], ctrl[1]] + list(vals)
    if letter == 'T':
        vals = [ctrl[0], ctrl[1]] + list(vals)
    x1, y1, x, y = vals
    third = C(1 / 3)

    def toward(a, b):      # one third of a and two thirds of b
        return op('*', third, op('+', a, times(2, b)))
    return 'C', [toward(cx, x1), toward(cy, y1), toward(x, x1),
                 toward(y, y1), x, y]


class Walk:
    """The state of reading a path: what SVG says every command does."""

    def __init__(self):
        self.cp = (ZERO, ZERO)
        self.start = None
        self.bearing = None
        self.ctrl = None          # (kind 'C' or 'Q', point)
        self.last = None

    def copy(self):
        w = Walk()
        w.__dict__.update(self.__dict__)
        return w

    def control(self, up):
        """The first control point of a smooth curve."""
        kind = {'S': 'C', 'T': 'Q'}[up]
        if self.ctrl is not None and self.ctrl[0] == kind:
            return self.ctrl[1]
        return self.cp

    def step(self, letter, vals):
        """(absolute segment, its cubic form or None); moves on."""
        up, av = absolute(letter, vals, self.cp, self.bearing)
        if up == 'B':
            self.bearing = av[0]
            self.ctrl = None
            self.last = letter
            return (up, av), None
        cubic = None
        ctrl = None
        if up != 'A':
            first = self.control(up) if up in 'ST' else None
            cubic = as_cubic(up, av, self.cp, first)
            if up in 'CS':
                x2, y2, x, y = av[-4:]
                ctrl = ('C', (op('-', times(2, x), x2),
                              op('-', times(2, y), y2)))
            elif up in 'QT':
                x1, y1 = av[:2] if up == 'Q' else first
                x, y = av[-2:]
                ctrl = ('Q', (op('-', times(2, x), x1),
                              op('-', times(2, y), y1)))
        if up == 'Z':
            if self.start is not None:
                self.cp = self.start
        else:
            if up == 'H':
                self.cp = (av[0], self.cp[1])
            elif up == 'V':
                self.cp = (self.cp[0], av[0])
            else:
                self.cp = (av[-2], av[-1])
            if up == 'M' and (self.last is None or self.last not in 'Mm') or \
                    self.start is None:
                self.start = self.cp
        self.ctrl = ctrl
        self.last = letter
        return (up, av), cubic


def same_segment(alg, got, want):
    return got is not None and got[0] == want[0] and \
        len(got[1]) == len(want[1]) and all(
            alg.equal(a, b) for a, b in zip(got[1], want[1]))


def show_segment(s):
    return 'nothing readable' if s is None else '%s%s' % (s[0], [
        show(x) for x in s[1]])


def call_static(eng, p, cls, name, args, kw, st):
    fi, me = p.find_member(cls, name)
    return eng.call_fn(F(fi), args, kw, st), fi

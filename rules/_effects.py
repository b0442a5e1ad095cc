"""Rules shared by the effect checks."""
import ast
import re

from sa.effects import Effects
from ._common import *

QUERY = re.compile(
    r'^(get_(?!or_)|has_|is_?[a-z]|contains|tostring|tojson|tolist|to_|to$|'
    r'compute_|compare_|query_|closest|matches|find|iter|items$|keys$|'
    r'values$|get$|lookup_|equals|from_|clone|copy|'
    r'__(eq|ne|lt|le|gt|ge|add|sub|mul|truediv|floordiv|neg|pos|abs|radd|'
    r'rsub|rmul|rtruediv|getitem|contains|len|iter|repr|str|hash|format|'
    r'bool|float|int|matmul|mod|pow|invert|copy|deepcopy|reversed|call)__)')


ARITHMETIC = {'add', 'sub', 'mul', 'div', 'min', 'max', 'equals', 'to',
              'to_sum', 'type', 'negate', 'invert', 'create_sum_value'}
PROJECT = []


def effects(ctx):
    PROJECT[:] = [ctx.p]
    e = Effects(ctx.p)
    for fi in e.funcs:
        ctx.functions.add(fi.fq)
    ctx.note('%d functions summarised in %d rounds to a fixpoint'
             % (len(e.funcs), e.rounds))
    return e


def is_property(fi):
    return any(ast.unparse(d).split('.')[-1] in (
        'property', 'cached_property') for d in fi.node.decorator_list)


def is_public(fi):
    """Callable by users: no private name on the way."""
    last = fi.name
    if last.startswith('_') and not last.startswith('__'):
        return False
    return True


def me_of(fi):
    if fi.cls is None or fi.kind == 'static' or any(
            ast.unparse(d) == 'staticmethod' for d in fi.node.decorator_list):
        return None
    ps = fi.params
    return ps[0] if ps else None


def is_query(fi):
    if '@' in fi.fq:
        return False
    if is_property(fi):
        return not fi.name.startswith('_')
    if fi.cls is not None and not fi.name.startswith('_'):
        if fi.cls.name.endswith('ReadOnly'):
            return True         # read-only interfaces
        if fi.name in ARITHMETIC and any(
                getattr(c, 'name', '') == 'CSSNumericValue'
                for c in PROJECT[0].mro(fi.cls)):
            return True
        if fi.name + '_self' in fi.cls.members:
            return True         # the form that does not change its object
    return bool(QUERY.match(fi.name))


def site(m):
    return '%s in %s line %s' % (m[4], m[2], m[3])

"""D08: DOM errors carry the standard name and legacy code."""
from ._common import *

EXPLANATION = (
    'Every concrete subclass of the DOM exception class is constructed '
    'abstractly in the ways callers construct it (no argument, positional '
    'message, message keyword), and the base class with each standard '
    'error name; the name, code and message accessors are then interpreted '
    'on the resulting object and compared with the Web IDL error-names '
    'table, written out independently of the package\'s own table. Unknown '
    'keywords must end in TypeError, and each legacy constant of the class '
    'is compared with the Web IDL constant of that name.')
ASSUMPTIONS = ['Web IDL error names table (codes 3-25)']

CODES = {
    'HierarchyRequestError': 3, 'WrongDocumentError': 4,
    'InvalidCharacterError': 5, 'NoModificationAllowedError': 7,
    'NotFoundError': 8, 'NotSupportedError': 9, 'InUseAttributeError': 10,
    'InvalidStateError': 11, 'SyntaxError': 12,
    'InvalidModificationError': 13, 'NamespaceError': 14,
    'SecurityError': 18, 'NetworkError': 19, 'AbortError': 20,
    'URLMismatchError': 21, 'QuotaExceededError': 22, 'TimeoutError': 23,
    'InvalidNodeTypeError': 24, 'DataCloneError': 25,
}
UNCODED = ['EncodingError', 'NotReadableError', 'UnknownError',
           'ConstraintError', 'DataError', 'TransactionInactiveError',
           'ReadOnlyError', 'VersionError', 'OperationError',
           'NotAllowedError']
CONSTS = {
    'INDEX_SIZE_ERR': 1, 'DOMSTRING_SIZE_ERR': 2, 'HIERARCHY_REQUEST_ERR': 3,
    'WRONG_DOCUMENT_ERR': 4, 'INVALID_CHARACTER_ERR': 5,
    'NO_DATA_ALLOWED_ERR': 6, 'NO_MODIFICATION_ALLOWED_ERR': 7,
    'NOT_FOUND_ERR': 8, 'NOT_SUPPORTED_ERR': 9, 'INUSE_ATTRIBUTE_ERR': 10,
    'INVALID_STATE_ERR': 11, 'SYNTAX_ERR': 12,
    'INVALID_MODIFICATION_ERR': 13, 'NAMESPACE_ERR': 14,
    'INVALID_ACCESS_ERR': 15, 'VALIDATION_ERR': 16, 'TYPE_MISMATCH_ERR': 17,
    'SECURITY_ERR': 18, 'NETWORK_ERR': 19, 'ABORT_ERR': 20,
    'URL_MISMATCH_ERR': 21, 'QUOTA_EXCEEDED_ERR': 22, 'TIMEOUT_ERR': 23,
    'INVALID_NODE_TYPE_ERR': 24, 'DATA_CLONE_ERR': 25,
}


def read(eng, ctx, o, cls, attr):
    """Values of property `attr` of the object an outcome returned."""
    outs = eng.read(o.st, o.value, attr)
    ctx.paths += len(outs)
    return [x.value for x in outs]


def check(ctx):
    p = ctx.p
    base = p.cls('svgpy.exception.DOMException')
    eng = ctx.engine()
    msg = C('some message')
    n = 0
    for c in p.subclasses(base):
        if c is base:
            continue
        n += 1
        want = CODES.get(c.name, 0)
        if c.name not in CODES and c.name not in UNCODED:
            # not a Web IDL name: code 0
            want = 0
        for how, args, kw, m in (
                ('()', [], {}, C('')), ('(message)', [msg], {}, msg),
                ('(message=)', [], {'message': msg}, msg)):
            outs = eng.construct(c, args, kw)
            cons = c.name + how
            for o in outs:
                if o.kind != 'return':
                    ctx.bad('construct', cons, 'raises %s' % exc_name(o),
                            c.where())
                    continue
                for attr, v in (('code', C(want)), ('name', C(c.name)),
                                ('message', m)):
                    got = read(eng, ctx, o, c, attr)
                    ctx.obl(attr, cons, got == [v], '%s is %s, not %s' % (
                        attr, ', '.join(map(repr, got)), show(v)),
                        c.where())
    ctx.floor('error classes', n, 20)
    for name, code in sorted(list(CODES.items()) +
                             [(u, 0) for u in UNCODED]):
        for o in eng.construct(base, [msg], {'name': C(name)}):
            cons = 'DOMException(name=%s)' % name
            if o.kind != 'return':
                ctx.bad('construct', cons, 'raises', base.where())
                continue
            for attr, v in (('code', C(code)), ('name', C(name)),
                            ('message', msg)):
                got = read(eng, ctx, o, base, attr)
                ctx.obl(attr, cons, got == [v], '%s is %s, not %s' % (
                    attr, ', '.join(map(repr, got)), show(v)), base.where())
    outs = eng.construct(base, [msg], {'bogus': C(1)})
    ctx.obl('keywords', 'DOMException(bogus=)', outs and all(
        exc_name(o) == 'TypeError' for o in outs),
        'an unknown keyword is accepted', base.where())
    for name, code in sorted(CONSTS.items()):
        v = eng.class_const(base, name)
        ctx.obl('constants', 'DOMException.' + name, v is C(code),
                'is %s, not %d' % (show(v) if v is not None else None,
                                   code), base.where())

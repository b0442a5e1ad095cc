"""E02: package-wide tables, defaults and settings never change."""
from ._effects import *

EXPLANATION = (
    'From the interprocedural effect summaries of every function of the '
    'package: no function changes, rebinds or deletes a module-level object, '
    'a class attribute, or the object behind a mutable default argument, '
    'no public function returns such a mutable object itself, and none '
    'stores one in an object; no function calls an interpreter-wide setter '
    '(locale, warnings, logging, recursion limit, working directory, '
    'environment, numpy error state, decimal context, random seed). The '
    'documented way to extend the element class table and the parser\'s '
    'installation as lxml default are listed exemptions.')
ASSUMPTIONS = ['the documented SVGElementClassLookup.update() extends the '
               'element class table on purpose',
               'SVGParser installs itself as the default lxml parser']

EXEMPT = {('clsattr', 'svgpy.element.SVGElementClassLookup',
           'ELEMENT_CLASS_MAP')}
SETTERS = re.compile(
    r'^(sys\.(setrecursionlimit|setswitchinterval|settrace|setprofile)|'
    r'locale\.setlocale|os\.(chdir|putenv|unsetenv|umask)|random\.seed|'
    r'decimal\.setcontext|warnings\.(filterwarnings|'
    r'simplefilter|resetwarnings)|numpy\.(seterr|set_printoptions|'
    r'random\.seed|seterrcall)|logging\.(basicConfig|disable|'
    r'setLoggerClass|captureWarnings)|socket\.setdefaulttimeout|'
    r'urllib\.request\.install_opener|signal\.signal|gc\.(disable|'
    r'set_threshold)|lxml\.etree\.(register_namespace|set_element_class_'
    r'lookup|use_global_python_log)|os\.environ\.(update|setdefault|pop|'
    r'clear)|sys\.path\.(append|insert|remove|extend|pop)|'
    r'sys\.modules\.(pop|update|clear)|atexit\.register)$')
# current settings: nothing may be assigned to them
CURRENT = re.compile(r'^(decimal\.getcontext|logging\.(getLogger|root)|'
                     r'locale\.localeconv|lxml\.etree\.get_default_parser)$')
AT_IMPORT = ()
SHARED = ('glob', 'clsattr', 'default', 'inglob', 'inclsattr', 'indefault')


def ext_name(p, mod, expr, locs):
    """Dotted external name an expression refers to, or None."""
    parts = []
    while isinstance(expr, ast.Attribute):
        parts.append(expr.attr)
        expr = expr.value
    if not isinstance(expr, ast.Name) or expr.id in locs:
        return None
    parts.append(expr.id)
    parts.reverse()
    r = p.lookup_global(mod, parts[0])
    if isinstance(r, tuple) and r[0] == 'ext':
        return '.'.join([r[1]] + parts[1:])
    r = nested_imports(mod).get(parts[0])
    if r is not None and r.split('.')[0] != 'svgpy':
        return '.'.join([r] + parts[1:])
    return None


def nested_imports(mod):
    """Names imported inside functions."""
    c = getattr(mod, '_nested_imports', None)
    if c is None:
        c = {}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    c[a.asname or a.name.split('.')[0]] = \
                        a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    c[a.asname or a.name] = '%s.%s' % (n.module, a.name)
        mod._nested_imports = c
    return c


def local_names(fn):
    out = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def check(ctx):
    e = effects(ctx)
    p = ctx.p
    tables = set()
    for mod in p.modules.values():
        for st in mod.tree.body:
            if isinstance(st, ast.Assign) and isinstance(
                    st.value, (ast.Dict, ast.List, ast.Set, ast.DictComp,
                               ast.ListComp, ast.SetComp)):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        tables.add(('glob', mod.name, t.id))
            elif isinstance(st, ast.ClassDef):
                for s2 in st.body:
                    if isinstance(s2, ast.Assign) and isinstance(
                            s2.value, (ast.Dict, ast.List, ast.Set)):
                        for t in s2.targets:
                            if isinstance(t, ast.Name):
                                tables.add(('clsattr', mod.name + '.'
                                            + st.name, t.id))
    changed = {}
    nset = 0
    for fi in e.funcs:
        for m in e.sum[fi].mut:
            o = m[0]
            if o[0] in SHARED:
                k = ((o[0][2:],) if o[0].startswith('in') else (o[0],)) \
                    + tuple(o[1:])
                changed.setdefault(k, m)
        for o in e.sum[fi].ret.own:
            if o[0] in ('glob', 'clsattr', 'default') and is_public(fi):
                ctx.bad('returned', '%s.%s' % (o[1], o[2]),
                        '%s returns the shared object itself' % fi.fq,
                        fi.where())
        for (b, f, o), s in e.sum[fi].stores.items():
            if o[0] in ('glob', 'clsattr', 'default') and \
                    mutable_origin(p, o):
                ctx.bad('stored', '%s.%s' % (o[1], o[2]),
                        '%s keeps the shared object itself in .%s'
                        % (fi.fq, f), fi.where())
        locs = local_names(fi.node)
        for n, d in current_changed(p, fi, locs):
            ctx.bad('setting', '%s in %s' % (d, fi.fq),
                    'changes an interpreter-wide setting', fi.where(n))
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call):
                d = ext_name(p, fi.module, n.func, locs)
                if d is None:
                    continue
                nset += 1
                if SETTERS.match(d):
                    ctx.bad('setting', '%s in %s' % (d, fi.fq),
                            'changes an interpreter-wide setting',
                            fi.where(n))
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                ts = n.targets if not isinstance(n, ast.AugAssign) \
                    else [n.target]
                for t in ts:
                    x = t.value if isinstance(
                        t, (ast.Attribute, ast.Subscript)) else None
                    d = ext_name(p, fi.module, x, locs) \
                        if x is not None else None
                    if d is not None:
                        ctx.bad('setting', '%s in %s' % (d, fi.fq),
                                'assigns to an external module\'s object',
                                fi.where(n))
    for mod in sorted(p.modules.values(), key=lambda m: m.name):
        top = [st for st in mod.tree.body if not isinstance(
            st, (ast.FunctionDef, ast.ClassDef))]
        for st in top:
            for n in ast.walk(st):
                if isinstance(n, ast.Call):
                    d = ext_name(p, mod, n.func, ())
                    if d is not None and SETTERS.match(d) and \
                            (mod.name, d) not in AT_IMPORT:
                        ctx.bad('setting', '%s in %s' % (d, mod.name),
                                'changes an interpreter-wide setting',
                                '%s:%d' % (mod.relpath, n.lineno))
    for t in sorted(tables | set(changed), key=str):
        if t in EXEMPT:
            continue
        m = changed.get(t)
        ctx.obl('table', '%s.%s' % (t[1], t[2]), m is None,
                '' if m is None else 'changed by ' + site(m))
    ctx.floor('shared tables', len(tables), 40)
    ctx.floor('external calls', nset, 200)


def current_changed(p, fi, locs):
    """(node, name) of changes of an object that holds current settings."""
    names = {}
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
            d = ext_name(p, fi.module, n.value.func, ())
            if d is not None and CURRENT.match(d):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        names[t.id] = d

    def is_current(x):
        if isinstance(x, ast.Name):
            return names.get(x.id)
        if isinstance(x, ast.Attribute):
            d = ext_name(p, fi.module, x, ())
            return d if d is not None and CURRENT.match(d) \
                else is_current(x.value)
        if isinstance(x, ast.Subscript):
            return is_current(x.value)
        if isinstance(x, ast.Call):
            d = ext_name(p, fi.module, x.func, ())
            return d if d is not None and CURRENT.match(d) else None
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            d = is_current(n.value)
            if d:
                yield n, d
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in ('setLevel', 'addHandler', 'addFilter',
                                    'clear_traps', 'clear_flags', 'update',
                                    'removeHandler'):
            d = is_current(n.func.value)
            if d:
                yield n, d


def mutable_origin(p, o):
    """Stored shared objects that are containers, not package singletons."""
    if o[0] == 'default':
        return True
    if o[0] == 'glob':
        mod = p.modules.get(o[1])
        if mod is None:
            return True
        for st in mod.tree.body:
            if isinstance(st, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == o[2]
                    for t in st.targets):
                return isinstance(st.value, (
                    ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp,
                    ast.SetComp)) or isinstance(st.value, ast.Call) and \
                    ast.unparse(st.value.func).split('.')[-1] in (
                        'dict', 'list', 'set', 'OrderedDict', 'defaultdict')
        return False
    return True

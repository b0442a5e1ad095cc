"""E05: no output, code execution, processes or network beyond loading."""
from ._effects import *
from .e02 import ext_name, local_names, nested_imports

EXPLANATION = (
    'Every call and reference in every function and module body of the '
    'package is resolved through the module\'s imports. Nothing may write to '
    'standard output or error (also by warnings, unconfigured logging or '
    'printed tracebacks), evaluate or compile source text, unpickle, '
    'start processes, open sockets, or create, write or delete files. '
    'The listed exceptions: utils.load is the only place that opens a URL, '
    'and the ICU wrapper asks the system for its library name while it is '
    'imported.')
ASSUMPTIONS = ['lxml\'s parser opens only what the caller asked it to parse']

BUILTINS = {'print', 'eval', 'exec', 'compile', 'input', '__import__',
            'breakpoint', 'open'}
EXT = re.compile(
    r'^(subprocess(\..*)?|os\.(system|popen|exec\w*|spawn\w*|fork\w*|remove|'
    r'unlink|rmdir|rename|renames|replace|mkdir|makedirs|removedirs|chmod|'
    r'chown|truncate|write|kill|open|link|symlink|posix_spawn\w*|startfile)|'
    r'shutil\.\w+|pickle\.\w+|marshal\.\w+|shelve\.\w+|ctypes\.(CDLL|PyDLL|cdll|windll|oledll)(\..*)?|'
    r'socket\.\w+|urllib\.request\.\w+|http\.client\.\w+|ftplib\.\w+|'
    r'requests\.\w+|tempfile\.\w+|io\.(open|FileIO)|builtins\.\w+|'
    r'importlib\.import_module|runpy\.\w+|code\.\w+|pdb\.\w+|'
    r'multiprocessing(\..*)?|threading\.(Thread|Timer)|sys\.(stdout|stderr|'
    r'exit|__stdout__|__stderr__)(\..*)?|webbrowser\.\w+|'
    r'pathlib\.\w+\.(write_text|write_bytes|unlink|touch|mkdir|rmdir|'
    r'rename)|codecs\.open|yaml\.load|traceback\.print_\w+|'
    r'warnings\.(warn|warn_explicit|showwarning)|fileinput\.\w+|'
    r'logging\.(basicConfig|StreamHandler|FileHandler|warning|error|info|'
    r'debug|critical|exception|log|handlers\.\w+)|faulthandler\.\w+|'
    r'numpy\.(save\w*|memmap|fromfile|load\w*)|pprint\.pp(rint)?|'
    r'asyncio\.\w+|selectors\.\w+|ssl\.\w+|smtplib\.\w+|gzip\.open|'
    r'ctypes\.util\.find_library|sqlite3\.\w+|dbm\.\w+|zipfile\.\w+|'
    r'tarfile\.\w+|glob\.\w+|dis\.\w+|getpass\.\w+)$')
# methods that write whatever their receiver is
WRITERS = {'write_text': 'writes a file', 'write_bytes': 'writes a file',
           'tofile': 'writes a file', 'print_exc': 'prints',
           'unlink': 'deletes a file', 'rmdir': 'deletes a directory',
           'mkdir': 'creates a directory', 'touch': 'creates a file',
           'print_exception': 'prints', 'write_c14n': 'writes a file',
           'writelines': 'writes', 'savetxt': 'writes a file'}
LOUD = {'warning', 'warn', 'error', 'exception', 'critical', 'fatal'}
PURE = {'urllib.request.url2pathname', 'urllib.request.pathname2url',
        'urllib.request.Request'}
ALLOWED = {('svgpy.utils', 'urllib.request.urlopen'),
           # prints its argument on purpose
           ('svgpy.css.mediaquery.dump', 'pprint.pprint')}


def refs(p, mod, root, locs):
    """(dotted name, node) of every external or builtin reference."""
    skip = set()
    for n in ast.walk(root):
        if isinstance(n, ast.Attribute):
            d = ext_name(p, mod, n, locs)
            if d is not None:
                x = n.value
                while isinstance(x, ast.Attribute):
                    skip.add(id(x))
                    x = x.value
                skip.add(id(x))
                if id(n) not in skip:
                    yield d, n
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                id(n) not in skip and n.id not in locs:
            r = p.lookup_global(mod, n.id)
            if isinstance(r, tuple) and r[0] == 'ext':
                yield r[1], n
            elif r is None and n.id in nested_imports(mod):
                yield nested_imports(mod)[n.id], n
            elif r is None and n.id in BUILTINS:
                yield 'builtins.' + n.id, n


def check(ctx):
    p = ctx.p
    e = effects(ctx)
    total = 0
    for mod in sorted(p.modules.values(), key=lambda m: m.name):
        owner = {}
        for fi in e.funcs:
            if fi.module is mod:
                for n in ast.walk(fi.node):
                    owner[id(n)] = fi
        count = 0
        bad = 0
        for d, n in refs(p, mod, mod.tree, ()):
            count += 1
            if d in PURE or not (EXT.match(d) or d.startswith('builtins.')):
                continue
            fi = owner.get(id(n))
            name = fi.fq if fi is not None else mod.name
            if fi is not None and d.startswith('builtins.') and \
                    d[9:] in local_names(fi.node):
                continue
            if (mod.name, d) in ALLOWED or (name, d) in ALLOWED:
                continue
            if mod.name == 'svgpy.icu' and d.startswith((
                    'subprocess', 'ctypes.util.find_library')) and \
                    import_time(e, fi, mod):
                continue
            bad += 1
            ctx.bad('reference', '%s in %s' % (d, name),
                    'not allowed here', '%s:%d' % (mod.relpath, n.lineno))
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                w = writes(p, mod, n, owner.get(id(n)))
                if w:
                    fi = owner.get(id(n))
                    bad += 1
                    ctx.bad('method', '.%s() in %s' % (
                        n.func.attr, fi.fq if fi is not None else mod.name),
                        w, '%s:%d' % (mod.relpath, n.lineno))
        total += count
        if not bad:
            ctx.ok('module', mod.name)
    # the only function that opens URLs is the loader
    ctx.floor('external and builtin references', total, 300)


def writes(p, mod, n, fi):
    """What the method call writes, or None."""
    name = n.func.attr
    base = n.func.value
    if name not in WRITERS and name != 'write' and name not in LOUD:
        return None
    if any(name in c.members for c in p.classes.values()):
        return None             # an operation of the package
    if name in LOUD:
        # unconfigured logging prints warnings and errors
        src = ast.unparse(base)
        return 'is printed when logging is not set up' if 'log' in \
            src.lower() else None
    if name in WRITERS:
        return WRITERS[name]
    if isinstance(base, ast.Name) and fi is not None:
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) \
                    and any(isinstance(t, ast.Name) and t.id == base.id
                            for t in x.targets) and \
                    ast.unparse(x.value.func).split('.')[-1] in (
                        'StringIO', 'BytesIO'):
                return None
    return 'writes a file'


def import_time(e, fi, mod):
    """The function runs only while the module is imported."""
    if fi is None:
        return True
    for g in e.funcs:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == fi.name and g is not fi and \
                    not import_time(e, g, mod):
                return False
    return fi.cls is None and (fi.name.startswith('_') or any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
        and n.func.id == fi.name for st in mod.tree.body
        if not isinstance(st, (ast.FunctionDef, ast.ClassDef))
        for n in ast.walk(st)))

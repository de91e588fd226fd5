"""Executes fresh copies of the pyowc modules from /repo's current source.

symbolic mode: imports resolve to the stand-ins in sext; concrete mode: to the real libraries.
Compiled code objects are cached per process; module state is fresh for each load.
"""
import ast
import builtins
import os
import sys
import types

from . import plotrec, sext

REPO = os.environ.get('PYOWC_REPO', '/repo')
_code = {}
EXECUTED = {}       # file -> set of qualnames executed
_tool = None


def source_path(mod):
    p = os.path.join(REPO, *mod.split('.'))
    if os.path.isdir(p):
        return os.path.join(p, '__init__.py'), True
    return p + '.py', False


class Texts(ast.NodeTransformer):
    """symbolic mode: text built from values (f-strings, '..'.format, '..' % x) may hold symbolic digits"""

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), v.format_spec or ast.Constant('')], ast.Load()))
            else:
                parts.append(v)
        new = ast.Call(ast.Name('__symx_text__', ast.Load()), parts, [])
        return ast.fix_missing_locations(ast.copy_location(new, node))

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            new = ast.Call(ast.Name('__symx_format__', ast.Load()), [f.value] + node.args, node.keywords)
            return ast.fix_missing_locations(ast.copy_location(new, node))
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            new = ast.Call(ast.Name('__symx_percent__', ast.Load()), [node.left, node.right], [])
            return ast.fix_missing_locations(ast.copy_location(new, node))
        return node


def code_of(mod, symbolic=False):
    c = _code.get((mod, symbolic))
    if c is None:
        path, pkg = source_path(mod)
        with open(path, 'r', encoding='utf-8') as f:
            src = f.read()
        tree = Texts().visit(ast.parse(src, path)) if symbolic else src
        c = _code[mod, symbolic] = (compile(tree, path, 'exec'), path, pkg)
    return c


def start_monitoring():
    """record which functions of the code under test are executed (each reported once)"""
    global _tool
    mon = sys.monitoring
    if _tool is not None:
        return
    _tool = mon.COVERAGE_ID
    try:
        mon.use_tool_id(_tool, 'symx')
    except ValueError:
        return

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + '/pyowc') and code.co_qualname != '<module>':
            EXECUTED.setdefault(os.path.relpath(fn, REPO), set()).add(code.co_qualname)
        return mon.DISABLE
    mon.register_callback(_tool, mon.events.PY_START, on_start)
    mon.set_events(_tool, mon.events.PY_START)


class Loader:
    def __init__(self, symbolic, fs=None, np_module=None):
        self.sym = symbolic
        self.mods = {}
        self.plots = plotrec.Recorder()
        if symbolic:
            self.np = np_module or sext.mk_np()
            osm, path, pl, sio, pmr, sopen = sext.mk_io(fs)
            sp, interp, linalg, opt = sext.mk_scipy()
            sp.__dict__['io'] = sio
            g, conv = sext.mk_gsw()
            self.ext = {'numpy': self.np, 'numpy.linalg': self.np.linalg, 'numpy.random': self.np.random,
                        'math': sext.MATH, 'os': osm, 'os.path': path, 'pathlib': pl, 'struct': sext.mk_struct(),
                        'scipy': sp, 'scipy.interpolate': interp, 'scipy.interpolate.interpolate': interp,
                        'scipy.linalg': linalg, 'scipy.optimize': opt, 'scipy.io': sio, 'pymatreader': pmr,
                        'gsw': g, 'gsw.conversions': conv}
            self.opt = opt
            self.interp = interp
            self.gsw = g
            self.builtins = sext.mk_builtins(sopen)
        else:
            self.ext = {}
            self.builtins = dict(builtins.__dict__)
            self.builtins['print'] = lambda *a, **k: None
        self.builtins['__import__'] = self._import

    _STUBS = ('shapefile', 'cartopy')
    _SUB = {'numpy': ('numpy.linalg', 'numpy.random')}

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            base = pkg[:len(pkg) - (level - 1)]
            full = '.'.join(base + ([name] if name else []))
            return self._own(full, fromlist)
        if name == 'pyowc' or name.startswith('pyowc.'):
            if fromlist:
                return self._own(name, fromlist)
            self._own(name, ())
            return self.get('pyowc')
        top = name.split('.')[0]
        if top in self._STUBS:
            return plotrec.AnyModule(name if fromlist else top)
        if top in ('matplotlib', 'pylab'):
            return self.plots.module(name, fromlist)
        if top == 'pandas' and self.sym:
            return plotrec.pandas_stub()
        if self.sym:
            if name in self.ext:
                return self.ext[name] if fromlist else self.ext[top]
            if top in self.ext:
                m = self.ext[top]
                if not fromlist:
                    return m
                for part in name.split('.')[1:]:
                    m = getattr(m, part)
                return m
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _own(self, full, fromlist):
        m = self.get(full)
        for f in fromlist or ():
            if f != '*' and not hasattr(m, f):
                p, _ = source_path(full + '.' + f)
                if os.path.exists(p):
                    setattr(m, f, self.get(full + '.' + f))
        return m

    def get(self, full):
        m = self.mods.get(full)
        if m is not None:
            return m
        path, pkg = source_path(full)
        if pkg and full in ('pyowc', 'pyowc.core', 'pyowc.data', 'pyowc.plot'):
            # package initialisers only re-export (and pull in plotting): not executed
            m = types.ModuleType(full)
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = full
            self.mods[full] = m
            return m
        if not os.path.exists(path):
            raise ModuleNotFoundError(f"No module named '{full}'")
        code, path, pkg = code_of(full, self.sym)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if pkg else full.rpartition('.')[0]
        m.__builtins__ = self.builtins
        m.__dict__['__builtins__'] = self.builtins
        self.mods[full] = m
        par = full.rpartition('.')[0]
        if par:
            self.get(par)
        exec(code, m.__dict__)
        if par:
            setattr(self.get(par), full.rpartition('.')[2], m)
        return m

    def overriding(self, mod, name, value):
        """replace a function of a module (and copies bound by from-imports in loaded modules)"""
        m = self.get(mod)
        old = getattr(m, name)
        for q in self.mods.values():
            for k, v in list(q.__dict__.items()):
                if v is old:
                    q.__dict__[k] = value
        return old

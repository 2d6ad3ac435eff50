"""Mechanical extraction: imports the real sources of /repo/fluids under the
package name `sfluids`, after an AST transformation that changes no control flow:

  * float literals     -> the exact rational they denote in decimal
  * a / b, a ** b      -> helper calls (so that int/int stays exact)
  * math.*             -> pyvc.smath (builds terms)
  * float/int/round    -> symbolic-aware versions
  * bare `except:`     -> `except Exception:` (engine control flow passes through)
  * try bodies with handlers are marked so that definedness conditions fork
    (raise the Python exception) instead of becoming obligations

Everything else (statements, branches, loops, calls) is the text that runs.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import builtins
import functools
from fractions import Fraction
from . import ir, smath
from .ir import R, B, num, coerce

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'fluids'
SPKG = 'sfluids'


class _Meta(type):
    def __instancecheck__(cls, x):
        return cls.check(x)

    def __call__(cls, *a, **k):
        return cls.make(*a, **k)


class sfloat(float, metaclass=_Meta):
    @staticmethod
    def check(x):
        return isinstance(x, (R, builtins.float))

    @staticmethod
    def make(x=0.0):
        if isinstance(x, R):
            return x
        if isinstance(x, str):
            s = x.strip().lower()
            if s in ('inf', 'infinity', '+inf', '-inf', '-infinity', 'nan'):
                return builtins.float(x)
            try:
                return num(Fraction(x))
            except ValueError:
                return num(Fraction(builtins.float(x)))
        f = coerce(x)
        if f is None:
            return builtins.float(x)
        return f


class sint(int, metaclass=_Meta):
    @staticmethod
    def check(x):
        return isinstance(x, builtins.int)

    @staticmethod
    def make(x=0, *a):
        if isinstance(x, R):
            if ir.is_closed(x):
                return builtins.int(x)
            if ir.ENGINE is not None:
                return ir.ENGINE.sint(x)
        return builtins.int(x, *a)


def sround(x, n=None):
    if isinstance(x, R):
        return x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, n)


def sisinstance(x, t):
    return builtins.isinstance(x, t)


class _Trying:
    def __enter__(self):
        if ir.ENGINE is not None:
            ir.ENGINE.try_depth += 1

    def __exit__(self, *a):
        if ir.ENGINE is not None:
            ir.ENGINE.try_depth -= 1
        return False


TRYING = _Trying()


def stype(x, *a):
    if a:
        return builtins.type(x, *a)
    if isinstance(x, R):
        return sfloat
    t = builtins.type(x)
    return {builtins.float: sfloat, builtins.int: sint}.get(t, t)


class Transformer(ast.NodeTransformer):
    def __init__(self, cuts=None):
        self.lits = {}
        self.rev = {}
        self.fdepth = 0

    def lit(self, src):
        k = self.rev.get(src)
        if k is None:
            k = '__lit%d__' % len(self.lits)
            self.lits[k] = src
            self.rev[src] = k
        return k

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            s = self.segment(n)
            return ast.copy_location(ast.Name(self.lit(s), ast.Load()), n)
        return n

    def segment(self, n):
        # ast col offsets are utf8 byte offsets
        line = self.lines[n.lineno - 1]
        s = line[n.col_offset:n.end_col_offset].decode('utf8').replace('_', '')
        try:
            if float(s) == n.value:
                return s
        except ValueError:
            pass
        return repr(n.value)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('__truediv__', ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name('__power__', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            import copy
            load = copy.deepcopy(n.target)
            for x in ast.walk(load):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Load()
            f = '__truediv__' if isinstance(n.op, ast.Div) else '__power__'
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name(f, ast.Load()), [load, n.value], [])), n)
        return n

    def visit_Try(self, n):
        self.generic_visit(n)
        if n.handlers:
            for h in n.handlers:
                if h.type is None:
                    h.type = ast.Name('Exception', ast.Load())
                if isinstance(h.type, ast.Name) and h.type.id == 'BaseException':
                    h.type = ast.Name('Exception', ast.Load())
            if self.fdepth:
                n.body = [ast.With([ast.withitem(ast.Name('__trying__', ast.Load()), None)], n.body)]
        return n

    def visit_FunctionDef(self, n):
        self.fdepth += 1
        n.decorator_list = [d for d in n.decorator_list]
        self.generic_visit(n)
        self.fdepth -= 1
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        return n

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_Import(self, n):
        out = []
        for a in n.names:
            if a.name == 'math':
                out.append(ast.ImportFrom('pyvc', [ast.alias('smath', a.asname or 'math')], 0))
            elif a.name == PKG or a.name.startswith(PKG + '.'):
                new = SPKG + a.name[len(PKG):]
                if a.asname:
                    out.append(ast.Import([ast.alias(new, a.asname)]))
                else:
                    out.append(ast.Import([ast.alias(new, None)]))
                    out.append(ast.Assign([ast.Name(PKG, ast.Store())], ast.Name(SPKG, ast.Load())))
            else:
                out.append(ast.Import([a]))
        return [ast.copy_location(x, n) for x in out]

    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module == 'math':
            n.module = 'pyvc.smath'
        elif n.level == 0 and n.module and (n.module == PKG or n.module.startswith(PKG + '.')):
            n.module = SPKG + n.module[len(PKG):]
        elif n.level == 0 and n.module == '__future__':
            return n
        return n


NOINSTR = ('nrlmsise00', 'optional.spa', 'optional.pychebfun', 'units', 'numba', 'vectorized', 'numba_vectorized', 'design_climate')
EXTRA_TRANSFORM = {}     # modname -> callable(tree) for loop cuts


def transform(source, modname):
    tree = ast.parse(source)
    ex = EXTRA_TRANSFORM.get(modname)
    if ex:
        tree = ex(tree)
    t = Transformer()
    t.source = source
    t.lines = source.encode('utf8').split(b'\n')
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return tree, t.lits


PATCHABLE = {}     # qualified name -> wrapper


def wrap(qual, f):
    @functools.wraps(f)
    def w(*a, **k):
        e = ir.ENGINE
        if e is not None:
            o = e.overrides.get(qual)
            if o is not None and qual not in e.in_override:
                return o(f, *a, **k)
            e.touched.add(qual)
        return f(*a, **k)
    w.__wrapped__ = f
    w.__pyvc_qual__ = qual
    return w


class Loader(importlib.abc.Loader):
    def __init__(self, path, name, ispkg):
        self.path, self.name, self.ispkg = path, name, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path, encoding='utf8') as fh:
            src = fh.read()
        rel = self.name[len(SPKG):].lstrip('.')
        tree, lits = transform(src, rel)
        g = mod.__dict__
        for k, s in lits.items():
            g[k] = ir.lit(s)
        g['__truediv__'] = ir.truediv
        g['__power__'] = ir.power
        g['__trying__'] = TRYING
        g['float'] = sfloat
        g['int'] = sint
        g['round'] = sround
        g['type'] = stype
        code = compile(tree, self.path, 'exec')
        # functions are wrapped as soon as they are defined at module level, so
        # that `from x import f` in later modules sees the wrapper
        exec(code, g)
        import types
        for k, v in list(g.items()):
            if isinstance(v, types.FunctionType) and v.__module__ == self.name and not k.startswith('__'):
                if getattr(v, '__pyvc_qual__', None) is None:
                    q = PKG + self.name[len(SPKG):] + '.' + v.__name__
                    w = PATCHABLE.get((q, id(v)))
                    if w is None:
                        w = wrap(q, v)
                        PATCHABLE[(q, id(v))] = w
                    g[k] = w


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != SPKG and not name.startswith(SPKG + '.'):
            return None
        rel = name.split('.')[1:]
        base = os.path.join(REPO, PKG, *rel)
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            sp = importlib.util.spec_from_loader(name, Loader(p, name, True), origin=p, is_package=True)
            sp.submodule_search_locations = [base]
            return sp
        p = base + '.py'
        if os.path.exists(p):
            if rel and (rel[0] in NOINSTR or '.'.join(rel) in NOINSTR):
                return None if False else importlib.util.spec_from_loader(name, PlainLoader(p, name), origin=p)
            return importlib.util.spec_from_loader(name, Loader(p, name, False), origin=p)
        return None


class PlainLoader(importlib.abc.Loader):
    """modules outside the verified subset: names are rewritten, nothing else"""

    def __init__(self, path, name):
        self.path, self.name = path, name

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path, encoding='utf8') as fh:
            src = fh.read()
        tree = ast.parse(src)
        t = Transformer()
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.level == 0 and n.module and (
                    n.module == PKG or n.module.startswith(PKG + '.')):
                n.module = SPKG + n.module[len(PKG):]
        exec(compile(tree, self.path, 'exec'), mod.__dict__)


_installed = False


def install():
    global _installed
    if not _installed:
        sys.dont_write_bytecode = True
        sys.meta_path.insert(0, Finder())
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        _installed = True


def get(modrel):
    """symbolic module, e.g. get('core')"""
    install()
    import importlib
    return importlib.import_module(SPKG + ('.' + modrel if modrel else ''))


def real(modrel):
    install()
    import importlib
    return importlib.import_module(PKG + ('.' + modrel if modrel else ''))

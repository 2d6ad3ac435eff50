"""helpers shared by the specifications"""
import inspect


def bound(orig, a, k):
    b = inspect.signature(orig).bind(*a, **k)
    b.apply_defaults()
    return dict(b.arguments)


def akey(S, v):
    """key under which two argument values are the same mathematical value"""
    from pyvc.ir import R, coerce
    if isinstance(v, (list, tuple)):
        if len(v) > 8 or any(isinstance(x, (list, tuple)) and len(x) > 8 for x in v):
            return id(v)
        return tuple(akey(S, x) for x in v)
    if isinstance(v, dict):
        return tuple((k, akey(S, x)) for k, x in sorted(v.items()))
    if isinstance(v, (bool, str)) or v is None:
        return v
    r = coerce(v)
    if r is None:
        return id(v)
    k = S.e.or_.key(r)
    if k is not None:
        return k
    try:
        p = S.e.or_.ctx.nf(r)
        if not p:
            return 0
        if list(p) == [()]:
            return p[()]
    except Exception:
        pass
    return r.id


def abstract(S, qual, ignore=(), positive=False, lo=None, hi=None, rng=None):
    """replace a function by an unknown function of its (bound) arguments: equal arguments give equal values.
    Concretely the real function runs."""
    memo = {}
    if S.symbolic:
        S.e.contracts_used.add(qual + ': abstracted at this call site as some function of its arguments' + (' with positive values' if positive else ''))

    def stub(orig, *a, **k):
        if not S.symbolic:
            return orig(*a, **k)
        p = bound(orig, a, k)
        key = tuple((n, akey(S, v)) for n, v in p.items() if n not in ignore)
        if key not in memo:
            v = memo[key] = S.e.fresh(qual.split('.')[-1])
            if rng is not None:
                S.e.or_.setbox(v.val, *rng(p))
            if positive or lo is not None or hi is not None:
                l = 5e-324 if positive else (lo if lo is not None else -float('inf'))
                S.e.or_.setbox(v.val, l, hi if hi is not None else float('inf'))
        return memo[key]
    S.stub(qual, stub)


def rejected(S, o, label, exc=ValueError):
    S.check(not o.ok and isinstance(o.exc, exc), label)


def abstract_pair(S, qual, n=2):
    """abstract() for a function that returns a tuple"""
    memo = {}
    if S.symbolic:
        S.e.contracts_used.add(qual + ': abstracted at this call site as some function of its arguments')

    def stub(orig, *a, **k):
        if not S.symbolic:
            return orig(*a, **k)
        key = tuple((n, akey(S, v)) for n, v in bound(orig, a, k).items())
        if key not in memo:
            memo[key] = tuple(S.e.fresh(qual.split('.')[-1]) for _ in range(n))
        return memo[key]
    S.stub(qual, stub)


def formula(S, text, **v):
    """evaluate a formula whose decimal literals denote exact rationals"""
    import ast
    t = ast.parse(text.replace('\n', ' ').strip(), mode='eval')

    class Lit(ast.NodeTransformer):
        def visit_Constant(self, n):
            if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                return ast.copy_location(ast.Call(ast.Name('_c', ast.Load()), [ast.Constant(ast.get_source_segment(src, n))], []), n)
            return n
    src = text.replace('\n', ' ').strip()
    t = ast.fix_missing_locations(Lit().visit(t))
    m = S.m
    env = {n: getattr(m, n) for n in ('exp', 'log', 'log10', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'tanh', 'sinh', 'cosh') if hasattr(m, n)}
    env.update(_c=S.const, pi=S.pi, g=S.const('9.80665'), **v)
    return eval(compile(t, '<formula>', 'eval'), {'__builtins__': {}}, env)


def rate(S, f, x, scale=1.):
    """derivative of f at x: of the result term symbolically, by extrapolated central differences concretely"""
    if S.symbolic:
        return S.deriv(f(x), x)
    h = 1e-4 * scale
    d = lambda k: (f(x + k) - f(x - k)) / (2 * k)
    return (4 * d(h / 2) - d(h)) / 3


def limit(S, f, x, at):
    """limit of f at the end `at` of its smooth piece: the piece's term evaluated there (continuity of the term);
    concretely a value next to it"""
    if S.symbolic:
        from pyvc import ir
        return ir.subst(ir.coerce(f(x)), {x.id: ir.coerce(S.const(str(at)))})
    return f(at + (1e-9 if x > at else -1e-9))

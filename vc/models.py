"""Assumed contracts (models) of external functions: GMP, boost constants, std:: containers and utilities."""
from fractions import Fraction
import z3
from .engine import *
from .engine import builtin, BUILTINS, tdiv, tmod, zreal, znum

# ------------------------------------------------------------------ GMP C++ operators
def gk(s, f, args):
    """result kind for a gmp operator from the function's return type"""
    return s.p.gmp(s.p.types[f['rt']])
def isgmp_any(s, f):
    return any(s.p.gmp(s.p.deref_t(p['t'])) for p in f['p']) or (f.get('cls') is not None and s.p.gmp(s.p.types[f['cls']]))
def conv(s, ty, v):
    g = s.p.gmp(ty)
    if g: return s.to_gmp(g, v)
    if isinstance(v, bool): return int(v)
    return v
def gargs(s, f, args):
    return [s.val(a) for a in args]

def gmp_bin(op):
    def h(s, f, this, args, node):
        if not isgmp_any(s, f): return NotImplemented
        a, b = gargs(s, f, args)
        if not isscalar(a) or not isscalar(b): return NotImplemented
        k = gk(s, f, args)
        if op == '+': r = add(a, b)
        elif op == '-': r = sub(a, b)
        elif op == '*': r = mul(a, b)
        elif op == '/':
            if k == 'Q':
                s.require_nz(b, 'division by zero')
                r = rdiv(a, b)
            else:
                s.require_nz(b, 'division by zero')
                r = tdiv(s, a, b)
        elif op == '%':
            s.require_nz(b, 'modulo by zero')
            r = tmod(s, a, b)
        return s.to_gmp(k, r) if k else r
    return h
def ex_require_nz(s, b, what):
    if not isz(b):
        if b == 0: raise Unsupported(what)
        return
    if s.unit.get('check_div', True):
        s.prove(f'{s.unit["name"]}: {what} impossible', ne(b, 0), kind='safety')
    s.assume(ne(b, 0))
Ex.require_nz = ex_require_nz
for o in '+-*/%':
    def mk(o):
        h1 = gmp_bin(o)
        def un(s, f, this, args, node):
            if len(args) == 1:
                if not isgmp_any(s, f): return NotImplemented
                a = s.val(args[0])
                k = gk(s, f, args)
                return s.to_gmp(k, neg(a)) if o == '-' else a
            return h1(s, f, this, args, node)
        return un
    BUILTINS['operator' + o] = mk(o)
for o in ('==', '!=', '<', '<=', '>', '>='):
    def mk(o):
        def h(s, f, this, args, node):
            if not isgmp_any(s, f): return NotImplemented
            a, b = gargs(s, f, args)
            return cmp_(o, a, b)
        return h
    BUILTINS['operator' + o] = mk(o)
for o in '+-*/%':
    def mk(o):
        def h(s, f, this, args, node):
            g = s.p.gmp(s.p.types[f['cls']])
            a = s.read(this); b = s.val(args[0])
            if o == '+': r = add(a, b)
            elif o == '-': r = sub(a, b)
            elif o == '*': r = mul(a, b)
            elif o == '/':
                s.require_nz(b, 'division by zero')
                r = rdiv(a, b) if g == 'Q' else tdiv(s, a, b)
            else:
                s.require_nz(b, 'modulo by zero'); r = tmod(s, a, b)
            s.write(this, s.to_gmp(g, r))
            return this
        return h
    BUILTINS['__gmp_expr::operator' + o + '='] = mk(o)
@builtin('__gmp_expr::operator=')
def _(s, f, this, args, node):
    g = s.p.gmp(s.p.types[f['cls']])
    v = s.val(args[0])
    s.write(this, s.to_gmp(g, v)); return this
def incdec(d):
    def h(s, f, this, args, node):
        a = s.read(this); s.write(this, add(a, d))
        return a if args else this
    return h
BUILTINS['__gmp_expr::operator++'] = incdec(1)
BUILTINS['__gmp_expr::operator--'] = incdec(-1)
@builtin('__gmp_expr::get_num')
def _(s, f, this, args, node): return s.alloc(s.num(s.read(this)))
@builtin('__gmp_expr::get_den')
def _(s, f, this, args, node): return s.alloc(s.den(s.read(this)))
@builtin('__gmp_expr::get_num_mpz_t')
def _(s, f, this, args, node): return s.alloc(s.num(s.read(this)))
@builtin('__gmp_expr::get_den_mpz_t')
def _(s, f, this, args, node): return s.alloc(s.den(s.read(this)))
@builtin('__gmp_expr::get_mpz_t', '__gmp_expr::get_mpq_t', '__gmp_expr::__get_mp')
def _(s, f, this, args, node): return this
@builtin('__gmp_expr::get_si', '__gmp_expr::get_ui')
def _(s, f, this, args, node): return s.read(this)
@builtin('__gmp_expr::operator bool')
def _(s, f, this, args, node): return ne(s.read(this), 0)
@builtin('__gmp_expr::canonicalize')
def _(s, f, this, args, node): return VOID
@builtin('abs')
def _(s, f, this, args, node):
    a = s.val(args[0])
    return ITE(ge(a, 0), a, neg(a))
@builtin('sgn')
def _(s, f, this, args, node):
    a = s.val(args[0])
    return ITE(gt(a, 0), 1, ITE(lt(a, 0), -1, 0))
@builtin('__gmp_expr::swap', 'swap')
def _(s, f, this, args, node):
    a = this or args[0]; b = args[-1]
    x, y = s.read(a), s.read(b); s.write(a, y); s.write(b, x); return VOID

# ------------------------------------------------------------------ GMP C functions
def c3(name, fn):
    def h(s, f, this, args, node):
        s.write(args[0], fn(s, s.val(args[1]), s.val(args[2]))); return VOID
    BUILTINS[name] = h
c3('__gmpq_mul', lambda s, a, b: mul(a, b))
c3('__gmpq_add', lambda s, a, b: add(a, b))
c3('__gmpq_sub', lambda s, a, b: sub(a, b))
def _qdiv(s, a, b):
    s.require_nz(b, 'division by zero')
    return rdiv(a, b)
c3('__gmpq_div', _qdiv)
c3('__gmpz_mul', lambda s, a, b: mul(a, b))
c3('__gmpz_add', lambda s, a, b: add(a, b))
c3('__gmpz_sub', lambda s, a, b: sub(a, b))
def noteq(s, q):
    s.ghost.setdefault('quots', []).append(q); return q
def fdiv(s, a, b):
    """floor quotient and remainder"""
    if not isz(a) and not isz(b): return a // b, a % b
    s.require_nz(b, 'division by zero')
    q = noteq(s, s.fresh('fq', 'int')); r = s.fresh('fr', 'int')
    a = znum(a); b = znum(b)
    s.assume(z3.And(a == q * b + r, z3.Implies(b > 0, z3.And(r >= 0, r < b)), z3.Implies(b < 0, z3.And(r <= 0, r > b))))
    return q, r
def cdiv(s, a, b):
    if not isz(a) and not isz(b): return -((-a) // b), a - b * -((-a) // b)
    s.require_nz(b, 'division by zero')
    q = noteq(s, s.fresh('cq', 'int')); r = s.fresh('cr', 'int')
    a = znum(a); b = znum(b)
    s.assume(z3.And(a == q * b + r, z3.Implies(b > 0, z3.And(r <= 0, r > -b)), z3.Implies(b < 0, z3.And(r >= 0, r < -b))))
    return q, r
def tdivf(s, a, b):
    if not isz(a) and not isz(b): return tdiv(s, a, b), tmod(s, a, b)
    s.require_nz(b, 'division by zero')
    q = noteq(s, s.fresh('tq', 'int')); r = s.fresh('tr', 'int')
    a = znum(a); b = znum(b)
    ab = z3.If(b > 0, b, -b); ar = z3.If(r >= 0, r, -r)
    s.assume(z3.And(a == q * b + r, ar < ab, z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0)))
    return q, r
c3('__gmpz_fdiv_q', lambda s, a, b: fdiv(s, a, b)[0])
c3('__gmpz_fdiv_r', lambda s, a, b: fdiv(s, a, b)[1])
c3('__gmpz_cdiv_q', lambda s, a, b: cdiv(s, a, b)[0])
c3('__gmpz_tdiv_q', lambda s, a, b: tdivf(s, a, b)[0])
c3('__gmpz_tdiv_r', lambda s, a, b: tdivf(s, a, b)[1])
def _zmod(s, a, b):
    if not isz(a) and not isz(b): return a % abs(b)
    s.require_nz(b, 'modulo by zero')
    q = noteq(s, s.fresh('mq', 'int')); r = s.fresh('mr', 'int')
    a = znum(a); b = znum(b)
    s.assume(z3.And(a == q * b + r, r >= 0, r < z3.If(b > 0, b, -b)))
    return r
c3('__gmpz_mod', _zmod)
def c4(name, fn):
    def h(s, f, this, args, node):
        q, r = fn(s, s.val(args[2]), s.val(args[3]))
        s.write(args[0], q); s.write(args[1], r); return VOID
    BUILTINS[name] = h
c4('__gmpz_fdiv_qr', fdiv)
c4('__gmpz_tdiv_qr', tdivf)
c4('__gmpz_cdiv_qr', cdiv)
@builtin('__gmpz_divisible_p')
def _(s, f, this, args, node):
    a, b = s.val(args[0]), s.val(args[1])
    # numerator/denominator of one rational: divisible iff integral
    if isz(a) and isz(b) and a.decl().name() == 'num' and b.decl().name() == 'den' and a.arg(0).eq(b.arg(0)):
        return z3.If(z3.IsInt(a.arg(0)), z3.IntVal(1), z3.IntVal(0))
    if not isz(b) and b == 1: return 1
    if not isz(a) and not isz(b): return int(b != 0 and a % b == 0) if b else int(a == 0)
    q, r = fdiv(s, a, b)
    return ITE(eq(r, 0), 1, 0)
@builtin('__gmpz_abs', '__gmpq_abs', 'mpz_abs', 'mpq_abs')
def _(s, f, this, args, node):
    a = s.val(args[1]); s.write(args[0], ITE(ge(a, 0), a, neg(a))); return VOID
@builtin('__gmpz_neg', '__gmpq_neg', 'mpz_neg', 'mpq_neg')
def _(s, f, this, args, node):
    s.write(args[0], neg(s.val(args[1]))); return VOID
@builtin('__gmpq_set_z')
def _(s, f, this, args, node): s.write(args[0], s.to_gmp('Q', s.val(args[1]))); return VOID
@builtin('__gmpz_set_ui', '__gmpz_set_si', '__gmpz_set', '__gmpq_set')
def _(s, f, this, args, node): s.write(args[0], s.val(args[1])); return VOID
@builtin('__gmpz_get_si', '__gmpz_get_ui', 'mpz_get_ui')
def _(s, f, this, args, node): return s.val(args[0])
@builtin('__gmpq_inv')
def _(s, f, this, args, node):
    a = s.val(args[1]); s.require_nz(a, 'reciprocal of zero'); s.write(args[0], rdiv(1, a)); return VOID
@builtin('__gmpz_cmp_ui', '__gmpz_cmp_si', '__gmpz_cmp', '__gmpq_cmp')
def _(s, f, this, args, node):
    a, b = s.val(args[0]), s.val(args[1])
    return ITE(gt(a, b), 1, ITE(lt(a, b), -1, 0))
POW = z3.Function('pow_i', z3.IntSort(), z3.IntSort(), z3.IntSort())
POWR = z3.Function('pow_r', z3.RealSort(), z3.IntSort(), z3.RealSort())
def zpow(s, b, e):
    if not isz(e):
        r = 1
        for _ in range(int(e)): r = mul(r, b)
        return r
    b = znum(b)
    P = POW if b.is_int() else POWR
    if not isz(b): pass
    one = z3.IntVal(1) if b.is_int() else z3.RealVal(1)
    s.assume(z3.And(z3.Implies(e == 0, P(b, e) == one), z3.Implies(e >= 1, P(b, e) == b * P(b, e - 1))))
    return P(b, e)
c3('__gmpz_pow_ui', zpow)
GCD = z3.Function('gcd', z3.IntSort(), z3.IntSort(), z3.IntSort())
LCM = z3.Function('lcm', z3.IntSort(), z3.IntSort(), z3.IntSort())
def zgcd(s, a, b):
    import math
    if not isz(a) and not isz(b): return math.gcd(a, b)
    a = znum(a); b = znum(b)
    g = GCD(a, b)
    x = s.fresh('ga', 'int'); y = s.fresh('gb', 'int')
    s.assume(z3.And(g >= 0, (g == 0) == z3.And(a == 0, b == 0), a == g * x, b == g * y))
    s.stats.assumptions.add('mpz_gcd/mpz_lcm/mpz_gcdext compute the gcd/lcm/Bezout cofactors (GMP contract)')
    return g
def zlcm(s, a, b):
    import math
    if not isz(a) and not isz(b): return abs(a * b) // math.gcd(a, b) if a and b else 0
    a = znum(a); b = znum(b)
    l = LCM(a, b)
    x = s.fresh('la', 'int'); y = s.fresh('lb', 'int')
    s.assume(z3.And(l >= 0, (l == 0) == z3.Or(a == 0, b == 0), l == a * x, l == b * y))
    s.stats.assumptions.add('mpz_gcd/mpz_lcm/mpz_gcdext compute the gcd/lcm/Bezout cofactors (GMP contract)')
    return l
c3('__gmpz_gcd', zgcd)
c3('__gmpz_lcm', zlcm)
@builtin('__gmpz_gcdext')
def _(s, f, this, args, node):
    a, b = s.val(args[3]), s.val(args[4])
    g = zgcd(s, a, b)
    x = s.fresh('bx', 'int'); y = s.fresh('by', 'int')
    s.assume(eq(g, add(mul(a, x), mul(b, y))))
    s.write(args[0], g); s.write(args[1], x); s.write(args[2], y); return VOID
@builtin('__gmpz_sqrtrem')
def _(s, f, this, args, node):
    a = s.val(args[2])
    r = s.fresh('sq', 'int'); m = s.fresh('sr', 'int')
    a = znum(a)
    s.prove(f'{s.unit["name"]}: integer square root of a non-negative number', a >= 0, kind='safety')
    s.assume(z3.And(r >= 0, m >= 0, a == r * r + m, m <= 2 * r))
    s.write(args[0], r); s.write(args[1], m); return VOID

@builtin('__gmpz_root')
def _(s, f, this, args, node):
    a, n = s.val(args[1]), s.val(args[2])
    r = s.fresh('rt', 'int'); a = znum(a)
    s.prove(f'{s.unit["name"]}: root of a non-negative number with positive index', AND(ge(a, 0), ge(n, 1)), kind='safety')
    s.assume(z3.And(r >= 0, z3.Implies(a >= 1, r >= 1), znum(zpow(s, r, n)) <= a, a < znum(zpow(s, r + 1, n))))
    s.ghost.setdefault('roots', []).append((r, a, n))
    s.write(args[0], r); return ITE(eq(zpow(s, r, n), a), 1, 0)
@builtin('__gmpz_nextprime')
def _(s, f, this, args, node):
    h = s.unit.get('nextprime')
    if not h: return NotImplemented
    s.stats.assumptions.add('mpz_nextprime returns the next prime (GMP contract)')
    s.write(args[0], h(s, s.val(args[1]))); return VOID

# ------------------------------------------------------------------ std utilities
@builtin('std::move', 'std::forward', 'std::as_const', 'std::__addressof', 'std::addressof', 'std::launder')
def _(s, f, this, args, node): return args[0]
@builtin('std::swap')
def _(s, f, this, args, node):
    x, y = s.read(args[0]), s.read(args[1]); s.write(args[0], y); s.write(args[1], x); return VOID
def minmax(isless):
    def h(s, f, this, args, node):
        if len(args) != 2: return NotImplemented
        a, b = s.val(args[0]), s.val(args[1])
        if not isscalar(a): return NotImplemented
        c = lt(b, a) if isless else lt(a, b)
        return s.alloc(ITE(c, b, a))
    return h
BUILTINS['std::min'] = minmax(True); BUILTINS['std::max'] = minmax(False)
@builtin('std::abs', 'std::fabs', 'std::labs')
def _(s, f, this, args, node):
    a = s.val(args[0]); return ITE(ge(a, 0), a, neg(a))
@builtin('std::make_pair', 'std::make_tuple')
def _(s, f, this, args, node): return Tup([s.val(a) for a in args])
@builtin('std::forward_as_tuple', 'std::tie')
def _(s, f, this, args, node): return Tup([a if isinstance(a, Loc) else s.alloc(a) for a in args])
@builtin('std::pair::pair', 'std::tuple::tuple')
def _(s, f, this, args, node):
    if f.get('cc') or f.get('mc') or (len(args) == 1 and isinstance(s.val(args[0]), Tup)):
        t = s.val(args[0])
        return Tup([s.val(x) for x in t.items])
    if not args:
        ty = s.p.types[node['t']]
        return Tup([dflt(s, s.p.types[a]) for a in ty['a']])
    ty = s.p.types[f['cls']]
    vals = []
    for i, a in enumerate(args):
        ct = s.p.types[ty['a'][i]]
        if ct['k'] == 'ref': vals.append(a)
        else:
            v = s.val(a); g = s.p.gmp(ct)
            vals.append(s.to_gmp(g, v) if g and isscalar(v) else v)
    return Tup(vals)
def dflt(s, ty):
    if ty['k'] in ('int', 'enum'): return 0
    if ty['k'] == 'bool': return False
    if ty['k'] == 'float': return Fraction(0)
    if ty['k'] == 'ptr': return NULL
    return s.default_of(ty)
BUILTINS['default:std::pair'] = lambda s, ty: Tup([dflt(s, s.p.types[a]) for a in ty['a']])
BUILTINS['default:std::tuple'] = BUILTINS['default:std::pair']
@builtin('std::get')
def _(s, f, this, args, node):
    i = None
    for t in f.get('ta', []):
        if isinstance(t, dict) and 'i' in t: i = t['i']; break
    t = s.val(args[0])
    if i is None or not isinstance(t, Tup): return NotImplemented
    if isinstance(t.items[i], Loc): return t.items[i]
    return args[0].sub(('[]', i)) if isinstance(args[0], Loc) else s.alloc(t.items[i])
@builtin('std::pair::operator=', 'std::tuple::operator=')
def _(s, f, this, args, node):
    t = s.val(args[0]); cur = s.read(this)
    if isinstance(cur, Tup) and any(isinstance(x, Loc) for x in cur.items):
        for l, v in zip(cur.items, [s.val(x) for x in t.items]): s.write(l, v)
    else: s.write(this, Tup([s.val(x) for x in t.items]))
    return this
def val_eq(s, a, b):
    """structural equality of model values"""
    a = s.val(a) if isinstance(a, Loc) else a; b = s.val(b) if isinstance(b, Loc) else b
    if isscalar(a) and isscalar(b): return eq(a, b)
    if isz(a) and isz(b): return a == b
    if isinstance(a, Tup) and isinstance(b, Tup): return AND(*[val_eq(s, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Vec) and isinstance(b, Vec):
        if len(a.items) != len(b.items): return False
        return AND(*[val_eq(s, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Rec) and isinstance(b, Rec): return AND(*[val_eq(s, a.f[k], b.f[k]) for k in a.f])
    raise Unsupported(f'equality of {type(a).__name__}')
def val_lt(s, a, b):
    a = s.val(a); b = s.val(b)
    if isscalar(a): return lt(a, b)
    if isinstance(a, Tup):
        r = False
        for x, y in reversed(list(zip(a.items, b.items))):
            r = OR(val_lt(s, x, y), AND(val_eq(s, x, y), r))
        return r
    raise Unsupported('less-than of ' + type(a).__name__)
def tupcmp(op):
    def h(s, f, this, args, node):
        a, b = s.val(args[0]), s.val(args[1])
        if not (isinstance(a, Tup) and isinstance(b, Tup)): return NotImplemented
        if op == '==': return val_eq(s, a, b)
        if op == '!=': return NOT(val_eq(s, a, b))
        if op == '<': return val_lt(s, a, b)
        if op == '>': return val_lt(s, b, a)
        if op == '<=': return NOT(val_lt(s, b, a))
        return NOT(val_lt(s, a, b))
    return h
for o in ('==', '!=', '<', '>', '<=', '>='): BUILTINS['std::operator' + o] = tupcmp(o)
@builtin('std::numeric_limits::max')
def _(s, f, this, args, node):
    ty = s.p.types[f['rt']]
    if ty['k'] == 'int': return (1 << (ty['w'] - ty['sg'])) - 1
    return NotImplemented
@builtin('std::optional::optional')
def _(s, f, this, args, node):
    if not args: return Opt(False, UNDEF)
    v = s.val(args[0])
    if isinstance(v, Opt): return v
    if isinstance(v, Rec) and v.q == 'std::nullopt_t': return Opt(False, UNDEF)
    return Opt(True, v)
@builtin('std::optional::has_value', 'std::optional::operator bool')
def _(s, f, this, args, node): return s.read(this).has
@builtin('std::optional::value', 'std::optional::operator*', 'std::optional::operator->')
def _(s, f, this, args, node):
    return this.sub('*')
BUILTINS['default:std::optional'] = lambda s, ty: Opt(False, UNDEF)
BUILTINS['std::operator<<'] = lambda s, f, this, args, node: args[0]
BUILTINS['boost::numeric::interval_lib::detail::rounding_control::rounding_control'] = None
del BUILTINS['boost::numeric::interval_lib::detail::rounding_control::rounding_control']
from . import loops, containers

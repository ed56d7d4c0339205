"""Contracts for square root expressions (q + r*sqrt(t)) / d (C30).
A polynomial is represented by what the code asks about it, at an arbitrary point: its value v, the root rt of the value where that is not negative, whether it is
the zero polynomial (z) or constant (k) with constant part c, and its class up to constant factors (cls) with the relation D(g, p) "g divides p" on classes.
The facts assumed about the polynomial operations are those proved for C10/C11 and C14 (gcd, division) and C31 (coprime factor).  Where a radicand is the square of a
polynomial (one term), the root is understood as that polynomial: this is how the library reads such expressions."""
from .common import *
from vc.containers import *
from . import mpoly as MPO
DRIVER = 'sqrtex'; HARNESS = 'sqrtex'
UNITS = []
MP = MPO.MP; SX = 'carl::SqrtEx'
Iv, Rv = z3.IntVal, z3.RealVal
D = z3.Function('divides', z3.IntSort(), z3.IntSort(), z3.BoolSort())
def R(ex, root, *a): return ex.call_root(root, list(a))
def rd(ex, x):
    while isinstance(x, Loc): x = ex.read(x)
    return x
FIELDS = ('v', 'rt', 'z', 'k', 'c', 'cls')
def isP(x): return isinstance(x, Rec) and x.q == MP
def isnum(a): return not isinstance(a, bool) and (isinstance(a, (int, Fraction)) or (z3.is_expr(a) and (z3.is_int(a) or z3.is_real(a))))
def pol(ex, name, **kw):
    srt = dict(v='real', rt='real', z='bool', k='bool', c='real', cls='int'); f = {n: kw[n] if n in kw else ex.fresh(f'{name}_{n}', srt[n]) for n in FIELDS}
    v, rt, z, k, c = zreal(f['v']), zreal(f['rt']), zbool(f['z']), zbool(f['k']), zreal(f['c'])
    ex.assume(z3.And(z3.Implies(z, z3.And(k, v == 0, c == 0)), z3.Implies(k, z3.And(v == c, z == (c == 0))), rt >= 0, z3.Implies(v == 0, rt == 0), z3.Implies(v > 0, rt > 0)))
    if 'rt' not in kw: ex.assume_nl(z3.Implies(v >= 0, rt * rt == v))
    r = Rec(MP, f); l = ex.ghost.setdefault('cls', []); l.append(znum(f['cls'])); return r
def val(p): return zreal(p.f['v'])
def zer(p): return zbool(p.f['z'])
def number(ex, n): n = zreal(n); return pol(ex, 'num', v=n, c=n, k=True, z=n == 0)
def k_ctor(ex, f, this, args, node):
    a = rd(ex, args[0]) if args else Rv(0)
    r = a if isP(a) else number(ex, a) if isnum(a) else NotImplemented
    if r is NotImplemented: return r
    if isinstance(this, Loc): ex.write(this, r); return None
    return r
def k_assign(ex, f, this, args, node):
    a = rd(ex, args[0]); ex.write(this, a if isP(a) else number(ex, a)); return this
def muln(ex, p, n):
    n = zreal(n); v, c = val(p) * n, zreal(p.f['c']) * n; z = z3.Or(zer(p), n == 0); rt = None
    for x, s in ex.ghost.get('roots', []):
        if x.eq(n): rt = zreal(p.f['rt']) * s       # unit lemma_root
    if rt is None: rt = ex.fresh('rt', 'real'); ex.assume_nl(z3.Implies(v >= 0, rt * rt == v))
    ex.assume(z3.Implies(n != 0, z3.And((v == 0) == (val(p) == 0), (c == 0) == (zreal(p.f['c']) == 0)))); ex.assume(z3.Implies(n > 0, (v > 0) == (val(p) > 0)))
    r = pol(ex, 'scaled', v=v, c=c, z=z, k=z3.Or(zbool(p.f['k']), n == 0), rt=rt); ex.assume(z3.Implies(n != 0, znum(r.f['cls']) == znum(p.f['cls']))); return r
def mulp(ex, a, b):
    v = val(a) * val(b); ex.assume((v == 0) == z3.Or(val(a) == 0, val(b) == 0)); return pol(ex, 'prod', v=v, z=z3.Or(zer(a), zer(b)))
def k_mul(ex, f, this, args, node):
    ops = ([this] if this is not None else []) + list(args); a, b = rd(ex, ops[0]), rd(ex, ops[1])
    if not (isP(a) or isP(b)): return NotImplemented
    if not ((isP(a) or isnum(a)) and (isP(b) or isnum(b))): return NotImplemented
    r = mulp(ex, a, b) if isP(a) and isP(b) else muln(ex, a, b) if isP(a) else muln(ex, b, a)
    if f['sn'].endswith('='): ex.write(ops[0], r); return ops[0]
    return r
def k_sum(sgn):
    def h(ex, f, this, args, node):
        ops = ([this] if this is not None else []) + list(args); a = rd(ex, ops[0])
        if len(ops) == 1: return muln(ex, a, -1) if isP(a) else NotImplemented
        b = rd(ex, ops[1])
        if not ((isP(a) and (isP(b) or isnum(b))) or (isP(b) and isnum(a))): return NotImplemented
        a, b = [x if isP(x) else number(ex, x) for x in (a, b)]
        r = pol(ex, 'sum', v=val(a) + sgn * val(b)); ex.assume(z3.And(z3.Implies(zer(a), zer(r) == zer(b)), z3.Implies(zer(b), zer(r) == zer(a)), z3.Implies(z3.And(zbool(a.f['k']), zbool(b.f['k'])), z3.And(zbool(r.f['k']), zreal(r.f['c']) == zreal(a.f['c']) + sgn * zreal(b.f['c'])))))
        if f['sn'].endswith('='): ex.write(ops[0], r); return ops[0]
        return r
    return h
def k_div(ex, f, this, args, node):
    ops = ([this] if this is not None else []) + list(args); a, b = rd(ex, ops[0]), rd(ex, ops[1])
    if not (isP(a) and isnum(b)): return NotImplemented
    b = zreal(b); ex.prove('the divisor is not zero', b != 0, kind='pre'); v, c = ex.fresh('v', 'real'), ex.fresh('c', 'real'); ex.assume_nl(z3.And(v * b == val(a), c * b == zreal(a.f['c']))); ex.assume((c == 0) == (zreal(a.f['c']) == 0)); return pol(ex, 'quo', v=v, c=c, z=a.f['z'], k=a.f['k'])
def get(n): return lambda ex, f, this, args, node: rd(ex, this).f[n] if isP(rd(ex, this)) else NotImplemented
def k_zero(ex, f, this, args, node):
    p = rd(ex, args[0]); return zer(p) if isP(p) else NotImplemented
def k_one(ex, f, this, args, node):
    p = rd(ex, args[0]); return z3.And(zbool(p.f['k']), zreal(p.f['c']) == 1) if isP(p) else NotImplemented
def k_eq(ex, f, this, args, node):
    ops = ([this] if this is not None else []) + list(args); a, b = [rd(ex, x) for x in ops[:2]]
    if not (isP(a) and isP(b)): return NotImplemented
    e = ex.fresh('equal', 'bool'); ex.assume(z3.Implies(e, z3.And(*[(zbool if n in 'zk' else znum if n == 'cls' else zreal)(a.f[n]) == (zbool if n in 'zk' else znum if n == 'cls' else zreal)(b.f[n]) for n in FIELDS])))
    if a is b: ex.assume(e)
    return z3.Not(e) if f['sn'].endswith('!=') else e
def k_lcoeff(ex, f, this, args, node):
    p = rd(ex, this)
    if not isP(p): return NotImplemented
    ex.prove('the polynomial is not zero', z3.Not(zer(p)), kind='pre'); x = ex.fresh('lc', 'real'); ex.assume(z3.And(x != 0, z3.Implies(zbool(p.f['k']), x == zreal(p.f['c'])))); return x
def k_cf(ex, f, this, args, node):
    p = rd(ex, this); ex.prove('the polynomial is not zero', z3.Not(zer(p)), kind='pre'); x = ex.fresh('cf', 'real'); ex.assume(x != 0); return x
def k_sqrt(ex, f, this, args, node):
    """root of a polynomial that is the square of a term (see above)"""
    p = rd(ex, this)
    if ex.choose(2, 'square') == 0: ex.ghost['square'] = False; return False
    ex.ghost['square'] = True; ex.write(args[0], pol(ex, 'root', v=p.f['rt'])); return True
def k_sqrt_exact(ex, f, this, args, node):
    x = zreal(ex.val(args[0]))
    if ex.choose(2, 'exact') == 0: return False
    s = ex.fresh('sqrt', 'real'); ex.assume(z3.And(s >= 0, (s == 0) == (x == 0), x >= 0)); ex.assume_nl(s * s == x); ex.ghost.setdefault('roots', []).append((x, s)); ex.write(args[1], s); return True
def divs(ex, g, *ps):
    for p in ps: ex.assume(D(g, p))
    cs = ex.ghost['cls']; ex.assume(z3.And(*[z3.Implies(z3.And(D(g, p), D(p, c)), D(g, c)) for p in ps for c in cs] + [D(c, c) for c in cs]))
def k_gcd(ex, f, this, args, node):
    a, b = rd(ex, args[0]), rd(ex, args[1])
    if isP(a) and isP(b):
        ex.prove('gcd of polynomials that are not zero', z3.And(z3.Not(zer(a)), z3.Not(zer(b))), kind='pre'); g = pol(ex, 'gcd', z=False); ex.assume(z3.Implies(val(g) == 0, z3.And(val(a) == 0, val(b) == 0))); divs(ex, znum(g.f['cls']), znum(a.f['cls']), znum(b.f['cls'])); return g
    if isP(a) or isP(b): return NotImplemented
    a, b = ex.val(args[0]), ex.val(args[1]); ex.prove('gcd of numbers that are not zero', z3.And(zreal(a) != 0, zreal(b) != 0), kind='pre')
    x = ex.fresh('gcd', 'real'); ex.assume(x > 0); return x
def k_num(ex, f, this, args, node):
    x = zreal(ex.val(args[0])); n, d = numden(ex, x); return n
def k_den(ex, f, this, args, node):
    x = zreal(ex.val(args[0])); n, d = numden(ex, x); return d
def numden(ex, x):
    t = ex.ghost.setdefault('nd', {})
    k = x.sexpr()
    if k not in t: d = ex.fresh('den', 'real'); n = x * d; ex.assume(z3.And(d >= 1, (n == 0) == (x == 0), (n > 0) == (x > 0))); t[k] = (n, d)
    return t[k]
def k_abs(ex, f, this, args, node): x = ex.val(args[0]); return z3.If(x < 0, -x, x) if z3.is_expr(x) else NotImplemented
def k_try(ex, f, this, args, node):
    """division of polynomials: the quotient if there is one (C14)"""
    p, g = rd(ex, args[0]), rd(ex, args[1])
    if not (isP(p) and isP(g)): return NotImplemented
    ex.prove('the divisor is not zero', z3.Not(zer(g)), kind='pre'); cs = ex.ghost['cls']; ex.assume(z3.And(*[D(c, c) for c in cs]))
    if ex.branch(D(znum(g.f['cls']), znum(p.f['cls']))):
        ex.ghost.setdefault('quo', []).append(val(g)); ig = ex.ghost.setdefault('inverse', {}).setdefault(val(g).sexpr(), ex.fresh('inv', 'real')); v = val(p) * ig      # 1/g where g is not zero
        # at a point where g vanishes the quotient has some other value
        other = ex.fresh('other', 'real'); ex.assume(z3.Implies(val(g) == 0, val(p) == 0)); ex.assume_nl(z3.Implies(val(g) != 0, ig * val(g) == 1)); ex.assume(z3.Implies(z3.And(val(g) != 0), ig != 0)); ex.assume(z3.Implies(val(g) != 0, (v == 0) == (val(p) == 0)))
        if not z3.is_true(z3.simplify(zer(g))) and not ex.branch(val(g) != 0): v = other
        ex.write(args[2], pol(ex, 'quo', v=v, z=p.f['z'])); return True
    ex.write(args[2], pol(ex, 'nothing')); return False
def k_defin(ex, f, this, args, node):
    p = rd(ex, args[0])
    if not isP(p): return NotImplemented
    d = ex.fresh('definiteness', 'int'); ex.assume(z3.And(d >= 0, d <= 4)); return d
PC = {f'{MP}::MultivariatePolynomial': k_ctor, f'{MP}::operator=': k_assign, f'{MP}::operator-': k_sum(-1), 'carl::operator-': k_sum(-1), 'carl::operator+': k_sum(1), 'carl::operator*': k_mul, f'{MP}::operator+=': k_sum(1), f'{MP}::operator-=': k_sum(-1), f'{MP}::operator*=': k_mul,
      'carl::operator/': k_div, f'{MP}::isConstant': get('k'), f'{MP}::constantPart': get('c'), 'carl::isZero': k_zero, 'carl::isOne': k_one, 'carl::operator==': k_eq, 'carl::operator!=': k_eq, f'{MP}::lcoeff': k_lcoeff, f'{MP}::coprimeFactor': k_cf, f'{MP}::sqrt': k_sqrt, 'carl::sqrt_exact': k_sqrt_exact,
      'carl::gcd': k_gcd, 'carl::lcm': k_gcd, 'carl::getNum': k_num, 'carl::getDenom': k_den, 'carl::abs': k_abs, 'carl::try_divide': k_try, 'carl::definiteness': k_defin, 'carl::constant_one::get': lambda ex, f, this, args, node: ex.alloc(number(ex, 1) if 'MultivariatePolynomial' in f['n'] else Rv(1), 'one'),
      'carl::constant_zero::get': lambda ex, f, this, args, node: ex.alloc(number(ex, 0) if 'MultivariatePolynomial' in f['n'] else Rv(0), 'zero')}
def unit(name, op=None, contracts=None, **kw):
    def deco(fn):
        UNITS.append(U('C30', name, fn, op, svec=True, merge=False, qf_branch=True, contracts={**PC, **(contracts or {})}, **{'describe': lambda ex, m: [], **kw})); return fn
    return deco
def parts(s): return [s.f[n] for n in ('mConstantPart', 'mFactor', 'mDenominator', 'mRadicand')]
def sx(ex, q, r, d, t): return Rec(SX, {'mConstantPart': q, 'mFactor': r, 'mDenominator': d, 'mRadicand': t})
def expr(ex, name, w, rad=None):
    """a square root expression with value w at the point (defined there); rad: the radicand, None for an expression without root"""
    d = pol(ex, name + 'd', z=False); ex.assume(val(d) != 0)
    if rad is None: z = number(ex, 0); q = pol(ex, name + 'q', v=w * val(d)); return sx(ex, q, z, d, z)
    r = pol(ex, name + 'r', z=False); q = pol(ex, name + 'q', v=w * val(d) - val(r) * zreal(rad.f['rt'])); return sx(ex, q, r, d, rad)
def radicand(ex):
    s = ex.fresh('s', 'real'); ex.assume(s >= 0); return pol(ex, 't', v=s * s, rt=s, z=False)
def valid(ex, e, what=''):
    q, r, d, t = parts(e); ex.prove('the denominator is not zero' + what, z3.And(val(d) != 0, z3.Not(zer(d)))); ex.prove('the radicand is not negative' + what, val(t) >= 0); ex.prove('an expression without factor has no radicand' + what, z3.Implies(zer(r), zer(t)))
def value(ex, e, w, what='the value is kept'):
    e = rd(ex, e); q, r, d, t = [rd(ex, x) for x in parts(e)]; e = sx(ex, q, r, d, t); valid(ex, e)
    hints(ex, w, q, r, d, t); ex.prove(what, w * val(d) == val(q) + val(r) * zreal(t.f['rt']))
def quotients(*ts):
    seen, out = set(), []
    def go(t):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        for c in t.children(): go(c)
        if z3.is_app_of(t, z3.Z3_OP_DIV): out.append(t)
    for t in ts: go(t)
    return out
def factors(t):
    """a product as (numerator factors, denominator factors)"""
    if z3.is_app_of(t, z3.Z3_OP_MUL): n, d = [], []; [(n.extend(x), d.extend(y)) for x, y in (factors(c) for c in t.children())]; return n, d
    if z3.is_app_of(t, z3.Z3_OP_DIV): (a, b), (c, e) = factors(t.arg(0)), factors(t.arg(1)); return a + e, b + c
    return [t], []
def reduced(t):
    n, d = factors(t); n = list(n)
    for x in list(d):
        for y in n:
            if y.eq(x): n.remove(y); d.remove(x); break
    P = lambda l: z3.Product(*l) if l else Rv(1)
    return P(n), P(d)
def lemma(ex, f):
    """a formula that is valid on its own (checked here) may be used"""
    s = z3.Solver(); s.set('timeout', 3000); s.add(z3.Not(f))
    if s.check() == z3.unsat: ex.assume_nl(f); return True
    return False
def hints(ex, w, q, r, d, t):
    """reduced forms of the products in the result"""
    for x in (val(q), val(r) * zreal(t.f['rt']), val(d)):
        n, e = reduced(x); nz = [y.arg(1) != 0 for y in quotients(x)]
        if nz: ok = lemma(ex, z3.Implies(z3.And(*nz), x * e == n)); print('lemma', ok) if DBG else None
DBG = False
# ------------------------------------------------------------------ normalisation
def start(ex):
    w = ex.fresh('w', 'real'); t = radicand(ex) if ex.choose(2, 'root') else None; return w, expr(ex, 'e', w, t)
@unit('normalize', 'c30.create')
def _(ex):
    w, e = start(ex); q, r, d, t = parts(e); l = ex.alloc(e, 'e'); R(ex, 'x_normalize', l); value(ex, l, w)

# ------------------------------------------------------------------ construction and arithmetic, by the contract of normalize
def ifs(*ts):
    out = []
    def go(t):
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not any(x.eq(t.arg(0)) for x in out): out.append(t.arg(0))
        for c in t.children(): go(c)
    for t in ts: go(t)
    return out
def k_normalize(ex, f, this, args, node):
    e = rd(ex, this); q, r, d, t = [rd(ex, x) for x in parts(e)]; valid(ex, sx(ex, q, r, d, t), ' before normalisation'); w = ex.fresh('w', 'real'); rhs = val(q) + val(r) * zreal(t.f['rt']); ex.assume_nl(w * val(d) == rhs)
    for g in ex.ghost.get('goals', []): lemma(ex, z3.Implies(z3.And(w * val(d) == rhs, val(d) != 0, *ex.ghost.get('known', [])), g(w)))
    y = ex.ghost.get('target')
    if y is not None:
        same = lambda x, z: z3.is_true(z3.simplify(x - z == 0, som=True))          # as polynomials
        m, dv, rt = [], val(d), zreal(t.f['rt'])
        for x in ifs(dv, rt): m.append((x, z3.BoolVal(ex.branch(x))))
        dv, rt = [z3.simplify(z3.substitute(x, *m)) if m else x for x in (dv, rt)]
        for s_, c in [(rt, z3.BoolVal(True))] + [(x, val(r) == 0) for x in ex.ghost['s']]:
            if same(val(q) + val(r) * s_, y * dv): ex.assume(z3.Implies(z3.And(val(d) != 0, c), w == y))       # w*d = y*d
    if ex.choose(2, 'has a root'): n = expr(ex, 'n', w, radicand(ex))
    else: n = expr(ex, 'n', w)
    n.f['_w'] = w; ex.write(this, n); return None
NC = {f'{SX}::normalize': k_normalize}
def two(ex, root=(True, True)):
    wa, wb = ex.fresh('wa', 'real'), ex.fresh('wb', 'real'); t = radicand(ex); ex.ghost['s'] = [t.f['rt']]; return wa, wb, expr(ex, 'a', wa, t if root[0] else None), expr(ex, 'b', wb, t if root[1] else None)
def result(ex, e, goal, what):
    e = rd(ex, e); w = e.f['_w']; ex.prove(what, goal(w)); value(ex, e, w, 'the parts give the value')
@unit('create', 'c30.create', contracts=NC)
def _(ex):
    q, r, d, t = [pol(ex, n) for n in 'qrd'] + [radicand(ex) if ex.choose(2, 'radicand') else number(ex, 0)]; ex.assume(z3.And(val(d) != 0, z3.Not(zer(d)))); rhs = val(q) + val(r) * zreal(t.f['rt']); ex.ghost['goals'] = [lambda w: w * val(d) == rhs]
    e = R(ex, ['x_create', 'x_create_copy'][ex.choose(2, 'how')], *[ex.alloc(x, n) for x, n in zip((q, r, d, t), 'qrdt')]); result(ex, e, lambda w: w * val(d) == rhs, 'the expression has the value of its parts')
@unit('create_poly', 'c30.create', contracts=NC)
def _(ex):
    q = pol(ex, 'q'); ex.ghost['goals'] = [lambda w: w == val(q)]; result(ex, R(ex, 'x_poly', ex.alloc(q, 'q')), lambda w: w == val(q), 'the expression has the value of the polynomial')
@unit('create_zero', 'c30.create', contracts=NC)
def _(ex): value(ex, R(ex, 'x_zero'), Rv(0), 'the expression is zero')
for _op, _g in (('add', lambda wa, wb: lambda w: w == wa + wb), ('sub', lambda wa, wb: lambda w: w == wa - wb), ('mul', lambda wa, wb: lambda w: w == wa * wb)):
    for _rt in ((True, True), (True, False), (False, True), (False, False)):
        @unit(f'{_op}[{"root" if _rt[0] else "none"},{"root" if _rt[1] else "none"}]', 'c30.' + _op, contracts=NC)
        def _(ex, op=_op, g=_g, rt=_rt):
            wa, wb, a, b = two(ex, rt); goal = g(wa, wb); ex.ghost['target'] = goal(z3.Real('w0')).arg(1); result(ex, R(ex, 'x_' + op, ex.alloc(a, 'a'), ex.alloc(b, 'b')), goal, 'the value is the operation on the values')
for _rt in (True, False):
    @unit(f'div[{"root" if _rt else "none"}]', 'c30.div', contracts=NC)
    def _(ex, rt=_rt):
        wa, wb, a, b = two(ex, (rt, False)); ex.assume(wb != 0); ex.assume((wb * val(b.f['mDenominator']) == 0) == (wb == 0)); ex.assume(z3.Implies(val(b.f['mConstantPart']) != 0, z3.Not(zer(b.f['mConstantPart'])))); goal = lambda w: w * wb == wa; ex.ghost['goals'] = [goal]; ex.ghost['known'] = [wb != 0]
        result(ex, R(ex, 'x_div', ex.alloc(a, 'a'), ex.alloc(b, 'b')), goal, 'the value is the quotient of the values')
@unit('assign', 'c30.assign', contracts=NC)
def _(ex):
    wa, wb, a, b = two(ex, (ex.choose(2, 'a') == 0, ex.choose(2, 'b') == 0)); l = ex.alloc(a, 'a'); R(ex, 'x_assign', l, ex.alloc(b, 'b')); value(ex, l, wb, 'assignment copies the value'); p = pol(ex, 'p'); R(ex, 'x_assign_poly', l, ex.alloc(p, 'p')); value(ex, l, val(p), 'assignment of a polynomial')
@unit('equal', 'c30.equal', contracts=NC)
def _(ex):
    wa, wb, a, b = two(ex, (True, True)); (qa, ra, da, ta), (qb, rb, db, tb) = parts(a), parts(b); lemma(ex, z3.Implies(z3.And(val(qa) == val(qb), val(ra) == val(rb), val(da) == val(db), val(da) != 0), wa == wb)); ex.prove('equal expressions have the same value', z3.Implies(zbool(R(ex, 'x_eq', ex.alloc(a, 'a'), ex.alloc(b, 'b'))), wa == wb))
# ------------------------------------------------------------------ conversion and evaluation
@unit('as_poly', 'c30.convert')
def _(ex):
    w, e = start(ex); l = ex.alloc(e, 'e'); d = e.f['mDenominator']
    if not ex.branch(zbool(R(ex, 'x_is_poly', l))): return
    p = rd(ex, R(ex, 'x_as_poly', l)); lemma(ex, z3.Implies(z3.And(val(p) * val(d) == w * val(d), val(d) != 0), val(p) == w)); ex.prove('the polynomial has the value', val(p) == w)
@unit('as_rational', 'c30.convert')
def _(ex):
    w, e = start(ex); l = ex.alloc(e, 'e'); q, d = e.f['mConstantPart'], e.f['mDenominator']
    if not ex.branch(zbool(R(ex, 'x_is_rational', l))): return
    x = zreal(ex.val(R(ex, 'x_as_rational', l))); lemma(ex, z3.Implies(z3.And(x * val(d) == w * val(d), val(d) != 0), x == w)); lemma(ex, z3.Implies(val(d) != 0, (w * val(d)) / val(d) == w)); ex.prove('the number is the value', x == w)
def k_subst(const):
    def h(ex, f, this, args, node):
        """substitution of numbers at the point (C11)"""
        p = rd(ex, args[0])
        if not isP(p): return NotImplemented
        r = pol(ex, 'sub', v=p.f['v'], rt=p.f['rt'], **({'k': True, 'c': p.f['v']} if const else {})); ex.assume(z3.Implies(zer(p), zer(r))); return r
    return h
def k_real(ex, f, this, args, node): return ex.fresh('fp', 'real')
FP = {n: k_real for n in ('__builtin_inff', '__builtin_huge_valf', 'carl::toDouble', 'std::sqrt', 'sqrt', 'carl::rationalize', 'std::nextafter', 'nextafter')}
@unit('evaluate', 'c30.evaluate', contracts={**NC, **FP, 'carl::substitute': k_subst(True)})
def _(ex):
    w, e = start(ex); q, r, d, t = parts(e); l = ex.alloc(Rv(0), 'res'); x = R(ex, 'x_evaluate', ex.alloc(e, 'e'), l, ex.alloc(Rec('MAP', {}), 'm'), ex.fresh('rounding', 'int'))
    if not ex.branch(zbool(x)): return
    v = zreal(rd(ex, l)); rt = zreal(t.f['rt'])
    for a, s in ex.ghost.get('roots', []): ex.assume_nl(z3.Implies(a == val(t), s == rt)); lemma(ex, z3.Implies(z3.And(s == rt, val(d) != 0), (val(q) + val(r) * s) / val(d) == w))
    ex.prove('an exact evaluation gives the value', v == w)
@unit('substitute', 'c30.substitute', contracts={**NC, 'carl::substitute': k_subst(False)})
def _(ex):
    w, e = start(ex); q, r, d, t = parts(e); rt = zreal(t.f['rt']); ex.ghost['goals'] = [lambda x: x == w]
    def rs(ex, f, this, args, node):
        y = k_sqrt_exact(ex, f, this, args, node)
        for a, s in ex.ghost.get('roots', []): ex.assume_nl(z3.Implies(a == val(t), s == rt)); ex.ghost['known'] = [s == rt]
        return y
    ex.unit['contracts']['carl::sqrt_exact'] = rs; result(ex, R(ex, 'x_substitute', ex.alloc(e, 'e'), ex.alloc(Rec('MAP', {}), 'm')), lambda x: x == w, 'the value at points with the substituted numbers is kept')
@unit('lemma_root')
def _(ex):
    """sqrt(t*c) = sqrt(t)*sqrt(c)"""
    a, b, t, c, r = [ex.fresh(n, 'real') for n in ('a', 'b', 't', 'c', 'r')]; ex.assume(z3.And(a >= 0, b >= 0, r >= 0)); ex.assume_nl(z3.And(a * a == t, b * b == c, r * r == t * c)); ex.prove('the root of a product is the product of the roots', r == a * b)

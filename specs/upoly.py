"""Contracts for univariate polynomials over the rationals (C12).  A polynomial is its coefficient list; coef(p, i) is the
coefficient of the i-th power (zero beyond the list).  Sums and differences are specified at an arbitrary index, products
through the partial convolution CV(a, b, g, k) = sum over i < k of a[i] * coef(b, g - i), values through PS(a, k), the
value of the lowest k coefficients at an arbitrary point.  Defining equations are instantiated where needed; everything
else about these functions is proved by induction in the units named lemma_*."""
from .common import *
from vc.containers import *
import vc.containers as K
import vc.models as M_
from vc.engine import NULL
DRIVER = 'upoly'; HARNESS = 'upoly'
UNITS = []
RA = z3.ArraySort(z3.IntSort(), z3.RealSort())
Iv = z3.IntVal; Rv = z3.RealVal
UPQ = 'carl::UnivariatePolynomial'
def unit(name, op=None, prop='C12', **kw):
    def d(run):
        k = dict(svec=True); k.update(kw)
        UNITS.append(U(prop, 'upoly.' + name, run, op, **k)); return run
    return d
def CALL(ex, sn, args):
    for i, f in ex.p.funcs.items():
        if f['sn'] == sn: return ex.call(i, None, args, None)
    raise Unsupported(sn + ' not extracted')
def R(ex, root, *a): return ex.call_root(root, list(a))
def pp(m, v):
    n = int(mval(m, v.n))
    if n > 40: raise ValueError('too long')
    return ','.join(qstr(mval(m, z3.Select(v.cols[0], i))) for i in range(n)) or '-'
PRINT['P'] = pp
def VAR(ex, name='x'):
    c = ex.ghost.get('var')
    if c is None: c = ex.ghost['var'] = ex.fresh('mainvar', 'int'); ex.assume(c > 0)
    return Rec('carl::Variable', {'mContent': c})
def wf(v): return z3.Or(znum(v.n) == 0, z3.Select(v.cols[0], znum(v.n) - 1) != 0)
def vec(ex, name, shape=REAL): v = fresh_svec(ex, name, shape); return v
def mk(ex, v): return Rec(UPQ, {'mMainVar': VAR(ex), 'mCoefficients': v})
def cls(ex, integer=False):
    for f in ex.p.funcs.values():
        if f['sn'] == UPQ + '::degree' and ('mpz' in ex.p.types[f['cls']]['s'].split('UnivariatePolynomial')[1]) == integer: return f['cls']
    raise Unsupported('class not extracted')
def POLY(ex, name, nz=False, integer=False, rec=True):
    v = vec(ex, name, INT if integer else REAL); ex.assume(wf(v))
    if nz: ex.assume(v.n >= 1)
    if rec: inp(ex, 'P', v)
    l = ex.alloc(mk(ex, v), name); ex.atypes[l.addr] = cls(ex, integer)
    return l
def CV_(ex, x):
    if isinstance(x, Loc): x = ex.read(x)
    if isinstance(x, Rec): x = x.f['mCoefficients']
    if isinstance(x, Vec): x = as_svec(ex, x, REAL)
    return x
def coef(v, i): return z3.If(z3.And(znum(i) >= 0, znum(i) < znum(v.n)), z3.Select(v.cols[0], znum(i)), Rv(0))
def coefz(v, i): return z3.If(z3.And(znum(i) >= 0, znum(i) < znum(v.n)), z3.Select(v.cols[0], znum(i)), Iv(0))
def GI(ex, name='g'):
    """arbitrary non-negative index"""
    g = ex.ghost.get(name)
    if g is None: g = ex.ghost[name] = ex.fresh(name, 'int'); ex.assume(g >= 0)
    return g
def canon(ex, r, what='the result'):
    v = CV_(ex, r); ex.prove(f'{what} has no leading zero', wf(v))
def spec(ex, r, want, what='every coefficient'):
    """coefficient of the result at an arbitrary index"""
    g = GI(ex); v = CV_(ex, r)
    ex.prove(f'{what} is the prescribed one', coef(v, g) == want(g)); canon(ex, r)
    f = ex.read(r) if isinstance(r, Loc) else r
    if isinstance(f, Rec) and 'mMainVar' in f.f: ex.prove('the main variable is kept', eq(f.f['mMainVar'].f['mContent'], ex.ghost['var']))
# ------------------------------------------------------------------ loop contracts
def this_vec(L): return L.this.f['mCoefficients']
def inv_strip(s, L):
    # only leading zeros are removed: every coefficient keeps its value
    o = L.old_this.f['mCoefficients']; v = this_vec(L)
    yield 'the coefficients keep their positions', v.cols[0] == o.cols[0]
    yield 'the length only shrinks', z3.And(znum(v.n) >= 0, znum(v.n) <= znum(o.n))
    for g in IDX(s): yield 'only zeros are dropped', z3.Implies(z3.And(g >= znum(v.n), g < znum(o.n)), z3.Select(o.cols[0], g) == 0)
STRIP = Loop(inv=inv_strip, variant=lambda s, L: this_vec(L).n)
BASE = {'stripLeadingZeroes': STRIP}
def elementwise(src, fn, res=None):
    """range-for over the own coefficients replacing each one: below k updated, above unchanged"""
    def inv(s, L):
        o = L.old_this.f['mCoefficients']; v = this_vec(L); g = GI(s)
        yield 'length', znum(v.n) == znum(o.n)
        yield 'processed coefficients', z3.Implies(g < L.k, z3.Select(v.cols[0], g) == fn(s, L, z3.Select(o.cols[0], g)))
        yield 'others unchanged', z3.Implies(g >= L.k, z3.Select(v.cols[0], g) == z3.Select(o.cols[0], g))
        last = znum(v.n) - 1
        yield 'leading coefficient', z3.Implies(znum(v.n) >= 1, z3.Select(v.cols[0], last) == z3.If(L.k >= znum(v.n), fn(s, L, z3.Select(o.cols[0], last)), z3.Select(o.cols[0], last)))
    return Loop(inv=inv)
def IDX(s): return [GI(s)] + s.ghost.get('idx', [])
def built(name, fn, src='mCoefficients'):
    """range-for pushing one coefficient per own coefficient onto `name`"""
    def inv(s, L):
        o = L.old_this.f['mCoefficients']; v = L.v(name); v = v.f['mCoefficients'] if isinstance(v, Rec) else v
        yield 'one coefficient per iteration', znum(v.n) == L.k
        for g in IDX(s): yield 'built coefficients', z3.Implies(z3.And(g >= 0, g < L.k), z3.Select(v.cols[0], g) == fn(s, L, z3.Select(o.cols[0], g)))
    return Loop(inv=inv)
def elementwise(fn):
    def inv(s, L):
        o = L.old_this.f['mCoefficients']; v = this_vec(L)
        yield 'length', znum(v.n) == znum(o.n)
        for g in IDX(s):
            yield 'processed coefficients', z3.Implies(z3.And(g >= 0, g < L.k), z3.Select(v.cols[0], g) == fn(s, L, z3.Select(o.cols[0], g)))
            yield 'others unchanged', z3.Implies(g >= L.k, z3.Select(v.cols[0], g) == z3.Select(o.cols[0], g))
    return Loop(inv=inv)
def inv_addloop(s, L):
    o = L.old_this.f['mCoefficients']; v = this_vec(L); r = L.v('rhs').f['mCoefficients']; i = znum(L.v('i'))
    yield 'length', znum(v.n) == znum(o.n)
    yield 'index', z3.And(i >= 0, i <= znum(o.n), i <= znum(r.n))
    for g in IDX(s):
        yield 'added coefficients', z3.Implies(z3.And(g >= 0, g < i), z3.Select(v.cols[0], g) == z3.Select(o.cols[0], g) + z3.Select(r.cols[0], g))
        yield 'others unchanged', z3.Implies(g >= i, z3.Select(v.cols[0], g) == z3.Select(o.cols[0], g))
ADDL = {'operator+=#0': Loop(inv=inv_addloop), 'operator+=#1': Loop(inv=inv_addloop)}
NEGL = {'operator-': built('result', lambda s, L, c: -c)}
CV = z3.Function('CV', RA, RA, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())     # a, b, length of b, index, number of summands
def cvdef(a, b, g, k):
    A, B = a.cols[0], b.cols[0]; nb = znum(b.n); g, k = znum(g), znum(k)
    return z3.And(CV(A, B, nb, g, Iv(0)) == 0, z3.Implies(k >= 0, CV(A, B, nb, g, k + 1) == CV(A, B, nb, g, k) + z3.Select(A, k) * coef(b, g - k)))
def conv(a, b, g):
    na = znum(a.n); g = znum(g); return z3.If(na == 0, Rv(0), CV(a.cols[0], b.cols[0], znum(b.n), g, z3.If(na <= g + 1, na, g + 1)))
def inv_mulo(s, L):
    a = L.old_this.f['mCoefficients']; b = L.v('rhs').f['mCoefficients']; v = L.v('newCoeffs'); e = znum(L.v('e'))
    yield 'own coefficients unchanged', z3.And(this_vec(L).cols[0] == a.cols[0], znum(this_vec(L).n) == znum(a.n))
    yield 'one coefficient per iteration', z3.And(znum(v.n) == e, e >= 0, e <= znum(a.n) + znum(b.n) - 1)
    j = z3.Int('j!z'); yield 'a zero operand yields zeros', z3.Implies(znum(a.n) == 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < e), z3.Select(v.cols[0], j) == 0)))
    for g in IDX(s):
        s.assume(cvdef(a, b, g, Iv(0)))
        yield 'product coefficients', z3.Implies(z3.And(g >= 0, g < e), z3.Select(v.cols[0], g) == conv(a, b, g))
def inv_muli(s, L):
    a = s.ghost['fa']; b = s.ghost['fb']; v = L.v('newCoeffs'); o = L.old('newCoeffs'); e = znum(L.v('e')); i = znum(L.v('i'))
    s.assume(cvdef(a, b, e, i)); s.assume(cvdef(a, b, e, i - 1))
    yield 'length', z3.And(znum(v.n) == e + 1, i >= 0, i <= e + 1, i <= znum(a.n))
    yield 'nothing to add for a zero operand', z3.Implies(znum(a.n) == 0, v.cols[0] == o.cols[0])
    yield 'partial sum', z3.Select(v.cols[0], e) == CV(a.cols[0], b.cols[0], znum(b.n), e, i)
    for g in IDX(s): yield 'finished coefficients unchanged', z3.Implies(z3.And(g >= 0, g < e), z3.Select(v.cols[0], g) == z3.Select(o.cols[0], g))
MULL = {'operator*=#0': Loop(inv=inv_mulo), 'operator*=#1': Loop(inv=inv_muli)}
ALL = {**BASE, **ADDL, **NEGL}
def lastidx(ex, *ps): ex.ghost['idx'] = [znum(CV_(ex, p).n) - 1 for p in ps]
# ------------------------------------------------------------------ construction and queries
@unit('new', 'c12.new', loops=BASE)
def _(ex):
    r = R(ex, 'u_new', VAR(ex)); ex.prove('the new polynomial is zero', eq(CV_(ex, r).n, 0))
@unit('newc', 'c12.newc', loops=BASE)
def _(ex):
    c = inp(ex, 'Q', ex.fresh('c', 'real')); d = inp(ex, 'Z', ex.fresh('d', 'int')); ex.assume(z3.And(d >= 0, d < 1 << 62))
    r = R(ex, 'u_newc', VAR(ex), ex.alloc(c), d); spec(ex, r, lambda g: z3.If(g == d, c, Rv(0)))
for nm in ('newv', 'newm', 'newl'):
    @unit(nm, 'c12.newv', loops=BASE)
    def _(ex, nm=nm):
        v = vec(ex, 'v'); inp(ex, 'P', v); r = R(ex, 'u_' + nm, VAR(ex), ex.alloc(v) if nm != 'newl' else v); spec(ex, r, lambda g: coef(v, g))
for nm in ('copy', 'move'):
    @unit(nm, 'c12.copy')
    def _(ex, nm=nm):
        p = POLY(ex, 'p'); v = CV_(ex, p); r = R(ex, 'u_' + nm, p); spec(ex, r, lambda g: coef(v, g))
for nm in ('set', 'setm'):
    @unit(nm, 'c12.copy')
    def _(ex, nm=nm):
        p = POLY(ex, 'p'); q = POLY(ex, 'q', rec=False); v = CV_(ex, p); R(ex, 'u_' + nm, q, p); spec(ex, q, lambda g: coef(v, g))
@unit('queries', 'c12.query')
def _(ex):
    p = POLY(ex, 'p'); v = CV_(ex, p); g = GI(ex); n = znum(v.n)
    allz = lambda lo: z3.Implies(g >= lo, coef(v, g) == 0)
    z = zbool(R(ex, 'u_zero', p)); ex.prove('zero test: no coefficients', IFF(z, n == 0)); ex.prove('a zero polynomial has only zero coefficients', z3.Implies(z, coef(v, g) == 0))
    o = zbool(R(ex, 'u_one', p)); ex.prove('one test', IFF(o, z3.And(n == 1, coef(v, 0) == 1))); ex.prove('one has no other coefficients', z3.Implies(z3.And(o, g >= 1), coef(v, g) == 0))
    c = zbool(R(ex, 'u_const', p)); ex.prove('constant iff no coefficient above the constant one', z3.And(z3.Implies(z3.And(c, g >= 1), coef(v, g) == 0), z3.Implies(z3.Not(c), z3.And(n >= 2, coef(v, n - 1) != 0))))
    l = zbool(R(ex, 'u_lin', p)); ex.prove('linear iff no coefficient above the linear one', z3.And(z3.Implies(z3.And(l, g >= 2), coef(v, g) == 0), z3.Implies(z3.Not(l), z3.And(n >= 3, coef(v, n - 1) != 0))))
    ex.prove('number test', IFF(zbool(R(ex, 'u_num', p)), n <= 1))
    ex.prove('constant part', R(ex, 'u_cp', p) == coef(v, 0))
    w = R(ex, 'u_mkone', p); ex.prove('one() is the constant 1', z3.And(znum(CV_(ex, w).n) == 1, coef(CV_(ex, w), 0) == 1))
@unit('queries_nz', 'c12.query')
def _(ex):
    p = POLY(ex, 'p', nz=True); v = CV_(ex, p); g = GI(ex); n = znum(v.n); d = R(ex, 'u_deg', p)
    ex.prove('the degree is the highest power with non-zero coefficient', z3.And(coef(v, d) != 0, z3.Implies(g > znum(d), coef(v, g) == 0)))
    ex.prove('leading coefficient', R(ex, 'u_lc', p) == coef(v, d)); ex.prove('trailing coefficient', R(ex, 'u_tc', p) == coef(v, 0))
    ex.prove('total degree of a polynomial over numbers', eq(R(ex, 'u_tdeg', p), d)); ex.prove('zero is a root iff the constant coefficient vanishes', IFF(zbool(R(ex, 'u_zroot', p)), coef(v, 0) == 0))
    u = R(ex, 'u_unit', p); ex.prove('unit part over a field is the leading coefficient', u == coef(v, n - 1)); ex.prove('normal iff monic', IFF(zbool(R(ex, 'u_isnorm', p)), coef(v, n - 1) == 1))
@unit('eq', 'c12.eq')
def _(ex):
    a = POLY(ex, 'a'); b = POLY(ex, 'b'); va, vb = CV_(ex, a), CV_(ex, b); r = zbool(R(ex, 'u_eq', a, b)); g = GI(ex)
    ex.prove('equal polynomials have equal coefficients', z3.Implies(r, coef(va, g) == coef(vb, g)))
    j = z3.Int('j!q'); ex.prove('different polynomials differ in a coefficient', z3.Or(r, z3.Exists([j], z3.And(j >= 0, coef(va, j) != coef(vb, j)))))
@unit('ne', 'c12.eq')
def _(ex):
    a = POLY(ex, 'a'); b = POLY(ex, 'b'); va, vb = CV_(ex, a), CV_(ex, b); r = zbool(R(ex, 'u_ne', a, b)); g = GI(ex)
    ex.prove('not different: equal coefficients', z3.Or(r, coef(va, g) == coef(vb, g)))
    j = z3.Int('j!q'); ex.prove('different polynomials differ in a coefficient', z3.Implies(r, z3.Exists([j], z3.And(j >= 0, coef(va, j) != coef(vb, j)))))
for nm in ('eqc', 'ceq'):
    @unit(nm, 'c12.eqc')
    def _(ex, nm=nm):
        a = POLY(ex, 'a'); c = inp(ex, 'Q', ex.fresh('c', 'real')); v = CV_(ex, a); cl = ex.alloc(c); r = zbool(R(ex, 'u_' + nm, *((a, cl) if nm == 'eqc' else (cl, a)))); g = GI(ex); n = znum(v.n)
        ex.prove('equal to a number: exactly that constant', z3.Implies(r, coef(v, g) == z3.If(g == 0, c, Rv(0)))); ex.prove('different: a coefficient differs', z3.Or(r, coef(v, 0) != c, z3.And(n >= 2, coef(v, n - 1) != 0)))
# ------------------------------------------------------------------ linear operations
@unit('neg', 'c12.neg', loops=ALL)
def _(ex):
    p = POLY(ex, 'p'); v = CV_(ex, p); lastidx(ex, p); r = R(ex, 'u_neg', p); spec(ex, r, lambda g: -coef(v, g))
def LINOP(nm, op, inplace, fn, kinds='PP'):
    @unit(nm, op, loops={**ALL, **MULL})
    def _(ex):
        ops = []; vals = []
        for i, k in enumerate(kinds):
            if k == 'P': x = POLY(ex, 'ab'[i]); vals.append(CV_(ex, x))
            else: c = inp(ex, 'Q', ex.fresh('c', 'real')); x = ex.alloc(c); vals.append(c)
            ops.append(x)
        ex.ghost['idx'] = [znum(v.n) - 1 for v in vals if isinstance(v, SVec)]
        f = lambda v, g: coef(v, g) if isinstance(v, SVec) else z3.If(g == 0, v, Rv(0))
        r = R(ex, 'u_' + nm, *ops); r = ops[0] if inplace else r
        spec(ex, r, lambda g: fn(f(vals[0], g), f(vals[1], g)))
        for x, v, k in list(zip(ops, vals, kinds))[1 if inplace else 0:]:
            if k == 'P': ex.prove('operand unchanged', z3.And(znum(CV_(ex, x).n) == znum(v.n), CV_(ex, x).cols[0] == v.cols[0]))
for nm, ip, kinds in (('iadd', 1, 'PP'), ('iaddc', 1, 'PQ'), ('add', 0, 'PP'), ('addc', 0, 'PQ'), ('cadd', 0, 'QP')): LINOP(nm, {'PP': 'c12.add', 'PQ': 'c12.addc', 'QP': 'c12.cadd'}[kinds], ip, lambda x, y: x + y, kinds)
for nm, ip, kinds in (('isub', 1, 'PP'), ('isubc', 1, 'PQ'), ('sub', 0, 'PP'), ('subc', 0, 'PQ'), ('csub', 0, 'QP')): LINOP(nm, {'PP': 'c12.sub', 'PQ': 'c12.subc', 'QP': 'c12.csub'}[kinds], ip, lambda x, y: x - y, kinds)
SCL = {'operator*=': elementwise(lambda s, L, c: c * s.ghost['c'])}; DVL = {'operator/=': elementwise(lambda s, L, c: c / s.ghost['c'])}
for nm in ('imulc', 'mulc', 'cmul'):
    @unit(nm, 'c12.mulc' if nm != 'cmul' else 'c12.cmul', loops={**BASE, **SCL})
    def _(ex, nm=nm):
        if nm == 'cmul': c = inp(ex, 'Q', ex.fresh('c', 'real')); p = POLY(ex, 'p')
        else: p = POLY(ex, 'p'); c = inp(ex, 'Q', ex.fresh('c', 'real'))
        v = CV_(ex, p); ex.ghost['c'] = c; cl = ex.alloc(c); lastidx(ex, p); r = R(ex, 'u_' + nm, *((cl, p) if nm == 'cmul' else (p, cl))); r = p if nm == 'imulc' else r; spec(ex, r, lambda g: coef(v, g) * c)
for nm in ('idivc', 'divc'):
    @unit(nm, 'c12.divc', loops={**BASE, **DVL})
    def _(ex, nm=nm):
        p = POLY(ex, 'p'); c = inp(ex, 'Q', ex.fresh('c', 'real')); ex.assume(c != 0); v = CV_(ex, p); ex.ghost['c'] = c; lastidx(ex, p); r = R(ex, 'u_' + nm, p, ex.alloc(c)); r = p if nm == 'idivc' else r; spec(ex, r, lambda g: coef(v, g) / c)
for nm in ('imulv', 'mulv', 'vmul'):
    @unit(nm, 'c12.mulv', loops=BASE)
    def _(ex, nm=nm):
        p = POLY(ex, 'p'); v = CV_(ex, p); x = VAR(ex); r = R(ex, 'u_' + nm, *((x, p) if nm == 'vmul' else (p, x))); r = p if nm == 'imulv' else r; spec(ex, r, lambda g: coef(v, g - 1))
@unit('norm', 'c12.norm', loops={**BASE, **DVL})
def _(ex):
    p = POLY(ex, 'p'); v = CV_(ex, p); n = znum(v.n); ex.ghost['c'] = z3.Select(v.cols[0], n - 1); lastidx(ex, p); r = R(ex, 'u_norm', p)
    spec(ex, r, lambda g: z3.If(n == 0, Rv(0), coef(v, g) / ex.ghost['c'])); w = CV_(ex, r); ex.prove('a non-zero normalised polynomial is monic', z3.Implies(n >= 1, z3.And(znum(w.n) == n, coef(w, n - 1) == 1)))
@unit('trunc', 'c12.trunc', loops=BASE)
def _(ex):
    p = POLY(ex, 'p', nz=True); v = CV_(ex, p); R(ex, 'u_trunc', p); spec(ex, p, lambda g: z3.If(g == znum(v.n) - 1, Rv(0), coef(v, g)))
@unit('rev', 'c12.rev', loops=BASE)
def _(ex):
    p = POLY(ex, 'p'); v = CV_(ex, p); r = R(ex, 'u_rev', p); spec(ex, r, lambda g: coef(v, znum(v.n) - 1 - g))
def inv_negv(s, L):
    o = L.old('res').f['mCoefficients']; v = L.v('res').f['mCoefficients']; d = znum(L.v('deg'))
    yield 'length', z3.And(znum(v.n) == znum(o.n), d >= 0, d <= znum(o.n))
    for g in IDX(s): yield 'sign changes', z3.Implies(g >= 0, z3.Select(v.cols[0], g) == z3.If(z3.And(g < d, g % 2 == 1), -z3.Select(o.cols[0], g), z3.Select(o.cols[0], g)))
@unit('negv', 'c12.negv', loops={'negateVariable': Loop(inv=inv_negv)})
def _(ex):
    p = POLY(ex, 'p'); v = CV_(ex, p); lastidx(ex, p); r = R(ex, 'u_negv', p); spec(ex, r, lambda g: z3.If(g % 2 == 1, -coef(v, g), coef(v, g)))
# ------------------------------------------------------------------ product
for nm in ('imul', 'mul'):
    @unit(nm, 'c12.mul', loops={**BASE, **MULL})
    def _(ex, nm=nm):
        a = POLY(ex, 'a'); b = POLY(ex, 'b'); va, vb = CV_(ex, a), CV_(ex, b); ex.ghost['fa'], ex.ghost['fb'] = va, vb; ex.ghost['idx'] = [znum(va.n) + znum(vb.n) - 2]
        r = R(ex, 'u_' + nm, a, b); r = a if nm == 'imul' else r; w = CV_(ex, r); g = GI(ex)
        na, nb = znum(va.n), znum(vb.n); want = z3.If(z3.Or(na == 0, nb == 0), Rv(0), conv(va, vb, g))
        ex.assume(lem_cvhi(va, vb, g, z3.If(na <= g + 1, na, g + 1)))
        ex.prove('every coefficient is the convolution of the operands', coef(w, g) == want); canon(ex, r)
        t = na + nb - 2; ex.assume(lem_cvhi(va, vb, t, na - 1)); ex.assume(cvdef(va, vb, t, na - 1)); nz = z3.And(na >= 1, nb >= 1)
        ex.prove('the product of non-zero polynomials has the sum of the degrees', z3.If(nz, znum(w.n) == na + nb - 1, znum(w.n) == 0))
        ex.prove('its leading coefficient is the product of the leading ones', z3.Implies(nz, coef(w, t) == coef(va, na - 1) * coef(vb, nb - 1)))
def lem_cvhi(a, b, g, k):
    """lemma_cvhi: summands with g - i >= length of b vanish"""
    g, k = znum(g), znum(k); return z3.Implies(z3.And(k >= 0, k <= g - znum(b.n) + 1), CV(a.cols[0], b.cols[0], znum(b.n), g, k) == 0)
def lemma(name, mkf, prop='C12'):
    @unit('lemma_' + name, prop=prop)
    def _(ex):
        k = ex.fresh('k', 'int'); ex.assume(k >= 0)
        f, defs = mkf(ex)
        for d in defs(k): ex.assume(d)
        ex.prove(f'lemma {name}: base', f(Iv(0))); ex.prove(f'lemma {name}: step', z3.Implies(f(k), f(k + 1)))
def _l(ex):
    a, b = vec(ex, 'a'), vec(ex, 'b'); g = GI(ex); return lambda k: lem_cvhi(a, b, g, k), lambda k: [cvdef(a, b, g, k)]
lemma('cvhi', _l)
# ------------------------------------------------------------------ values: VS(a, n, k) = sum over j < k of coef(a, j) * X(j), X(j) = x^j
IA = z3.ArraySort(z3.IntSort(), z3.IntSort())
VSQ = z3.Function('VS', RA, z3.IntSort(), z3.IntSort(), z3.RealSort()); XQ = z3.Function('X', z3.IntSort(), z3.RealSort()); xq = z3.Real('x!point')
VSZ = z3.Function('VSZ', IA, z3.IntSort(), z3.IntSort(), z3.IntSort()); XZ = z3.Function('XZ', z3.IntSort(), z3.IntSort()); xz = z3.Int('xz!point')
def isq(v): return v.cols[0].sort() == RA
def X(k): return XQ(znum(k))
def cf(v, i): return coef(v, i) if isq(v) else coefz(v, i)
def VS(v, k): return (VSQ if isq(v) else VSZ)(v.cols[0], znum(v.n), znum(k))
def VAL_(ex, p):
    v = CV_(ex, p); ex.assume(vsdef(v, Iv(0))); return VS(v, v.n)
def Xof(v): return XQ if isq(v) else XZ
def xdef(k, v=None): f, x = (XQ, xq) if v is None or isq(v) else (XZ, xz); k = znum(k); return z3.And(f(Iv(0)) == 1, z3.Implies(k >= 0, f(k + 1) == x * f(k)))
def vsdef(v, k): k = znum(k); return z3.And(VS(v, Iv(0)) == 0, z3.Implies(k >= 0, VS(v, k + 1) == VS(v, k) + cf(v, k) * Xof(v)(k)))
def fa(fn, lo=0):
    j = z3.Int('j!v'); return z3.ForAll([j], z3.Implies(j >= lo, fn(j)))
def l_pad(v, k): return z3.Implies(z3.And(znum(v.n) >= 0, k >= znum(v.n)), VS(v, k) == VS(v, v.n))
def l_lin(c, a, b, s, t, k, prem=None): return z3.Implies(z3.And(k >= 0, prem if prem is not None else fa(lambda j: cf(c, j) == s * cf(a, j) + t * cf(b, j))), VS(c, k) == s * VS(a, k) + t * VS(b, k))
def l_scale(c, a, s, k): return z3.Implies(z3.And(k >= 0, fa(lambda j: cf(c, j) == s * cf(a, j))), VS(c, k) == s * VS(a, k))
def l_xadd(m, k, v=None): f = XQ if v is None or isq(v) else XZ; return z3.Implies(z3.And(m >= 0, k >= 0), f(m + k) == f(m) * f(k))
def l_shift(c, a, d, k, prem=None): return z3.Implies(z3.And(k >= 0, d >= 0, prem if prem is not None else fa(lambda j: cf(c, j) == cf(a, j - d))), VS(c, k) == z3.If(k <= d, 0, Xof(a)(d) * VS(a, k - d)))
def l_store(v, w, i, k): return z3.Implies(z3.And(k >= 0, i >= 0, i < znum(v.n)), VS(w, k) == VS(v, k) + z3.If(i < k, (z3.Select(w.cols[0], i) - z3.Select(v.cols[0], i)) * Xof(v)(i), 0))
def lin_facts(ex, a, b, c, s, t, k, prem):
    # the defining equations at k with the coefficients abbreviated
    out = []; x = ex.fresh('xk', Xof(a)(k).sort()); co = []
    for v in (a, b, c):
        y = ex.fresh('co', x.sort()); co.append(y); out += [VS(v, Iv(0)) == 0, VS(v, k + 1) == VS(v, k) + y * x]
    return out + [z3.Implies(prem, co[2] == s * co[0] + t * co[1])]
for q in (True, False):
    sh = REAL if q else INT; sx = '' if q else '_z'
    def _l(ex, sh=sh): v = vec(ex, 'a', sh); return lambda k: l_pad(v, k), lambda k: [vsdef(v, k)]
    lemma('pad' + sx, _l)
    def _l(ex, sh=sh, q=q):
        a, b, c = vec(ex, 'a', sh), vec(ex, 'b', sh), vec(ex, 'c', sh); s, t = [ex.fresh(n, 'real' if q else 'int') for n in 'st']
        prem = z3.Bool('prem!lin')      # stands for the quantified premise; used at k only
        return lambda k: l_lin(c, a, b, s, t, k, prem), lambda k: lin_facts(ex, a, b, c, s, t, k, prem)
    lemma('lin' + sx, _l)
    def _l(ex, sh=sh): m = ex.fresh('m', 'int'); v = vec(ex, 'a', sh); ex.assume(m >= 0); return lambda k: l_xadd(m, k, v), lambda k: [xdef(m + k, v), xdef(k, v)]
    lemma('xadd' + sx, _l)
    def _l(ex, sh=sh):
        a, c = vec(ex, 'a', sh), vec(ex, 'c', sh); d = ex.fresh('d', 'int'); ex.assume(d >= 0)
        prem = z3.Bool('prem!shift')
        return lambda k: l_shift(c, a, d, k, prem), lambda k: [vsdef(c, k), vsdef(a, k - d), vsdef(a, Iv(0)), l_xadd(d, k - d, a), xdef(Iv(0), a), z3.Implies(prem, cf(c, k) == cf(a, k - d))]
    lemma('shift' + sx, _l)
    def _l(ex, sh=sh):
        v = vec(ex, 'a', sh); i = ex.fresh('i', 'int'); y = ex.fresh('y', sh.sort); w = SVec(v.n, [z3.Store(v.cols[0], i, y)], v.shape)
        return lambda k: l_store(v, w, i, k), lambda k: [vsdef(v, k), vsdef(w, k)]
    lemma('store' + sx, _l)
# product: W(k, e) = sum over j < e of CV(j, k) X(j);  T(k, e) = sum over j < e of coef(b, j - k) X(j)
Wf = z3.Function('W', z3.IntSort(), z3.IntSort(), z3.RealSort()); Tf = z3.Function('T', z3.IntSort(), z3.IntSort(), z3.RealSort())
def cvk(a, b, e, k): return CV(a.cols[0], b.cols[0], znum(b.n), znum(e), znum(k))
def wdef(a, b, k, e): return z3.And(Wf(k, Iv(0)) == 0, z3.Implies(e >= 0, Wf(k, e + 1) == Wf(k, e) + cvk(a, b, e, k) * X(e)))
def tdef(b, k, e): return z3.And(Tf(k, Iv(0)) == 0, z3.Implies(e >= 0, Tf(k, e + 1) == Tf(k, e) + coef(b, e - k) * X(e)))
def l_wstep(a, k, e): return z3.Implies(z3.And(k >= 0, e >= 0), Wf(k + 1, e) == Wf(k, e) + z3.Select(a.cols[0], k) * Tf(k, e))
def l_t(b, k, e): return z3.Implies(z3.And(k >= 0, e >= 0), Tf(k, e) == z3.If(e <= k, 0, X(k) * VS(b, e - k)))
def l_w0(e): return z3.Implies(e >= 0, Wf(Iv(0), e) == 0)
def l_w(a, b, k): e = znum(a.n) + znum(b.n); return z3.Implies(z3.And(k >= 0, k <= znum(a.n)), Wf(k, e) == VS(a, k) * VS(b, b.n))
def l_cvlow(a, b, e, k): return z3.Implies(z3.And(e >= 0, k >= e + 1), cvk(a, b, e, k) == cvk(a, b, e, e + 1))
def l_prod(c, a, b, k, prem=None): return z3.Implies(z3.And(k >= 0, prem if prem is not None else fa(lambda j: coef(c, j) == conv(a, b, j))), VS(c, k) == Wf(znum(a.n), k))
def two(ex): return vec(ex, 'a'), vec(ex, 'b')
def nn(ex, n): k = ex.fresh(n, 'int'); ex.assume(k >= 0); return k
def _l(ex): a, b = two(ex); m = nn(ex, 'm'); return lambda e: l_wstep(a, m, e), lambda e: [wdef(a, b, m, e), wdef(a, b, m + 1, e), tdef(b, m, e), cvdef(a, b, e, m)]
lemma('wstep', _l)
def _l(ex): a, b = two(ex); m = nn(ex, 'm'); return lambda e: l_t(b, m, e), lambda e: [tdef(b, m, e), vsdef(b, e - m), vsdef(b, Iv(0)), l_xadd(m, e - m), xdef(Iv(0))]
lemma('t', _l)
def _l(ex): a, b = two(ex); return lambda e: l_w0(e), lambda e: [wdef(a, b, Iv(0), e), cvdef(a, b, e, Iv(0))]
lemma('w0', _l)
def _l(ex):
    a, b = two(ex); e = znum(a.n) + znum(b.n)
    return lambda k: l_w(a, b, k), lambda k: [l_w0(e), l_wstep(a, k, e), l_t(b, k, e), l_pad(b, e - k), vsdef(a, k), vsdef(b, Iv(0))]
lemma('w', _l)
def _l(ex): a, b = two(ex); e = nn(ex, 'e'); return lambda k: l_cvlow(a, b, e, k), lambda k: [cvdef(a, b, e, k)]
lemma('cvlow', _l)
def _l(ex):
    a, b = two(ex); c = vec(ex, 'c'); prem = z3.Bool('prem!prod'); return lambda k: l_prod(c, a, b, k, prem), lambda k: [z3.Implies(prem, coef(c, k) == conv(a, b, k)), vsdef(c, k), wdef(a, b, znum(a.n), k), l_cvlow(a, b, k, znum(a.n)), cvdef(a, b, k, Iv(0))]
lemma('prod', _l)
@unit('value_product', None)
def _(ex):
    # coefficientwise convolution has the product as value, at every point
    a, b = two(ex); c = vec(ex, 'c'); e = znum(a.n) + znum(b.n); ex.assume(fa(lambda j: coef(c, j) == conv(a, b, j))); ex.assume(znum(c.n) <= e)
    for l in (l_prod(c, a, b, e), l_w(a, b, znum(a.n)), l_pad(c, e)): ex.assume(l)
    ex.prove('value of a convolution is the product of the values', VS(c, c.n) == VS(a, a.n) * VS(b, b.n))
@unit('value_sum', None)
def _(ex):
    a, b = two(ex); c = vec(ex, 'c'); s, t = ex.fresh('s', 'real'), ex.fresh('t', 'real'); e = z3.If(znum(a.n) > znum(b.n), znum(a.n), znum(b.n)) + znum(c.n); ex.assume(fa(lambda j: coef(c, j) == s * coef(a, j) + t * coef(b, j)))
    for l in (l_lin(c, a, b, s, t, e), l_pad(a, e), l_pad(b, e), l_pad(c, e)): ex.assume(l)
    ex.prove('value of a coefficientwise combination is the combination of the values', VS(c, c.n) == s * VS(a, a.n) + t * VS(b, b.n))
# ------------------------------------------------------------------ evaluation, derivative, power, other constructors
def inv_eval(s, L):
    v = L.v('p').f['mCoefficients']; s.assume(vsdef(v, L.k)); s.assume(vsdef(v, L.k - 1)); s.assume(xdef(L.k)); s.assume(xdef(L.k - 1))
    yield 'partial sum', zreal(L.v('result')) == VS(v, L.k)
    yield 'power', zreal(L.v('var')) == X(L.k)
@unit('eval', 'c12.eval', loops={'evaluate': Loop(inv=inv_eval)})
def _(ex):
    p = POLY(ex, 'p'); inp(ex, 'Q', xq); v = CV_(ex, p); ex.assume(vsdef(v, Iv(0))); ex.assume(xdef(Iv(0)))
    r = R(ex, 'u_eval', p, ex.alloc(xq)); ex.prove('evaluation is the sum of coefficients times powers', zreal(r) == VS(v, v.n))
@unit('root', 'c12.eval', loops={'evaluate': Loop(inv=inv_eval)})
def _(ex):
    p = POLY(ex, 'p'); inp(ex, 'Q', xq); v = CV_(ex, p); ex.assume(vsdef(v, Iv(0))); ex.assume(xdef(Iv(0)))
    ex.prove('a root is a point of value zero', IFF(zbool(R(ex, 'u_root', p, ex.alloc(xq))), VS(v, v.n) == 0))
FF = z3.Function('FF', z3.IntSort(), z3.IntSort(), z3.IntSort())         # falling factorial n (n-1) ... (n-k+1)
def ffdef(n, k): n, k = znum(n), znum(k); return z3.And(FF(n, Iv(0)) == 1, z3.Implies(k >= 0, FF(n, k + 1) == FF(n, k) * (n - k)))
def inv_ff(s, L):
    n, k = znum(L.v('n')), znum(L.v('k')); k0 = znum(L.old('k')); s.assume(ffdef(n, k)); s.assume(ffdef(n, k - 1)); s.assume(ffdef(n, Iv(0)))
    yield 'counter', z3.And(k >= 0, k <= k0)
    yield 'remaining factors', znum(L.v('res')) * FF(n, k) == FF(n, k0)
def k_mult(ex, f, this, args, node):
    n, k = [znum(ex.val(a)) for a in args]; ex.assume(ffdef(n, Iv(0))); ex.assume(ffdef(n, Iv(1))); return FF(n, k)
def inv_der(s, L):
    p = L.v('p').f['mCoefficients']; v = L.v('newCoeffs'); n = znum(L.v('n')); i = znum(L.v('i'))
    yield 'length', z3.And(znum(v.n) == i, i >= 0, i <= znum(p.n) - n)
    for g in IDX(s): yield 'derived coefficients', z3.Implies(z3.And(g >= 0, g < i), z3.Select(v.cols[0], g) == zreal(FF(g + n, n)) * z3.Select(p.cols[0], g + n))
DERL = {**BASE, 'derivative': Loop(inv=inv_der)}
KMUL = {'carl::detail_derivative::multiply': k_mult}
@unit('ff', None, loops={'multiply': Loop(inv=inv_ff)})
def _(ex):
    n, k = ex.fresh('n', 'int'), ex.fresh('k', 'int'); ex.assume(z3.And(k >= 0, k <= n)); 
    r = CALL(ex, 'carl::detail_derivative::multiply', [n, k]); ex.prove('product of k consecutive factors', znum(r) == FF(n, k))
for nm in ('der', 'dern', 'derv'):
    @unit(nm, 'c12.der', loops=DERL, contracts=KMUL)
    def _(ex, nm=nm):
        p = POLY(ex, 'p'); v = CV_(ex, p); n = Iv(1) if nm == 'der' else nn(ex, 'n'); inp(ex, 'Z', n); ex.assume(n < 1 << 60); ex.assume(znum(v.n) < 1 << 60)
        g = GI(ex); ex.assume(ffdef(g + n, Iv(0))); ex.assume(ffdef(g + n, Iv(1)))
        r = R(ex, 'u_' + nm, *([p] + ([VAR(ex)] if nm == 'derv' else []) + ([n] if nm != 'der' else [])))
        spec(ex, r, lambda g: zreal(FF(g + n, n)) * coef(v, g + n))
        if nm == 'der': ex.assume(ffdef(g + 1, Iv(0))); ex.prove('the first derivative multiplies by the exponent', coef(CV_(ex, r), g) == zreal(g + 1) * coef(v, g + 1))
# ------------------------------------------------------------------ contracts of the ring operations for their callers (proved above; values by lemma)
def is_poly_t(ex, f, i): return ex.p.deref_t(f['p'][i]['t']).get('sq') == UPQ
def newpoly(ex, name, like):
    v = vec(ex, name, like.shape); ex.assume(wf(v)); ex.assume(vsdef(v, Iv(0))); return v
def lcf(v): return z3.Select(v.cols[0], znum(v.n) - 1)
def zeroval(v): return z3.Implies(znum(v.n) == 0, VS(v, v.n) == 0)
def k_mul(ex, a, b):
    r = newpoly(ex, 'prod', a); na, nb = znum(a.n), znum(b.n); nz = z3.And(na >= 1, nb >= 1)
    ex.assume(z3.If(nz, znum(r.n) == na + nb - 1, znum(r.n) == 0)); ex.assume(z3.Implies(nz, lcf(r) == lcf(a) * lcf(b)))
    ex.assume_nl(VS(r, r.n) == VS(a, a.n) * VS(b, b.n)); ex.assume(zeroval(r)); return r
def k_lin(ex, a, b, s):
    r = newpoly(ex, 'sum', a)
    for i in [znum(r.n) - 1, znum(a.n) - 1, znum(b.n) - 1] + ex.ghost.get('at', []): ex.assume(z3.Implies(i >= 0, cf(r, i) == cf(a, i) + s * cf(b, i)))
    ex.assume(VS(r, r.n) == VS(a, a.n) + s * VS(b, b.n)); ex.assume(zeroval(r)); return r
def k_scale(ex, a, c, inv=False):
    if inv: ex.ghost.setdefault('scaled', []).append(a)
    r = newpoly(ex, 'scaled', a); z = z3.BoolVal(False) if inv else c == 0
    ex.assume(znum(r.n) == z3.If(z, 0, znum(a.n))); nz = z3.And(znum(a.n) >= 1, z3.Not(z))
    if inv: ex.assume_nl(VS(r, r.n) * c == VS(a, a.n)); ex.assume_nl(z3.Implies(nz, lcf(r) * c == lcf(a)))
    else: ex.assume_nl(VS(r, r.n) == VS(a, a.n) * c); ex.assume_nl(z3.Implies(nz, lcf(r) == lcf(a) * c))
    ex.assume(zeroval(r)); return r
def k_mono(ex, c, d, like):
    r = newpoly(ex, 'mono', like); ex.assume(xdef(Iv(0), r))
    ex.assume(znum(r.n) == z3.If(c == 0, 0, znum(d) + 1)); ex.assume(z3.Implies(c != 0, lcf(r) == c)); ex.assume_nl(VS(r, r.n) == c * Xof(r)(znum(d))); ex.assume(zeroval(r)); return r
def k_vec(ex, v):
    """polynomial from a coefficient vector: leading zeros are dropped"""
    r = newpoly(ex, 'fromvec', v)
    for i in [znum(r.n) - 1, znum(v.n) - 1] + ex.ghost.get('at', []): ex.assume(z3.Implies(i >= 0, cf(r, i) == cf(v, i)))
    ex.assume(znum(r.n) <= znum(v.n)); ex.assume(VS(r, r.n) == VS(v, v.n)); ex.assume(zeroval(r)); return r
def prec(ex, this_or, r): return Rec(UPQ, {'mMainVar': VAR(ex), 'mCoefficients': r})
def numv(v, x):
    if isinstance(x, (int, Fraction)): return Rv(str(x)) if isq(v) else Iv(int(x))
    return zreal(x) if isq(v) else znum(x)
def k_op(op):
    """member op= and free op of two polynomials, or of a polynomial and a number"""
    def h(ex, f, this, args, node):
        ops = ([this] if this is not None else []) + list(args)
        kinds = [isinstance(ex.val(o), Rec) and ex.val(o).q == UPQ for o in ops]
        if len(ops) == 1:
            if op != '-' or not kinds[0]: return NotImplemented
            a = CV_(ex, ops[0]); z = SVec(0, a.cols, a.shape); ex.assume(vsdef(z, Iv(0)))
            r = newpoly(ex, 'neg', a); ex.assume(znum(r.n) == znum(a.n)); ex.assume(z3.Implies(znum(a.n) >= 1, lcf(r) == -lcf(a))); ex.assume(VS(r, r.n) == -VS(a, a.n)); ex.assume(zeroval(r))
            for i in ex.ghost.get('at', []): ex.assume(cf(r, i) == -cf(a, i))
            return prec(ex, None, r)
        if len(ops) != 2 or not any(kinds): return NotImplemented
        a, b = [CV_(ex, o) if k else ex.val(o) for o, k in zip(ops, kinds)]
        if not all(isinstance(o, SVec) or isscalar(o) for o in (a, b)): return NotImplemented
        like = a if kinds[0] else b
        for o in (a, b):
            if isinstance(o, SVec): ex.assume(vsdef(o, Iv(0))); ex.assume(zeroval(o))
        if all(kinds):
            if op == '*': r = k_mul(ex, a, b)
            elif op in '+-': r = k_lin(ex, a, b, 1 if op == '+' else -1)
            else: return NotImplemented
        elif op == '*': r = k_scale(ex, like, numv(like, b if kinds[0] else a))
        elif op == '/' and kinds[0]: r = k_scale(ex, a, numv(a, b), inv=True)
        else: return NotImplemented
        if f['sn'].endswith('='):
            old = ex.read(this); ex.write(this, Rec(UPQ, {'mMainVar': old.f['mMainVar'], 'mCoefficients': r})); return this
        return prec(ex, None, r)
    return h
def k_ctor(ex, f, this, args, node):
    vals = [ex.val(a) for a in args]
    if len(vals) >= 2 and isinstance(vals[0], Rec) and vals[0].q == 'carl::Variable':
        integer = 'mpz' in ex.p.types[f['cls']]['s'].split('UnivariatePolynomial')[1]
        like = SVec(0, [z3.Const('like', IA if integer else RA)], INT if integer else REAL)
        if isscalar(vals[1]): return Rec(UPQ, {'mMainVar': vals[0], 'mCoefficients': k_mono(ex, numv(like, vals[1]), vals[2] if len(vals) > 2 and vals[2] is not None else 0, like)})
        if isinstance(vals[1], (SVec, Vec)): return Rec(UPQ, {'mMainVar': vals[0], 'mCoefficients': k_vec(ex, as_svec(ex, vals[1], like.shape))})
    return NotImplemented
KOPS = {}
for o in '+-*/':
    KOPS[f'{UPQ}::operator{o}='] = k_op(o); KOPS[f'carl::operator{o}'] = k_op(o)
KOPS[f'{UPQ}::operator-'] = k_op('-'); KOPS[f'{UPQ}::UnivariatePolynomial'] = k_ctor
PW = z3.Function('PW', z3.RealSort(), z3.IntSort(), z3.RealSort())
def pwdef(v, k): k = znum(k); return z3.And(PW(v, Iv(0)) == 1, z3.Implies(k >= 0, PW(v, k + 1) == v * PW(v, k)))
def pwsq(v, k): return z3.Implies(k >= 0, PW(v, 2 * k) == PW(v * v, k))       # lemma_pwsq
def _l(ex): v = ex.fresh('v', 'real'); return lambda k: pwsq(v, k), lambda k: [pwdef(v, 2 * k), pwdef(v, 2 * k + 1), pwdef(v * v, k)]
lemma('pwsq', _l)
def inv_pow(s, L):
    res, mult = L.v('res').f['mCoefficients'], L.v('mult').f['mCoefficients']; e = znum(L.v('exp')); e0 = s.ghost['e0']; p = s.ghost['p']; vm = VS(mult, mult.n)
    h = e / 2
    for q in (e, h): s.assume(pwdef(vm, q))
    s.assume(pwdef(vm, 2 * h)); s.assume(pwsq(vm, h))
    yield 'canonical', z3.And(wf(res), wf(mult), znum(mult.n) >= 1, znum(res.n) >= 1)
    yield 'exponent', e >= 0
    yield 'remaining power', VS(res, res.n) * PW(vm, e) == PW(VS(p, p.n), e0)
@unit('pow', 'c12.pow', loops={'pow': Loop(inv=inv_pow, variant=lambda s, L: L.v('exp'))}, contracts=KOPS)
def _(ex):
    a = POLY(ex, 'p'); v = CV_(ex, a); e = nn(ex, 'e'); inp(ex, 'Z', e); ex.ghost['e0'] = e; ex.ghost['p'] = v; ex.assume(vsdef(v, Iv(0))); ex.assume(xdef(Iv(0))); ex.assume(zeroval(v)); val = VS(v, v.n); ex.assume(pwdef(val, Iv(0))); ex.assume(pwdef(val, e - 1))
    r = R(ex, 'u_pow', a, e); w = CV_(ex, r); ex.assume(vsdef(w, Iv(0))); ex.prove('the value of the power is the power of the value', VS(w, w.n) == PW(val, e)); canon(ex, r)
def inv_map(s, L):
    m = s.ghost['map']; v = this_vec(L); ks, cs = m.cols; j = z3.Int('j!m')
    for g in IDX(s):
        yield 'coefficients of the processed exponents', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), z3.And(z3.Select(ks, j) < znum(v.n), z3.Select(v.cols[0], z3.Select(ks, j)) == z3.Select(cs, j))))
        yield 'all other positions are zero', z3.Implies(z3.And(g >= 0, g < znum(v.n), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), z3.Select(ks, j) != g))), z3.Select(v.cols[0], g) == 0)
    yield 'length', z3.If(L.k == 0, znum(v.n) == 0, znum(v.n) == z3.Select(ks, L.k - 1) + 1)
@unit('map', 'c12.map', loops={**BASE, 'UnivariatePolynomial': Loop(inv=inv_map)})
def _(ex):
    m = fresh_svec(ex, 'm', TupShape([INT, REAL])); ks, cs = m.cols; i, j = z3.Ints('i!m j!m'); ex.ghost['map'] = m
    ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m.n), z3.Select(ks, i) < z3.Select(ks, j)))); ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m.n), z3.Select(ks, j) >= 0)))
    inp(ex, 'M', m); w = nn(ex, 'w'); ex.assume(w < m.n); g = GI(ex)
    r = R(ex, 'u_map', VAR(ex), ex.alloc(m)); v = CV_(ex, r)
    ex.prove('an exponent of the map gets its coefficient', z3.Implies(g == z3.Select(ks, w), coef(v, g) == z3.Select(cs, w)))
    ex.prove('all other coefficients are zero', z3.Or(coef(v, g) == 0, z3.Exists([j], z3.And(j >= 0, j < m.n, z3.Select(ks, j) == g)))); canon(ex, r)
PRINT['M'] = lambda m, v: ';'.join(f'{mval(m, z3.Select(v.cols[0], i))}:{qstr(mval(m, z3.Select(v.cols[1], i)))}' for i in range(int(mval(m, v.n)))) or '-'
def inv_mod(s, L):
    o = L.old_this.f['mCoefficients']; v = this_vec(L); m = s.ghost['m']
    yield 'length', znum(v.n) == znum(o.n)
    for g in IDX(s): yield 'reduced coefficients', z3.Implies(g >= 0, z3.Select(v.cols[0], g) == z3.If(g < L.k, MOD(z3.Select(o.cols[0], g), m), z3.Select(o.cols[0], g)))
MOD = z3.Function('MOD', z3.IntSort(), z3.IntSort(), z3.IntSort())
@unit('zmod', 'c12.mod', loops={**BASE, 'mod': Loop(inv=inv_mod)}, contracts={'carl::mod': lambda ex, f, this, args, node: MOD(ex.val(args[0]), ex.val(args[1]))})
def _(ex):
    p = POLY(ex, 'p', integer=True); m = inp(ex, 'Z', ex.fresh('m', 'int')); ex.assume(m > 0); ex.ghost['m'] = m; v = CV_(ex, p); g = GI(ex); ex.assume(MOD(Iv(0), m) == 0)
    R(ex, 'u_zmod', p, ex.alloc(m)); w = CV_(ex, p); ex.prove('every coefficient is reduced', coefz(w, g) == MOD(coefz(v, g), m)); canon(ex, p)
# ================================================================== C13: division, remainders, greatest common divisors
# Identities are stated for the values at an arbitrary point x (x is a free constant), hence for the polynomials.
def val(v): return VS(v, v.n)
def base(ex, *vs):
    for v in vs: ex.assume(vsdef(v, Iv(0))); ex.assume(zeroval(v)); ex.assume(xdef(Iv(0), v))
def degless(ex, r, b, what='the remainder'): ex.prove(f'{what} has smaller degree than the divisor', z3.Or(znum(r.n) == 0, znum(r.n) < znum(b.n)))
def pol(L, name): return L.v(name).f['mCoefficients']
def h_div(s, L): L.ghost['c0'] = L.v('coeffs'); L.ghost['r0'] = L.v('result').f['remainder'].f['mCoefficients']
def e_div(s, L):
    v, w = L.ghost['c0'], L.v('coeffs'); b = pol(L, 'divisor'); i = znum(L.ghost['r0'].n) - znum(b.n)
    s.assume(z3.Implies(z3.And(w.cols[0] == z3.Store(v.cols[0], i, z3.Select(w.cols[0], i)), znum(w.n) == znum(v.n)), l_store(v, w, i, znum(v.n))))      # lemma_store
def b_div(s, L): c = L.v('coeffs'); s.assume(l_lin(c, c, c, 0, 0, znum(c.n)))      # lemma_lin: a list of zeros has value zero
def inv_div(s, L):
    a, b, c = pol(L, 'dividend'), pol(L, 'divisor'), L.v('coeffs'); r = L.v('result').f['remainder'].f['mCoefficients']
    yield 'quotient length', znum(c.n) == znum(a.n) - znum(b.n) + 1
    yield 'remainder in range', z3.And(znum(r.n) >= znum(b.n), znum(r.n) <= znum(a.n), znum(b.n) >= 1)
    yield 'canonical', wf(r)
    yield 'dividend = quotient * divisor + remainder', val(a) == val(c) * val(b) + val(r)
DIVL = Loop(inv=inv_div, begin=b_div, havoc=h_div, end=e_div, variant=lambda s, L: L.v('result').f['remainder'].f['mCoefficients'].n)
@unit('divide', 'c13.div', prop='C13', loops={**BASE, 'divide': DIVL}, contracts=KOPS)
def _(ex):
    a, b = POLY(ex, 'a'), POLY(ex, 'b', nz=True); va, vb = CV_(ex, a), CV_(ex, b); base(ex, va, vb)
    r = R(ex, 'u_div', a, b); q, m = CV_(ex, r.f['quotient']), CV_(ex, r.f['remainder']); base(ex, q, m)
    ex.prove('dividend = quotient * divisor + remainder', val(va) == val(q) * val(vb) + val(m)); degless(ex, m, vb); canon(ex, r.f['quotient'], 'the quotient'); canon(ex, r.f['remainder'], 'the remainder')
    ex.prove('the operands are unchanged', z3.And(CV_(ex, a).cols[0] == va.cols[0], CV_(ex, b).cols[0] == vb.cols[0]))
def k_quot(ex, f, this, args, node):
    """truncating quotient of integers (C07): the remainder is smaller than the divisor; exact quotient in a field"""
    a, b = [ex.val(x) for x in args]
    if not (isscalar(a) and isscalar(b)): return NotImplemented
    if z3.is_real(zr(a)): ex.prove('quotient by zero', zreal(b) != 0); q = ex.ghost['quo'] = ex.fresh('quo', 'real'); ex.assume_nl(q * zreal(b) == zreal(a)); return q
    q, m = ex.fresh('quo', 'int'), ex.fresh('rem', 'int'); b = znum(b); ex.assume_nl(znum(a) == q * b + m); ex.assume(z3.And(m < z3.If(b < 0, -b, b), -m < z3.If(b < 0, -b, b))); return q
def zr(x): return x if isz(x) else (Rv(str(x)) if isinstance(x, Fraction) else Iv(x))
def h_zdiv(s, L): L.ghost['c0'] = L.v('coeffs'); L.ghost['r0'] = L.v('result').f['remainder'].f['mCoefficients']
def e_zdiv(s, L):
    v, w = L.ghost['c0'], L.v('coeffs'); i = znum(L.v('degdiff')) - znum(L.v('offset')) + 1
    s.assume(z3.Implies(z3.And(w.cols[0] == z3.Store(v.cols[0], i, z3.Select(w.cols[0], i)), znum(w.n) == znum(v.n)), l_store(v, w, i, znum(v.n))))
def inv_zdiv(s, L):
    a, b, c = pol(L, 'dividend'), pol(L, 'divisor'), L.v('coeffs'); r = L.v('result').f['remainder'].f['mCoefficients']; off = znum(L.v('offset')); lc = lcf(b); g = s.ghost['at'][0]
    yield 'quotient length', z3.And(znum(c.n) == znum(a.n) - znum(b.n) + 1, znum(c.n) >= 1, off >= 0, off <= znum(c.n))
    yield 'remainder in range', z3.And(znum(r.n) <= znum(a.n), znum(b.n) >= 1)
    yield 'canonical', wf(r)
    yield 'treated positions are reduced', z3.Implies(z3.And(g >= znum(a.n) - off), z3.And(cf(r, g) < z3.If(lc < 0, -lc, lc), -cf(r, g) < z3.If(lc < 0, -lc, lc)))
    yield 'dividend = quotient * divisor + remainder', val(a) == val(c) * val(b) + val(r)
@unit('zdivide', 'c13.zdiv', prop='C13', loops={**BASE, 'divide': Loop(inv=inv_zdiv, begin=b_div, havoc=h_zdiv, end=e_zdiv)}, contracts={**KOPS, 'carl::quotient': k_quot})
def _(ex):
    a, b = POLY(ex, 'a', integer=True), POLY(ex, 'b', nz=True, integer=True); va, vb = CV_(ex, a), CV_(ex, b); base(ex, va, vb); g = GI(ex); ex.ghost['at'] = [g]; lc = lcf(vb)
    r = R(ex, 'u_zdiv', a, b); q, m = CV_(ex, r.f['quotient']), CV_(ex, r.f['remainder']); base(ex, q, m)
    ex.prove('dividend = quotient * divisor + remainder', val(va) == val(q) * val(vb) + val(m))
    ex.prove('coefficients from the degree of the divisor on are smaller than its leading coefficient', z3.Implies(g >= znum(vb.n) - 1, z3.And(cf(m, g) < z3.If(lc < 0, -lc, lc), -cf(m, g) < z3.If(lc < 0, -lc, lc))))
    canon(ex, r.f['quotient'], 'the quotient'); canon(ex, r.f['remainder'], 'the remainder')
# ---- remainder_helper
def k_rem(ex, f, this, args, node):
    """remainder_helper without prefactor, remainder of two polynomials: dividend = Q * divisor + result"""
    if len(args) > 2 and args[2] is not NULL: return NotImplemented
    a, b = CV_(ex, args[0]), CV_(ex, args[1]); base(ex, a, b); ex.prove('the divisor is not zero', znum(b.n) >= 1)
    if ex.ghost.get('rec') is not None: ex.prove('recursion on a smaller dividend', znum(a.n) < znum(ex.ghost['rec'].n))
    r = newpoly(ex, 'rem', a); q = newpoly(ex, 'quo', a); base(ex, r, q)
    ex.assume(z3.Or(znum(r.n) == 0, znum(r.n) < znum(b.n))); ex.assume_nl(val(a) == val(q) * val(b) + val(r)); ex.ghost['qrec'] = val(q); return prec(ex, None, r)
def inv_remp(s, L):
    # coefficients below the degree difference are multiplied by the prefactor
    o = L.old('coeffs'); v = L.v('coeffs'); f = s.ghost['pf']; j = z3.Int('j!rp')
    yield 'length', znum(v.n) == znum(o.n)
    for g in IDX(s): yield 'scaled', z3.Implies(z3.And(g >= 0, g < znum(v.n)), z3.Select(v.cols[0], g) == z3.If(g < L.k, f * z3.Select(o.cols[0], g), z3.Select(o.cols[0], g)))
def inv_rem(s, L):
    a, b, v = pol(L, 'dividend'), pol(L, 'divisor'), L.v('coeffs'); dd = znum(a.n) - znum(b.n); f = zreal(L.v('factor')); i = znum(L.v('i')); j = z3.Int('j!rm'); pf = s.ghost['pf']
    if isinstance(v, Vec): v = as_svec(s, v, REAL)
    yield 'length', z3.And(znum(v.n) == dd + i, i >= 0, i <= znum(b.n) - 1)
    for g in IDX(s): yield 'reduced coefficients', z3.Implies(z3.And(g >= 0, g < dd + i), z3.Select(v.cols[0], g) == pf * z3.Select(a.cols[0], g) + mc(-f, b, g - dd))
def mc(t, v, i):
    """t * cf(v, i) with the product inside the case distinction"""
    i = znum(i); return z3.If(z3.And(i >= 0, i < znum(v.n)), t * z3.Select(v.cols[0], i), Rv(0) if isq(v) else Iv(0))
def combine(ex, c, a, b, dd, s, t):
    """coefficientwise c = s*a + t*x^dd*b (proved at an arbitrary index), so the values satisfy the same equation (lemma_lin, lemma_shift, lemma_pad)"""
    g = GI(ex); n = znum(a.n); top = s * lcf(a) + t * lcf(b)
    ex.prove('the leading terms cancel', top == 0); ex.prove('the degrees match', z3.And(znum(b.n) + dd == n, znum(c.n) == n - 1))
    for nm, cs in (('below the leading one ', g < n - 1), ('', g >= n)): ex.prove(f'every coefficient {nm}is the prescribed combination', z3.Implies(cs, cf(c, g) == mc(s, a, g) + mc(t, b, g - dd)))
    ex.assume_nl(val(c) == s * val(a) + t * (Xof(a)(dd) * val(b)))
REMC = {**KOPS, 'carl::quotient': k_quot}
def k_ctor_rem(ex, f, this, args, node):
    # the reduced coefficient list: its value is prefactor * dividend - factor * x^d * divisor
    vals = [ex.val(x) for x in args]
    if len(vals) >= 2 and isinstance(vals[1], (SVec, Vec)):
        v = as_svec(ex, vals[1], REAL); va, vb, pf = ex.ghost['a'], ex.ghost['b'], ex.ghost['pf']; dd = znum(va.n) - znum(vb.n); fa_ = ex.ghost['fac'] = ex.ghost['quo']
        combine(ex, v, va, vb, dd, pf, -fa_); r = k_vec(ex, v); ex.ghost['red'] = r
        return Rec(UPQ, {'mMainVar': vals[0], 'mCoefficients': r})
    return k_ctor(ex, f, this, args, node)
def recursive(contract):
    """the first call is the body under proof, the calls inside it use the contract"""
    def h(ex, f, this, args, node):
        if not ex.ghost.get('entered'): ex.ghost['entered'] = 1; return NotImplemented
        return contract(ex, f, this, args, node)
    return h
def rem_unit(name, root, pref, op):
    @unit(name, op, prop='C13', loops={**BASE, 'remainder_helper#0': Loop(inv=inv_remp), 'remainder_helper#1': Loop(inv=inv_rem), 'remainder_helper#2': Loop(inv=inv_rem)}, contracts={**REMC, f'{UPQ}::UnivariatePolynomial': k_ctor_rem, 'carl::remainder_helper': recursive(k_rem)})
    def _(ex):
        a, b = POLY(ex, 'a'), POLY(ex, 'b', nz=True); va, vb = CV_(ex, a), CV_(ex, b); base(ex, va, vb); ex.ghost.update(a=va, b=vb, rec=va); GI(ex); ex.assume(znum(va.n) < 1 << 60)
        pf = Rv(1)
        if pref: pf = inp(ex, 'Q', ex.fresh('pf', 'real')); ex.assume(pf != 0)
        ex.ghost['pf'] = pf
        r = R(ex, root, *([a, b] + ([ex.alloc(pf)] if pref else []))); m = CV_(ex, r); base(ex, m); degless(ex, m, vb); canon(ex, r)
        dd = znum(va.n) - znum(vb.n); small = z3.Or(znum(va.n) == 0, dd < 0)
        qrec = ex.ghost.get('qrec'); fac = ex.ghost.get('fac')
        if fac is not None: ex.prove('prefactor * dividend = Q * divisor + remainder', pf * val(va) == ((qrec if qrec is not None else 0) + fac * X(dd)) * val(vb) + val(m))
        else:
            # nothing to reduce, or a constant divisor: every polynomial is a multiple of it
            ex.assume(vsdef(vb, Iv(0))); ex.prove('an unreduced dividend is returned as it is, a constant divisor leaves nothing', z3.If(small, val(m) == val(va), z3.And(znum(vb.n) == 1, znum(m.n) == 0)))
rem_unit('rem', 'u_rem', False, 'c13.rem'); rem_unit('remp', 'u_remp', True, 'c13.remp')
# ---- pseudo remainders
PWZ = z3.Function('PWZ', z3.IntSort(), z3.IntSort(), z3.IntSort())
def PWof(v): return PW if isq(v) else PWZ
def pdef(v, x, k): f = PWof(v); k = znum(k); return z3.And(f(x, Iv(0)) == 1, z3.Implies(k >= 0, f(x, k + 1) == x * f(x, k)))
def padd(v, x, m, k): f = PWof(v); return z3.Implies(z3.And(m >= 0, k >= 0), f(x, m + k) == f(x, m) * f(x, k))
for q in (True, False):
    def _l(ex, q=q):
        v = vec(ex, 'v', REAL if q else INT); m = nn(ex, 'm'); x = ex.fresh('x', 'real' if q else 'int'); return lambda k: padd(v, x, m, k), lambda k: [pdef(v, x, m + k), pdef(v, x, k)]
    lemma('padd' + ('' if q else '_z'), _l, prop='C13')
def k_trunc(ex, f, this, args, node):
    """truncate drops the leading term (C12, trunc)"""
    o = ex.read(this); v = CV_(ex, this); r = newpoly(ex, 'red', v); ex.assume(z3.And(znum(r.n) <= znum(v.n) - 1))
    j = z3.Int('j!tr'); ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < znum(v.n) - 1), z3.Select(v.cols[0], j) == cf(r, j)), patterns=[z3.Select(v.cols[0], j), z3.Select(r.cols[0], j)]))
    ex.write(this, Rec(UPQ, {'mMainVar': o.f['mMainVar'], 'mCoefficients': r})); return VOID
def k_npow(ex, f, this, args, node):
    """number to a power (C07)"""
    a, e = ex.val(args[0]), ex.val(args[1])
    if not isscalar(a): return NotImplemented
    v = ex.ghost['a']; a = numv(v, a); ex.assume(pdef(v, a, Iv(0))); ex.prove('exponent is not negative', znum(e) >= 0); return PWof(v)(a, znum(e))
def b_prem(s, L): L.ghost['q'] = s.ghost['pq'] = (Rv(0) if isq(pol(L, 'dividend')) else Iv(0)); s.assume(pdef(pol(L, 'divisor'), lcf(pol(L, 'divisor')), Iv(0)))
def h_prem(s, L):
    q = newpoly(s, 'pquo', pol(L, 'dividend')); L.ghost['q'] = s.ghost['pq'] = val(q); L.ghost['r0'] = s.ghost['r0'] = pol(L, 'res'); b = pol(L, 'divisor'); k = znum(L.v('reductions')); s.assume(pdef(b, lcf(b), k)); s.ghost['red'] = k
    s.assume(vsdef(pol(L, 'res'), Iv(0))); s.assume(zeroval(pol(L, 'res')))
def e_prem(s, L):
    r0 = L.ghost['r0']; b = pol(L, 'divisor'); L.ghost['q'] = s.ghost['pq'] = lcf(b) * L.ghost['q'] + lcf(r0) * Xof(b)(znum(r0.n) - znum(b.n))
def inv_prem(s, L):
    a, b, r = pol(L, 'dividend'), pol(L, 'divisor'), pol(L, 'res'); k = znum(L.v('reductions')); red = pol(L, 'reduct')
    yield 'canonical', z3.And(wf(r), znum(r.n) <= znum(a.n))
    yield 'number of reductions', z3.And(k >= 0, k <= znum(a.n) - znum(r.n), k <= znum(a.n) - znum(b.n) + 1)
    yield 'lc^reductions * dividend = Q * divisor + rest', PWof(a)(lcf(b), k) * val(a) == L.ghost['q'] * val(b) + val(r)
def inv_prem1(s, L):
    r, b, v = pol(L, 'res'), pol(L, 'divisor'), L.v('newR'); i = znum(L.v('i')); lc = lcf(b)
    yield 'length', z3.And(znum(v.n) == znum(r.n) - 1, i >= 0, i <= znum(v.n))
    for g in IDX(s): yield 'scaled coefficients', z3.Implies(z3.And(g >= 0, g < i), z3.Select(v.cols[0], g) == lc * z3.Select(r.cols[0], g))
def inv_prem2(s, L):
    r, b, red, v = pol(L, 'res'), pol(L, 'divisor'), pol(L, 'reduct'), L.v('newR'); i = znum(L.v('i')); lb, lr = lcf(b), lcf(r); off = znum(r.n) - znum(b.n)
    yield 'length', z3.And(znum(v.n) == znum(r.n) - 1, i >= 0, i <= znum(red.n))
    for g in IDX(s): yield 'reduced coefficients', z3.Implies(z3.And(g >= 0, g < znum(v.n)), z3.Select(v.cols[0], g) == lb * z3.Select(r.cols[0], g) + z3.If(z3.And(g >= off, g < off + i), -lr * z3.Select(red.cols[0], g - off), lb * 0))
def k_ctor_prem(ex, f, this, args, node):
    vals = [ex.val(x) for x in args]
    if len(vals) >= 2 and isinstance(vals[1], (SVec, Vec)):
        r0, b = ex.ghost['r0'], ex.ghost['b']; v = as_svec(ex, vals[1], r0.shape); dd = znum(r0.n) - znum(b.n)
        combine(ex, v, r0, b, dd, lcf(b), -lcf(r0)); return Rec(UPQ, {'mMainVar': vals[0], 'mCoefficients': k_vec(ex, v)})
    return k_ctor(ex, f, this, args, node)
def IDXP(ex, va, vb): GI(ex)
for q in (True, False):
    @unit('prem' if q else 'zprem', 'c13.prem' if q else 'c13.zprem', prop='C13', loops={**BASE, 'pseudo_remainder#0': Loop(inv=inv_prem, begin=b_prem, havoc=h_prem, end=e_prem, variant=lambda s, L: pol(L, 'res').n), 'pseudo_remainder#1': Loop(inv=inv_prem1), 'pseudo_remainder#2': Loop(inv=inv_prem2), 'pseudo_remainder#3': Loop(inv=inv_prem2)},
          contracts={**KOPS, f'{UPQ}::UnivariatePolynomial': k_ctor_prem, f'{UPQ}::truncate': k_trunc, 'carl::pow': k_npow})
    def _(ex, q=q):
        a, b = POLY(ex, 'a', integer=not q), POLY(ex, 'b', nz=True, integer=not q); va, vb = CV_(ex, a), CV_(ex, b); base(ex, va, vb); g = GI(ex); ex.ghost.update(a=va, b=vb)
        ex.ghost['idx'] = []
        r = R(ex, 'u_prem' if q else 'u_zprem', a, b); m = CV_(ex, r); base(ex, m); degless(ex, m, vb); canon(ex, r)
        d = znum(va.n) - znum(vb.n); lc = lcf(vb); small = z3.Or(znum(va.n) == 0, d < 0); pq = ex.ghost.get('pq')
        if pq is None: ex.prove('an unreduced dividend is returned as it is, a constant divisor leaves nothing', z3.If(small, val(m) == val(va), z3.And(znum(vb.n) == 1, znum(m.n) == 0)))
        else:
            k = ex.ghost.get('red', Iv(0)); rest = d + 1 - k; P = PWof(va); ex.assume(padd(va, lc, rest, k)); ex.assume(pdef(va, lc, Iv(0))); ex.assume(pdef(va, lc, rest - 1))
            pr, pk, pd = P(lc, rest), P(lc, k), P(lc, d + 1); ex.assume(z3.Implies(z3.And(rest >= 0, k >= 0), pd == pr * pk)) 
            ex.prove('the number of reductions does not exceed the exponent', rest >= 0); A, B, M = val(va), val(vb), val(m)
            ex.prove('lc^(d+1) * dividend = Q * divisor + remainder', z3.Implies(rest >= 0, pd * A == (pr * pq) * B + M))
def k_remp(ex, f, this, args, node):
    """remainder with a prefactor (unit remp); without one (unit rem)"""
    a, b = CV_(ex, args[0]), CV_(ex, args[1]); base(ex, a, b); ex.prove('the divisor is not zero', znum(b.n) >= 1)
    pf = numv(a, ex.val(args[2])) if len(args) > 2 else Rv(1); small = z3.Or(znum(a.n) == 0, znum(a.n) < znum(b.n))
    r = newpoly(ex, 'rem', a); q = newpoly(ex, 'quo', a); base(ex, r, q); ex.assume(z3.Or(znum(r.n) == 0, znum(r.n) < znum(b.n)))
    ex.assume_nl(z3.If(small, val(r) == val(a), pf * val(a) == val(q) * val(b) + val(r))); ex.ghost['qrec'] = z3.If(small, val(q) * 0, val(q)) if len(args) > 2 else z3.If(small, Rv(0), val(q)); ex.ghost['pf'] = pf
    return prec(ex, None, r)
@unit('sprem', 'c13.sprem', prop='C13', contracts={**KOPS, 'carl::remainder': k_remp, 'carl::pow': k_npow})
def _(ex):
    a, b = POLY(ex, 'a'), POLY(ex, 'b', nz=True); va, vb = CV_(ex, a), CV_(ex, b); base(ex, va, vb); ex.ghost['a'] = va
    r = R(ex, 'u_sprem', a, b); m = CV_(ex, r); base(ex, m); degless(ex, m, vb); d = znum(va.n) - znum(vb.n); small = z3.Or(znum(va.n) == 0, d < 0); lc = lcf(vb)
    if ex.ghost.get('qrec') is None: ex.prove('a dividend of smaller degree is returned as it is', z3.And(small, val(m) == val(va)))
    else:
        e = z3.If((d + 1) % 2 == 1, d + 2, d + 1); ex.prove('an even power of the leading coefficient times the dividend is congruent to the result', z3.And(z3.Not(small), PW(lc, e) * val(va) == ex.ghost['qrec'] * val(vb) + val(m)))
# ---- greatest common divisors: G divides both (U, W polynomials) and G = S * a + T * b
def k_gcdrec(ex, f, this, args, node):
    a, b = CV_(ex, args[0]), CV_(ex, args[1]); base(ex, a, b); ex.prove('the first operand is not zero', znum(a.n) >= 1)
    if ex.ghost.get('rec') is not None: ex.prove('recursion on a smaller second operand', znum(b.n) < znum(ex.ghost['rec'].n))
    r = newpoly(ex, 'gcd', a); base(ex, r); ex.assume(znum(r.n) >= 1); w = [val(newpoly(ex, n, a)) for n in 'uwst']
    ex.assume_nl(val(a) == w[0] * val(r)); ex.assume_nl(val(b) == w[1] * val(r)); ex.assume_nl(val(r) == w[2] * val(a) + w[3] * val(b)); ex.ghost['gw'] = w; ex.ghost['graw'] = r; return prec(ex, None, r)
@unit('gcdrec', 'c13.gcd', prop='C13', contracts={**KOPS, 'carl::remainder': k_remp, 'carl::gcd_recursive': k_gcdrec})
def _(ex):
    a, b = POLY(ex, 'a', nz=True), POLY(ex, 'b'); va, vb = CV_(ex, a), CV_(ex, b); base(ex, va, vb); ex.ghost['rec'] = vb; ex.assume(znum(vb.n) <= znum(va.n))
    for i, f in ex.p.funcs.items():
        if f['sn'] == 'carl::gcd_recursive': break
    else: raise Unsupported('gcd_recursive not extracted')
    r = body(ex, i, [a, b]); g = CV_(ex, r); base(ex, g); ex.prove('the result is not zero', znum(g.n) >= 1)
    A, B, G = val(va), val(vb), val(g)
    if ex.ghost.get('gw') is None: ex.prove('the gcd with zero is the other operand', z3.And(znum(vb.n) == 0, G == A))
    else:
        u, w, s, t = ex.ghost['gw']; q = ex.ghost['qrec']
        ex.prove('the result divides the first operand', A == (q * u + w) * G); ex.prove('the result divides the second operand', B == u * G); ex.prove('the result is a combination of the operands', G == t * A + (s - q * t) * B)
def body(ex, i, args):
    """run the body of a function that has a contract itself"""
    f = ex.p.funcs[i]; c = ex.unit['contracts']; sn = f['sn']; h = c[sn]
    def first(ex, f, this, args, node):
        if not ex.ghost.get('entered'): ex.ghost['entered'] = 1; return NotImplemented
        return h(ex, f, this, args, node)
    ex.unit = {**ex.unit, 'contracts': {**c, sn: first}}; ex.ghost.pop('entered', None)
    return ex.call(i, None, args, None)
def k_normd(ex, f, this, args, node):
    """normalized: the polynomial divided by its leading coefficient (C12, norm)"""
    v = CV_(ex, this); base(ex, v)
    r = newpoly(ex, 'normd', v); base(ex, r); ex.assume(znum(r.n) == znum(v.n)); ex.assume(z3.Implies(znum(v.n) >= 1, lcf(r) == 1)); ex.assume_nl(z3.Implies(znum(v.n) >= 1, val(v) == val(r) * lcf(v))); ex.ghost.setdefault('normd', []).append((r, v)); return prec(ex, None, r)
@unit('gcd', 'c13.gcd', prop='C13', contracts={**KOPS, 'carl::gcd_recursive': k_gcdrec, f'{UPQ}::normalized': k_normd})
def _(ex):
    a, b = POLY(ex, 'a', nz=True), POLY(ex, 'b', nz=True); va, vb = CV_(ex, a), CV_(ex, b); base(ex, va, vb)
    r = R(ex, 'u_gcd', a, b); g = CV_(ex, r); base(ex, g); u, w, s, t = ex.ghost['gw']; A, B, G = val(va), val(vb), val(g); la, lb = lcf(va), lcf(vb)
    sw = ex.known(znum(va.n) < znum(vb.n)); ua, ub, sa, sb = (w, u, t, s) if sw else (u, w, s, t); lg = lcf(ex.ghost['graw']); N = ex.ghost['normd']
    ex.prove('the gcd is monic', z3.And(znum(g.n) >= 1, lcf(g) == 1))
    (NA, _), (NB, _) = [[x for x in N if x[1] is v][0] for v in (va, vb)]; gr = val(ex.ghost['graw'])
    eqs = [(A, val(NA) * la), (B, val(NB) * lb), (val(NA), ua * gr), (val(NB), ub * gr), (gr, G * lg)]
    by_rewriting(ex, 'the gcd divides the first operand', A, (la * ua * lg) * G, eqs); by_rewriting(ex, 'the gcd divides the second operand', B, (lb * ub * lg) * G, eqs)
    ex.prove('combination of the normalised operands', gr == sa * val(NA) + sb * val(NB))
    by_rewriting(ex, 'the gcd is a combination of the operands', (sa * lb) * A + (sb * la) * B, (sa * val(NA) + sb * val(NB)) * (la * lb), eqs[:2])
def by_rewriting(ex, name, l, r, eqs):
    """l == r after replacing the left sides of equations that hold by their right sides"""
    for a, b in eqs: ex.prove(name + ' (equation used)', a == b); l, r = z3.substitute(l, (a, b)), z3.substitute(r, (a, b))
    ex.prove(name, z3.simplify(l - r, som=True) == 0)
# ---- extended gcd: c = c1*a' + c2*b', d = d1*a' + d2*b' for the normalised operands a', b'; a' and b' are combinations of c and d
def k_div(ex, f, this, args, node):
    """division (unit divide)"""
    if not isinstance(ex.val(args[1]), Rec): return NotImplemented
    a, b = CV_(ex, args[0]), CV_(ex, args[1]); base(ex, a, b); ex.prove('the divisor is not zero', znum(b.n) >= 1)
    q, r = newpoly(ex, 'quo', a), newpoly(ex, 'rem', a); base(ex, q, r); ex.assume_nl(val(a) == val(q) * val(b) + val(r)); ex.assume(z3.Or(znum(r.n) == 0, znum(r.n) < znum(b.n))); ex.ghost['divq'] = val(q)
    return Rec('carl::DivisionResult', {'quotient': prec(ex, None, q), 'remainder': prec(ex, None, r)})
def eg_state(L): return [val(pol(L, n)) for n in ('c', 'd', 'c1', 'c2', 'd1', 'd2')]
def eg_norm(s): return [val(x[0]) for x in s.ghost['normd'][:2]]
def b_eg(s, L):
    for n in ('c', 'd', 'c1', 'c2', 'd1', 'd2'): base(s, pol(L, n))
    one, zero = Rv(1), Rv(0); L.ghost['x'] = s.ghost['x'] = (one, zero, zero, one)
def h_eg(s, L):
    L.ghost['x'] = s.ghost['x'] = tuple(val(newpoly(s, n, pol(L, 'c'))) for n in ('x1', 'x2', 'y1', 'y2')); L.ghost['st'] = eg_state(L)
    for n in ('c', 'd', 'c1', 'c2', 'd1', 'd2'): base(s, pol(L, n))
def e_eg(s, L):
    C, D, c1, c2, d1, d2 = L.ghost['st']; C_, D_, c1_, c2_, d1_, d2_ = eg_state(L); q = s.ghost['divq']; x1, x2, y1, y2 = L.ghost['x']; A, B = eg_norm(s)
    for n, eqn in (('next divisor', C_ == D), ('next rest', C == q * D + D_), ('cofactors', z3.And(c1_ == d1, c2_ == d2, d1_ == c1 - q * d1, d2_ == c2 - q * d2))): s.prove('extended gcd step: ' + n, eqn); s.assume_nl(eqn)
    N = (q * x1 + x2, x1, q * y1 + y2, y1)
    for goal, old in ((D_ - (d1_ * A + d2_ * B), (C - c1 * A - c2 * B) - q * (D - d1 * A - d2 * B)), (A - (C_ * N[0] + D_ * N[1]), A - C * x1 - D * x2), (B - (C_ * N[2] + D_ * N[3]), B - C * y1 - D * y2)):
        e = z3.substitute(goal, (D_, C - q * D), (C_, D), (d1_, c1 - q * d1), (d2_, c2 - q * d2)); s.prove('extended gcd step: identity', z3.simplify(e - old, som=True) == 0)
        s.assume(goal == old)
    L.ghost['x'] = s.ghost['x'] = N
def inv_eg(s, L):
    C, D, c1, c2, d1, d2 = eg_state(L); x1, x2, y1, y2 = L.ghost['x']; A, B = eg_norm(s)
    yield 'canonical', z3.And(wf(pol(L, 'c')), wf(pol(L, 'd')), znum(pol(L, 'c').n) >= 1)
    yield 'c is a combination', C - c1 * A - c2 * B == 0
    yield 'd is a combination', D - d1 * A - d2 * B == 0
    yield 'the first operand is a combination of c and d', A - C * x1 - D * x2 == 0
    yield 'the second operand is a combination of c and d', B - C * y1 - D * y2 == 0
@unit('egcd', 'c13.egcd', prop='C13', loops={**BASE, 'extended_gcd': Loop(inv=inv_eg, begin=b_eg, havoc=h_eg, end=e_eg, variant=lambda s, L: pol(L, 'd').n)}, contracts={**KOPS, 'carl::divide': k_div, f'{UPQ}::normalized': k_normd})
def _(ex):
    a, b = POLY(ex, 'a', nz=True), POLY(ex, 'b', nz=True); va, vb = CV_(ex, a), CV_(ex, b); base(ex, va, vb); s, t = POLY(ex, 's', rec=False), POLY(ex, 't', rec=False)
    r = R(ex, 'u_egcd', a, b, s, t); g, vs_, vt = CV_(ex, r), CV_(ex, s), CV_(ex, t); base(ex, g, vs_, vt); A, B, G, S, T = [val(x) for x in (va, vb, g, vs_, vt)]; la, lb = lcf(va), lcf(vb)
    N = ex.ghost['normd']; NA, NB = val(N[0][0]), val(N[1][0]); c = N[-1][1]; C = val(c); lc = lcf(c); x1, x2, y1, y2 = ex.ghost['x']
    ex.prove('the gcd is monic', z3.And(znum(g.n) >= 1, lcf(g) == 1)); ex.prove('the leading coefficients are not zero', z3.And(la != 0, lb != 0, lc != 0))
    e = [(A, NA * la), (B, NB * lb), (C, G * lc)]
    for l, rr in e: ex.prove('normalisation divides by the leading coefficient', l == rr)
    ex.prove('the rest is zero', z3.And(NA == C * x1, NB == C * y1))
    by_rewriting(ex, 'the gcd divides the first operand', A, (la * lc * x1) * G, [e[0], (NA, C * x1), e[2]]); by_rewriting(ex, 'the gcd divides the second operand', B, (lb * lc * y1) * G, [e[1], (NB, C * y1), e[2]])
    c1, c2 = [val(x) for x in ex.ghost['scaled'][-2:]]; f1, f2 = S * (la * lc) == c1, T * (lb * lc) == c2
    ex.prove('the cofactors are scaled', z3.And(f1, f2)); ex.prove('combination of the normalised operands', C == c1 * NA + c2 * NB)
    L1 = z3.substitute(lc * (S * A + T * B), (A, NA * la), (B, NB * lb)); L2 = z3.substitute(c1 * NA + c2 * NB, (c1, S * (la * lc)), (c2, T * (lb * lc)))
    ex.prove('g = s a + t b, up to the leading coefficient', z3.simplify(L1 - L2, som=True) == 0); W = ex.fresh('w', 'real')
    ex.prove('g = s a + t b', z3.Implies(z3.And(lc != 0, lc * W == C, C == G * lc), W == G))
# ---- synthetic division by x - z: row[i] = p[i] + z * row[i + 1]
def inv_syn(s, L):
    o = L.old_this.f['mCoefficients']; p = this_vec(L); t = L.v('thirdRow'); n = znum(p.n); pos = znum(L.v('posThirdRow')); z = zreal(L.v('zeroOfDivisor')); it = L.v('coeff')
    yield 'position', z3.And(znum(t.n) == n, pos >= 0, pos <= n - 1, znum(it.i) == n - pos, n >= 2)
    yield 'the polynomial is not touched', z3.And(n == znum(o.n), p.cols[0] == o.cols[0])
    s.assume(vsdef(p, pos)); s.assume(vsdef(p, pos - 1)); s.assume(xdef(pos - 1)); T = t.cols[0]
    yield 'leading entry', z3.Select(T, n - 1) == z3.Select(p.cols[0], n - 1)
    for g in IDX(s): yield 'row', z3.Implies(z3.And(g >= pos, g < n - 1), z3.Select(T, g) == z3.Select(p.cols[0], g) + z * z3.Select(T, g + 1))
    yield 'value at the point', z3.Implies(z == xq, VS(p, pos) + XQ(pos) * z3.Select(T, pos) == val(p))
def inv_second(s, L): yield from ()
@unit('syn', 'c13.syn', prop='C13', loops={**BASE, 'syntheticDivision': Loop(inv=inv_syn, variant=lambda s, L: znum(L.v('posThirdRow')))})
def _(ex):
    p = POLY(ex, 'p'); z = inp(ex, 'Q', ex.fresh('z', 'real')); v = CV_(ex, p); base(ex, v); g = GI(ex); n = znum(v.n); ex.assume(vsdef(v, n - 1)); ex.assume(vsdef(v, Iv(0)))
    ex.ghost['idx'] = [g - 1, g + 1]
    r = zreal(R(ex, 'u_syn', p, ex.alloc(z))); w = CV_(ex, p)
    ex.assume(xdef(Iv(0)))
    ex.prove('the result is the value of the polynomial at the point', z3.Implies(z == xq, r == val(v))); canon(ex, p)
    ex.prove('a polynomial that is not divisible is left alone', z3.Implies(r != 0, z3.And(znum(w.n) == n, w.cols[0] == v.cols[0])))
    ex.prove('a divisible one becomes the quotient', z3.Implies(z3.And(r == 0, n >= 2), z3.And(znum(w.n) == n - 1, coef(v, g) + z3.If(z3.And(g >= 0, g < znum(w.n)), z * z3.Select(w.cols[0], g), Rv(0)) == coef(w, g - 1))))
# ================================================================== C14: root bounds, Sturm sequences, sign variations
def ab(x): return z3.If(x < 0, -x, x)
def k_maxel(ex, f, this, args, node):
    """std::max_element with a comparison: a position of the range that compares less than no position of it (arbitrary index)"""
    b, e = ex.val(args[0]), ex.val(args[1]); m = ex.fresh('maxpos', 'int'); ex.prove('max_element of a non-empty range', znum(b.i) < znum(e.i)); ex.assume(z3.And(m >= znum(b.i), m < znum(e.i)))
    for g in IDX(ex):
        less = zbool(ex.val(ex.call_closure(ex.val(args[2]), [ex.alloc(z3.Select(ex.read(b.c).cols[0], m)), ex.alloc(z3.Select(ex.read(b.c).cols[0], g))], node))); ex.assume(z3.Implies(z3.And(g >= znum(b.i), g < znum(e.i)), z3.Not(less)))
    ex.ghost['maxpos'] = m; return It(b.c, m)
# power functions of |x|: Y(k), of the bound: RP(k); |X(k)| = Y(k)
YF = z3.Function('Y', z3.IntSort(), z3.RealSort()); RPF = z3.Function('RP', z3.IntSort(), z3.RealSort())
def gdef(f, b, k): k = znum(k); return z3.And(f(Iv(0)) == 1, z3.Implies(k >= 0, f(k + 1) == b * f(k)))
yq = ab(xq)
def ypos(k): return z3.Implies(k >= 0, z3.And(YF(k) == ab(XQ(k)), z3.Implies(yq >= 1, YF(k) >= 1), z3.Implies(yq > 0, YF(k) > 0), YF(k) >= 0))
def _l(ex): return ypos, lambda k: [xdef(k), z3.And(YF(0) == 1, YF(k + 1) == yq * YF(k))]
lemma('absolute_powers', _l, prop='C14')
def l_cauchy(v, M, k, prem=None): return z3.Implies(z3.And(yq > 1, M >= 0, k >= 0, prem if prem is not None else fa(lambda j: z3.Implies(j < k, ab(coef(v, j)) <= M))), ab(VS(v, k)) * (yq - 1) <= M * (YF(k) - 1))
def _l(ex):
    v = vec(ex, 'v'); M = ex.fresh('M', 'real'); prem = z3.Bool('prem!cauchy'); y = yq
    def facts(k):
        c, xk, yk, vk, w, t = [ex.fresh(n, 'real') for n in ('c', 'xk', 'yk', 'vk', 'w', 't')]     # abbreviations at k
        return [VS(v, Iv(0)) == 0, VS(v, k + 1) == vk + t, VS(v, k) == vk, YF(k) == yk, YF(Iv(0)) == 1, YF(k + 1) == y * yk, yk >= 0, z3.Implies(prem, ab(t) <= M * yk)]
    return lambda k: l_cauchy(v, M, k, prem), facts
lemma('cauchy', _l, prop='C14')
@unit('lemma_term', None, prop='C14')
def _(ex):
    c, x, M, y = [ex.fresh(n, 'real') for n in 'cxMy']; ex.assume(z3.And(y == ab(x), ab(c) <= M)); ex.prove('a term is at most the bound times the absolute power', ab(c * x) <= M * y)
@unit('cauchy', 'c14.bounds', prop='C14', contracts={'std::max_element': k_maxel})
def _(ex):
    p = POLY(ex, 'p'); v = CV_(ex, p); g = GI(ex); n = znum(v.n); r = zreal(R(ex, 'u_cauchy', p)); lc = lcf(v); m = ex.ghost.get('maxpos')
    ex.prove('constants have bound zero', z3.Implies(n <= 1, r == 0)); ex.assume(n >= 2)
    M = ab(z3.Select(v.cols[0], m)); ex.prove('the bound is 1 + max / |lc|', z3.And(n >= 2, (r - 1) * ab(lc) == M)); ex.prove('the largest absolute value is used', z3.Implies(z3.And(g >= 0, g < n - 1), ab(coef(v, g)) <= M))
    # so a point beyond the bound is no root: lemma cauchy up to the leading term
    for c in (l_cauchy(v, M, n - 1, z3.BoolVal(True)), vsdef(v, n - 1), ypos(n - 1)): ex.assume(c)
    w, y, x = VS(v, n - 1), YF(n - 1), XQ(n - 1); ex.prove('value is the lower part plus the leading term', val(v) == w + lc * x)
    aw, al, Y = [ex.fresh(k, 'real') for k in ('aw', 'al', 'Y')]; yy = ex.fresh('yy', 'real')
    ex.prove('a point beyond the bound is no root', z3.Implies(z3.And(al > 0, yy > r, (r - 1) * al == M, M >= 0, aw * (yy - 1) <= M * (Y - 1), Y > 0, aw >= 0), aw < al * Y))
# Hirst and Macey: sum of the absolute values
SAF = z3.Function('SA', z3.IntSort(), z3.RealSort())
def sadef(v, k): k = znum(k); return z3.And(SAF(Iv(0)) == 0, z3.Implies(k >= 0, SAF(k + 1) == SAF(k) + ab(coef(v, k))))
def k_accum(ex, f, this, args, node):
    """std::accumulate: the operation adds the absolute value (proved for arbitrary operands), so the result is the sum"""
    b, e = ex.val(args[0]), ex.val(args[1]); acc, el = ex.fresh('acc', 'real'), ex.fresh('el', 'real')
    ex.prove('the summand is the absolute value', zreal(ex.val(ex.call_closure(ex.val(args[3]), [ex.alloc(acc), ex.alloc(el)], node))) == acc + ab(el))
    ex.prove('the sum ranges over the lower coefficients', z3.And(znum(b.i) == 0)); ex.ghost['upto'] = znum(e.i); return add(ex.val(args[2]), SAF(znum(e.i)))
def l_hm(v, k): return z3.Implies(z3.And(yq >= 1, k >= 1), z3.And(ab(VS(v, k)) <= SAF(k) * YF(k - 1), SAF(k) >= 0))
@unit('lemma_hirst', None, prop='C14')
def _(ex):
    v = vec(ex, 'v'); k = ex.fresh('k', 'int'); ex.assume(k >= 1)
    for c in (vsdef(v, Iv(0)), sadef(v, Iv(0)), xdef(Iv(0)), gdef(YF, yq, Iv(0))): ex.assume(c)
    ex.prove('lemma hirst: base', l_hm(v, Iv(1))); y, s0, w0, t, y0, c = [ex.fresh(n, 'real') for n in ('y', 's0', 'w0', 't', 'y0', 'c')]
    # at k with abbreviations: |w0| <= s0 y0, |t| <= c y0 y, y >= 1
    ex.prove('lemma hirst: step', z3.Implies(z3.And(y >= 1, y0 >= 0, s0 >= 0, c >= 0, ab(w0) <= s0 * y0, ab(t) <= c * (y0 * y)), ab(w0 + t) <= (s0 + c) * (y0 * y)))
@unit('hirst', 'c14.bounds', prop='C14', contracts={'std::accumulate': k_accum})
def _(ex):
    p = POLY(ex, 'p'); v = CV_(ex, p); n = znum(v.n); r = zreal(R(ex, 'u_hirst', p)); lc = lcf(v); m = ex.ghost.get('upto')
    ex.prove('constants have bound zero', z3.Implies(n <= 1, r == 0)); ex.assume(n >= 2)
    S = SAF(n - 1); ex.prove('the sum ranges over all lower coefficients', m == n - 1); ex.prove('the bound is at least one and at least the quotient', z3.And(r >= 1, r * ab(lc) >= S))
    al, aw, s, y, y0 = [ex.fresh(k, 'real') for k in ('al', 'aw', 's', 'y', 'y0')]
    ex.prove('a point beyond the bound is no root', z3.Implies(z3.And(al > 0, y > r, r * al >= s, r >= 1, aw <= s * y0, y0 > 0, s >= 0), aw < al * (y * y0)))
# Lagrange: max^i * |lc| >= |coefficient n-i|
POWR = M_.POWR
def k_rootsafe(ex, f, this, args, node):
    """root_safe (C07): an enclosure of the root"""
    a, n = zreal(ex.val(args[0])), znum(ex.val(args[1])); ex.prove('root_safe: positive argument and exponent', z3.And(a > 0, n >= 1)); lo, up = ex.fresh('lo', 'real'), ex.fresh('up', 'real'); ex.assume(z3.And(lo >= 0, up >= 0, POWR(lo, n) <= a, a <= POWR(up, n))); return Tup([lo, up])
def pmono(a, b, k): return z3.Implies(z3.And(a >= 0, a <= b, k >= 0), z3.And(POWR(a, k) <= POWR(b, k), POWR(a, k) >= 0))
def _l(ex):
    a, b = ex.fresh('a', 'real'), ex.fresh('b', 'real'); return lambda k: pmono(a, b, k), lambda k: [pwr(a, k), pwr(b, k)]
def pwr(a, k): return z3.And(POWR(a, Iv(0)) == 1, z3.Implies(k >= 0, POWR(a, k + 1) == a * POWR(a, k)))
lemma('monotone_powers', _l, prop='C14')
def lagr_inv(signed):
    def inv(s, L):
        v = pol(L, 'p'); i = znum(L.v('i')); m = zreal(L.v('max')); lc = lcf(v); d = znum(v.n) - 1; al = ab(lc)
        yield 'counter', z3.And(i >= 1, i <= d + 1); yield 'maximum', m >= 0
        g = GI(s); c = z3.Select(v.cols[0], d - g); q = s.ghost['ratio']
        used = z3.And(c != 0, lc * c <= 0) if signed else c != 0
        yield 'every treated coefficient is bounded', z3.Implies(z3.And(g >= 1, g < i, used), q <= POWR(m, g))
    return inv
def h_lagr(s, L):
    L.ghost['m0'] = zreal(L.v('max'))
    i = znum(L.v('i')); g = GI(s); s.assume(pwr(L.ghost['m0'], Iv(0)))
def e_lagr(s, L):
    g = GI(s); m = zreal(L.v('max')); s.assume(pmono(L.ghost['m0'], m, g)); s.assume(pwr(m, Iv(0)))
    for u in s.ghost.get('ups', []): s.assume(pmono(u, m, g))
def k_rs(ex, f, this, args, node):
    r = k_rootsafe(ex, f, this, args, node); ex.ghost.setdefault('ups', []).append(r.items[1]); return r
def l_lagr(v, R_, m, k, prem): return z3.Implies(z3.And(k >= 0, k <= m, R_ >= 0, yq > R_, prem), ab(VS(v, k)) * (yq - R_) <= ab(lcf(v)) * POWR(R_, m - k + 1) * YF(k))
for nm, signed in (('lagr', False), ('lagrpu', True)):
    @unit(nm, 'c14.bounds', prop='C14', loops={('lagrangePositiveUpperBound' if signed else 'lagrangeBound'): Loop(inv=lagr_inv(signed), havoc=h_lagr, end=e_lagr)}, contracts={'carl::root_safe': k_rs})
    def _(ex, nm=nm, signed=signed):
        p = POLY(ex, 'p'); v = CV_(ex, p); n = znum(v.n); g = GI(ex); ex.assume(n < 1 << 60); q = ex.ghost['ratio'] = ex.fresh('ratio', 'real'); d = n - 1; lc = lcf(v); c = z3.Select(v.cols[0], d - g); ex.assume(z3.Implies(n >= 2, q * ab(lc) == ab(c)))
        r = zreal(R(ex, 'u_' + nm, p)); m = r / 2; ex.assume(pwr(m, Iv(0))); ex.prove('the bound is not negative', r >= 0)
        used = z3.And(c != 0, lc * c <= 0) if signed else c != 0
        ex.prove('the relevant coefficients are bounded by the power of half the bound', z3.Implies(z3.And(g >= 1, g <= d, used), q <= POWR(m, g)))
@unit('lemma_lagrange', None, prop='C14')
def _(ex):
    # step of |VS(k)| (y - R) <= |lc| R^(m-k+1) Y(k), with rp = R^(m-k), at the new coefficient t = c x^k, |c| <= |lc| rp
    w, t, y, Rr, al, rp, yk = [ex.fresh(n, 'real') for n in ('w', 't', 'y', 'R', 'al', 'rp', 'yk')]; pre = z3.And(y > Rr, Rr >= 0, al > 0, rp >= 0, yk >= 0)
    A, B = ex.fresh('A', 'real'), ex.fresh('B', 'real')
    ex.prove('lemma lagrange: the bound grows as needed', z3.simplify(al * (rp * Rr) * yk + al * rp * yk * (y - Rr) - al * rp * (y * yk), som=True) == 0)
    ex.prove('lemma lagrange: step', z3.Implies(z3.And(pre, ab(w) * (y - Rr) <= al * (rp * Rr) * yk, ab(t) <= al * rp * yk), (ab(w) + ab(t)) * (y - Rr) <= al * (rp * Rr) * yk + (al * rp * yk) * (y - Rr)))
    ex.prove('lemma lagrange: step, one sided', z3.Implies(z3.And(pre, -w * (y - Rr) <= al * (rp * Rr) * yk, -t <= al * rp * yk), (-w - t) * (y - Rr) <= al * (rp * Rr) * yk + (al * rp * yk) * (y - Rr)))
    ex.prove('lemma lagrange: base', z3.Implies(pre, 0 * (y - Rr) <= al * (rp * Rr) * 1))
    ex.prove('lemma lagrange: beyond twice the bound the leading term dominates', z3.Implies(z3.And(pre, y > 2 * Rr, yk > 0, A * (y - Rr) <= al * Rr * yk), A < al * yk))
def k_pu(ex, f, this, args, node): ex.ghost['arg'] = CV_(ex, args[0]); r = ex.fresh('pub', 'real'); ex.assume(r >= 0); ex.ghost['pub'] = r; return r
def k_rev(ex, f, this, args, node):
    """reverseCoefficients (C12, rev)"""
    v = CV_(ex, this); r = newpoly(ex, 'rev', v); ex.assume(znum(r.n) <= znum(v.n))
    for g in IDX(ex): ex.assume(z3.Implies(g >= 0, coef(r, g) == coef(v, znum(v.n) - 1 - g)))
    return prec(ex, None, r)
def k_negv(ex, f, this, args, node):
    """negateVariable (C12, negv)"""
    v = CV_(ex, this); r = newpoly(ex, 'negv', v); ex.assume(znum(r.n) == znum(v.n))
    for g in IDX(ex): ex.assume(z3.Implies(g >= 0, coef(r, g) == z3.If(g % 2 == 1, -coef(v, g), coef(v, g))))
    return prec(ex, None, r)
for nm in ('lagrpl', 'lagrnu'):
    @unit(nm, 'c14.bounds', prop='C14', merge=False, contracts={'carl::lagrangePositiveUpperBound': k_pu, f'{UPQ}::reverseCoefficients': k_rev, f'{UPQ}::negateVariable': k_negv})
    def _(ex, nm=nm):
        p = POLY(ex, 'p'); v = CV_(ex, p); n = znum(v.n); g = GI(ex); ex.ghost['idx'] = [n - 1 - g]; r = zreal(R(ex, 'u_' + nm, p)); u = ex.ghost['pub']; w = ex.ghost['arg']; s = 1 if nm == 'lagrpl' else -1
        ex.prove('the bound is the reciprocal of the upper bound of the reversed polynomial', r == z3.If(u == 0, Rv(0), s / u))
        c = coef(v, n - 1 - g)
        if nm == 'lagrpl': ex.prove('the reversed polynomial is used', z3.Implies(g < n, coef(w, g) == c))
        else: ex.prove('the reversed polynomial of the mirrored variable is used', z3.Implies(g < n, coef(w, g) == z3.If((n - 1 - g) % 2 == 1, -c, c)))
# ---- Sturm sequences: consecutive members satisfy s[k-2] = Q s[k-1] - s[k], degrees decrease, the last remainder is zero
PSHAPE = RecShape(UPQ, [('mMainVar', RecShape('carl::Variable', [('mContent', INT)])), ('mCoefficients', VecShape(REAL))])
QW = z3.Function('sturm_quotient', z3.IntSort(), z3.RealSort())
def member(seq, k): k = znum(k); return SVec(z3.Select(seq.cols[1], k), [z3.Select(seq.cols[2], k)], REAL)
def inv_sturm(s, L):
    q = as_svec(s, L.v('seq'), PSHAPE); k = znum(L.v('k')); h = s.ghost['h']; a, b, c = member(q, h - 2), member(q, h - 1), member(q, h); l, l2 = member(q, k - 1), member(q, k - 2); p0, p1 = s.ghost['p'], s.ghost['q']
    yield 'length', z3.And(znum(q.n) == k, k >= 2)
    yield 'the sequence starts with the two polynomials', z3.And(z3.Select(q.cols[2], 0) == p0.cols[0], z3.Select(q.cols[1], 0) == p0.n, z3.Select(q.cols[2], 1) == p1.cols[0], z3.Select(q.cols[1], 1) == p1.n)
    yield 'the last member is a non-zero polynomial', z3.And(znum(l.n) >= 1, wf(l), wf(l2), znum(l2.n) >= 1)
    yield 'recurrence', z3.Implies(z3.And(h >= 2, h < k), z3.And(VS(a, a.n) == QW(h) * VS(b, b.n) - VS(c, c.n), znum(c.n) < znum(b.n), znum(c.n) >= 1))
def k_remst(ex, f, this, args, node):
    r = k_remp(ex, f, this, args, node); ex.assume(QW(ex.ghost['kk']) == ex.ghost['qrec']); return r
def b_sturm(s, L): s.write(L.loc('seq'), as_svec(s, L.v('seq'), PSHAPE))
def h_sturm(s, L): s.ghost['kk'] = znum(L.v('k'))
@unit('sturm', 'c14.sturm', prop='C14', loops={'sturm_sequence': Loop(inv=inv_sturm, begin=b_sturm, havoc=h_sturm, variant=lambda s, L: member(L.v('seq'), znum(L.v('k')) - 1).n)}, contracts={**KOPS, 'carl::remainder': k_remst}, merge=False, shapes={UPQ: PSHAPE})
def _(ex):
    a, b = POLY(ex, 'p'), POLY(ex, 'q'); va, vb = CV_(ex, a), CV_(ex, b); base(ex, va, vb); ex.ghost.update(p=va, q=vb); h = nn(ex, 'h'); ex.ghost['h'] = h
    r = R(ex, 'u_sturm2', a, b); r = as_svec(ex, ex.read(r) if isinstance(r, Loc) else r, PSHAPE); n = znum(r.n); A, B, C = member(r, h - 2), member(r, h - 1), member(r, h)
    ex.prove('the sequence starts with the two polynomials', z3.And(n >= 2, z3.Select(r.cols[2], 0) == va.cols[0], z3.Select(r.cols[1], 0) == va.n, z3.Select(r.cols[2], 1) == vb.cols[0], z3.Select(r.cols[1], 1) == vb.n))
    ex.prove('every further member is the negative remainder of its predecessors', z3.Implies(z3.And(h >= 2, h < n), z3.And(VS(A, A.n) == QW(h) * VS(B, B.n) - VS(C, C.n), znum(C.n) < znum(B.n), znum(C.n) >= 1)))
    if 'qrec' in ex.ghost: l, l2 = member(r, n - 1), member(r, n - 2); ex.prove('the last member divides its predecessor', VS(l2, l2.n) == ex.ghost['qrec'] * VS(l, l.n))
@unit('sturm1', 'c14.sturm', prop='C14', merge=False, shapes={UPQ: PSHAPE}, contracts={'carl::derivative': lambda ex, f, this, args, node: ex.ghost.setdefault('der', ex.read(POLY(ex, 'der', rec=False))), 'carl::sturm_sequence': lambda ex, f, this, args, node: NotImplemented if len(args) == 1 else ex.ghost.setdefault('call', (CV_(ex, args[0]), CV_(ex, args[1])))})
def _(ex):
    a = POLY(ex, 'p'); va = CV_(ex, a); R(ex, 'u_sturm', a); x, y = ex.ghost['call']; d = ex.ghost['der'].f['mCoefficients']
    ex.prove('the Sturm sequence of a polynomial is that of it and its derivative', z3.And(x.cols[0] == va.cols[0], x.n == va.n, y.cols[0] == d.cols[0], y.n == d.n))
# ---- root count: difference of the sign variations of the values at the endpoints
EVF = z3.Function('value_at', RA, z3.IntSort(), z3.RealSort(), z3.RealSort())
LN2 = z3.Function('last_nonzero', z3.IntSort(), z3.IntSort(), z3.IntSort()); SV2 = z3.Function('variations', z3.IntSort(), z3.IntSort(), z3.IntSort())
def k_eval(ex, f, this, args, node):
    v = CV_(ex, args[0]); return EVF(v.cols[0], znum(v.n), zreal(ex.val(args[1])))
def sgn_(x): return z3.If(x < 0, Iv(-1), z3.If(x > 0, Iv(1), Iv(0)))
def sv_ax(s, i):
    w = s.ghost['which']; i = znum(i); x = s.ghost['sg'](w, i); w = Iv(w)
    s.assume(z3.And(LN2(w, 0) == 0, SV2(w, 0) == 0)); s.assume(z3.Implies(i >= 0, z3.And(LN2(w, i + 1) == z3.If(x == 0, LN2(w, i), x), SV2(w, i + 1) == SV2(w, i) + z3.If(z3.And(x != 0, LN2(w, i) != 0, x != LN2(w, i)), 1, 0), SV2(w, i) >= 0, SV2(w, i) <= i, SV2(w, i + 1) <= i + 1)))
def sv_first(s, L):
    i = znum(L.v('begin').i); w = Iv(s.ghost['which']); sv_ax(s, i)
    yield 'skipped signs are zero', z3.And(i >= 0, i <= znum(L.v('end').i), LN2(w, i) == 0, SV2(w, i) == 0)
def sv_second(s, L):
    i = znum(L.v('begin').i); w = s.ghost['which']; last = znum(L.v('last')); sv_ax(s, i); x = s.ghost['sg'](w, i); w = Iv(w)
    yield 'position within the range', z3.And(i >= 0, i <= znum(L.v('end').i)); yield 'changes counted so far', znum(L.v('changes')) == SV2(w, i)
    yield 'last non-zero sign so far', z3.And(last != 0, z3.Or(LN2(w, i) == last, z3.And(LN2(w, i) == 0, SV2(w, i) == 0, last == x)))
def sv_begin(s, L): s.ghost['which'] = s.ghost.get('which', -1) + 1
SVL = {'sign_variations#0': Loop(inv=sv_first, begin=sv_begin), 'sign_variations#1': Loop(inv=sv_second)}
def IV(ex):
    lo, hi = ex.fresh('lo', 'real'), ex.fresh('hi', 'real'); return lo, hi
@unit('count', 'c14.countseq', prop='C14', loops=SVL, merge=False, shapes={UPQ: PSHAPE}, contracts={'carl::evaluate': k_eval, 'carl::Interval::lower': lambda ex, f, this, args, node: ex.ghost['lo'], 'carl::Interval::upper': lambda ex, f, this, args, node: ex.ghost['hi']})
def _(ex):
    seq = fresh_svec(ex, 'seq', PSHAPE); n = znum(seq.n); lo, hi = ex.alloc(ex.fresh('lo', 'real')), ex.alloc(ex.fresh('hi', 'real')); ex.ghost.update(lo=lo, hi=hi); pts = [ex.read(lo), ex.read(hi)]
    ex.ghost['sg'] = lambda w, i: sgn_(EVF(z3.Select(seq.cols[2], i), z3.Select(seq.cols[1], i), pts[w])); ex.assume(n < 1 << 30)
    r = R(ex, 'u_count', ex.alloc(seq), ex.alloc(Rec('carl::Interval', {})))
    ex.prove('the count is the difference of the variations at the endpoints', znum(r) == SV2(Iv(0), n) - SV2(Iv(1), n))
@unit('countp', 'c14.count', prop='C14', merge=False, shapes={UPQ: PSHAPE}, contracts={'carl::sturm_sequence': lambda ex, f, this, args, node: (ex.ghost.__setitem__('sarg', CV_(ex, args[0])), ex.ghost['sseq'])[1] if len(args) == 1 else NotImplemented, 'carl::count_real_roots': lambda ex, f, this, args, node: NotImplemented if isinstance(ex.val(args[0]), Rec) else (ex.ghost.__setitem__('carg', (ex.val(args[0]), args[1])), ex.ghost['cnt'])[1]})
def _(ex):
    p = POLY(ex, 'p', nz=True); v = CV_(ex, p); ex.ghost['sseq'] = fresh_svec(ex, 'seq', PSHAPE); ex.ghost['cnt'] = ex.fresh('cnt', 'int'); iv = ex.alloc(Rec('carl::Interval', {})); r = R(ex, 'u_countp', p, iv); sa = ex.ghost['sarg']; s, i = ex.ghost['carg']
    ex.prove('the count of the Sturm sequence of the polynomial on the interval', z3.And(znum(r) == ex.ghost['cnt'], sa.cols[0] == v.cols[0], sa.n == v.n, z3.BoolVal(s is ex.ghost['sseq'] or all(x.eq(y) for x, y in zip(s.cols, ex.ghost['sseq'].cols))), z3.BoolVal(i == iv)))
# ---- variable transformations
def inv_scale(s, L):
    o, v = L.old('coeffs'), L.v('coeffs'); f = zreal(L.v('factor')); s.assume(pwr(f, L.k)); s.assume(pwr(f, L.k + 1)); s.assume(pwr(f, Iv(0)))
    yield 'length', znum(v.n) == znum(o.n); yield 'power', zreal(L.v('f')) == POWR(f, L.k + 1)
    for g in IDX(s): yield 'scaled coefficients', z3.Implies(z3.And(g >= 0, g < znum(o.n)), z3.Select(v.cols[0], g) == z3.If(g < L.k, z3.Select(o.cols[0], g) * POWR(f, g + 1), z3.Select(o.cols[0], g)))
@unit('scale', 'c14.scale', prop='C14', loops={**BASE, 'scale': Loop(inv=inv_scale)})
def _(ex):
    p = POLY(ex, 'p'); v = CV_(ex, p); f = inp(ex, 'Q', ex.fresh('f', 'real')); ex.assume(f > 0); g = GI(ex); pw = POWR(f, g + 1)
    r = R(ex, 'u_scale', p, ex.alloc(f)); w = CV_(ex, r); ex.prove('coefficient i is multiplied by the (i+1)-st power of the positive factor', coef(w, g) == z3.If(z3.And(g >= 0, g < znum(v.n)), z3.Select(v.cols[0], g) * pw, Rv(0))); canon(ex, r)
@unit('reverse', 'c14.rev', prop='C14', loops=BASE)
def _(ex): p = POLY(ex, 'p'); v = CV_(ex, p); r = R(ex, 'u_reverse', p); spec(ex, r, lambda g: coef(v, znum(v.n) - 1 - g))
# shift by a: the value of the result at x is the value of the argument at y = x + a (Horner scheme); VY, Y2: values and powers at y
VYF = z3.Function('VY', RA, z3.IntSort(), z3.IntSort(), z3.RealSort()); Y2 = z3.Function('Y2', z3.IntSort(), z3.RealSort()); HV = z3.Function('HV', z3.IntSort(), z3.RealSort()); yp = z3.Real('y!point')
def VY(v, k): return VYF(v.cols[0], znum(v.n), znum(k))
def vydef(v, k): k = znum(k); return z3.And(VY(v, Iv(0)) == 0, z3.Implies(k >= 0, VY(v, k + 1) == VY(v, k) + coef(v, k) * Y2(k)))
def hvdef(v, i): n = znum(v.n); i = znum(i); return z3.And(HV(Iv(0)) == lcf(v), z3.Implies(i >= 0, HV(i + 1) == yp * HV(i) + coef(v, n - 2 - i)))
def l_horner(v, i): n = znum(v.n); return z3.Implies(z3.And(i >= 0, i <= n - 1), VY(v, n - 1 - i) + Y2(n - 1 - i) * HV(i) == VY(v, n))
def _l(ex): v = vec(ex, 'v'); ex.assume(v.n >= 1); n = znum(v.n); return lambda i: l_horner(v, i), lambda i: [vydef(v, n - 1), vydef(v, n - 2 - i), gdef(Y2, yp, n - 2 - i), gdef(Y2, yp, Iv(0)), hvdef(v, i)]
lemma('horner', _l, prop='C14')
def inv_shift(s, L):
    p, v = pol(L, 'p'), L.v('next'); i = znum(L.v('i')); n = znum(p.n); s.assume(hvdef(p, i)); s.assume(hvdef(p, i - 1)); s.ghost['i'] = i
    yield 'length', z3.And(znum(v.n) == i + 1, i >= 0, i <= n - 1)
    yield 'leading coefficient', z3.Select(v.cols[0], i) == lcf(p)
    yield 'value is the Horner value at the shifted point', VS(v, v.n) == HV(i)
def b_shift(s, L): v = L.v('next'); s.assume(vsdef(v, Iv(0))); s.assume(xdef(Iv(0)))
def h_shift(s, L): L.ghost['v0'] = L.v('next')
def e_shift(s, L):
    # proved coefficientwise at an arbitrary index: new = a * old + x * old + c, hence for the values (lemma_lin, lemma_shift)
    o, w = L.ghost['v0'], L.v('next'); g = GI(s); a = zreal(L.v('a')); p = pol(L, 'p'); i = znum(L.v('i')) - 1; n = znum(p.n); c = coef(p, n - 2 - i)
    s.prove('one Horner step, coefficientwise', z3.Select(w.cols[0], g) == z3.If(g == 0, a * z3.Select(o.cols[0], 0) + c, z3.If(g == i + 1, z3.Select(o.cols[0], i), z3.If(z3.And(g >= 1, g <= i), a * z3.Select(o.cols[0], g) + z3.Select(o.cols[0], g - 1), z3.Select(w.cols[0], g)))))
    s.prove('one Horner step, length', z3.And(znum(w.n) == znum(o.n) + 1, znum(o.n) == i + 1)); s.assume_nl(VS(w, w.n) == a * VS(o, o.n) + xq * VS(o, o.n) + c)
def inv_shift2(s, L):
    o = L.old('next'); v = L.v('next'); j, i = znum(L.v('j')), znum(L.v('i')); a = zreal(L.v('a'))
    yield 'length', z3.And(znum(v.n) == znum(o.n), j >= 0, j <= i, znum(o.n) == i + 2)
    t = z3.Int('t!sh'); yield 'untouched part', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < znum(v.n), z3.Or(t <= j, t > i)), z3.Select(v.cols[0], t) == z3.Select(o.cols[0], t)))
    g = GI(s); yield 'updated part', z3.Implies(z3.And(g > j, g <= i), z3.Select(v.cols[0], g) == a * z3.Select(o.cols[0], g) + z3.Select(o.cols[0], g - 1))
@unit('shift', 'c14.shift', prop='C14', loops={**BASE, 'shift#0': Loop(inv=inv_shift, begin=b_shift, havoc=h_shift, end=e_shift), 'shift#1': Loop(inv=inv_shift2)}, contracts=KOPS)
def _(ex):
    p = POLY(ex, 'p', nz=True); v = CV_(ex, p); a = inp(ex, 'Q', ex.fresh('a', 'real')); base(ex, v); g = GI(ex); n = znum(v.n); ex.assume(yp == xq + a); ex.assume(hvdef(v, Iv(0))); ex.assume(vydef(v, Iv(0))); ex.assume(gdef(Y2, yp, Iv(0))); ex.ghost['a'] = a
    r = R(ex, 'u_shift', p, ex.alloc(a)); w = CV_(ex, r); ex.assume(l_horner(v, n - 1)); ex.prove('the value at a point is the value of the argument at the shifted point', VS(w, w.n) == VY(v, n)); canon(ex, r)
def l_hstep(w, o, a, c, k, prem): return z3.Implies(z3.And(k >= 1, prem), VS(w, k) == a * VS(o, k) + xq * VS(o, k - 1) + c)
@unit('lemma_hstep', None, prop='C14')
def _(ex):
    w, o = vec(ex, 'w'), vec(ex, 'o'); a, c = ex.fresh('a', 'real'), ex.fresh('c', 'real'); k = ex.fresh('k', 'int'); ex.assume(k >= 1); prem = z3.Bool('prem!h')
    for f in (vsdef(w, Iv(0)), vsdef(o, Iv(0)), xdef(Iv(0)), z3.Implies(prem, coef(w, 0) == a * coef(o, 0) + c)): ex.assume(f)
    ex.prove('lemma horner step: base', l_hstep(w, o, a, c, Iv(1), prem)); cw, co, cp, xk, xm = [ex.fresh(n, 'real') for n in ('cw', 'co', 'cp', 'xk', 'xm')]
    for f in (VS(w, k + 1) == VS(w, k) + cw * xk, VS(o, k + 1) == VS(o, k) + co * xk, VS(o, k) == VS(o, k - 1) + cp * xm, xk == xq * xm, z3.Implies(prem, cw == a * co + cp)): ex.assume(f)
    ex.prove('lemma horner step: step', z3.Implies(l_hstep(w, o, a, c, k, prem), l_hstep(w, o, a, c, k + 1, prem)))
def rec_call(name):
    def h(ex, f, this, args, node):
        a = CV_(ex, args[0]); r = newpoly(ex, name, a); ex.ghost.setdefault('calls', []).append((name, a, zreal(ex.val(args[1])) if len(args) > 1 else None, r)); return prec(ex, None, r)
    return h
def svb(s, L):
    s.ghost['which'] = 0; c = s.read(L.v('begin').c); c = c.cols[0] if isinstance(c, SVec) else c; s.ghost['seqarr'] = c; s.ghost['seqend'] = znum(L.v('end').i); s.ghost['seqbeg'] = znum(L.v('begin').i); s.ghost['sg'] = lambda w, i: sgn_(z3.Select(c, i))
DS = 'carl::detail_sign_variations::'
@unit('sv', 'c14.sv', prop='C14', merge=False, loops={**BASE, 'sign_variations#0': Loop(inv=sv_first, begin=svb), 'sign_variations#1': Loop(inv=sv_second)}, contracts={DS + 'shift': rec_call('shift'), DS + 'scale': rec_call('scale'), DS + 'reverse': rec_call('reverse'),
      'carl::Interval::lower': lambda ex, f, this, args, node: ex.ghost['lo'], 'carl::Interval::diameter': lambda ex, f, this, args, node: ex.read(ex.ghost['di']), 'carl::Interval::isEmpty': lambda ex, f, this, args, node: ex.ghost['em'], 'carl::Interval::isPointInterval': lambda ex, f, this, args, node: ex.ghost['pt']})
def _(ex):
    p = POLY(ex, 'p'); v = CV_(ex, p); lo, di = [ex.alloc(ex.fresh(n, 'real')) for n in ('lo', 'di')]; em, pt = ex.fresh('empty', 'bool'), ex.fresh('point', 'bool'); ex.ghost.update(lo=lo, di=di, em=em, pt=pt); ex.assume(z3.Not(pt)); ex.assume(v.n >= 1)
    r = znum(R(ex, 'u_sv', p, ex.alloc(Rec('carl::Interval', {})))); cs = ex.ghost.get('calls', [])
    if not cs: ex.prove('an empty interval has no variations', z3.And(em, r == 0)); return
    ex.prove('the transformation x -> (lower + diameter * 1/(1+x)) is applied in order', z3.BoolVal([c[0] for c in cs] == ['shift', 'scale', 'reverse', 'shift']))
    same = lambda a, b: z3.And(a.cols[0] == b.cols[0], znum(a.n) == znum(b.n))
    ex.prove('each transformation applies to the result of the previous one', z3.And(same(cs[0][1], v), *[same(cs[i][1], cs[i - 1][3]) for i in (1, 2, 3)]))
    ex.prove('shifts and scale are those of the interval', z3.And(cs[0][2] == ex.read(lo), cs[1][2] == ex.read(di), cs[3][2] == 1))
    w = cs[3][3]; ex.prove('the variations of the transformed coefficients are counted', z3.And(ex.ghost['seqbeg'] == 0, ex.ghost['seqarr'] == w.cols[0], ex.ghost['seqend'] == znum(w.n), r == SV2(Iv(0), znum(w.n))))

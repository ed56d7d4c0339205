"""Contracts for the interval evaluation of monomials, terms and polynomials (C25).
Every interval carries a ghost point `pt` that it is shown to contain: VAL(x) for the interval of variable x, the result of the operation
for the results of interval arithmetic (contracts proved for C01).  MV, PV, UV are value of the first k factors, terms, coefficients."""
from .common import *
from vc.containers import *
from vc.engine import NULL
from . import interval as IV, mpoly as MPO, mono as MO
DRIVER = 'ieval'; HARNESS = 'ieval'
UNITS = []
Iv, Rv = z3.IntVal, z3.RealVal
IS, RS = z3.IntSort(), z3.RealSort()
IA = z3.ArraySort(IS, IS); RA = z3.ArraySort(IS, RS)
VAL = z3.Function('VAL', IS, RS); PW = z3.Function('PW', RS, IS, RS)
MV = z3.Function('MV', IA, IA, IS, RS); PV = z3.Function('PVAL', RA, RA, IS, RS); UV = z3.Function('UVAL', RA, RS, IS, RS); CV = z3.Function('CV', IS, RS)
def R(ex, root, *a): return ex.call_root(root, list(a))
def rd(ex, x):
    while isinstance(x, Loc): x = ex.read(x)
    return x
def pt(ex, x):
    x = rd(ex, x)
    if isinstance(x, Rec) and x.q == 'carl::Interval':
        if 'pt' not in x.f: raise Unsupported('interval without a ghost point')
        return zreal(x.f['pt'])
    return zreal(x)
def has(ex, x):
    """the ghost point is in the interval (numbers are points)"""
    x = rd(ex, x); return IV.mem(x, x.f['pt']) if isinstance(x, Rec) and x.q == 'carl::Interval' else True
def res(ex, p, *ops):
    r = IV.anyiv(ex, 'r'); r = Rec(r.q, {**r.f, 'pt': p}); ex.assume(IMP(AND(*[has(ex, o) for o in ops]), IV.mem(r, p))); return r
def isint(ex, x): x = rd(ex, x); return isinstance(x, Rec) and x.q == 'carl::Interval'
def k_op(fn, member, assign):
    def h(ex, f, this, args, node):
        ops = ([this] if member else []) + list(args)
        if len(ops) != 2 or not any(isint(ex, o) for o in ops): return NotImplemented
        p = fn(pt(ex, ops[0]), pt(ex, ops[1])); r = res(ex, p, *ops)
        if assign: ex.write(ops[0], r); return ops[0]
        return r
    return h
def k_pow(ex, f, this, args, node):
    if not isint(ex, args[0]): return NotImplemented
    x, e = pt(ex, args[0]), znum(ex.val(args[1])); ex.assume_nl(PW(x, Iv(0)) == 1); ex.assume_nl(PW(x, Iv(1)) == x); return res(ex, PW(x, e), args[0])
def k_ctor(ex, f, this, args, node):
    """Interval(n): the interval of one number"""
    if len(args) != 1 or isint(ex, args[0]) or not (is_num(ex.val(args[0]))): return NotImplemented
    n = zreal(ex.val(args[0])); r = Rec('carl::Interval', {'mContent': Rec('boost::numeric::interval', {'low': n, 'up': n}), 'mLowerBoundType': 1, 'mUpperBoundType': 1, 'pt': n})
    if isinstance(this, Loc): ex.write(this, r); return None
    return r
def is_num(x): return isinstance(x, (int, Fraction)) or (z3.is_expr(x) and (z3.is_int(x) or z3.is_real(x)))
def k_at(ex, f, this, args, node):
    """map lookup: the interval of the variable contains its value (the point is in the box)"""
    v = znum(rd(ex, args[0]).f['mContent']); r = IV.anyiv(ex, 'box'); r = Rec(r.q, {**r.f, 'pt': VAL(v)}); ex.assume(IV.mem(r, VAL(v))); return ex.alloc(r, 'box')
def k_assign(ex, f, this, args, node): ex.write(this, rd(ex, args[0])); return this
A, S, M_ = (lambda a, b: a + b), (lambda a, b: a - b), (lambda a, b: a * b)
IVC = {'carl::operator+': k_op(A, False, False), 'carl::operator-': k_op(S, False, False), 'carl::operator*': k_op(M_, False, False), 'carl::operator+=': k_op(A, False, True), 'carl::operator-=': k_op(S, False, True), 'carl::operator*=': k_op(M_, False, True),
       'carl::Interval::mul': k_op(M_, True, False), 'carl::Interval::add': k_op(A, True, False), 'carl::Interval::mul_assign': k_op(M_, True, True), 'carl::Interval::add_assign': k_op(A, True, True),
       'carl::pow': k_pow, 'carl::Interval::Interval': k_ctor, 'carl::Interval::operator=': k_assign, 'std::map::at': k_at}
def unit(name, op=None, contracts=None, **kw):
    def deco(fn):
        UNITS.append(U('C25', name, fn, op, svec=True, merge=False, qf_branch=True, contracts={**IVC, **(contracts or {})}, **kw)); return fn
    return deco
def mk_loop(var, value, unfold, off=0, extra=None):
    def inv(s, L):
        r = rd(s, L.v(var)); k = znum(L.k); yield 'the counter', z3.And(znum(L.v('i')) == k + off, k + off <= s.ghost['n'])
        yield 'the interval contains its point', AND(IV.inv(r), IV.mem(r, r.f['pt'])); yield 'the point is the value of the part visited', zreal(r.f['pt']) == value(s, k + off)
        if extra: yield from extra(s, L, k + off)
    return Loop(inv=inv, begin=lambda s, L: unfold(s, Iv(0)), havoc=lambda s, L: unfold(s, znum(L.k) + off))
# ------------------------------------------------------------------ monomials
def mval_(s, k): c = s.ghost['c']; return MV(c.cols[0], c.cols[1], znum(k))
def munf(s, k):
    c = s.ghost['c']; s.assume_nl(mval_(s, 0) == 1); s.assume_nl(z3.Implies(k >= 0, mval_(s, k + 1) == mval_(s, k) * PW(VAL(z3.Select(c.cols[0], k)), z3.Select(c.cols[1], k)))); [s.assume_nl(z3.Implies(z3.And(mval_(s, j) == 0, j <= s.ghost['n']), mval_(s, s.ghost['n']) == 0)) for j in (k, k + 1)]
@unit('lemma_zero')
def _(ex):
    """a product with a zero factor is zero"""
    a, b, x = ex.fresh('k', 'real'), ex.fresh('f', 'real'), ex.fresh('n', 'real'); ex.assume(a == 0); ex.assume_nl(x == a * b); ex.prove('step', x == 0)
def enclose(ex, r, v): r = rd(ex, r); ex.prove('the result is well-formed', IV.inv(r)); ex.prove('the result contains the value at every point of the box', IV.mem(r, v))
@unit('e_mono', 'c25.mono', loops={'evaluate': mk_loop('result', mval_, munf)})
def _(ex):
    v = fresh_svec(ex, 'm', MO.PSH); ex.assume(v.n >= 1); ex.ghost.update(c=v, n=v.n); m = ex.alloc(Rec('carl::Monomial', {'mExponents': v, 'mTotalDegree': ex.fresh('t', 'int'), 'mId': ex.fresh('id', 'int'), 'mHash': 0, 'mWeakPtr': NULL}), 'm')
    r = R(ex, 'e_mono', m, ex.alloc(Rec('std::map', {}), 'box')); munf(ex, v.n); enclose(ex, r, mval_(ex, v.n))
# ------------------------------------------------------------------ terms
def k_eval(ex, f, this, args, node):
    """evaluate: verified by the units of this file for monomials, terms and polynomials"""
    a = rd(ex, args[0])
    if isinstance(a, Rec) and a.q == 'carl::Monomial': return res(ex, a.f['#val'])
    if isinstance(a, Rec) and a.q == 'carl::Term' and ex.ghost.get('poly'): return res(ex, zreal(a.f['mCoeff']) * MPO.VM(MPO.code(ex, a.f['mMonomial'])))
    if isinstance(a, Rec) and a.q == 'COEFF': return res(ex, a.f['v'])
    return NotImplemented
EV = {'carl::IntervalEvaluation::evaluate': k_eval}
for null in (True, False):
    @unit(f'e_term[{"constant" if null else "monomial"}]', 'c25.term', contracts=EV)
    def _(ex, null=null):
        c, x = ex.fresh('c', 'real'), ex.fresh('x', 'real'); inp(ex, 'Q', c); mp = NULL if null else ex.alloc(Rec('carl::Monomial', {'#val': x}), 'm')
        enclose(ex, R(ex, 'e_term', ex.alloc(Rec('carl::Term', {'mCoeff': c, 'mMonomial': mp}), 't'), ex.alloc(Rec('std::map', {}), 'box')), c if null else c * x)
# ------------------------------------------------------------------ polynomials
def pval(s, k): v = s.ghost['c']; return PV(v.cols[0], v.cols[1], znum(k))
def punf(s, k):
    v = s.ghost['c']; s.assume_nl(pval(s, 0) == 0)
    for j in (Iv(0), k): s.assume_nl(z3.Implies(j >= 0, pval(s, j + 1) == pval(s, j) + z3.Select(v.cols[0], j) * MPO.VM(z3.Select(v.cols[1], j))))
@unit('e_poly', 'c25.poly', contracts=EV, loops={'evaluate': mk_loop('result', pval, punf, 1)}, shapes=MPO.SHAPES, scalar_recs=('std::shared_ptr',))
def _(ex):
    v = fresh_svec(ex, 'p', MPO.TSH); ex.ghost.update(c=v, n=v.n, poly=True); p = ex.alloc(Rec(MPO.MP, {'mTerms': v, 'mOrdered': ex.fresh('o', 'bool')}), 'p'); punf(ex, Iv(0))
    i = z3.Int('i!n'); ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n), z3.Select(v.cols[0], i) != 0)))
    enclose(ex, R(ex, 'e_poly', p, ex.alloc(Rec('std::map', {}), 'box')), pval(ex, v.n))
# ------------------------------------------------------------------ univariate polynomials
def uval(s, k): return UV(s.ghost['c'], s.ghost['x'], znum(k))
def uunf(s, k):
    for j in (Iv(0), k): s.assume_nl(z3.Implies(j >= 0, uval(s, j + 1) == uval(s, j) + z3.Select(s.ghost['c'], j) * PW(s.ghost['x'], j)))
    s.assume_nl(uval(s, 0) == 0); s.assume_nl(PW(s.ghost['x'], Iv(0)) == 1)
def uextra(s, L, k): e = rd(s, L.v('exp')); yield 'the power', AND(IV.inv(e), IV.mem(e, e.f['pt']), zreal(e.f['pt']) == PW(s.ghost['x'], k))
UP = {'evaluate': mk_loop('res', uval, uunf, 0, uextra)}
def upoly(ex, sh):
    v = fresh_svec(ex, 'p', sh); x = ex.fresh('x', 'int'); ex.assume(x > 0); ex.ghost.update(n=v.n, x=VAL(x)); return v, ex.alloc(Rec('carl::UnivariatePolynomial', {'mCoefficients': v, 'mMainVar': Rec('carl::Variable', {'mContent': x})}), 'p')
@unit('e_upoly', 'c25.upoly', loops=UP)
def _(ex):
    v, p = upoly(ex, REAL); ex.ghost['c'] = v.cols[0]; enclose(ex, R(ex, 'e_upoly', p, ex.alloc(Rec('std::map', {}), 'box')), uval(ex, v.n))
CSH = RecShape('COEFF', [('v', REAL)])
@unit('e_mupoly', 'c25.mupoly', loops=UP, contracts=EV)
def _(ex):
    v, p = upoly(ex, CSH); ex.ghost['c'] = v.cols[0]; enclose(ex, R(ex, 'e_mupoly', p, ex.alloc(Rec('std::map', {}), 'box')), uval(ex, v.n))

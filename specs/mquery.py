"""Contracts for queries, evaluation, substitution, derivatives and conversions of multivariate polynomials (C11).
Monomials are codes as in mpoly.py.  EX(m,v) is the exponent of v in m, TD(m) the total degree, DR(m,v) the monomial without v; the facts used about
them (qf) are what the monomial units (C08/C09) establish.  Sums over terms: CF (coefficient of v^e), WS (value after substitution), WD (derivative), UV (univariate)."""
from .mpoly import *
from . import mpoly as MPO
from vc.containers import *
DRIVER = 'mpoly'; HARNESS = 'mpoly'
UNITS = []
I_, R_ = z3.IntSort(), z3.RealSort()
EX = z3.Function('EX', R_, I_, I_); TD = z3.Function('TD', R_, I_); DR = z3.Function('DR', R_, I_, R_); NV = z3.Function('NV', R_, I_); SV = z3.Function('SV', R_, I_)
FA = z3.Function('FA', R_, I_, I_, I_); DM = z3.Function('DM', R_, I_, I_, R_); VS = z3.Function('VS', R_, R_)
CF = z3.Function('CF', RA, RA, I_, I_, I_, R_); WS = z3.Function('WS', RA, RA, I_, R_); WD = z3.Function('WD', RA, RA, I_, I_, I_, R_); UV = z3.Function('UV', RA, I_, I_, R_)
def vid(v):
    return znum(v.f['mContent'])
def qf(ex, m, v=None):
    """facts about one monomial (and variable)"""
    m = z3.simplify(m)
    if v is None: ex.assume(z3.And(TD(m) >= 0, (TD(m) == 0) == (m == 0), TD(Rv(0)) == 0)); return
    qf(ex, m); d, e = DR(m, v), EX(m, v)
    ex.assume(z3.And(e >= 0, EX(Rv(0), v) == 0, e <= TD(m), d >= 0, z3.Implies(e == 0, d == m), (e == TD(m)) == (d == 0), EX(d, v) == 0, TD(d) == TD(m) - e, PV(v, 0) == 1, VM(Rv(0)) == 1))
    ex.assume_nl(VM(m) == VM(d) * PV(v, e))
def inj(ex, a, b, v):
    """a monomial is determined by an exponent and the rest"""
    ex.assume(z3.Implies(z3.And(EX(a, v) == EX(b, v), DR(a, v) == DR(b, v)), a == b))
def graded(ex, a, b): ex.assume(z3.And(z3.Implies(a <= b, TD(a) <= TD(b)), z3.Implies(b <= a, TD(b) <= TD(a))))
def mcode(ex, this):
    r = ex.read(this); return r.f['code']
def k_exp(ex, f, this, args, node): m, v = mcode(ex, this), vid(ex.val(args[0])); qf(ex, m, v); return EX(m, v)
def k_dropv(ex, f, this, args, node): m, v = mcode(ex, this), vid(ex.val(args[0])); qf(ex, m, v); return DR(m, v)
def k_tdeg(ex, f, this, args, node): m = mcode(ex, this); qf(ex, m); return TD(m)
def k_has(ex, f, this, args, node): m, v = mcode(ex, this), vid(ex.val(args[0])); qf(ex, m, v); return EX(m, v) > 0
def k_noother(ex, f, this, args, node): m, v = mcode(ex, this), vid(ex.val(args[0])); qf(ex, m, v); return EX(m, v) == TD(m)
def k_lin(ex, f, this, args, node): m = mcode(ex, this); qf(ex, m); return TD(m) == 1
def k_nv(ex, f, this, args, node): m = mcode(ex, this); nvf(ex, m); return NV(m)
def nvf(ex, m): qf(ex, m); qf(ex, m, SV(m)); ex.assume(z3.And(NV(m) >= 0, (NV(m) == 0) == (m == 0), SV(m) > 0, z3.Implies(NV(m) == 1, EX(m, SV(m)) == TD(m))))
def k_sv(ex, f, this, args, node): m = mcode(ex, this); nvf(ex, m); ex.prove('getSingleVariable: exactly one variable', NV(m) == 1, kind='pre'); return Rec('carl::Variable', {'mContent': SV(m)})
MN = 'carl::Monomial::'
QC = {MN + 'exponentOfVariable': k_exp, MN + 'dropVariable': k_dropv, MN + 'tdeg': k_tdeg, MN + 'has': k_has, MN + 'hasNoOtherVariable': k_noother, MN + 'isLinear': k_lin, MN + 'nrVariables': k_nv, MN + 'getSingleVariable': k_sv}
CQ = {**CON, **QC}
def unit(name, op=None, **kw):
    kw.setdefault('contracts', CQ); kw.setdefault('loops', {}); kw.setdefault('merge', False); kw.setdefault('describe', describe); kw.setdefault('shapes', SHAPES); kw.setdefault('scalar_recs', ('std::shared_ptr',))
    def deco(fn):
        UNITS.append(U('C11', name, fn, op, svec=True, weak_oracle=True, qf_branch=True, value_goal=lambda g: value_goal(g) or any(mentions(g, d) for d in (CF, WS, WD, UV)), globals={MP + '::mTermAdditionManager': lambda *a: Rec('carl::TermAdditionManager', {})}, **kw)); return fn
    return deco
def at(ex, *ks):
    for w, o in ex.ghost.get('pols', []): inst(ex, w, o, [*ks, *GIJ(ex), 0, znum(w.n) - 1])
# ------------------------------------------------------------------ degrees, occurrence, shape
def inv_deg(s, L):
    v = terms(s, L.frame.this); x = vid(L.v('var')); k = znum(L.k); I, _ = GIJ(s); mx = znum(L.v('max')); w = L.ghost['w']
    yield 'at least the exponents seen', z3.And(mx >= 0, z3.Implies(z3.And(0 <= I, I < k), EX(MO(v, I), x) <= mx))
    yield 'zero or one of the exponents seen', z3.Or(mx == 0, z3.And(0 <= w, w < k, EX(MO(v, w), x) == mx))
def b_deg(s, L): L.ghost['w'] = Iv(0)
def h_deg(s, L): L.ghost['w'] = s.fresh('w', 'int'); L.ghost['o'] = znum(L.v('max')); v = terms(s, L.frame.this); at(s, znum(L.k)); qf(s, MO(v, L.k), vid(L.v('var'))); qf(s, MO(v, GIJ(s)[0]), vid(L.v('var')))
def e_deg(s, L): L.ghost['w'] = z3.If(znum(L.v('max')) != L.ghost['o'], znum(L.k) - 1, L.ghost['w'])
@unit('q_deg', 'c11.query', loops={'degree': Loop(inv=inv_deg, begin=b_deg, havoc=h_deg, end=e_deg)})
def _(ex):
    p, x = POL(ex, 'p'), VAR(ex, 'x'); v = terms(ex, p); I, J = GIJ(ex); qf(ex, MO(v, I), vid(x)); r = znum(R(ex, 'q_deg', p, x))
    ex.prove('no term has a larger exponent than the degree', z3.Implies(z3.And(0 <= I, I < znum(v.n)), EX(MO(v, I), vid(x)) <= r))
    i = z3.Int('i!e'); ex.prove('some term has the degree as its exponent', z3.Or(r == 0, z3.Exists([i], z3.And(0 <= i, i < znum(v.n), EX(MO(v, i), vid(x)) == r))))
for root in ('q_tdeg', 'q_tdegf'):
    @unit(root, 'c11.query')
    def _(ex, root=root):
        p = POL(ex, 'p'); v = terms(ex, p); I, J = GIJ(ex); n = znum(v.n); l = MO(v, n - 1); qf(ex, l); qf(ex, MO(v, I)); graded(ex, MO(v, I), l); r = znum(R(ex, root, p))
        ex.prove('no term has a larger total degree', z3.Implies(z3.And(0 <= I, I < n), TD(MO(v, I)) <= r)); ex.prove('the total degree is that of the leading term', r == z3.If(n == 0, 0, TD(l)))
def k_thas(ex, f, this, args, node):
    t = ex.read(this); return EX(code(ex, t.f['mMonomial']), vid(ex.val(args[0]))) > 0
@unit('q_thas', None)
def _(ex):
    t, x = TERM(ex, 't'), VAR(ex, 'x'); m = code(ex, ex.read(t).f['mMonomial']); qf(ex, m, vid(x)); ex.prove('a variable occurs in a term iff its exponent is positive', zbool(R(ex, 'q_thas', t, x)) == (EX(m, vid(x)) > 0))
@unit('q_has', 'c11.query', contracts={**CQ, 'carl::Term::has': k_thas})
def _(ex):
    p, x = POL(ex, 'p'), VAR(ex, 'x'); v = terms(ex, p); I, J = GIJ(ex); qf(ex, MO(v, I), vid(x)); r = zbool(R(ex, 'q_has', p, x)); i = z3.Int('i!e')
    ex.prove('a variable occurring in a term is found', z3.Implies(z3.And(0 <= I, I < znum(v.n), EX(MO(v, I), vid(x)) > 0), r)); ex.prove('a variable found occurs in a term', z3.Implies(r, z3.Exists([i], z3.And(0 <= i, i < znum(v.n), EX(MO(v, i), vid(x)) > 0))))
@unit('q_const', 'c11.query')
def _(ex):
    p = POL(ex, 'p'); v = terms(ex, p); I, J = GIJ(ex); n = znum(v.n); r = zreal(R(ex, 'q_const', p)); ex.prove('the constant part is the coefficient of the constant monomial', z3.Implies(z3.And(0 <= I, I < n, MO(v, I) == 0), r == CO(v, I))); ex.prove('without constant term the constant part is zero', z3.Or(r == 0, z3.And(n >= 1, MO(v, 0) == 0)))
@unit('q_hasc', 'c11.query')
def _(ex):
    p = POL(ex, 'p'); v = terms(ex, p); I, J = GIJ(ex); n = znum(v.n); r = zbool(R(ex, 'q_hasc', p)); ex.prove('a constant term is found', z3.Implies(z3.And(0 <= I, I < n, MO(v, I) == 0), r)); ex.prove('a constant term found exists', z3.Implies(r, z3.And(n >= 1, MO(v, 0) == 0)))
for root in ('q_isconst', 'q_isconstf'):
    @unit(root, 'c11.query')
    def _(ex, root=root):
        p = POL(ex, 'p'); v = terms(ex, p); I, J = GIJ(ex); n = znum(v.n); r = zbool(R(ex, root, p)); ex.prove('a constant polynomial has no other term', z3.Implies(z3.And(r, 0 <= I, I < n), MO(v, I) == 0)); ex.prove('a polynomial that is not constant has another term', z3.Or(r, z3.And(n >= 1, MO(v, n - 1) > 0)))
@unit('q_zero', 'c11.query')
def _(ex): p = POL(ex, 'p'); ex.prove('zero', zbool(R(ex, 'q_zero', p)) == (znum(terms(ex, p).n) == 0))
for root in ('q_one', 'q_onef'):
    @unit(root, 'c11.query')
    def _(ex, root=root): p = POL(ex, 'p'); v = terms(ex, p); ex.prove('one', zbool(R(ex, root, p)) == z3.And(znum(v.n) == 1, CO(v, 0) == 1, MO(v, 0) == 0))
for root in ('q_lin', 'q_linf'):
    @unit(root, 'c11.query')
    def _(ex, root=root):
        p = POL(ex, 'p'); v = terms(ex, p); I, J = GIJ(ex); n = znum(v.n); l = MO(v, n - 1); ex.assume(z3.And(n >= 1, l > 0)); qf(ex, l); qf(ex, MO(v, I)); graded(ex, MO(v, I), l); r = zbool(R(ex, root, p))
        ex.prove('a linear polynomial has no term of a larger degree', z3.Implies(z3.And(r, 0 <= I, I < n), TD(MO(v, I)) <= 1)); ex.prove('a polynomial that is not linear has one', z3.Or(r, TD(l) > 1))
def inv_uni(s, L):
    v = terms(s, L.frame.this); k = znum(L.k); I, _ = GIJ(s); yield 'the terms seen have no other variable', z3.Implies(z3.And(0 <= I, I < k), EX(MO(v, I), vid(L.v('v'))) == TD(MO(v, I)))
def h_uni(s, L): v = terms(s, L.frame.this); at(s, znum(L.k)); qf(s, MO(v, L.k), vid(L.v('v'))); qf(s, MO(v, GIJ(s)[0]), vid(L.v('v')))
@unit('q_uni', 'c11.query', loops={'isUnivariate': Loop(inv=inv_uni, havoc=h_uni)})
def _(ex):
    p = POL(ex, 'p'); v = terms(ex, p); I, J = GIJ(ex); n = znum(v.n); l = MO(v, n - 1); nvf(ex, l); x = SV(l); qf(ex, MO(v, I), x); r = zbool(R(ex, 'q_uni', p)); i = z3.Int('i!e')
    ex.prove('a univariate polynomial has only the variable of its leading term', z3.Implies(z3.And(r, 0 <= I, I < n), EX(MO(v, I), x) == TD(MO(v, I)))); ex.prove('a polynomial that is not univariate has another variable', z3.Or(r, NV(l) > 1, z3.Exists([i], z3.And(0 <= i, i < n, EX(MO(v, i), x) != TD(MO(v, i))))))
@unit('q_var', 'c11.query')
def _(ex):
    p = POL(ex, 'p', nonzero=True); v = terms(ex, p); n = znum(v.n); qf(ex, MO(v, 0)); r = zbool(R(ex, 'q_var', p)); ex.prove('a variable is a single linear term with coefficient one', r == z3.And(n == 1, CO(v, 0) == 1, TD(MO(v, 0)) == 1))
# ------------------------------------------------------------------ coefficients
def cff(ex, v, x, e, *ks):
    ex.assume_nl(CF(cs(v), ms(v), x, e, 0) == 0)
    for k in ks: k = znum(k); m = MO(v, k); qf(ex, m, x); ex.assume_nl(z3.Implies(k >= 0, CF(cs(v), ms(v), x, e, k + 1) == CF(cs(v), ms(v), x, e, k) + z3.If(EX(m, x) == e, CO(v, k) * VM(DR(m, x)), 0)))
def out_sub(L): return L.ghost['S']
def sub_begin(s, L): L.ghost['S'] = [Iv(0), Iv(0)]
def sub_havoc(out):
    def h(s, L): L.ghost['S'] = [s.fresh('sI', 'int'), s.fresh('sJ', 'int')]; L.ghost['no'] = znum(out(s, L).n)
    return h
def sub_end(out):
    def e(s, L):
        o, n = L.ghost['no'], znum(out(s, L).n); L.ghost['S'] = [z3.If(z3.And(n == o + 1, g == o), znum(L.k) - 1, x) for g, x in zip(GIJ(s), L.ghost['S'])]
    return e
def sub_inv(s, L, out, rel):
    """the list built consists of images of terms visited, in order: at the ghost positions"""
    n = znum(out.n); k = znum(L.k); (I, J), (a, b) = GIJ(s), L.ghost['S']
    yield 'no more terms than visited', z3.And(n >= 0, n <= k)
    for g, x in ((I, a), (J, b)): yield 'every term comes from a term visited', z3.Implies(z3.And(0 <= g, g < n), z3.And(0 <= x, x < k, rel(g, x)))
    yield 'terms come in order', z3.Implies(z3.And(0 <= I, I < J, J < n), a < b)
def inv_coeff(s, L):
    v, w = terms(s, L.frame.this), terms(s, L.v('res')); x, e, k = vid(L.v('var')), znum(L.v('exp')), znum(L.k)
    yield from sub_inv(s, L, w, lambda g, i: z3.And(CO(w, g) == CO(v, i), EX(MO(v, i), x) == e, MO(w, g) == DR(MO(v, i), x)))
    yield 'the value of the coefficient', Wk(w, w.n) == CF(cs(v), ms(v), x, e, k)
def h_coeff(s, L):
    sub_havoc(lambda s, L: terms(s, L.v('res')))(s, L); v = terms(s, L.frame.this); x = vid(L.v('var')); a, b = L.ghost['S']; at(s, znum(L.k), a, b); cff(s, v, x, znum(L.v('exp')), L.k); facts(s, terms(s, L.v('res')))
    for i in (a, b): qf(s, MO(v, i), x); inj(s, MO(v, i), MO(v, L.k), x)
    inj(s, MO(v, a), MO(v, b), x)
def b_coeff(s, L): sub_begin(s, L); v = terms(s, L.frame.this); cff(s, v, vid(L.v('var')), znum(L.v('exp'))); facts(s, terms(s, L.v('res')), [0])
LC = {'coeff': Loop(inv=inv_coeff, begin=b_coeff, havoc=h_coeff, end=lambda s, L: (sub_end(lambda s, L: terms(s, L.v('res')))(s, L), facts(s, terms(s, L.v('res')))))}
@unit('q_coeff', 'c11.query', loops=LC)
def _(ex):
    p, x = POL(ex, 'p'), VAR(ex, 'x'); e = inp(ex, 'int', ex.fresh('e', 'int')); ex.assume(z3.And(e >= 0, e < 1 << 30)); v = terms(ex, p); r = R(ex, 'q_coeff', p, x, e)
    is_canonical(ex, 'the coefficient', r); value_is(ex, 'the coefficient', r, CF(cs(v), ms(v), vid(x), e, znum(v.n)))
def k_coeff(ex, f, this, args, node):
    if len(args) != 2: return NotImplemented
    v = terms(ex, this); return fresh_pol(ex, 'coeff', CF(cs(v), ms(v), vid(ex.val(args[0])), znum(ex.val(args[1])), znum(v.n)))
def k_degree(ex, f, this, args, node):
    if len(args) != 1: return NotImplemented
    v = terms(ex, this); x = vid(ex.val(args[0])); d = ex.fresh('deg', 'int'); i, w = z3.Int('i!g'), ex.fresh('w', 'int'); ex.ghost['deg'] = d
    ex.assume(z3.And(d >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(v.n)), EX(MO(v, i), x) <= d), patterns=[MO(v, i)]), z3.Or(d == 0, z3.And(0 <= w, w < znum(v.n), EX(MO(v, w), x) == d)))); return d
@unit('q_lcoeff', 'c11.query', contracts={**CQ, f'{MP}::coeff': k_coeff, f'{MP}::degree': k_degree})
def _(ex):
    p, x = POL(ex, 'p'), VAR(ex, 'x'); v = terms(ex, p); r = R(ex, 'q_lcoeff', p, x); is_canonical(ex, 'the leading coefficient', r); value_is(ex, 'the leading coefficient', r, CF(cs(v), ms(v), vid(x), ex.ghost['deg'], znum(v.n)))
# ------------------------------------------------------------------ evaluation
def MAPV(ex): return ex.alloc(Rec('MAP', {}), 'map')
def k_evm(ex, f, this, args, node):
    t = ex.val(args[0])
    if isinstance(t, Rec) and t.q == 'carl::Monomial': return VM(t.f['code'])
    return NotImplemented
def k_evt(ex, f, this, args, node):
    t = ex.val(args[0])
    if isinstance(t, Rec) and t.q == 'carl::Term': return zreal(t.f['mCoeff']) * VM(code(ex, t.f['mMonomial']))
    return NotImplemented
@unit('q_evalt', 'c11.eval', contracts={**CQ, 'carl::evaluate': k_evm})
def _(ex):
    t = TERM(ex, 't'); r = R(ex, 'q_evalt', t, MAPV(ex)); ex.prove('the value of a term is its coefficient times the value of its monomial', zreal(r) == tval(ex, t))
def inv_ev(s, L):
    v = terms(s, L.v('p')); yield 'the value of the terms visited', zreal(L.v('result')) == Wk(v, znum(L.k) + 1); yield 'the counter', z3.And(znum(L.v('i')) == znum(L.k) + 1, znum(L.v('i')) <= znum(v.n))
def h_ev(s, L): v = terms(s, L.v('p')); facts(s, v, [znum(L.k) + 1, znum(L.k) + 2, 1])
@unit('q_eval', 'c11.eval', contracts={**CQ, 'carl::evaluate': k_evt}, loops={'evaluate': Loop(inv=inv_ev, begin=h_ev, havoc=h_ev)})
def _(ex):
    p = POL(ex, 'p'); ex.assume(znum(terms(ex, p).n) < 1 << 32); r = R(ex, 'q_eval', p, MAPV(ex)); ex.prove('the value of a polynomial is the sum of the values of its terms', zreal(r) == val(ex, p))
# ------------------------------------------------------------------ substitution
def wsf(ex, v, *ks):
    ex.assume_nl(WS(cs(v), ms(v), 0) == 0)
    for k in ks: k = znum(k); ex.assume_nl(z3.Implies(k >= 0, WS(cs(v), ms(v), k + 1) == WS(cs(v), ms(v), k) + CO(v, k) * VS(MO(v, k))))
def k_st(ex, f, this, args, node):
    """substitute(term, map): the value of the result is the value of the term at the substituted point (units q_substt, q_substtt)"""
    t = ex.val(args[0])
    if not (isinstance(t, Rec) and t.q == 'carl::Term'): return NotImplemented
    c, m = ex.fresh('sc', 'real'), ex.fresh('sm', 'real'); ex.assume(m >= 0); ex.assume_nl(c * VM(m) == zreal(t.f['mCoeff']) * VS(code(ex, t.f['mMonomial']))); return Rec('carl::Term', {'mCoeff': c, 'mMonomial': m})
def inv_sq(s, L):
    v = terms(s, L.v('p')); t, o = tam(s, L), tam_old(s, L); k = znum(L.k)
    yield 'the substituted terms have been added', t.f['val'] == o.f['val'] + WS(cs(v), ms(v), k); yield 'at most one term per round', z3.And(t.f['cnt'] <= o.f['cnt'] + k, t.f['size'] == o.f['size'])
def h_sq(s, L): wsf(s, terms(s, L.v('p')), L.k)
for root, op in (('q_substq', 'c11.substq'), ('q_substterm', 'c11.substt')):
    @unit(root, op, contracts={**CQ, 'carl::substitute': k_st}, loops={'substitute': Loop(inv=inv_sq, begin=h_sq, havoc=h_sq)})
    def _(ex, root=root):
        p = POL(ex, 'p'); v = terms(ex, p); r = R(ex, root, p, MAPV(ex)); is_canonical(ex, 'the substituted polynomial', r); value_is(ex, 'the substituted polynomial', r, WS(cs(v), ms(v), znum(v.n)))
# ------------------------------------------------------------------ derivatives
def derf(ex, m, x, n):
    """n-th derivative of a monomial: FA times the monomial DM (unit m_der of mono.py)"""
    qf(ex, m, x); ex.assume(z3.And(FA(m, x, n) >= 0, (FA(m, x, n) == 0) == (EX(m, x) < n), DM(m, x, n) >= 0))
def k_dm(ex, f, this, args, node):
    if not is_sp(ex, f, 0): return NotImplemented
    m, x, n = code(ex, args[0]), vid(ex.val(args[1])), znum(ex.val(args[2])); derf(ex, m, x, n); return Tup([FA(m, x, n), DM(m, x, n)])
def k_dt(ex, f, this, args, node):
    t = ex.val(args[0])
    if not (isinstance(t, Rec) and t.q == 'carl::Term'): return NotImplemented
    m, x, n = code(ex, t.f['mMonomial']), vid(ex.val(args[1])), znum(ex.val(args[2])); derf(ex, m, x, n); return Rec('carl::Term', {'mCoeff': zreal(t.f['mCoeff']) * z3.ToReal(FA(m, x, n)), 'mMonomial': DM(m, x, n)})
def dargs(ex): x = VAR(ex, 'x'); n = inp(ex, 'int', ex.fresh('n', 'int')); ex.assume(z3.And(n >= 0, n < 1 << 30)); return x, n
@unit('q_dert', None, contracts={**CQ, 'carl::derivative': k_dm})
def _(ex):
    t = TERM(ex, 't'); x, n = dargs(ex); m, c = code(ex, ex.read(t).f['mMonomial']), ex.read(t).f['mCoeff']; derf(ex, m, vid(x), n); r = R(ex, 'q_dert', t, x, n)
    ex.prove('the coefficient of the derivative of a term', zreal(r.f['mCoeff']) == z3.If(n == 0, c, c * z3.ToReal(FA(m, vid(x), n)))); ex.prove('the monomial of the derivative of a term', z3.Or(zreal(r.f['mCoeff']) == 0, code(ex, r.f['mMonomial']) == z3.If(n == 0, m, DM(m, vid(x), n))))
def wdf(ex, v, x, n, *ks):
    ex.assume_nl(WD(cs(v), ms(v), x, n, 0) == 0)
    for k in ks: k = znum(k); m = MO(v, k); derf(ex, m, x, n); ex.assume_nl(z3.Implies(k >= 0, WD(cs(v), ms(v), x, n, k + 1) == WD(cs(v), ms(v), x, n, k) + CO(v, k) * z3.ToReal(FA(m, x, n)) * VM(DM(m, x, n))))
def inv_der(s, L):
    v = terms(s, L.v('p')); w = as_svec(s, L.v('newTerms'), TSH); x, n = vid(L.v('v')), znum(L.v('n')); i = z3.Int('i!w')
    yield 'the terms derived are valid and not zero', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(w.n)), z3.And(CO(w, i) != 0, MO(w, i) >= 0)), patterns=[MO(w, i)]); yield 'no more terms than visited', z3.And(0 <= znum(w.n), znum(w.n) <= znum(L.k))
    yield 'the value of the terms derived', Wk(w, w.n) == WD(cs(v), ms(v), x, n, znum(L.k))
def h_der(s, L): w = as_svec(s, L.v('newTerms'), TSH); facts(s, w, [0]); wdf(s, terms(s, L.v('p')), vid(L.v('v')), znum(L.v('n')), L.k); at(s, znum(L.k))
def e_der(s, L): facts(s, as_svec(s, L.v('newTerms'), TSH))
def c_begin(s, L): facts(s, this_terms(s, L), [0])
@unit('q_der', 'c11.der', contracts={**CQ, 'carl::derivative': first_then(k_dt)}, loops={'derivative': Loop(inv=inv_der, begin=h_der, havoc=h_der, end=e_der), 'MultivariatePolynomial': tam_loop(this_terms)})
def _(ex):
    p = POL(ex, 'p'); x, n = dargs(ex); v = terms(ex, p); ex.assume(znum(v.n) < 1 << 60); N = znum(v.n); wdf(ex, v, vid(x), n, 0); derf(ex, Rv(0), vid(x), n); e = val(ex, p)
    r = R(ex, 'q_der', p, x, n); is_canonical(ex, 'the derivative', r); value_is(ex, 'the derivative', r, z3.If(n == 0, e, WD(cs(v), ms(v), vid(x), n, N)))
# ------------------------------------------------------------------ univariate representation
def uvf(ex, a, x, *ks):
    ex.assume_nl(UV(a, x, 0) == 0); ex.assume(PV(x, 0) == 1)
    for k in ks: k = znum(k); ex.assume_nl(z3.Implies(k >= 0, UV(a, x, k + 1) == UV(a, x, k) + z3.Select(a, k) * PV(x, k)))
def uv_store(a, x, d, c, n): return UV(z3.Store(a, d, c), x, n) == UV(a, x, n) + z3.If(z3.And(0 <= d, d < n), (c - z3.Select(a, d)) * PV(x, d), 0)
def uv_zero(a, x, n):
    j = z3.Int('j!z'); return z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(a, j) == 0)), UV(a, x, n) == 0)
@unit('lemma_uv')
def _(ex):
    a, x, d, c, k = ex.fresh('a', RA), ex.fresh('x', 'int'), ex.fresh('d', 'int'), ex.fresh('c', 'real'), ex.fresh('k', 'int'); ex.assume(k >= 0); st = z3.Store(a, d, c)
    for b in (a, st): uvf(ex, b, x, k)
    ex.prove('store: base', uv_store(a, x, d, c, Iv(0))); ex.assume(uv_store(a, x, d, c, k)); ex.prove('store: step', uv_store(a, x, d, c, k + 1))
    j = z3.Int('j!z'); z = lambda n: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(a, j) == 0)); ex.prove('zero: base', UV(a, x, 0) == 0)
    ex.assume(z3.Implies(z(k), UV(a, x, k) == 0)); ex.assume(z(k + 1)); ex.assume(z(k)); ex.assume(z3.Select(a, k) == 0); ex.prove('zero: step', UV(a, x, k + 1) == 0)
def inv_tu(s, L):
    v = terms(s, L.v('p')); a = as_svec(s, L.v('coeffs'), REAL); x = s.ghost['x']; k = znum(L.k); i = z3.Int('i!t'); n = znum(v.n); I, _ = GIJ(s)
    yield 'the number of coefficients', znum(a.n) == TD(MO(v, n - 1)) + 1
    yield 'the value of the coefficients set', UV(a.cols[0], x, znum(a.n)) == Wk(v, k)
    yield 'coefficients of terms not visited are zero', z3.ForAll([i], z3.Implies(z3.And(k <= i, i < n), z3.Select(a.cols[0], TD(MO(v, i))) == 0), patterns=[MO(v, i)])
    for i in (I, n - 1): yield 'coefficients of terms visited are set', z3.Implies(z3.And(0 <= i, i < k), z3.Select(a.cols[0], TD(MO(v, i))) == CO(v, i))
def b_tu(s, L):
    v = terms(s, L.v('p')); a = as_svec(s, L.v('coeffs'), REAL); facts(s, v, [0]); s.assume_nl(uv_zero(a.cols[0], s.ghost['x'], znum(a.n)))
    j = z3.Int('j!z'); s.prove('all coefficients start as zero', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < znum(a.n)), z3.Select(a.cols[0], j) == 0))); s.assume_nl(UV(a.cols[0], s.ghost['x'], znum(a.n)) == 0)
def h_tu(s, L):
    v = terms(s, L.v('p')); k = znum(L.k); x = s.ghost['x']; facts(s, v, [k, k + 1]); at(s, k); n = znum(v.n); I, _ = GIJ(s)
    for i in (k, I, n - 1): qf(s, MO(v, i), x); graded(s, MO(v, i), MO(v, n - 1)); inj(s, MO(v, i), MO(v, k), x); s.assume(z3.Implies(z3.And(0 <= i, i < n), EX(MO(v, i), x) == TD(MO(v, i))))
    L.ghost['a'] = as_svec(s, L.v('coeffs'), REAL).cols[0]
def e_tu(s, L):
    v = terms(s, L.v('p')); k = z3.simplify(znum(L.k) - 1); d = TD(MO(v, k)); a = as_svec(s, L.v('coeffs'), REAL); c = a.cols[0]; o = L.ghost['a']
    if not z3.is_store(c): s.prove('one coefficient is set', False); return
    _, i, y = c.children(); s.assume_nl(uv_store(o, s.ghost['x'], i, y, znum(a.n)))
def t_distinct(v, x):
    """different terms of a univariate polynomial have different degrees"""
    i, j = z3.Ints('i!x j!x'); return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < znum(v.n)), TD(MO(v, i)) != TD(MO(v, j))), patterns=[z3.MultiPattern(MO(v, i), MO(v, j))])
@unit('lemma_degrees')
def _(ex):
    p = POL(ex, 'p'); v = terms(ex, p); I, J = GIJ(ex); x = ex.fresh('x', 'int')
    for i in (I, J): qf(ex, MO(v, i), x); ex.assume(z3.Implies(z3.And(0 <= i, i < znum(v.n)), EX(MO(v, i), x) == TD(MO(v, i))))
    inj(ex, MO(v, I), MO(v, J), x); ex.prove('different terms have different degrees', z3.Implies(z3.And(0 <= I, I < J, J < znum(v.n)), TD(MO(v, I)) != TD(MO(v, J))))
@unit('q_touni', 'c11.uniq', loops={'to_univariate_polynomial': Loop(inv=inv_tu, begin=b_tu, havoc=h_tu, end=e_tu)})
def _(ex):
    p = POL(ex, 'p', nonzero=True); v = terms(ex, p); n = znum(v.n); l = MO(v, n - 1); nvf(ex, l); x = SV(l); ex.ghost['x'] = x; ex.assume(z3.And(l > 0, NV(l) == 1)); i = z3.Int('i!u'); ex.assume(t_distinct(v, x)); I, J = GIJ(ex)
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(EX(MO(v, i), x) == TD(MO(v, i)), TD(MO(v, i)) >= 0, TD(MO(v, i)) <= TD(l))), patterns=[MO(v, i)])); ex.assume(TD(l) < 1 << 30)
    for q in (I, n - 1): qf(ex, MO(v, q), x); graded(ex, MO(v, q), l)
    r = R(ex, 'q_touni', p); a = as_svec(ex, r.f['mCoefficients'], REAL); ex.prove('the main variable', vid(r.f['mMainVar']) == x); ex.prove('the degree', znum(a.n) == TD(l) + 1)
    ex.prove('the coefficient of every term', z3.Implies(z3.And(0 <= I, I < n), z3.Select(a.cols[0], TD(MO(v, I))) == CO(v, I))); ex.prove('the value', UV(a.cols[0], x, znum(a.n)) == val(ex, p))
def inv_fu(s, L):
    w = terms(s, L.frame.this); u = L.v('p'); a = as_svec(s, u.f['mCoefficients'], REAL); x = vid(u.f['mMainVar']); k = znum(L.k)
    yield 'the exponent counts the rounds', znum(L.v('exp')) == k
    yield from sub_inv(s, L, w, lambda g, i: z3.And(CO(w, g) == z3.Select(a.cols[0], i), CO(w, g) != 0, MO(w, g) == VC(x, i), z3.Implies(g >= 1, i >= 1)))
    yield 'the value of the terms', Wk(w, w.n) == UV(a.cols[0], x, k)
def th(s, L): return terms(s, L.frame.this)
def h_fu(s, L):
    sub_havoc(th)(s, L); u = L.v('p'); a = as_svec(s, u.f['mCoefficients'], REAL); x = vid(u.f['mMainVar']); k = znum(L.k); uvf(s, a.cols[0], x, k); facts(s, th(s, L)); var_code(s, x, k)
def b_fu(s, L): sub_begin(s, L); u = L.v('p'); uvf(s, as_svec(s, u.f['mCoefficients'], REAL).cols[0], vid(u.f['mMainVar'])); facts(s, th(s, L), [0])
def e_fu(s, L):
    sub_end(th)(s, L); facts(s, th(s, L)); x = vid(L.v('p').f['mMainVar']); S = L.ghost['S']
    for i in S: var_code(s, x, i)
    for i in S:
        for j in S: s.assume(z3.Implies(z3.And(0 <= i, i < j), VC(x, i) < VC(x, j)))
    s.ghost['S'] = S
@unit('q_fromu', 'c11.uniq', loops={'MultivariatePolynomial': Loop(inv=inv_fu, begin=b_fu, havoc=lambda s, L: (h_fu(s, L), pow_order(s, L)), end=e_fu)})
def _(ex):
    a = fresh_svec(ex, 'u', REAL); x = VAR(ex, 'x', rec=False); n = znum(a.n); ex.assume(z3.And(n < 1 << 30, z3.Implies(n >= 1, z3.Select(a.cols[0], n - 1) != 0), VM(Rv(0)) == 1)); r = R(ex, 'q_fromu', ex.alloc(Rec('carl::UnivariatePolynomial', {'mMainVar': x, 'mCoefficients': a}), 'u'))
    is_canonical(ex, 'the multivariate polynomial', r); value_is(ex, 'the multivariate polynomial', r, UV(a.cols[0], vid(x), n))
def pow_order(s, L):
    """larger powers of a variable are larger (C09)"""
    x = vid(L.v('p').f['mMainVar']); k = znum(L.k); S = L.ghost['S'] + [k]
    for i in S: var_code(s, x, i)
    for i in S:
        for j in S: s.assume(z3.Implies(z3.And(0 <= i, i < j), VC(x, i) < VC(x, j)))
def k_strip(ex, f, this, args, node):
    """stripLeadingZeroes (C12) where the leading coefficient is not zero: nothing to strip"""
    a = as_svec(ex, ex.read(this).f['mCoefficients'], REAL); ex.prove('the leading coefficient is not zero', z3.And(znum(a.n) >= 1, z3.Select(a.cols[0], znum(a.n) - 1) != 0), kind='pre'); return VOID
CQ['carl::UnivariatePolynomial::stripLeadingZeroes'] = k_strip
# ------------------------------------------------------------------ evaluation and substitution of monomials and terms (on the exponent lists)
from . import mono as MM
XV = z3.Function('XV', I_, R_); MV = z3.Function('MV', MM.IA, MM.IA, I_, R_); SUB = z3.Function('SUB', I_, z3.BoolSort()); YV = z3.Function('YV', I_, R_)
def POINT(ex, m, total):
    """a map from variables to values: XV(v) is the value the point has at v, SUB(v) tells whether the map has v"""
    mp = fresh_map(ex, 'map', TupShape([RecShape('carl::Variable', [('mContent', INT)]), REAL])); j = z3.Int('j!mp'); IX = z3.Function('IX', I_, I_); n = znum(mp.n)
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(mp.cols[1], j) == XV(z3.Select(mp.cols[0], j)), SUB(z3.Select(mp.cols[0], j)))), patterns=[z3.Select(mp.cols[0], j)])); ex.ghost['map'] = mp
    x = z3.Int('x!mp'); ex.assume(z3.ForAll([x], z3.Implies(SUB(x), z3.And(0 <= IX(x), IX(x) < n, z3.Select(mp.cols[0], IX(x)) == x)), patterns=[SUB(x)])); c = MM.C(ex, m).cols[0]
    if total: i = z3.Int('i!mp'); ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(MM.C(ex, m).n)), SUB(z3.Select(c, i))), patterns=[z3.Select(c, i)]))
    return ex.alloc(mp, 'map')
def mvf(ex, v, *ks):
    ex.assume_nl(MV(v.cols[0], v.cols[1], 0) == 1)
    for k in ks: k = znum(k); ex.assume_nl(z3.Implies(k >= 0, MV(v.cols[0], v.cols[1], k + 1) == MV(v.cols[0], v.cols[1], k) * PW(XV(z3.Select(v.cols[0], k)), z3.Select(v.cols[1], k))))
def mv(v, k): return MV(v.cols[0], v.cols[1], znum(k))
def k_pow(ex, f, this, args, node):
    """power of a number (C02)"""
    return PW(zreal(ex.val(args[0])), znum(ex.val(args[1])))
def inst_at(s, v, k):
    k = znum(k); mp = s.ghost['map']; mvf(s, v, k); x = z3.Select(v.cols[0], k); s.assume(z3.Implies(z3.And(0 <= k, k < znum(v.n)), x > 0))
def munit(name, op, **kw): return unit(name, op, shapes={}, scalar_recs=(), describe=lambda ex, m: [], qf_first=False, **kw)
def inv_evm(s, L): v = MM.C(s, L.v('m')); yield 'the factors visited so far', zreal(L.v('res')) == mv(v, L.k)
def h_evm(s, L): inst_at(s, MM.C(s, L.v('m')), L.k)
@munit('q_evalm', None, contracts={'carl::pow': k_pow}, loops={'evaluate': Loop(inv=inv_evm, begin=h_evm, havoc=h_evm)})
def _(ex):
    m = MM.MON(ex, 'm', rec=False); mp = POINT(ex, m, True); v = MM.C(ex, m); r = R(ex, 'q_evalm', m, mp); ex.prove('the value of a monomial is the product of the powers of the values', zreal(r) == mv(v, v.n))
def inv_sbt(s, L):
    v = s.ghost['v']; o = as_svec(s, L.v('content'), MM.PSH); k = znum(L.k); i, j = z3.Ints('i!b j!b'); n = znum(o.n); c, e = o.cols
    yield 'no more factors than visited', z3.And(0 <= n, n <= k)
    yield 'the factors kept are ordered and not substituted', z3.And(MM.adjacent(o), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(c, i) > 0, z3.Select(e, i) > 0, z3.Not(SUB(z3.Select(c, i))))), patterns=[z3.Select(c, i)]))
    yield 'the factors kept precede the rest', z3.Implies(z3.And(n >= 1, k < znum(v.n)), z3.Select(c, n - 1) < z3.Select(v.cols[0], k))
    yield 'the value so far', zreal(L.v('coeff')) * mv(o, n) == s.ghost['c'] * mv(v, k)
def h_sbt(s, L):
    v = s.ghost['v']; k = znum(L.k); inst_at(s, v, k); o = as_svec(s, L.v('content'), MM.PSH); L.ghost['o'] = o; L.ghost['c'] = zreal(L.v('coeff')); mvf(s, o)
    for j in (k, k + 1): s.assume(z3.Implies(z3.And(0 < j, j < znum(v.n)), z3.Select(v.cols[0], j - 1) < z3.Select(v.cols[0], j)))
    s.assume(z3.Implies(z3.And(0 <= k, k < znum(v.n)), z3.Select(v.cols[1], k) > 0))
def e_sbt(s, L):
    v = s.ghost['v']; k = z3.simplify(znum(L.k) - 1); o, w = L.ghost['o'], as_svec(s, L.v('content'), MM.PSH); c0, c1 = L.ghost['c'], zreal(L.v('coeff')); P = PW(XV(z3.Select(v.cols[0], k)), z3.Select(v.cols[1], k)); mvf(s, w, znum(o.n)); pre_mv(s, o, w)
    s.assume_nl(z3.Implies(c0 * mv(o, o.n) == s.ghost['c'] * mv(v, k), z3.And((c0 * P) * mv(o, o.n) == s.ghost['c'] * (mv(v, k) * P), c0 * (mv(o, o.n) * P) == s.ghost['c'] * (mv(v, k) * P))))
def pre_mv(s, o, w):
    """the product of the first factors depends on these only (unit lemma_mv)"""
    i = z3.Int('i!pm'); s.assume_nl(z3.Implies(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(o.n)), z3.And(z3.Select(w.cols[0], i) == z3.Select(o.cols[0], i), z3.Select(w.cols[1], i) == z3.Select(o.cols[1], i)))), mv(w, o.n) == mv(o, o.n)))
@munit('lemma_mv', None)
def _(ex):
    o, w = fresh_svec(ex, 'o', MM.PSH), fresh_svec(ex, 'w', MM.PSH); k = ex.fresh('k', 'int'); ex.assume(k >= 0); mvf(ex, o, k); mvf(ex, w, k); ex.prove('base', mv(w, 0) == mv(o, 0)); ex.assume(mv(w, k) == mv(o, k)); ex.assume(z3.And(z3.Select(w.cols[0], k) == z3.Select(o.cols[0], k), z3.Select(w.cols[1], k) == z3.Select(o.cols[1], k))); ex.prove('step', mv(w, k + 1) == mv(o, k + 1))
def k_mk(ex, f, this, args, node):
    v = as_svec(ex, ex.val(args[0]), MM.PSH); ex.prove('the created monomial is not empty', znum(v.n) >= 1); ex.prove('the created monomial lists its variables strictly ordered', MM.adjacent(v)); ex.prove('the created monomial has positive exponents', MM.positive(v)); return MM.mono(ex, v, 'res')
@munit('q_substt', None, contracts={'carl::pow': k_pow, 'carl::createMonomial': k_mk}, loops={'substitute': Loop(inv=inv_sbt, begin=h_sbt, havoc=h_sbt, end=e_sbt)})
def _(ex):
    m = MM.MON(ex, 'm', rec=False); v = MM.C(ex, m); mp = POINT(ex, m, False); c = ex.fresh('c', 'real'); ex.ghost.update(v=v, c=c); ex.assume(znum(v.n) < 1 << 30)
    r = R(ex, 'q_substt', ex.alloc(Rec('carl::Term', {'mCoeff': c, 'mMonomial': m}), 't'), mp); k = r.f['mMonomial']; o = None if k is NULL else MM.C(ex, k); i = ex.fresh('i', 'int')
    while isinstance(k, Loc) and isinstance(ex.read(k), Loc): k = ex.read(k)
    if o is not None: ex.prove('no substituted variable is left', z3.Implies(z3.And(0 <= i, i < znum(o.n)), z3.Not(SUB(z3.Select(o.cols[0], i)))))
    ex.prove('the value of the substituted term is the value of the term at the point', zreal(r.f['mCoeff']) * (1 if o is None else mv(o, o.n)) == c * mv(v, v.n))
def nullp(ex, x):
    while isinstance(x, Loc): x = ex.read(x)
    return z3.BoolVal(x is NULL or x is None or x is UNDEF)
@munit('q_substt_const', None, contracts={'carl::pow': k_pow})
def _(ex):
    c = ex.fresh('c', 'real'); mp = fresh_map(ex, 'map', TupShape([RecShape('carl::Variable', [('mContent', INT)]), REAL])); r = R(ex, 'q_substt', ex.alloc(Rec('carl::Term', {'mCoeff': c, 'mMonomial': NULL}), 't'), ex.alloc(mp, 'map')); ex.prove('a constant is not changed', z3.And(zreal(r.f['mCoeff']) == c, nullp(ex, r.f['mMonomial'])))

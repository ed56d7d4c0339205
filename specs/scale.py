"""Contracts for content, primitive part and coprime scaling (C31).  The coefficient at an arbitrary index is followed
through the loops: DV(a, b) stands for "a divides b"; gcd and lcm are used through their contracts (divisor of both,
multiple of both) together with transitivity at the followed coefficient."""
from .common import *
from vc.containers import *
from . import upoly as UP, mpoly as MPO
from .upoly import POLY, CV_, GI, wf, R, VAR, Iv, Rv, BASE, coef, coefz, this_vec
DRIVER = 'scale'; HARNESS = 'scale'
UNITS = []
def unit(name, op=None, prop='C31', **kw):
    def d(run):
        k = dict(svec=True, merge=False); k.update(kw); k['contracts'] = {**KN, **k.get('contracts', {})}
        UNITS.append(U(prop, 'scale.' + name, run, op, **k)); return run
    return d
DV = z3.Function('DV', z3.IntSort(), z3.IntSort(), z3.BoolSort())
NUM = z3.Function('NUM', z3.RealSort(), z3.IntSort()); DEN = z3.Function('DEN', z3.RealSort(), z3.IntSort())
def numden(ex, q):
    q = zreal(q); n, d = NUM(q), DEN(q); ex.assume(z3.And(d >= 1, (n == 0) == (q == 0), (n < 0) == (q < 0))); ex.assume_nl(q * zreal(d) == zreal(n)); return n, d
def k_num(ex, f, this, args, node): 
    v = ex.val(args[0]); return v if isinstance(v, int) or v.is_int() else numden(ex, v)[0]
def k_den(ex, f, this, args, node):
    v = ex.val(args[0]); return 1 if isinstance(v, int) or v.is_int() else numden(ex, v)[1]
def followed(ex): return ex.ghost.get('T', []), ex.ghost.get('D', [])
def k_gcd(ex, f, this, args, node):
    a, b = znum(ex.val(args[0])), znum(ex.val(args[1])); g = ex.fresh('gcd', 'int')
    ex.assume(z3.And(g >= 0, (g == 0) == z3.And(a == 0, b == 0), DV(g, a), DV(g, b)))
    for t in followed(ex)[0]: ex.assume(z3.And(z3.Implies(DV(a, t), DV(g, t)), z3.Implies(DV(b, t), DV(g, t))))
    neg(ex, g); return g
def k_lcm(ex, f, this, args, node):
    a, b = znum(ex.val(args[0])), znum(ex.val(args[1])); l = ex.fresh('lcm', 'int')
    ex.assume(z3.And(l >= 0, (l == 0) == z3.Or(a == 0, b == 0), DV(a, l), DV(b, l)))
    for t in followed(ex)[1]: ex.assume(z3.And(z3.Implies(DV(t, a), DV(t, l)), z3.Implies(DV(t, b), DV(t, l))))
    neg(ex, l); return l
def k_abs(ex, f, this, args, node):
    v = ex.val(args[0])
    if isinstance(v, int): return abs(v)
    if v.is_int(): neg(ex, v); sameabs(ex, v)
    return z3.If(v < 0, -v, v)
def neg(ex, x):
    """divisibility does not depend on signs (lemma_sign)"""
    for t in followed(ex)[0]: ex.assume(z3.And(DV(x, t) == DV(-x, t), DV(t, t), DV(-t, t), DV(t, -t), z3.Implies(t == 0, DV(x, t))))
    for t in followed(ex)[1]: ex.assume(z3.And(DV(t, x) == DV(t, -x), DV(t, t)))
def sameabs(ex, v): ex.assume(z3.And(DV(v, v), DV(-v, v), DV(v, -v)))
KN = {'carl::getNum': k_num, 'carl::getDenom': k_den, 'carl::gcd': k_gcd, 'carl::lcm': k_lcm, 'carl::abs': k_abs}
@unit('lemma_divides')
def _(ex):
    a, u, g, w, s = [ex.fresh(n, 'int') for n in 'augws']; t = a * u
    ex.prove('a divisor of a divisor is a divisor', z3.Implies(a == g * w, t == g * (w * u))); ex.prove('divisibility does not depend on the sign of the divisor', t == (-a) * (-u)); ex.prove('or of the multiple', -t == a * (-u))
def follow(ex, c):
    """follow the coefficient c: numerator as multiple, denominator as divisor"""
    n, d = numden(ex, c); ex.ghost['T'] = [n]; ex.ghost['D'] = [d]; neg(ex, n); neg(ex, d); return n, d
def wit(ex, a, b, nm):
    """b = a * u"""
    u = ex.fresh(nm, 'int'); ex.assume_nl(z3.Implies(DV(a, b), b == a * u)); return u
def integral(ex, what, c, factor, num, den):
    """c * factor is an integer, given factor = den / num with num | numerator(c) and denominator(c) | den"""
    n, d = numden(ex, c); ex.prove(f'{what}: the numerator is divided', DV(num, n)); ex.prove(f'{what}: the denominator is cancelled', DV(d, den))
# ------------------------------------------------------------------ univariate
def inv_cf(s, L):
    v = this_vec(L); i = znum(L.v('it').i); num, den = znum(L.v('num')), znum(L.v('den')); g = s.ghost['g']
    n, d = numden(s, z3.Select(v.cols[0], g)); neg(s, num); neg(s, den); last = znum(v.n) - 1
    yield 'position', z3.And(i >= 1, i <= znum(v.n)); yield 'the denominator is positive', den >= 1
    yield 'a non-zero leading coefficient keeps the numerator non-zero', z3.Implies(i > last, num != 0)
    yield 'divides the numerator of every coefficient seen', z3.Implies(g < i, DV(num, n)); yield 'is a multiple of the denominator of every coefficient seen', z3.Implies(g < i, DV(d, den))
    s.ghost['num'], s.ghost['den'] = num, den
CF = Loop(inv=inv_cf, variant=lambda s, L: znum(this_vec(L).n) - znum(L.v('it').i))
def start(ex, p, integer=False):
    v = CV_(ex, p); g = GI(ex); ex.ghost['g'] = g; ex.assume(g < znum(v.n)); c = z3.Select(v.cols[0], g)
    if integer: ex.ghost['T'] = [c]; neg(ex, c); neg(ex, z3.Select(v.cols[0], znum(v.n) - 1)); return v, g, c
    follow(ex, c); numden(ex, z3.Select(v.cols[0], znum(v.n) - 1)); return v, g, c
@unit('u_cf', 'c31.coprime', loops={'coprimeFactor': CF})
def _(ex):
    p = POLY(ex, 'p', nz=True); v, g, c = start(ex, p); r = zreal(R(ex, 'u_cf', p)); num, den = ex.ghost.get('num'), ex.ghost.get('den')
    if num is None: raise Unsupported('no loop over the coefficients')
    n, d = numden(ex, c); integral(ex, 'scaling', c, r, num, den)
    ex.prove('the factor is the quotient', r * zreal(num) == zreal(den)); ex.prove('the factor is not zero', r != 0)
    u, w = wit(ex, num, n, 'u'), wit(ex, d, den, 'w')
    ex.prove('the scaled coefficient is an integer', (c * r) * (zreal(d) * zreal(num)) == zreal(u * w) * (zreal(d) * zreal(num)))
@unit('lemma_cancel')
def _(ex):
    x, y, k = [ex.fresh(n, 'real') for n in 'xyk']; ex.assume(k != 0); ex.prove('cancellation', z3.Implies(x * k == y * k, x == y))
def k_cf(ex, f, this, args, node):
    """coprimeFactor (units u_cf, m_cf): a non-zero number whose product with every coefficient is an integer"""
    v = CV_(ex, this); r = ex.ghost['f'] = ex.fresh('factor', 'real'); ex.prove('coprimeFactor is called on a non-zero polynomial', znum(v.n) >= 1); ex.assume(r != 0)
    j = z3.Int('j!c'); ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < znum(v.n)), DEN(z3.Select(v.cols[0], j) * r) == 1)))
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < znum(v.n)), DEN(z3.Select(v.cols[0], j) * -r) == 1))); return r
def inv_cc(s, L):
    o = L.old_this.f['mCoefficients']; v = L.v('result').f['mCoefficients']; f = zreal(L.v('factor'))
    yield 'one coefficient per coefficient', znum(v.n) == L.k
    for g in (s.ghost['g'], znum(o.n) - 1):
        numden(s, z3.Select(o.cols[0], g) * f); yield 'scaled coefficients', z3.Implies(g < L.k, zreal(z3.Select(v.cols[0], g)) == z3.Select(o.cols[0], g) * f)
CC = Loop(inv=inv_cc)
for nm in ('u_cc', 'u_ccs'):
    @unit(nm, 'c31.coprime', loops={'coprimeCoefficients': CC, 'coprimeCoefficientsSignPreserving': CC}, contracts={f'{UP.UPQ}::coprimeFactor': k_cf})
    def _(ex, nm=nm):
        p = POLY(ex, 'p'); v = CV_(ex, p); g = GI(ex); ex.ghost['g'] = g; r = R(ex, nm, p); w = CV_(ex, r); f = ex.ghost.get('f')
        if f is None: ex.prove('only zero is not scaled', z3.And(znum(v.n) == 0, znum(w.n) == 0)); return
        if nm == 'u_ccs': f = z3.If(f < 0, -f, f)
        ex.prove('no coefficient is added or lost', znum(w.n) == znum(v.n)); ex.prove('every coefficient is multiplied by the same factor', z3.Implies(g < znum(v.n), zreal(z3.Select(w.cols[0], g)) == z3.Select(v.cols[0], g) * f))
        ex.prove('the leading coefficient stays non-zero', wf(w))
def inv_den(s, L):
    v = this_vec(L); d = znum(L.v('denom')); g = s.ghost['g']; _, dg = numden(s, z3.Select(v.cols[0], g)); neg(s, d)
    yield 'positive', d >= 1; yield 'multiple of the denominators seen', z3.Implies(g < L.k, DV(dg, d))
@unit('u_den', 'c31.numeric', loops={'mainDenom': Loop(inv=inv_den)})
def _(ex):
    p = POLY(ex, 'p', nz=True); v, g, c = start(ex, p); r = znum(R(ex, 'u_den', p)); ex.prove('the main denominator is a positive multiple of every denominator', z3.And(r >= 1, DV(numden(ex, c)[1], r)))
def k_mden(ex, f, this, args, node):
    v = CV_(ex, this); d = ex.ghost['md'] = ex.fresh('maindenom', 'int'); ex.assume(d >= 1); j = z3.Int('j!d')
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < znum(v.n)), DEN(z3.Select(v.cols[0], j) * zreal(d)) == 1))); return d
def inv_nc(s, L):
    v = this_vec(L); i = znum(L.v('i')); res = znum(L.v('res')); g = s.ghost['g']; d = s.ghost['md']; neg(s, res); last = znum(v.n) - 1
    numden(s, z3.Select(v.cols[0], last) * zreal(d))
    yield 'position', z3.And(i >= 1, i <= znum(v.n)); yield 'not zero once the leading coefficient is seen', z3.Implies(i > last, res != 0)
    yield 'divides every scaled coefficient seen', z3.Implies(g < i, DV(res, s.ghost['T'][0])); s.ghost['res'] = res
@unit('u_num', 'c31.numeric', loops={'numericContent': Loop(inv=inv_nc, variant=lambda s, L: znum(this_vec(L).n) - znum(L.v('i')))}, contracts={f'{UP.UPQ}::mainDenom': lambda ex, f, this, args, node: md_follow(ex, f, this, args, node)})
def _(ex):
    p = POLY(ex, 'p'); v = CV_(ex, p); g = GI(ex); ex.ghost['g'] = g; r = zreal(R(ex, 'u_num', p)); d = ex.ghost.get('md')
    if d is None: ex.prove('only zero has content zero', z3.And(znum(v.n) == 0, r == 0)); return
    ex.assume(g < znum(v.n)); res = ex.ghost.get('res'); ex.prove('the content is the divisor over the main denominator', z3.And(r * zreal(d) == zreal(res), r != 0)); ex.prove('the divisor divides every scaled coefficient', DV(res, ex.ghost['T'][0]))
    t = ex.ghost['T'][0]; u = wit(ex, res, t, 'u'); c = z3.Select(v.cols[0], g); numden(ex, c * zreal(d)); ex.prove('every coefficient is an integral multiple of the content', c * zreal(d) == r * zreal(u) * zreal(d))
def md_follow(ex, f, this, args, node):
    d = k_mden(ex, f, this, args, node); v = CV_(ex, this); c = z3.Select(v.cols[0], ex.ghost['g']) * zreal(d); n, _ = numden(ex, c); ex.ghost['T'] = [n]; neg(ex, n); return d
# ------------------------------------------------------------------ content and primitive part over the integers
def inv_cont(s, L):
    v = L.v('p').f['mCoefficients']; i = znum(L.v('it').i); gcd = znum(L.v('gcd')); g = s.ghost['g']; neg(s, gcd); n = znum(v.n)
    i = n - rpos(L.v('it'), n)
    yield 'position', z3.And(i >= 0, i <= n - 1); yield 'the divisor is positive', gcd >= 1
    yield 'divides every coefficient seen', z3.Implies(g >= i, DV(gcd, s.ghost['T'][0]))
def rpos(it, n): return znum(it.i)
CONT = {'content': Loop(inv=inv_cont)}
def one(ex, t): ex.assume(DV(Iv(1), t))
@unit('u_cont', 'c31.content', loops=CONT)
def _(ex):
    p = POLY(ex, 'p', nz=True, integer=True); v, g, c = start(ex, p, True); ex.assume(z3.Select(v.cols[0], znum(v.n) - 1) > 0); one(ex, c); r = znum(R(ex, 'u_cont', p)); ex.prove('the content is positive and divides every coefficient', z3.And(r >= 1, DV(r, c)))
def k_cont(ex, f, this, args, node):
    v = CV_(ex, args[0]); n = znum(v.n); lc = z3.Select(v.cols[0], n - 1); ex.prove('content is asked for a normal or zero polynomial', z3.Or(n == 0, lc > 0))
    r = ex.ghost['cont'] = ex.fresh('content', 'int'); ex.assume(z3.If(n == 0, r == 0, r >= 1)); g = ex.ghost['g']; q = ex.ghost['q'] = ex.fresh('q', 'int')
    for i in (g, n - 1): q = ex.fresh('q', 'int'); ex.assume_nl(z3.Implies(z3.And(i >= 0, i < n), z3.Select(v.cols[0], i) == q * r))
    return r
UNI = {**BASE, 'operator-': UP.built('result', lambda s, L, c: -c)}
def k_divn(ex, f, this, args, node):
    """quotient of a polynomial and a number: coefficientwise exact quotients (precondition: the number divides every coefficient)"""
    x = ex.read(args[0]) if isinstance(args[0], Loc) else args[0]
    if not (isinstance(x, Rec) and x.q == UP.UPQ): return NotImplemented
    v = CV_(ex, x); d = znum(ex.val(args[1])); ex.prove('the divisor is not zero', d != 0); w = UP.vec(ex, 'quot', v.shape); ex.assume(znum(w.n) == znum(v.n))
    for i in (ex.ghost['g'], znum(v.n) - 1): ex.assume_nl(z3.Implies(z3.And(i >= 0, i < znum(v.n)), z3.Select(w.cols[0], i) * d == z3.Select(v.cols[0], i)))
    ex.ghost['d'] = d; return UP.mk(ex, w)
@unit('u_pp', 'c31.content', loops=UNI, contracts={'carl::content': k_cont, 'carl::operator/': k_divn})
def _(ex):
    p = POLY(ex, 'p', integer=True); v = CV_(ex, p); g = GI(ex); ex.ghost['g'] = g; ex.ghost['idx'] = [znum(v.n) - 1]; r = R(ex, 'u_pp', p); w = CV_(ex, r); c = ex.ghost.get('cont'); n = znum(v.n)
    if c is None: ex.prove('only zero has no content', z3.And(n == 0, znum(w.n) == 0)); return
    lc = z3.Select(v.cols[0], n - 1); s = z3.If(lc < 0, -c, c); ex.prove('no coefficient is added or lost', znum(w.n) == n)
    ex.prove('the division is by the content with the sign of the leading coefficient', ex.ghost['d'] == s)
    ex.prove('content times primitive part is the polynomial up to the sign', z3.Implies(g < n, z3.Select(w.cols[0], g) * s == z3.Select(v.cols[0], g)))
# ------------------------------------------------------------------ removal of a linear factor
def inv_syn(s, L):
    v = this_vec(L); n = znum(v.n); t, q = L.v('thirdRow'), L.v('secondRow'); i = znum(L.v('posThirdRow')); z = s.ghost['z']; k = znum(L.v('coeff').i); g = s.ghost['g']
    yield 'position', z3.And(i >= 0, i < n, znum(t.n) == n, k == n - i); yield 'rows', znum(q.n) == n - i
    yield 'leading coefficient', z3.Select(t.cols[0], n - 1) == z3.Select(v.cols[0], n - 1)
    yield 'Horner step', z3.Implies(z3.And(g >= i, g < n - 1), z3.Select(t.cols[0], g) == z3.Select(v.cols[0], g) + z * z3.Select(t.cols[0], g + 1))
    s.ghost['t'] = t
@unit('u_syn', 'c31.factor', loops={'syntheticDivision': Loop(inv=inv_syn, variant=lambda s, L: L.v('posThirdRow'))})
def _(ex):
    p = POLY(ex, 'p'); v = CV_(ex, p); n = znum(v.n); z = ex.fresh('z', 'real'); ex.ghost['z'] = z; g = GI(ex); ex.ghost['g'] = g; r = zreal(R(ex, 'u_syn', p, ex.alloc(z))); w = CV_(ex, p)
    t = ex.ghost.get('t')
    if t is None: ex.prove('a constant is its own value', z3.And(n <= 1, r == coef(v, 0), znum(w.n) == n)); return
    zero = r == 0; ex.prove('the polynomial only changes when the factor divides it', z3.Or(zero, z3.And(znum(w.n) == n, w.cols[0] == v.cols[0]))); ex.prove('one degree is removed', z3.Implies(zero, znum(w.n) == n - 1))
    ex.prove('the quotient times the linear factor is the polynomial', z3.Implies(z3.And(zero, g < n), coef(v, g) == coef(w, g - 1) - z * coef(w, g)))
    ex.prove('otherwise the value of the Horner scheme is returned', z3.Implies(z3.Not(zero), r == z3.Select(t.cols[0], 0)))
# ------------------------------------------------------------------ multivariate
def mterms(L): return L.this.f['mTerms']
def inv_mcf(s, L):
    v = mterms(L); i = znum(L.v('it').i); num, den = znum(L.v('num')), znum(L.v('den')); g = s.ghost['g']; n, d = numden(s, MPO.CO(v, g)); neg(s, num); neg(s, den); lo = s.ghost['lo']
    yield 'position', z3.And(i >= 1 + lo, i <= znum(v.n)); yield 'positive', z3.And(num >= 1, den >= 1)
    yield 'divides the numerator of every coefficient seen', z3.Implies(z3.And(g >= lo, g < i), DV(num, n)); yield 'is a multiple of the denominator of every coefficient seen', z3.Implies(z3.And(g >= lo, g < i), DV(d, den))
    s.ghost['num'], s.ghost['den'] = num, den
MCF = Loop(inv=inv_mcf, variant=lambda s, L: znum(mterms(L).n) - znum(L.v('it').i))
MK = dict(shapes=MPO.SHAPES)
def mstart(ex, nz=True):
    p = MPO.POL(ex, 'p', nonzero=nz); v = MPO.terms(ex, p); g = GI(ex); ex.ghost['g'] = g; ex.assume(z3.Or(g < znum(v.n), znum(v.n) == 0)); return p, v, g
for nm in ('m_cf', 'm_cfw'):
    @unit(nm, 'c31.mcoprime' if nm == 'm_cf' else 'c31.mcoprime_nc', loops={'coprimeFactor': MCF, 'coprimeFactorWithoutConstant': MCF}, contracts=MPO.CON, **MK)
    def _(ex, nm=nm):
        p, v, g = mstart(ex); c = MPO.CO(v, g); n, d = follow(ex, c); ex.ghost['lo'] = Iv(0)
        if nm == 'm_cfw':
            lo = ex.ghost['lo'] = z3.If(MPO.MO(v, 0) == 0, Iv(1), Iv(0)); ex.assume(znum(v.n) > lo); numden(ex, MPO.CO(v, lo)); ex.assume(g >= lo)
        lc = MPO.CO(v, znum(v.n) - 1)
        for x in (MPO.CO(v, 0), lc): numden(ex, x)
        r = zreal(R(ex, nm, p)); num, den = ex.ghost.get('num'), ex.ghost.get('den')
        if num is None: raise Unsupported('no loop over the terms')
        integral(ex, 'scaling', c, r, num, den); ex.prove('the factor is the quotient with the sign of the leading coefficient', r * zreal(num) == z3.If(lc < 0, -zreal(den), zreal(den))); ex.prove('the factor has the sign of the leading coefficient', z3.And(r != 0, (r < 0) == (lc < 0)))
def k_mcf(ex, f, this, args, node):
    """coprimeFactor (unit m_cf): a non-zero number with the sign of the leading coefficient"""
    v = MPO.terms(ex, this); n = znum(v.n); ex.prove('coprimeFactor is called on a non-zero polynomial', n >= 1); r = ex.ghost['f'] = ex.fresh('factor', 'real'); ex.assume(z3.And(r != 0, (r < 0) == (MPO.CO(v, n - 1) < 0))); return r
def inv_mcc(s, L):
    o = L.old_this.f['mTerms']; v = L.v('result').f['mTerms']; f = zreal(L.v('factor')); g = s.ghost['g']
    yield 'one term per term', znum(v.n) == L.k; yield 'scaled terms', z3.Implies(g < L.k, z3.And(MPO.CO(v, g) == MPO.CO(o, g) * f, MPO.MO(v, g) == MPO.MO(o, g)))
for nm in ('m_cc', 'm_ccs'):
    @unit(nm, 'c31.mcoprime', loops={'coprimeCoefficients': Loop(inv=inv_mcc), 'coprimeCoefficientsSignPreserving': Loop(inv=inv_mcc)}, contracts={**MPO.CON, f'{MPO.MP}::coprimeFactor': k_mcf}, **MK)
    def _(ex, nm=nm):
        p, v, g = mstart(ex, False); o = MPO.ordered(ex, p); r = R(ex, nm, p); w = MPO.terms(ex, r); f = ex.ghost.get('f'); n = znum(v.n)
        if f is None: ex.prove('only zero is not scaled', z3.And(n == 0, znum(w.n) == 0)); return
        if nm == 'm_ccs': f = z3.If(f < 0, -f, f)
        ex.prove('no term is added or lost', znum(w.n) == n); ex.prove('every coefficient is multiplied by the same factor and the monomials and their places are kept', z3.Implies(g < n, z3.And(MPO.CO(w, g) == MPO.CO(v, g) * f, MPO.MO(w, g) == MPO.MO(v, g))))
        ex.prove('no coefficient becomes zero', z3.Implies(g < n, MPO.CO(w, g) != 0)); ex.prove('sortedness is only claimed if it was', z3.Implies(MPO.ordered(ex, r), o))
def inv_norm(s, L):
    o = L.old('result').f['mTerms']; v = L.v('result').f['mTerms']; g = s.ghost['g']; lc = s.ghost['lc']
    yield 'length', znum(v.n) == znum(o.n); yield 'monomials', v.cols[1] == o.cols[1]
    for i in (g, znum(o.n) - 1): yield 'divided terms', MPO.CO(v, i) == z3.If(i < L.k, MPO.CO(o, i) / lc, MPO.CO(o, i))
@unit('m_norm', 'c31.mfactor', loops={'normalize': Loop(inv=inv_norm)}, contracts=MPO.CON, **MK)
def _(ex):
    p, v, g = mstart(ex, False); n = znum(v.n); lc = ex.ghost['lc'] = MPO.CO(v, n - 1); r = R(ex, 'm_norm', p); w = MPO.terms(ex, r); ex.prove('no term is added or lost', znum(w.n) == n)
    ex.prove('the leading coefficient times the normalised polynomial is the polynomial', z3.Implies(g < n, z3.And(MPO.CO(w, g) * lc == MPO.CO(v, g), MPO.MO(w, g) == MPO.MO(v, g)))); ex.prove('the normalised polynomial is monic', z3.Implies(n >= 1, MPO.CO(w, n - 1) == 1))

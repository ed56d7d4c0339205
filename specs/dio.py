"""Contracts for the linear Diophantine helper and the integer extended gcd (C27).
DOT(c, x, k) is the sum of c[i]*x[i] for i < k; monomials of the equation by codes as in mpoly.py."""
from .common import *
from vc.containers import *
from vc.engine import NULL
from . import mpoly as MPO, mquery as MQ
DRIVER = 'dio'; HARNESS = 'dio'
UNITS = []
IA = z3.ArraySort(z3.IntSort(), z3.IntSort()); Iv, Rv = z3.IntVal, z3.RealVal
TSH = RecShape('carl::Term', [('mCoeff', INT), ('mMonomial', MPO.PTR)])
DOT = z3.Function('DOT', IA, IA, z3.IntSort(), z3.IntSort()); SQ = z3.Function('SQ', IA, z3.IntSort(), z3.IntSort())
def R(ex, root, *a): return ex.call_root(root, list(a))
def dotf(ex, c, x, *ks):
    ex.assume_nl(DOT(c, x, 0) == 0)
    for k in ks: k = znum(k); ex.assume_nl(z3.Implies(k >= 0, DOT(c, x, k + 1) == DOT(c, x, k) + z3.Select(c, k) * z3.Select(x, k)))
def lst(s, v): return as_svec(s, v, INT)
CONS = {}
def unit(name, op=None, **kw):
    kw.setdefault('contracts', CONS); kw.setdefault('loops', {})
    def deco(fn):
        UNITS.append(U('C27', name, fn, op, svec=True, merge=False, shapes={'carl::Term': TSH, 'std::shared_ptr': MPO.PTR}, scalar_recs=('std::shared_ptr',), qf_branch=True, **{'describe': describe, **kw})); return fn
    return deco
# ------------------------------------------------------------------ extended gcd
def inv_gcd(s, L):
    a, b, x, y, z, w = s.ghost['a'], s.ghost['b'], *L.ghost['m']; r, o = znum(L.v('r')), znum(L.v('old_r'))
    yield 'Bezout identity of the old remainder', o == a * znum(L.v('old_s')) + b * znum(L.v('old_t')); yield 'Bezout identity of the remainder', r == a * znum(L.v('s')) + b * znum(L.v('t'))
    yield 'the first number is a combination of the remainders', a == x * o + y * r; yield 'the second number is a combination of the remainders', b == z * o + w * r
    yield 'not both remainders are zero', z3.Or(o != 0, r != 0)
def b_gcd(s, L): L.ghost['m'] = [Iv(1), Iv(0), Iv(0), Iv(1)]
def h_gcd(s, L): L.ghost['m'] = s.ghost['out'] = [s.fresh(n, 'int') for n in 'xyzw']; L.ghost['o'] = znum(L.v('old_r')), znum(L.v('r')), *[znum(L.v(n)) for n in ('old_s', 's', 'old_t', 't')]
def e_gcd(s, L):
    x, y, z, w = L.ghost['m']; o, r, os, s_, ot, t = L.ghost['o']; q = znum(L.v('quotient')); L.ghost['m'] = [x * q + y, x, z * q + w, z]; a, b = s.ghost['a'], s.ghost['b']
    s.assume_nl(a * (os - q * s_) + b * (ot - q * t) == (a * os + b * ot) - q * (a * s_ + b * t)); s.assume_nl(z3.Implies(r == a * s_ + b * t, q * r == q * (a * s_ + b * t)))
    for u, v in ((x, y), (z, w)): s.assume_nl((u * q + v) * r + u * (o - q * r) == u * o + v * r)
def absz(x): return z3.If(x >= 0, x, -x)
@unit('d_gcd', 'c27.gcd', loops={'extended_gcd_integer': Loop(inv=inv_gcd, begin=b_gcd, havoc=h_gcd, end=e_gcd, variant=lambda s, L: absz(znum(L.v('r'))))}, contracts={'carl::quotient': lambda ex, f, this, args, node: k_quot(ex, f, this, args, node)})
def _(ex):
    a, b = inp(ex, 'Z', ex.fresh('a', 'int')), inp(ex, 'Z', ex.fresh('b', 'int')); ex.ghost.update(a=a, b=b); s, t = ex.alloc(ex.fresh('s', 'int'), 's'), ex.alloc(ex.fresh('t', 'int'), 't'); ex.ghost['wit'] = None
    g = znum(R(ex, 'd_gcd', a, b, s, t)); ex.prove('the cofactors satisfy the Bezout identity', g == a * znum(ex.read(s)) + b * znum(ex.read(t))); ex.prove('the gcd is not negative', g >= 0); ex.prove('the gcd is zero only for two zeros', (g == 0) == z3.And(a == 0, b == 0))
    m = ex.ghost.get('out')
    if m is None: ex.prove('the gcd divides both', z3.And(a == 0, b == 0))
    else: ex.prove('the gcd divides the first', z3.Or(a == m[0] * g, a == -m[0] * g)); ex.prove('the gcd divides the second', z3.Or(b == m[2] * g, b == -m[2] * g))
def k_quot(ex, f, this, args, node):
    """carl::quotient: truncated quotient (C05)"""
    n, d = znum(ex.val(args[0])), znum(ex.val(args[1])); ex.prove('the divisor is not zero', d != 0, kind='pre'); q, r = ex.fresh('q', 'int'), ex.fresh('rem', 'int')
    ex.assume_nl(n == q * d + r); ex.assume(z3.And(absz(r) < absz(d))); ex.assume(z3.Or(r == 0, (r > 0) == (n > 0))); return q

# ------------------------------------------------------------------ linear equations
def k_mod(ex, f, this, args, node):
    """carl::mod (C05): zero iff the modulus divides; DIV is the witness"""
    n, m = znum(ex.val(args[0])), znum(ex.val(args[1])); ex.prove('the modulus is not zero', m != 0, kind='pre'); r, q = ex.fresh('mod', 'int'), ex.fresh('mq', 'int')
    ex.assume_nl(n == q * m + r); ex.assume(z3.And(0 <= r, r < absz(m)))
    for z in ex.ghost.get('zs', []): ex.assume_nl(z3.Implies(n == -(m * z), r == 0))
    ex.ghost['divs'] = ex.ghost.get('divs', []) + [(n, m, r, q)]; return r
def k_div(ex, f, this, args, node):
    """carl::div (C05): exact quotient"""
    n, m = znum(ex.val(args[0])), znum(ex.val(args[1])); ok = [q for a, b, r, q in ex.ghost.get('divs', []) if a.eq(n) and b.eq(m)]
    ex.prove('the division is exact', z3.Or(*[n == q * m for q in ok]) if ok else z3.BoolVal(False), kind='pre'); d = ex.fresh('div', 'int'); ex.assume_nl(n == d * m); return d
def k_egcd(ex, f, this, args, node):
    """extended_gcd_integer (unit d_gcd)"""
    a, b = znum(ex.val(args[0])), znum(ex.val(args[1])); g, s, t, x, y = [ex.fresh(n, 'int') for n in ('g', 's', 't', 'ga', 'gb')]
    ex.assume_nl(g == a * s + b * t); ex.assume_nl(z3.And(a == g * x, b == g * y)); ex.assume(z3.And(g >= 0, (g == 0) == z3.And(a == 0, b == 0))); ex.write(args[2], s); ex.write(args[3], t); ex.ghost['g'] = (a, b, g, x, y); return g
def k_vars(ex, f, this, args, node): return Rec('VARS', {'n': ex.ghost['nvars']})
CONS.update({**{k: h for k, h in MPO.MONOC.items() if not k.startswith('std::vector')}, **MQ.QC, 'carl::mod': k_mod, 'carl::div': k_div, 'carl::extended_gcd_integer': k_egcd, 'carl::variables': k_vars, 'carl::carlVariables::size': lambda ex, f, this, args, node: (ex.read(this) if isinstance(this, Loc) else this).f['n']})
def dot_store(c, x, i, v, n): return DOT(c, z3.Store(x, i, v), n) == DOT(c, x, n) + z3.If(z3.And(0 <= i, i < n), (v - z3.Select(x, i)) * z3.Select(c, i), 0)
def dot_zero(c, x, n):
    j = z3.Int('j!z'); return z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(x, j) == 0)), DOT(c, x, n) == 0)
@unit('lemma_dot')
def _(ex):
    c, x, i, v, k = ex.fresh('c', IA), ex.fresh('x', IA), ex.fresh('i', 'int'), ex.fresh('v', 'int'), ex.fresh('k', 'int'); ex.assume(k >= 0)
    for y in (x, z3.Store(x, i, v)): dotf(ex, c, y, k)
    ex.prove('store: base', dot_store(c, x, i, v, Iv(0))); ex.assume(dot_store(c, x, i, v, k)); ex.prove('store: step', dot_store(c, x, i, v, k + 1))
    ex.assume(z3.And(DOT(c, x, k) == 0, z3.Select(x, k) == 0)); ex.prove('zero: step', DOT(c, x, k + 1) == 0)
def note(ex, x, n):
    """value of a list written by stores"""
    c = ex.ghost['C']; seen = 0
    while z3.is_store(x) and seen < 6:
        y, i, v = x.children(); ex.assume_nl(dot_store(c, y, i, v, znum(n))); x = y; seen += 1
    return x
def inv_co(s, L):
    v = s.ghost['T']; c = lst(s, L.v('coeffs')); j = z3.Int('j!c'); k = znum(L.k)
    yield 'the counter', z3.And(znum(L.v('i')) == k + 1, znum(c.n) == k, k + 1 <= znum(v.n)); yield 'the coefficients taken', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Select(c.cols[0], j) == z3.Select(s.ghost['C'], j)))
def h_co(s, L): s.write(L.loc('coeffs'), SVec(L.k, [s.ghost['C']], INT))
FE = lambda s, L: lst(s, L.v('fromExtendedGcd'))
def inv_main(s, L):
    c = s.ghost['C']; x = FE(s, L); k = znum(L.k); i = znum(L.v('i')); g = znum(L.v('currGcd')); n = s.ghost['N']; z = L.ghost['z']; m = L.ghost['m']
    yield 'the counter', z3.And(i == k + 1, znum(x.n) == i, i <= n); yield 'the gcd is not zero', g != 0
    yield 'the cofactors combine the coefficients to the gcd', DOT(c, x.cols[0], i) == g
    yield 'the gcd divides what any solution takes so far', DOT(c, s.ghost['y'], i) == g * z
    yield 'the gcd does not divide the constant', m != 0
def b_main(s, L): L.ghost['z'] = s.ghost['y'][0]; c, x = s.ghost['C'], FE(s, L).cols[0]; dotf(s, c, s.ghost['y'], 0, 1); dotf(s, c, x, 0, 1); L.ghost['m'] = s.ghost['divs'][-1][2]; note(s, x, 1); zs(s, L)
def zs(s, L): s.ghost['zs'] = [L.ghost['z']]
def h_main(s, L):
    L.ghost['z'] = s.fresh('z', 'int'); L.ghost['m'] = m = s.fresh('m', 'int'); c = s.ghost['C']; x = FE(s, L).cols[0]; i = znum(L.v('i')); g = znum(L.v('currGcd')); dotf(s, c, s.ghost['y'], i); s.ghost['divs'] = []; s.assume(cnz(s, i)); L.ghost['g'] = g
    K_ = s.ghost['K']; z = L.ghost['z']; s.assume_nl(z3.Implies(K_ == -(g * z), m == 0))          # m stands for mod(K, g), as in k_mod
def cnz(s, i): return z3.Implies(z3.And(0 <= i, i < s.ghost['N']), z3.Select(s.ghost['C'], i) != 0)
def e_main(s, L):
    a, b, g2, x, y = s.ghost['g']; c = s.ghost['C']; i = z3.simplify(znum(L.v('i')) - 1); yy = z3.Select(s.ghost['y'], i); z = L.ghost['z']; L.ghost['z'] = x * z + y * yy; L.ghost['m'] = s.ghost['divs'][-1][2]
    s.assume_nl(g2 * (x * z + y * yy) == (g2 * x) * z + (g2 * y) * yy); s.assume_nl(z3.Implies(a == g2 * x, a * z == (g2 * x) * z)); s.assume_nl(z3.Implies(b == g2 * y, b * yy == (g2 * y) * yy))
    x_ = FE(s, L); dotf(s, c, x_.cols[0], i); note(s, x_.cols[0], i)
def scale(fac):
    def inv(s, L):
        c = s.ghost['C']; x = FE(s, L); o = L.ghost['o']; k = znum(L.k); n = znum(o.n); f = znum(L.v(fac)); j = z3.Int('j!s')
        yield 'the length stays', znum(x.n) == n; yield 'the rest is unchanged', z3.ForAll([j], z3.Implies(j >= k, z3.Select(x.cols[0], j) == z3.Select(o.cols[0], j)))
        yield 'the combination of the scaled part', DOT(c, x.cols[0], n) == f * DOT(c, o.cols[0], k) + (DOT(c, o.cols[0], n) - DOT(c, o.cols[0], k))
    def begin(s, L): L.ghost['o'] = FE(s, L); o = L.ghost['o']; n = z3.simplify(znum(o.n) - 1); dotf(s, s.ghost['C'], o.cols[0], 0, n); note(s, o.cols[0], n); d = DOT(s.ghost['C'], o.cols[0], znum(o.n)); g = znum(L.v('currGcd')); f = znum(L.v(fac)); s.assume_nl(z3.Implies(d == g, f * d == f * g))
    def havoc(s, L): k = znum(L.k); o = L.ghost['o']; dotf(s, s.ghost['C'], o.cols[0], k); L.ghost['x'] = FE(s, L).cols[0]; s.assume(z3.Select(L.ghost['x'], k) == z3.Select(o.cols[0], k))
    def end(s, L):
        c = s.ghost['C']; x = FE(s, L); o = L.ghost['o']; k = z3.simplify(znum(L.k) - 1); note(s, x.cols[0], o.n); f = znum(L.v(fac)); a, b = z3.Select(o.cols[0], k), z3.Select(c, k)
        s.assume_nl((f * a - a) * b == f * (b * a) - b * a); s.assume_nl((a * f - a) * b == f * (b * a) - b * a); s.assume_nl(f * (DOT(c, o.cols[0], k) + b * a) == f * DOT(c, o.cols[0], k) + f * (b * a))
    return Loop(inv=inv, begin=begin, havoc=havoc, end=end)
def inv_pad(s, L):
    c = s.ghost['C']; x = FE(s, L); o = L.ghost['o']; k = znum(L.k)
    yield 'the counter', z3.And(znum(L.v('j')) == k, znum(x.n) == znum(o.n) + k, k <= znum(L.v('diff'))); yield 'zeros do not contribute', DOT(c, x.cols[0], znum(x.n)) == DOT(c, o.cols[0], znum(o.n))
def e_pad(s, L): x = FE(s, L); n = z3.simplify(znum(x.n) - 1); dotf(s, s.ghost['C'], x.cols[0], n); note(s, x.cols[0], n)
LIN = {'solveLinearDiophantine#0': Loop(inv=inv_co, havoc=h_co), 'solveLinearDiophantine#1': Loop(inv=inv_main, begin=b_main, havoc=h_main, end=e_main), 'solveLinearDiophantine#2': scale('s'), 'solveLinearDiophantine#3': scale('factor'),
       'solveLinearDiophantine#4': Loop(inv=inv_pad, begin=lambda s, L: L.ghost.update(o=FE(s, L)), end=e_pad)}
def EQN(ex):
    """a linear equation with at least one variable that has an integer solution y"""
    v = fresh_svec(ex, 'p', TSH); n = znum(v.n); M_ = v.cols[1]; i = z3.Int('i!q'); C = ex.fresh('C', IA); K_ = z3.If(z3.Select(M_, 0) == 0, z3.Select(v.cols[0], 0), 0); hc = z3.Select(M_, 0) == 0
    ex.assume(z3.And(n >= z3.If(hc, 2, 1), n < 1 << 60, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(v.cols[0], i) != 0, z3.Select(M_, i) >= 0, z3.Implies(i >= 1, z3.Select(M_, i) > 0), z3.Implies(z3.Select(M_, i) > 0, MQ.TD(z3.Select(M_, i)) == 1))), patterns=[z3.Select(v.cols[0], i)])))
    N = n - z3.If(hc, 1, 0); ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.Select(C, i) == z3.Select(v.cols[0], i + z3.If(hc, 1, 0))), patterns=[z3.Select(C, i)])); y = ex.fresh('y', IA)
    ex.assume(z3.And(z3.Select(C, 0) == z3.Select(v.cols[0], z3.If(hc, Iv(1), Iv(0))), z3.Select(C, 0) != 0, z3.Select(v.cols[0], 0) != 0, z3.Select(M_, n - 1) >= 0, MQ.TD(z3.Select(M_, n - 1)) == 1, z3.Select(M_, n - 1) > 0, z3.Select(M_, 0) >= 0))
    ex.ghost.update(T=v, C=C, N=N, y=y, K=z3.Select(v.cols[0], 0), nvars=N, hc=hc, zs=[y[0]]); ex.assume_nl(DOT(C, y, N) == -K_); dotf(ex, C, y, 0); inp(ex, 'L', (v, C, hc, N))
    return ex.alloc(Rec(MPO.MP, {'mTerms': v, 'mOrdered': ex.fresh('o', 'bool')}), 'p')
def ldescribe(ex, m):
    if not ex.witness.get('args'): return []
    v, C, hc, N = ex.witness['args'][0][1]; n = int(mval(m, N))
    if n > 8: raise ValueError('too long')
    return [','.join([str(mval(m, v.cols[0][0])) if z3.is_true(m.eval(hc, model_completion=True)) else '0'] + [str(mval(m, C[i])) for i in range(n)])]
for root in ('d_lin', 'd_solve'):
    @unit(root, 'c27.solve', loops=LIN, describe=ldescribe)
    def _(ex, root=root):
        p = EQN(ex); r = lst(ex, R(ex, root, p)); C, N, K_ = ex.ghost['C'], ex.ghost['N'], z3.If(ex.ghost['hc'], ex.ghost['K'], 0); x = r.cols[0]; dotf(ex, C, x, 0); base = note(ex, x, N); ex.assume_nl(dot_zero(C, base, N))
        ex.prove('one value for every variable', znum(r.n) == N); ex.prove('the values satisfy the equation', DOT(C, x, N) + K_ == 0)

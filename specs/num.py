"""Contracts for relations and signs (C05), finite-field numbers (C06), integer/rational operations (C07), primes (C32)."""
from .common import *
from vc.containers import *
DRIVER = 'num'; HARNESS = 'num'
UNITS = []
def add_unit(prop, name, run, op=None, **kw): UNITS.append(U(prop, 'num.' + name, run, op, **kw))
def unit(prop, name, op=None, **kw):
    def d(run): add_unit(prop, name, run, op, **kw); return run
    return d
def R(ex, root, *a): return ex.call_root(root, list(a))
def L(ex, v): return ex.alloc(v)
def Q(ex, n): return inp(ex, 'Q', ex.fresh(n, 'real'))
def Z(ex, n): return inp(ex, 'Z', ex.fresh(n, 'int'))
def cmpq(r, a, b): return {0: eq, 1: ne, 2: lt, 4: le, 3: gt, 5: ge}[r](a, b)
RN = {0: 'EQ', 1: 'NEQ', 2: 'LESS', 3: 'GREATER', 4: 'LEQ', 5: 'GEQ'}

# ------------------------------------------------------------------ C05
for r in RN:
    def run(ex, r=r):
        inp(ex, 'int', r); a = Q(ex, 'a'); b = Q(ex, 'b')
        i = R(ex, 'rel_inverse', r); ex.prove('inverse relation is the negation', IFF(cmpq(i, a, b), NOT(cmpq(r, a, b))))
        t = R(ex, 'rel_turn', r); ex.prove('mirrored relation is the one with swapped sides', IFF(cmpq(t, b, a), cmpq(r, a, b)))
        s = R(ex, 'rel_strict', r); ex.prove('strict relations exclude equality exactly', IFF(zbool(s), NOT(cmpq(r, a, a))))
        w = R(ex, 'rel_weak', r); ex.prove('weak relations include equality exactly', IFF(zbool(w), cmpq(r, a, a)))
    add_unit('C05', f'relation[{RN[r]}]', run, 'c05.relation')
    def run(ex, r=r):
        inp(ex, 'int', r); a = Q(ex, 'a'); b = Q(ex, 'b')
        ex.prove('relation evaluated on a number compares it with zero', IFF(zbool(R(ex, 'rel_eval_num', L(ex, a), r)), cmpq(r, a, 0)))
        ex.prove('relation evaluated on two numbers is the comparison', IFF(zbool(R(ex, 'rel_eval_cmp', L(ex, a), r, L(ex, b))), cmpq(r, a, b)))
    add_unit('C05', f'evaluate[{RN[r]}]', run, 'c05.evaluate')
    def run(ex, r=r):
        inp(ex, 'int', r); a = Z(ex, 'a'); b = Z(ex, 'b')
        ex.prove('relation evaluated on two integers is the comparison', IFF(zbool(R(ex, 'rel_eval_cmpz', L(ex, a), r, L(ex, b))), cmpq(r, a, b)))
    add_unit('C05', f'evaluatez[{RN[r]}]', run, 'c05.evaluatez')
    for sg in (-1, 0, 1):
        def run(ex, r=r, sg=sg):
            inp(ex, 'int', r); inp(ex, 'int', sg)
            ex.prove('relation evaluated on a sign compares it with zero', IFF(zbool(R(ex, 'rel_eval_sign', sg, r)), cmpq(r, sg, 0)))
        add_unit('C05', f'evalsign[{RN[r]},{sg}]', run, 'c05.evalsign')
@unit('C05', 'sgn', 'c05.sgn')
def _(ex):
    a = Q(ex, 'a'); s = R(ex, 'sgn_q', L(ex, a))
    ex.prove('sign of a rational', eq(s, ITE(lt(a, 0), -1, ITE(gt(a, 0), 1, 0))))
@unit('C05', 'sgnz', 'c05.sgnz')
def _(ex):
    a = Z(ex, 'a'); s = R(ex, 'sgn_z', L(ex, a))
    ex.prove('sign of an integer', eq(s, ITE(lt(a, 0), -1, ITE(gt(a, 0), 1, 0))))
# sign variations: ghost functions over the sequence of signs
#   LASTNZ(k) = last non-zero sign among the first k (0 if none), VAR(k) = number of sign changes among the first k
LASTNZ = z3.Function('last_nonzero', z3.IntSort(), z3.IntSort()); VAR = z3.Function('variations', z3.IntSort(), z3.IntSort())
def sv_axioms(ex, sg, i):
    """recursive definition of the ghost functions at position i"""
    ex.assume(AND(LASTNZ(0) == 0, VAR(0) == 0))
    x = sg(i); i = znum(i)
    ex.assume(z3.Implies(i >= 0, z3.And(LASTNZ(i + 1) == z3.If(x == 0, LASTNZ(i), x), VAR(i + 1) == VAR(i) + z3.If(z3.And(x != 0, LASTNZ(i) != 0, x != LASTNZ(i)), 1, 0), VAR(i) >= 0)))
def sv_loops(sg):
    first = lambda s, L: (sv_axioms(s, sg, L.v('begin').i), [('skipped signs are zero', AND(ge(L.v('begin').i, 0), le(L.v('begin').i, L.v('end').i), LASTNZ(znum(L.v('begin').i)) == 0, VAR(znum(L.v('begin').i)) == 0))])[1]
    def second(s, L):
        i = znum(L.v('begin').i); last = znum(L.v('last')); sv_axioms(s, sg, i)
        return [('position within the range', AND(i >= 0, le(i, L.v('end').i))), ('changes counted so far', eq(L.v('changes'), VAR(i))),
                ('last non-zero sign so far', z3.And(last != 0, z3.Or(LASTNZ(i) == last, z3.And(LASTNZ(i) == 0, VAR(i) == 0, last == sg(i)))))]
    return {'sign_variations#0': Loop(inv=first), 'sign_variations#1': Loop(inv=second)}
def sv_unit(root, mkseq, sg, name):
    def run(ex):
        v = mkseq(ex); g = lambda i: sg(v, i)
        ex.unit['loops'] = sv_loops(g)
        r = R(ex, root, L(ex, v))
        ex.prove('number of sign variations', eq(r, VAR(znum(v.n))))
    add_unit('C05', name, run, 'c05.' + name)
def seq_sign(ex):
    v = fresh_svec(ex, 'v', INT); j = z3.Int('j!s')
    ex.assume(z3.ForAll([j], z3.And(v.cols[0][j] >= -1, v.cols[0][j] <= 1)))
    inp(ex, 'signs', v); return v
def pseq(f):
    def p(m, v):
        n = min(mval(m, v.n), 40)
        return ','.join(f(m, z3.Select(v.cols[0], i)) for i in range(n)) or '-'
    return p
PRINT['signs'] = pseq(lambda m, x: str(max(-1, min(1, int(mval(m, x))))))
PRINT['qs'] = pseq(lambda m, x: qstr(mval(m, x)))
PRINT['zs'] = pseq(lambda m, x: str(mval(m, x)))
sv_unit('sv', seq_sign, lambda v, i: z3.Select(v.cols[0], znum(i)), 'variations')
def seq_q(ex):
    v = fresh_svec(ex, 'v', REAL); inp(ex, 'qs', v); return v
def sgq(v, i):
    x = z3.Select(v.cols[0], znum(i)); return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))
sv_unit('sv_f', seq_q, sgq, 'variations_f')

# ------------------------------------------------------------------ C07
def absv(x): return ITE(ge(x, 0), x, neg(x))
def qunit(name, root, post, op=None):
    def run(ex):
        a = Q(ex, 'a'); ex.prove(name, post(ex, a, R(ex, root, L(ex, a))))
    add_unit('C07', root, run, op or 'c07.q1')
def zunit(name, root, post, op=None):
    def run(ex):
        a = Z(ex, 'a'); ex.prove(name, post(ex, a, R(ex, root, L(ex, a))))
    add_unit('C07', root, run, op or 'c07.z1')
qunit('floor is the greatest integer not above', 'op_floor', lambda ex, a, r: AND(le(r, a), lt(a, add(r, 1))))
qunit('ceiling is the least integer not below', 'op_ceil', lambda ex, a, r: AND(ge(r, a), lt(sub(r, 1), a)))
qunit('rounding gives a nearest integer', 'op_round', lambda ex, a, r: AND(le(mul(2, sub(r, a)), 1), le(mul(2, sub(a, r)), 1)))
for n in ('op_floorz', 'op_ceilz', 'op_roundz', 'op_numz'): zunit('identity on integers', n, lambda ex, a, r: eq(r, a))
zunit('the denominator of an integer is one', 'op_denz', lambda ex, a, r: eq(r, 1))
zunit('absolute value', 'op_absz', lambda ex, a, r: eq(r, absv(a)))
qunit('absolute value', 'op_absq', lambda ex, a, r: eq(r, absv(a)))
qunit('numerator', 'op_num', lambda ex, a, r: eq(r, ex.num(a)))
qunit('denominator', 'op_den', lambda ex, a, r: eq(r, ex.den(a)))
qunit('numerator and denominator represent the number', 'op_num', lambda ex, a, r: eq(mul(a, R(ex, 'op_den', L(ex, a))), r))
UNITS[-1]['name'] += '/den'
qunit('integrality test', 'op_isint', lambda ex, a, r: IFF(zbool(r), z3.IsInt(a)))
zunit('integers are integral', 'op_isintz', lambda ex, a, r: zbool(r))
for n, z in (('op_iszero', 0), ('op_is_zero', 0), ('op_isone', 1), ('op_is_one', 1)):
    qunit(f'comparison with {z}', n, lambda ex, a, r, z=z: IFF(zbool(r), eq(a, z)))
    zunit(f'comparison with {z}', n + 'z', lambda ex, a, r, z=z: IFF(zbool(r), eq(a, z)))
for n, c in (('op_ispos', gt), ('op_isneg', lt)):
    qunit('sign test', n, lambda ex, a, r, c=c: IFF(zbool(r), c(a, 0)))
    zunit('sign test', n + 'z', lambda ex, a, r, c=c: IFF(zbool(r), c(a, 0)))
def tq(ex, n, d):
    """mathematical quotient and remainder, rounded towards zero (ghost)"""
    q = ex.fresh('tq', 'int'); r = ex.fresh('tr', 'int'); return q, r
def sgn_ok(r, n): return AND(IMP(ge(n, 0), ge(r, 0)), IMP(le(n, 0), le(r, 0)))
def rem_post(ex, n, m, r):
    # n - r is a multiple of m: one of the quotients met during the computation (up to sign) is the factor
    qs = ex.ghost.get('quots', []); c = []
    for q in qs: c += [eq(sub(n, r), mul(q, m)), eq(sub(n, r), mul(neg(q), m))]
    return AND(lt(absv(r), absv(m)), sgn_ok(r, n), OR(*c) if c else (simp((n - r) % m == 0) if isz(n) else True))
for n in ('op_mod', 'op_rem'):
    def run(ex, n=n):
        a = Z(ex, 'n'); m = Z(ex, 'm'); ex.assume(ne(m, 0)); r = R(ex, n, L(ex, a), L(ex, m))
        ex.prove('remainder: smaller than the modulus and with the sign of the dividend', AND(lt(absv(r), absv(m)), sgn_ok(r, a)))
        ex.prove('remainder: congruent to the dividend', rem_post(ex, a, m, r))
    add_unit('C07', n, run, 'c07.' + n[3:])
for n in ('op_quot', 'op_slash'):
    def run(ex, n=n):
        a = Z(ex, 'n'); m = Z(ex, 'm'); ex.assume(ne(m, 0)); q = R(ex, n, L(ex, a), L(ex, m))
        r = sub(a, mul(q, m))
        ex.prove('quotient: rounded towards zero', AND(lt(absv(r), absv(m)), sgn_ok(r, a)))
    add_unit('C07', n, run, 'c07.quot')
@unit('C07', 'op_divide', 'c07.divide')
def _(ex):
    a = Z(ex, 'n'); m = Z(ex, 'm'); ex.assume(ne(m, 0)); q = L(ex, 0); r = L(ex, 0)
    R(ex, 'op_divide', L(ex, a), L(ex, m), q, r); q = ex.read(q); r = ex.read(r)
    ex.prove('divide: dividend = quotient * divisor + remainder', eq(a, add(mul(q, m), r)))
    ex.prove('divide: remainder smaller than the divisor', lt(absv(r), absv(m)))
def exact(root, assign, q):
    def run(ex):
        if q: a = Q(ex, 'a'); b = Q(ex, 'b'); ex.assume(ne(b, 0))
        else:
            b = Z(ex, 'b'); k = Z(ex, 'k'); ex.assume(ne(b, 0)); a = mul(k, b)
        la = L(ex, a); r = R(ex, root, la, L(ex, b))
        if assign: r = ex.read(la)
        if q: ex.prove('division of rationals', eq(mul(r, b), a))
        else: ex.prove('exact division of integers', eq(r, k))
    add_unit('C07', root, run, 'c07.divq' if q else 'c07.divz')
for n in ('op_slashq', 'op_quotq', 'op_divq'): exact(n, False, True)
exact('op_div_assignq', True, True); exact('op_divz', False, False); exact('op_div_assignz', True, False)
@unit('C07', 'op_recip', 'c07.recip')
def _(ex):
    a = Q(ex, 'a'); ex.assume(ne(a, 0)); ex.prove('reciprocal', eq(mul(a, R(ex, 'op_recip', L(ex, a))), 1))
@unit('C07', 'op_timesq', 'c07.timesq')
def _(ex):
    a = Q(ex, 'a'); b = Q(ex, 'b'); ex.prove('product', eq(R(ex, 'op_timesq', L(ex, a), L(ex, b)), mul(a, b)))
def gl(root, F, assign=False, name=''):
    def run(ex):
        a = Z(ex, 'a'); b = Z(ex, 'b'); la = L(ex, a); r = R(ex, root, la, L(ex, b))
        if assign: r = ex.read(la)
        ex.prove(name + ' of the two arguments', eq(r, F(a, b)))
    add_unit('C07', root, run, 'c07.gcd')
gl('op_gcd', M.GCD, name='gcd'); gl('op_lcm', M.LCM, name='lcm'); gl('op_gcd_assign', M.GCD, True, 'gcd')
def glq(root, F, G, assign=False, name=''):
    def run(ex):
        a = Q(ex, 'a'); b = Q(ex, 'b'); la = L(ex, a); r = R(ex, root, la, L(ex, b))
        if assign: r = ex.read(la)
        # F(num)/G(den): the largest rational dividing both with integral quotients (smallest common multiple for lcm)
        ex.prove(name + ' of two rationals', eq(mul(r, zreal(G(ex.den(a), ex.den(b)))), zreal(F(ex.num(a), ex.num(b)))))
        if F is M.GCD: ex.prove('gcd of rationals is non-negative', ge(r, 0))
    add_unit('C07', root, run, 'c07.gcdq')
glq('op_gcdq', M.GCD, M.LCM, name='gcd'); glq('op_lcmq', M.LCM, M.GCD, name='lcm'); glq('op_gcd_assignq', M.GCD, M.LCM, True, 'gcd')
# powers: POW(b, e) is the e-fold product; lemmas are proved below by induction
def pow_def(ex, b, e):
    P = M.POW if znum(b).is_int() else M.POWR
    one = z3.IntVal(1) if znum(b).is_int() else z3.RealVal(1); e = znum(e); b = znum(b)
    ex.assume(z3.And(P(b, 0) == one, z3.Implies(e >= 0, P(b, e + 1) == b * P(b, e))))
    return P(b, e)
def pow_square(ex, b, h):
    """lemma pow_square: (b*b)^h = b^(2h)"""
    P = M.POW if znum(b).is_int() else M.POWR
    ex.assume(z3.Implies(znum(h) >= 0, P(znum(b) * znum(b), znum(h)) == P(znum(b), 2 * znum(h))))
for k in ('int', 'real'):
    def run(ex, k=k):
        b = ex.fresh('b', k); h = ex.fresh('h', 'int'); P = M.POW if k == 'int' else M.POWR
        for e in (h, 2 * h, 2 * h + 1): pow_def(ex, b, e)
        pow_def(ex, b * b, h); pow_def(ex, b, 0)
        ex.assume(h >= 0)
        ex.prove('lemma pow_square: base', P(b * b, 0) == P(b, 0))
        ex.assume(P(b * b, h) == P(b, 2 * h))
        ex.prove('lemma pow_square: step', P(b * b, h + 1) == P(b, 2 * h + 2))
    add_unit('C07', f'lemma.pow_square[{k}]', run, None)
def powunit(root, kind, assign=False):
    def run(ex):
        b = Z(ex, 'b') if kind == 'int' else Q(ex, 'b'); e = inp(ex, 'int', ex.fresh('e', 'int')); ex.assume(e >= 0)
        P = M.POW if kind == 'int' else M.POWR
        lb = L(ex, b)
        r = R(ex, root, lb, e)
        if assign: r = ex.read(lb)
        ex.prove('power', eq(r, P(b, e)))
    def inv(s, L):
        m = L.v('mult'); e = znum(L.v('e')); h = s.fresh('h', 'int')
        res = L.v('t') if assign else L.v('res'); P = M.POW if kind == 'int' else M.POWR
        b = (L.old('mult') if assign else L.old('basis')); b = znum(b); m = znum(m)
        # e = 2h or 2h+1
        s.assume(AND(OR(e == 2 * h, e == 2 * h + 1)))
        pow_def(s, m, e); pow_def(s, m, 0); pow_def(s, m, 2 * h); pow_square(s, m, h); pow_def(s, m * m, h)
        return [('result times remaining power is the power sought', AND(e >= 0, eq(mul(res, P(m, e)), P(b, znum(L.old('exp')))))) ]
    nm = 'pow_assign' if assign else 'pow'
    add_unit('C07', root, run, 'c07.pow', loops={nm: Loop(inv=inv)})
powunit('op_powu', 'int'); powunit('op_pow_assign', 'int', True); powunit('op_pow_assignq', 'real', True)
@unit('C07', 'op_powz', 'c07.pow')
def _(ex):
    b = Z(ex, 'b'); e = inp(ex, 'int', ex.fresh('e', 'int')); ex.assume(e >= 0)
    ex.prove('power', eq(R(ex, 'op_powz', L(ex, b), e), M.POW(b, e)))
@unit('C07', 'lemma.pow_ratio')
def _(ex):
    q = ex.fresh('q', 'real'); n = ex.fresh('n', 'int'); d = ex.fresh('d', 'int'); e = ex.fresh('e', 'int'); ex.assume(AND(d > 0, e >= 0)); ex.assume(q * z3.ToReal(d) == z3.ToReal(n))
    A = lambda k: z3.ToReal(M.POW(n, k)); B = lambda k: z3.ToReal(M.POW(d, k)); C = lambda k: M.POWR(q, k)
    for b in (q, n, d): pow_def(ex, b, e)
    ex.prove('lemma pow_ratio: base', AND(C(0) * B(0) == A(0), M.POW(d, 0) > 0))
    ex.assume(AND(C(e) * B(e) == A(e), M.POW(d, e) > 0))
    a, b, c, nr, dr = ex.fresh('A', 'real'), ex.fresh('B', 'real'), ex.fresh('C', 'real'), ex.fresh('nr', 'real'), ex.fresh('dr', 'real')
    ex.prove('lemma pow_ratio: step', z3.Implies(z3.And(c * b == a, q * dr == nr), (q * c) * (dr * b) == nr * a))
    ex.prove('lemma pow_ratio: positivity', M.POW(d, e + 1) > 0)
@unit('C07', 'op_powq', 'c07.powq')
def _(ex):
    b = Q(ex, 'b'); e = inp(ex, 'int', ex.fresh('e', 'int')); ex.assume(e >= 0)
    n, d = ex.num(b), ex.den(b)
    # lemma pow_ratio: q = n/d  =>  q^e * d^e = n^e, d^e > 0
    ex.assume(AND(M.POWR(b, e) * z3.ToReal(M.POW(d, e)) == z3.ToReal(M.POW(n, e)), M.POW(d, e) > 0))
    ex.prove('power of a rational', eq(R(ex, 'op_powq', L(ex, b), e), M.POWR(b, e)))
# square roots and roots
def perfect(ex, a): pass
@unit('C07', 'op_sqrt_exact', 'c07.sqrt_exact')
def _(ex):
    a = Q(ex, 'a'); lb = L(ex, Fraction(0)); r = R(ex, 'op_sqrt_exact', L(ex, a), lb); b = ex.read(lb)
    ex.prove('a reported root is the non-negative exact root', IMP(zbool(r), AND(ge(b, 0), eq(mul(b, b), a))))
@unit('C07', 'op_sqrt_exact/complete', 'c07.sqrt_exact')
def _(ex):
    # a = (u/v)^2 with u/v canonical: numerator and denominator of a are u^2 and v^2 (squares of coprime numbers are coprime: trusted)
    u = ex.fresh('u', 'int'); v = ex.fresh('v', 'int'); ex.assume(AND(u >= 0, v > 0)); a = ex.fresh('a', 'real')
    inp(ex, 'Q', a); ex.assume(AND(eq(mul(a, zreal(v * v)), zreal(u * u)))); n, d = ex.num(a), ex.den(a); ex.assume(AND(n == u * u, d == v * v))
    lb = L(ex, Fraction(0)); r = R(ex, 'op_sqrt_exact', L(ex, a), lb)
    ex.prove('every square of a rational is recognised', zbool(r))
def enc(root, strict=True):
    def run(ex):
        a = Q(ex, 'a'); ex.assume(a > 0 if strict else a >= 0)
        lo, up = R(ex, root, L(ex, a)).items
        ex.prove('lower bound of the square root', AND(ge(lo, 0), le(mul(lo, lo), a)))
        ex.prove('upper bound of the square root', AND(ge(up, 0), le(a, mul(up, up))))
    add_unit('C07', root, run, 'c07.' + root[3:])
enc('op_sqrt_safe'); enc('op_sqrt_fast', False)
@unit('C07', 'op_sqrt', 'c07.sqrt', contracts={'carl::sqrt_safe': lambda ex, f, this, args, node: k_sqrt_safe(ex, args)})
def _(ex):
    a = Q(ex, 'a'); ex.assume(a > 0); r = R(ex, 'op_sqrt', L(ex, a)); lo, up = ex.ghost['enc']
    ex.prove('approximation lies within the enclosure', AND(le(lo, r), le(r, up)))
def k_sqrt_safe(ex, args):
    a = ex.val(args[0]); lo = ex.fresh('lo', 'real'); up = ex.fresh('up', 'real')
    ex.prove('sqrt_safe: precondition', gt(a, 0), kind='pre')
    ex.assume(AND(lo >= 0, lo * lo <= a, up >= 0, a <= up * up, lo <= up)); ex.ghost['enc'] = (lo, up); return Tup([lo, up])
@unit('C07', 'op_root_safe', 'c07.root_safe', rlimit=20000000)
def _(ex):
    a = Q(ex, 'a'); n = inp(ex, 'int', ex.fresh('n', 'int')); ex.assume(AND(a > 0, n >= 1))
    lo, up = R(ex, 'op_root_safe', L(ex, a), n).items
    # lemma pow_ratio for the quotients returned: (x/y)^n * y^n = x^n
    rs = ex.ghost.get('roots', [])
    (rd, dd, _), (rn, nn, _) = rs[0], rs[1]
    def ratio(q, x, y): ex.assume(z3.Implies(z3.And(y > 0, q * z3.ToReal(y) == z3.ToReal(x)), z3.And(M.POWR(q, n) * z3.ToReal(M.POW(y, n)) == z3.ToReal(M.POW(x, n)), M.POW(y, n) > 0)))
    for x in (rn, rn + 1):
        for y in (rd, rd + 1):
            for q in (lo, up): ratio(q, znum(x), znum(y))
    ex.assume(a * z3.ToReal(znum(dd)) == z3.ToReal(znum(nn)))
    # the root of a positive number is positive (1^n <= d)
    ex.assume(AND(z3.Implies(znum(dd) >= 1, rd >= 1)))
    P = lambda q: M.POWR(q, n)
    ex.prove('lower bound of the root', AND(ge(lo, 0), le(P(lo), a)))
    ex.prove('upper bound of the root', AND(ge(up, 0), le(a, P(up))))
# conversions
I64 = 1 << 63
def conv(root, mkarg, kind, lo=None, hi=None, isint=False):
    def run(ex):
        a = mkarg(ex, 'a')
        if lo is not None: ex.assume(AND(ge(a, lo), lt(a, hi)))
        if isint: ex.assume(z3.IsInt(a))
        r = R(ex, root, L(ex, a) if kind else a)
        ex.prove('conversion keeps the value', eq(r, a))
    add_unit('C07', root, run, 'c07.conv')
conv('op_toint', Z, 1, -I64, I64); conv('op_touint', Z, 1, 0, 2 * I64); conv('op_qtoint', Q, 1, None, None, True); conv('op_qtosint', Q, 1, -I64, I64, True)
for n in ('op_fromint', 'op_qfromint', 'op_rationalizes'): conv(n, Z, 1 if n != 'op_rationalizes' else 0, -I64, I64)
for n in ('op_fromuint', 'op_rationalizeu'): conv(n, Z, 0, 0, 2 * I64)
conv('op_rationalize', Z, 0, -(1 << 31), 1 << 31)
for u in UNITS:
    if u['name'] in ('num.op_fromint', 'num.op_qfromint'):
        root = u['name'][4:]
        def run(ex, root=root):
            a = Z(ex, 'a'); ex.assume(AND(ge(a, -I64), lt(a, I64))); ex.prove('conversion keeps the value', eq(R(ex, root, a), a))
        u['run'] = run

# ------------------------------------------------------------------ C06
def field(ex, name='f'):
    pk = ex.fresh(name + '_pk', 'int'); mx = ex.fresh(name + '_max', 'int'); p = ex.fresh(name + '_p', 'int'); k = ex.fresh(name + '_k', 'int')
    ex.assume(AND(pk >= 2, OR(2 * mx == pk - 1, 2 * mx == pk - 2), p >= 2, k >= 1))
    ex.ghost['pk'] = pk; ex.ghost['mx'] = mx
    f = Rec('carl::GaloisField', {'mP': p, 'mK': k, 'mPK': pk, 'mMaxValue': mx, 'mModulus': mx + 1})
    return f
def inrange(ex, n): return AND(le(neg(ex.ghost['mx']), n), le(mul(2, n), ex.ghost['pk']))
def gf(n, fl): return Rec('carl::GFNumber', {'mN': n, 'mGf': fl})
def elem(ex, name, fl):
    n = inp(ex, 'Z', ex.fresh(name, 'int')); ex.assume(inrange(ex, n)); return gf(n, fl)
def wits(ex):
    qs = ex.ghost.get('quots', []); c = [0]
    for q in qs: c = [w for x in c for w in (x, add(x, q), sub(x, q))] if len(qs) <= 2 else c + [q, neg(q)]
    return [add(w, d) for w in c for d in (0, 1, -1)]
def congr(ex, r, v, extra=()):
    """r is congruent to v modulo the field size: a quotient met in the computation is the witness"""
    pk = ex.ghost['pk']
    return OR(*[eq(sub(v, r), mul(w, pk)) for w in list(extra) + wits(ex)])
def pkin(ex): inp(ex, 'Z', ex.ghost['pk'])
KMOD = {}
def k_symmod(ex, f, this, args, node):
    """contract of GaloisField::modulo / symmetricModulo (proved by num.gf_symmod): congruent and in the symmetric range"""
    fld = ex.read(this); v = ex.val(args[0]); r = ex.fresh('sm', 'int'); q = ex.fresh('smq', 'int')
    ex.assume(AND(eq(sub(v, r), mul(q, fld.f['mPK'])), inrange(ex, r)))
    ex.ghost.setdefault('quots', []).append(q); ex.ghost.setdefault('sm', []).append((v, r, q)); return r
KSM = {'carl::GaloisField::symmetricModulo': k_symmod, 'carl::GaloisField::modulo': k_symmod}
for root in ('gf_symmod', 'gf_mod'):
    def run(ex, root=root):
        f = field(ex); pkin(ex); n = Z(ex, 'n'); r = R(ex, root, L(ex, f), L(ex, n))
        ex.prove('reduced value lies in the symmetric range', inrange(ex, r))
        ex.prove('reduced value is congruent to the argument', congr(ex, r, n))
    add_unit('C06', root, run, 'c06.symmod')
def unique(ex):
    f = field(ex); pk = ex.ghost['pk']; a = ex.fresh('a', 'int'); b = ex.fresh('b', 'int'); w = ex.fresh('w', 'int')
    ex.assume(AND(inrange(ex, a), inrange(ex, b), a - b == w * pk))
    ex.prove('congruent values of the symmetric range are equal', a == b)
add_unit('C06', 'lemma.unique', unique)
def uniq(ex, a, b, w):
    """lemma.unique: two congruent numbers of the range are equal (w: factor of the difference)"""
    ex.assume(z3.Implies(z3.And(znum(a) - znum(b) == znum(w) * ex.ghost['pk'], zbool(inrange(ex, a)), zbool(inrange(ex, b))), znum(w) == 0))
@unit('C06', 'gf_field', 'c06.field', contracts={'carl::pow': lambda ex, f, this, args, node: zpow_contract(ex, f, args)})
def _(ex):
    p = inp(ex, 'int', ex.fresh('p', 'int')); k = inp(ex, 'int', ex.fresh('k', 'int')); ex.assume(AND(p >= 2, k >= 1, p < (1 << 32), k < (1 << 32)))
    ex.assume(M.POW(p, k) >= 2)
    f = R(ex, 'gf_field', p, k)
    pk = f.f['mPK']; mx = f.f['mMaxValue']
    ex.prove('field size is p^k', eq(pk, M.POW(p, k)))
    ex.prove('bounds of the symmetric range', AND(OR(eq(mul(2, mx), sub(pk, 1)), eq(mul(2, mx), sub(pk, 2))), eq(f.f['mModulus'], add(mx, 1)), eq(f.f['mP'], p), eq(f.f['mK'], k)))
def zpow_contract(ex, f, args):
    """contract of carl::pow (proved by the units of C07): the e-fold product in the type of the basis"""
    b, e = ex.val(args[0]), ex.val(args[1]); ty = ex.p.deref_t(f['p'][0]['t'])
    r = M.POW(znum(b), znum(e))
    if ty['k'] == 'int':      # machine arithmetic: the product is taken modulo 2^w
        q = ex.fresh('ovf', 'int'); w = 1 << ty['w']; x = ex.fresh('powm', 'int')
        ex.assume(AND(x >= 0, x < w, r == q * w + x, q >= 0)); return x
    return r
def gfunit(root, mk, want, name, op, wit=None, contracts=None, inplace=False):
    def run(ex):
        fl = L(ex, field(ex)); pkin(ex); args, want_v = mk(ex, fl)
        r = R(ex, root, *args)
        if inplace: r = ex.read(args[0])
        n = r.f['mN']
        ex.prove(f'{name}: result is a reduced element of the field', AND(inrange(ex, n), ex.ptr_eq(r.f['mGf'], fl)))
        ex.prove(f'{name}: result is congruent to the integer result', congr(ex, n, want_v, wit(ex) if wit else ()))
    add_unit('C06', root, run, op, contracts=dict(KSM, **(contracts or {})))
def two(fn): return lambda ex, fl: (lambda a, b: ([L(ex, a), L(ex, b)], fn(a.f['mN'], b.f['mN'])))(elem(ex, 'a', fl), elem(ex, 'b', fl))
def withz(fn): return lambda ex, fl: (lambda a, b: ([L(ex, a), L(ex, b)], fn(a.f['mN'], b)))(elem(ex, 'a', fl), Z(ex, 'b'))
def zwith(fn): return lambda ex, fl: (lambda a, b: ([L(ex, b), L(ex, a)], fn(b, a.f['mN'])))(elem(ex, 'a', fl), Z(ex, 'b'))
def one(fn): return lambda ex, fl: (lambda a: ([L(ex, a)], fn(a.f['mN'])))(elem(ex, 'a', fl))
gfunit('gf_mk', lambda ex, fl: (lambda n: ([L(ex, n), fl], n))(Z(ex, 'n')), None, 'construction', 'c06.mk')
gfunit('gf_toGF', lambda ex, fl: (lambda n: ([L(ex, gf(n, NULL)), fl], n))(Z(ex, 'n')), None, 'change of field', 'c06.mk')
gfunit('gf_ctor2', lambda ex, fl: (lambda n: ([L(ex, gf(n, NULL)), fl], n))(Z(ex, 'n')), None, 'construction in another field', 'c06.mk')
for nm, fn in (('add', add), ('sub', sub), ('mul', mul)):
    gfunit(f'gf_{nm}', two(fn), None, nm, 'c06.' + nm)
    gfunit(f'gf_{nm}z', withz(fn), None, nm, 'c06.' + nm + 'z')
    gfunit(f'gf_z{nm}', zwith(fn), None, nm, 'c06.z' + nm)
    gfunit(f'gf_{nm}_assign', two(fn), None, nm + '_assign', 'c06.' + nm + '_assign', inplace=True)
    gfunit(f'gf_{nm}_assignz', withz(fn), None, nm + '_assign', 'c06.' + nm + '_assignz', inplace=True)
gfunit('gf_neg', one(neg), None, 'negation', 'c06.neg')
gfunit('gf_inc', one(lambda a: add(a, 1)), None, 'increment', 'c06.inc', inplace=True)
gfunit('gf_dec', one(lambda a: sub(a, 1)), None, 'decrement', 'c06.dec', inplace=True)
gfunit('gf_norm', one(lambda a: a), None, 'normalisation', 'c06.norm', inplace=True)
# literals without field take the field of the other operand
for nm, fn in (('add', add), ('sub', sub), ('mul', mul)):
    gfunit(f'gf_{nm}_assign', lambda ex, fl, fn=fn: (lambda a, b: ([L(ex, gf(a, NULL)), L(ex, b)], fn(a, b.f['mN'])))(Z(ex, 'a'), elem(ex, 'b', fl)), None, nm + '_assign to a literal', 'c06.lit_' + nm, inplace=True)
    UNITS[-1]['name'] += '/literal'
    r0 = UNITS[-1]['run']
# extended Euclid by contract on the recursive call
def k_eea(ex, f, this, args, node):
    a, b = ex.val(args[0]), ex.val(args[1])
    g, s, t, x, y = (ex.fresh(n, 'int') for n in ('g', 's', 't', 'x', 'y'))
    ex.prove('extended Euclid: precondition of the (recursive) call', AND(ge(a, 0), ge(b, 0)), kind='pre')
    if ex.ghost.get('eea_self') is not None: ex.prove('extended Euclid: recursion decreases the second argument', lt(b, ex.ghost['eea_self']), kind='variant')
    ex.assume(AND(g >= 0, eq(g, add(mul(a, s), mul(b, t))), eq(a, mul(g, x)), eq(b, mul(g, y))))
    ex.ghost['eea'] = dict(g=g, s=s, t=t, x=x, y=y, a=a, b=b)
    ex.write(args[2], s); ex.write(args[3], t); return VOID
@unit('C06', 'eea_rec', 'c06.eea')
def _(ex):
    a = Z(ex, 'a'); b = Z(ex, 'b'); ex.assume(AND(a >= 0, b >= 0)); s = L(ex, 0); t = L(ex, 0)
    ex.ghost['eea_self'] = b; calls = [0]
    def k(ex, f, this, args, node):
        if calls[0] == 0: calls[0] = 1; return NotImplemented
        return k_eea(ex, f, this, args, node)
    ex.unit['contracts'] = {'carl::EEA::calculate_recursive': k}
    R(ex, 'eea_rec', L(ex, a), L(ex, b), s, t); s = ex.read(s); t = ex.read(t)
    e = ex.ghost.get('eea')
    if e is None: g, x, y = a, 1, 0
    else:
        q = ex.ghost['quots'][0]; g = e['g']; x = add(mul(q, e['x']), e['y']); y = e['x']
        ex.assume(True)
    ex.prove('extended Euclid: linear combination', eq(g, add(mul(a, s), mul(b, t))))
    ex.prove('extended Euclid: the combination divides both arguments', AND(g >= 0, eq(a, mul(g, x)), eq(b, mul(g, y))))
KEEA = {'carl::EEA::calculate_recursive': k_eea}
def eea_post(ex, a, b, s, t):
    e = ex.ghost['eea']; g, x, y = e['g'], e['x'], e['y']
    sx = ITE(ge(a, 0), x, neg(x)); sy = ITE(ge(b, 0), y, neg(y))
    return [('Bezout identity', eq(g, add(mul(a, s), mul(b, t)))), ('the combination divides both arguments', AND(g >= 0, eq(a, mul(g, sx)), eq(b, mul(g, sy))))]
@unit('C06', 'eea', 'c06.eea', contracts=KEEA)
def _(ex):
    a = Z(ex, 'a'); b = Z(ex, 'b'); r = R(ex, 'eea', L(ex, a), L(ex, b)); s, t = r.items
    for n, f in eea_post(ex, a, b, s, t): ex.prove('extended Euclid on signed arguments: ' + n, f)
def k_eea_calc(ex, f, this, args, node):
    """contract of EEA::calculate (num.eea)"""
    a, b = ex.val(args[0]), ex.val(args[1]); g, s, t, x, y = (ex.fresh(n, 'int') for n in ('g', 's', 't', 'x', 'y'))
    ex.assume(AND(g >= 0, eq(g, add(mul(a, s), mul(b, t))), eq(a, mul(g, x)), eq(b, mul(g, y))))
    ex.ghost['eea'] = dict(g=g, s=s, t=t, x=x, y=y)
    return Tup([s, t])
@unit('C06', 'lemma.unit_gcd')
def _(ex):
    g, x, y, u, v = (ex.fresh(n, 'int') for n in 'gxyuv'); w = ex.fresh('w', 'int')
    ex.prove('lemma unit_gcd: rearrangement', z3.Implies(z3.And(w == u * x + v * y, u * (g * x) + v * (g * y) == 1), g * w == 1))
    ex.prove('lemma unit_gcd: a non-negative divisor of one is one', z3.Implies(z3.And(g >= 0, g * w == 1), g == 1))
def invertible(ex, n):
    """n is a unit modulo pk: u*pk + v*n = 1; then a common divisor g of pk and n is 1 (lemma.unit_gcd)"""
    u = ex.fresh('u', 'int'); v = ex.fresh('v', 'int'); ex.assume(eq(add(mul(u, ex.ghost['pk']), mul(v, n)), 1)); ex.ghost['bez'] = (u, v)
def unit_gcd(ex):
    e = ex.ghost['eea']; ex.assume(eq(e['g'], 1))
@unit('C06', 'gf_inv', 'c06.inv', contracts=dict(KSM, **{'carl::EEA::calculate': k_eea_calc}))
def _(ex):
    fl = L(ex, field(ex)); pkin(ex); pk = ex.ghost['pk']; a = elem(ex, 'a', fl); n = a.f['mN']; invertible(ex, n)
    r = R(ex, 'gf_inv', L(ex, a)); m = r.f['mN']; unit_gcd(ex)
    ex.prove('inverse: result is a reduced element of the field', AND(inrange(ex, m), ex.ptr_eq(r.f['mGf'], fl)))
    s = ex.ghost['eea']['s']; t = ex.ghost['eea']['t']
    # m = t - q*pk, pk*s + n*t = 1  =>  1 - m*n = pk*(s + q*n)
    ex.prove('inverse: product with the argument is congruent to one', OR(*[eq(sub(1, mul(m, n)), mul(add(s, mul(w, n)), pk)) for w in wits(ex)]))
def k_inv(ex, f, this, args, node):
    a = ex.read(this); v = ex.fresh('inv', 'int'); w = ex.fresh('invw', 'int')
    ex.assume(AND(inrange(ex, v), eq(sub(1, mul(v, a.f['mN'])), mul(w, ex.ghost['pk'])))); ex.ghost['inv'] = (v, w)
    return gf(v, a.f['mGf'])
def divunit(root, inplace):
    def run(ex):
        fl = L(ex, field(ex)); pkin(ex); pk = ex.ghost['pk']; a = elem(ex, 'a', fl); b = elem(ex, 'b', fl); invertible(ex, b.f['mN'])
        la = L(ex, a); r = R(ex, root, la, L(ex, b))
        if inplace: r = ex.read(la)
        m = r.f['mN']; v, w = ex.ghost['inv']; A = a.f['mN']; B = b.f['mN']
        ex.prove('division: result is a reduced element of the field', AND(inrange(ex, m), ex.ptr_eq(r.f['mGf'], fl)))
        # m = A*v - q*pk, 1 - v*B = w*pk => A - m*B = A*(1 - v*B) + q*B*pk = (A*w + q*B)*pk
        ex.prove('division: result times divisor is congruent to the dividend', OR(*[eq(sub(A, mul(m, B)), mul(add(mul(A, w), mul(q, B)), pk)) for q in wits(ex)]))
    add_unit('C06', root, run, 'c06.' + root[3:], contracts=dict(KSM, **{'carl::GFNumber::inverse': k_inv}))
divunit('gf_div', False); divunit('gf_quot', False); divunit('gf_div_assign', True)
@unit('C06', 'gf_tests', 'c06.tests')
def _(ex):
    fl = L(ex, field(ex)); pkin(ex); a = elem(ex, 'a', fl); n = a.f['mN']
    w = ex.fresh('w', 'int')
    z = zbool(R(ex, 'gf_iszero', L(ex, a))); o = zbool(R(ex, 'gf_isone', L(ex, a)))
    uniq(ex, n, 0, w); uniq(ex, n, 1, w)
    ex.prove('zero test: congruent to zero', AND(IMP(z, eq(n, 0)), IMP(eq(n, mul(w, ex.ghost['pk'])), z)))
    ex.prove('one test: congruent to one', AND(IMP(o, eq(n, 1)), IMP(eq(sub(n, 1), mul(w, ex.ghost['pk'])), o)))
def equnit(root, mkb, kind, negate=False):
    def run(ex):
        fl = L(ex, field(ex)); pkin(ex); pk = ex.ghost['pk']; a = elem(ex, 'a', fl); A = a.f['mN']
        arg, B = mkb(ex, fl); w = ex.fresh('w', 'int')
        r = zbool(R(ex, root, L(ex, a), arg))
        if negate: r = NOT(r)
        for v, m, q in ex.ghost.get('sm', []): uniq(ex, m, 0, w - znum(q)); uniq(ex, m, A, w - znum(q)); uniq(ex, m, B, w - znum(q)); uniq(ex, m, 0, -w - znum(q))
        uniq(ex, A, B, w)
        ex.prove('equal elements are congruent', IMP(r, OR(*[eq(sub(A, B), mul(x, pk)) for x in wits(ex)])))
        ex.prove('congruent elements are equal', IMP(eq(sub(A, B), mul(w, pk)), r))
    add_unit('C06', root, run, 'c06.eq' + kind, contracts=KSM)
equnit('gf_eq', lambda ex, fl: (lambda b: (L(ex, b), b.f['mN']))(elem(ex, 'b', fl)), '')
equnit('gf_ne', lambda ex, fl: (lambda b: (L(ex, b), b.f['mN']))(elem(ex, 'b', fl)), '', True)
for n in ('gf_eqz', 'gf_zeq'): equnit(n, lambda ex, fl: (lambda b: (L(ex, b), b))(Z(ex, 'b')), 'z')
equnit('gf_nez', lambda ex, fl: (lambda b: (L(ex, b), b))(Z(ex, 'b')), 'z', True)
for n in ('gf_eqi', 'gf_ieq'): equnit(n, lambda ex, fl: (lambda b: (b, b))(inp(ex, 'int', ex.fresh('b', 'int'))), 'i')

# ------------------------------------------------------------------ C32
# PRIME is characterised by its definition; SPF(m) is a proper prime divisor of a composite m; IDX(p) the position of p in the list
IntS = z3.IntSort()
PRIME = z3.Function('prime', IntS, z3.BoolSort()); SPF = z3.Function('spf', IntS, IntS)
def divs(d, m): return m % d == 0
def prime_def(ex, *ms):
    d = z3.Int('d!p')
    for m in ms:
        m = znum(m)
        ex.assume(z3.Implies(PRIME(m), m >= 2))
        ex.assume(z3.Implies(z3.And(m >= 2, z3.Not(PRIME(m))), z3.And(PRIME(SPF(m)), SPF(m) >= 2, SPF(m) < m, divs(SPF(m), m))))
def prime_nodiv(ex, m, d):
    """a prime has no divisor strictly between one and itself"""
    m = znum(m); d = znum(d); ex.assume(z3.Implies(z3.And(d >= 2, d < m, divs(d, m)), z3.Not(PRIME(m))))
def invp(v, idx):
    i, j, p = z3.Int('i!p'), z3.Int('j!p'), z3.Int('q!p'); a = v.cols[0]; n = znum(v.n)
    return z3.And(n >= 2, a[0] == 2, a[n - 1] % 2 == 1,
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(PRIME(a[i]), a[i] >= 2, a[i] <= a[n - 1]))),
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n - 1), a[i] < a[i + 1])),
                  z3.ForAll([p], z3.Implies(z3.And(PRIME(p), p <= a[n - 1]), z3.And(idx(p) >= 0, idx(p) < n, a[idx(p)] == p))))
def primes(ex, mnext=True):
    v = fresh_svec(ex, 'primes', INT); ex.assume(v.n >= 2)
    k = ex.fresh_n.get('idx', 0); ex.fresh_n['idx'] = k + 1
    idx = z3.Function(f'idx!{k}', IntS, IntS); ex.assume(invp(v, idx)); ex.ghost['idx'] = idx
    lv = ex.alloc(v, 'mPrimes'); ex.ghost['lv'] = lv
    nx = ex.fresh('mNext', 'int'); ex.assume(AND(nx >= 0, nx <= v.n))
    return lv, ex.alloc(Rec('carl::PrimeFactory', {'mNext': nx}), 'pf'), nx
GLP = {'carl::PrimeFactory::mPrimes': lambda ex, *a: ex.ghost['lv']}
def nogap(n, r):
    g = z3.Int('g!p'); return z3.ForAll([g], z3.Implies(z3.And(PRIME(g), g > znum(n)), g >= znum(r)), patterns=[PRIME(g)])
def outer(s, L):
    res = znum(L.v('res')); n = znum(L.v('n')); v = s.read(s.ghost['lv'])
    prime_def(s, res, res + 1); prime_nodiv(s, res + 1, 2); prime_nodiv(s, n + 1, 2)
    return [('candidate is odd and beyond the last prime', AND(res % 2 == 1, res >= n + 2)), ('no prime between the last prime and the candidate', nogap(n, res))]
def inner(s, L):
    res = znum(L.v('res')); i = znum(L.v('i')); v = s.read(s.ghost['lv']); a = v.cols[0]; j = z3.Int('j!q'); fnd = zbool(L.v('found'))
    prime_nodiv(s, res, a[i - 1])
    return [('index range', AND(i >= 1, le(i, v.n))), ('no divisor among the primes inspected', z3.Implies(z3.Not(fnd), z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < i), z3.Not(divs(a[j], res))), patterns=[a[j]]))),
            ('a found divisor divides the candidate', z3.Implies(fnd, z3.And(i >= 2, divs(a[i - 1], res))))]
@unit('C32', 'next_prime', 'c32.next', loops={'next_prime#0': Loop(inv=outer), 'next_prime#1': Loop(inv=inner)}, globals=GLP, weak_oracle=True)
def _(ex):
    lv, pf, nx = primes(ex); v = ex.read(lv); n = at(v, sub(v.n, 1)); ln = ex.alloc(n)
    r = R(ex, 'pf_next', ln, pf); prime_def(ex, r); prime_nodiv(ex, r, SPF(znum(r)))
    ex.prove('next prime: larger than the last one', gt(r, n))
    ex.prove('next prime: no prime is skipped', nogap(n, r))
    idx = ex.ghost['idx']; s = SPF(znum(r))
    ex.prove('next prime: result is prime', PRIME(znum(r)))
def k_next(ex, f, this, args, node):
    n = ex.val(args[0]); v = ex.read(ex.ghost['lv'])
    ex.prove('next prime is asked for the last prime of the list', eq(n, at(v, sub(v.n, 1))), kind='pre')
    r = ex.fresh('np', 'int'); ex.assume(AND(gt(r, n), r % 2 == 1, PRIME(r), nogap(n, r))); return r
def gmp_next(ex, n):
    r = ex.fresh('np', 'int'); ex.assume(AND(gt(r, n), PRIME(r), nogap(n, r), r % 2 == 1)); return r
def idx_after(ex, old, v0, r):
    """the position function of the extended list"""
    k = ex.fresh_n.get('idx', 0); ex.fresh_n['idx'] = k + 1
    f = z3.Function(f'idx!{k}', IntS, IntS); p = z3.Int('p!i')
    ex.assume(z3.ForAll([p], f(p) == z3.If(p == znum(r), znum(v0.n), old(p)), patterns=[f(p)])); return f
for root in ('pf_nextPrime', 'pfz_nextPrime'):
    def run(ex, root=root):
        lv, pf, nx = primes(ex); v0 = ex.read(lv)
        r = R(ex, root, pf); r = ex.val(r); v = ex.read(lv)
        ex.prove('the returned prime is the one at the old position', eq(r, at(v, nx)))
        ex.prove('the position advances by one', eq(ex.read(pf).f['mNext'], add(nx, 1)))
        ex.prove('the position stays within the list', le(ex.read(pf).f['mNext'], v.n))
        newp = at(v, sub(v.n, 1)); f = idx_after(ex, ex.ghost['idx'], v0, newp)
        if ex.known(eq(v.n, v0.n)): f = ex.ghost['idx']
        j = ex.fresh('j', 'int')
        ex.prove('known primes are unchanged', z3.Implies(z3.And(j >= 0, j < znum(v0.n)), at(v, j) == at(v0, j)))
        ex.prove('the list has exactly the primes up to its last entry, in order', invp(v, f))
    add_unit('C32', root, run, 'c32.seq', contracts={'carl::detail::next_prime': k_next} if root[2] == '_' else {}, nextprime=gmp_next, globals=GLP, weak_oracle=True)
def k_nextPrime(ex, f, this, args, node):
    lv = ex.ghost['lv']; v0 = ex.read(lv); pf = ex.read(this); nx = pf.f['mNext']
    v = fresh_svec(ex, 'primes', INT)
    k = ex.fresh_n.get('idx', 0); ex.fresh_n['idx'] = k + 1
    idx = z3.Function(f'idx!{k}', IntS, IntS); ex.assume(invp(v, idx)); ex.ghost['idx'] = idx
    ex.assume(AND(ge(v.n, v0.n), le(add(nx, 1), v.n)))
    ex.write(lv, v); ex.write(this, pf.upd('mNext', add(nx, 1))); return lv.sub(('[]', nx))
def at_loop(s, L):
    v = s.read(s.ghost['lv']); nx = L.this.f['mNext']
    k = s.fresh_n.get('idxl', 0); idx = s.ghost.get('idxf')
    return [('position within the list', AND(ge(nx, 0), le(nx, v.n))), ('list invariant', s.ghost['inv_p'](v))]
for root in ('pf_at', 'pfz_at'):
    def run(ex, root=root):
        lv, pf, nx = primes(ex); i = inp(ex, 'int', ex.fresh('i', 'int')); ex.assume(i >= 0)
        # the list invariant as an opaque predicate of the (length, contents) pair
        OK = z3.Function('list_ok', IntS, z3.ArraySort(IntS, IntS), z3.BoolSort())
        ex.ghost['inv_p'] = lambda v: OK(znum(v.n), v.cols[0])
        v0 = ex.read(lv); ex.assume(OK(znum(v0.n), v0.cols[0]))
        def k(ex, f, this, args, node):
            r = k_nextPrime(ex, f, this, args, node); v = ex.read(lv); ex.assume(OK(znum(v.n), v.cols[0])); return r
        ex.unit['contracts'] = {'carl::PrimeFactory::nextPrime': k}
        r = R(ex, root, pf, i); v = ex.read(lv)
        ex.prove('the list stays the list of primes', OK(znum(v.n), v.cols[0]))
        ex.prove('the entry with the requested index is returned', AND(lt(i, v.n), eq(r, at(v, i))))
    add_unit('C32', root, run, 'c32.at', loops={'operator[]': Loop(inv=at_loop)}, globals=GLP)
@unit('C32', 'pf_cat', 'c32.at', globals=GLP)
def _(ex):
    lv, pf, nx = primes(ex); i = ex.fresh('i', 'int'); v = ex.read(lv); ex.assume(AND(i >= 0, i < v.n))
    ex.prove('constant access returns the entry with the index', eq(R(ex, 'pf_cat', pf, i), at(v, i)))
@unit('C32', 'initial_list', 'c32.at')
def _(ex):
    vid = [i for i, v in ex.p.vars.items() if v['n'].startswith('carl::PrimeFactory') and v['n'].endswith('::mPrimes')]
    if not vid: raise Unsupported('initial list not extracted')
    for i in vid:
        ex.frames.append(Frame(None, None, 'global'))
        vals = [int(x) for x in ex.read(ex.lookup(i, {})).items]
        ps = [q for q in range(2, (max(vals) if vals else 2) + 1) if all(q % d for d in range(2, q))]
        ex.prove('the initial list has exactly the primes up to its last entry, in order', vals == ps and len(vals) >= 2)

"""Contracts for the creation and normalisation of polynomial constraints (C24).
A polynomial is represented by what the code asks about it: its value v at an arbitrary point, constant part c, leading coefficient lc,
whether it is constant (k), its total degree td, number of terms nt, whether it is univariate (u); for a polynomial in one variable x, the
form of the value is given (linear: lc*x + c, one term: lc*x^e with the parity of e).  Every unit runs once for polynomials over integer variables
only (the point is integral then) and once for all others.  `int` means that the coefficients are integral.
The facts assumed about the polynomial operations are those proved for C10/C11 (and C31 for the coprime factor)."""
from .common import *
from vc.containers import *
from vc.engine import NULL
from . import mpoly as MPO, mquery as MQ
DRIVER = 'constr'; HARNESS = 'constr'
UNITS = []
MP = MPO.MP
Iv, Rv = z3.IntVal, z3.RealVal
EQ, NEQ, LESS, GREATER, LEQ, GEQ = range(6)
NEG, NEGS, NON, POSS, POS = range(5)
def R(ex, root, *a): return ex.call_root(root, list(a))
def rd(ex, x):
    while isinstance(x, Loc): x = ex.read(x)
    return x
def holds(v, r):
    v = zreal(v); r = znum(r); return z3.Or(z3.And(r == EQ, v == 0), z3.And(r == NEQ, v != 0), z3.And(r == LESS, v < 0), z3.And(r == LEQ, v <= 0), z3.And(r == GREATER, v > 0), z3.And(r == GEQ, v >= 0))
def REL(ex, n='rel'): r = ex.fresh(n, 'int'); ex.assume(z3.And(r >= 0, r <= 5)); return r
FIELDS = ('v', 'c', 'lc', 'k', 'td', 'nt', 'u', 'int', 'even')
def isP(x): return isinstance(x, Rec) and x.q == MP
def pol(ex, name, **kw):
    """a polynomial with the given attributes, the others arbitrary but consistent"""
    srt = dict(v='real', c='real', lc='real', k='bool', td='int', nt='int', u='bool', int='bool', even='bool')
    f = {n: kw[n] if n in kw else ex.fresh(f'{name}_{n}', srt[n]) for n in FIELDS}; r = Rec(MP, f); facts(ex, r); return r
def X(ex): return ex.ghost['x']
def facts(ex, p):
    v, c, lc, k, td, nt, u, ii, ev = [zreal(p.f[n]) if n in ('v', 'c', 'lc') else znum(p.f[n]) if n in ('td', 'nt') else zbool(p.f[n]) for n in FIELDS]; x = X(ex); y = ex.fresh('pw', 'real'); I = z3.Implies
    ex.assume(z3.And(td >= 0, nt >= 0, I(k, z3.And(v == c, lc == c, td == 0)), I(z3.Not(k), z3.And(td >= 1, lc != 0, nt >= 1)), I(nt == 0, k), (nt == 0) == z3.And(k, c == 0)))
    ex.assume_nl(I(z3.And(z3.Not(k), td == 1, u), v == lc * x + c)); ex.assume(I(z3.And(z3.Not(k), td == 1, u, nt == 1), c == 0))
    # one term in one variable of degree at least two
    ex.assume_nl(I(z3.And(nt == 1, u, td >= 2), z3.And(v == lc * y, c == 0, (y == 0) == (x == 0), I(ev, y >= 0), I(z3.Not(ev), (y > 0) == (x > 0)))))
    if ex.ghost['integer']: n, m = ex.fresh('vi', 'int'), ex.fresh('ci', 'int'); ex.assume(I(ii, z3.And(v == z3.ToReal(n), c == z3.ToReal(m)))); ex.ghost.setdefault('cis', []).append(m)
def val(p): return zreal(p.f['v'])
# ------------------------------------------------------------------ polynomial operations
def number(ex, n, *more):
    n = zreal(n); return pol(ex, 'num', v=n, c=n, lc=n, k=True, td=0, nt=z3.If(n == 0, Iv(0), Iv(1)), int=z3.IsInt(n), u=False)
def variable(ex): return pol(ex, 'var', v=X(ex), c=Rv(0), lc=Rv(1), k=False, td=1, nt=1, u=True, int=True)
def isvar(ex, a): a = rd(ex, a); return isinstance(a, Rec) and a.q == 'carl::Variable'
def isnum(a): return isinstance(a, (int, Fraction)) or (z3.is_expr(a) and (z3.is_int(a) or z3.is_real(a)))
def k_ctor(ex, f, this, args, node):
    a = rd(ex, args[0]) if args else Rv(0)
    if isP(a): r = a
    elif isvar(ex, a): r = variable(ex)
    elif isnum(a) and not isinstance(a, bool): r = number(ex, a)
    else: return NotImplemented
    if isinstance(this, Loc): ex.write(this, r); return None
    return r
def k_assign(ex, f, this, args, node): ex.write(this, rd(ex, args[0])); return this
def neg_(ex, p): return pol(ex, 'neg', **{**p.f, 'v': -val(p), 'c': -zreal(p.f['c']), 'lc': -zreal(p.f['lc'])})
def addn(ex, p, n):
    n = zreal(n); c = zreal(p.f['c']) + n; k = zbool(p.f['k']); lc = z3.If(k, c, zreal(p.f['lc'])); ii = ex.fresh('int', 'bool'); ex.assume(z3.Implies(z3.And(zbool(p.f['int']), z3.IsInt(n)), ii))
    q = {n_: p.f[n_] for n_ in ('k', 'td', 'u', 'even')}; nt = ex.fresh('nt', 'int'); ex.assume(z3.Implies(n == 0, nt == znum(p.f['nt']))); ex.assume(z3.Implies(z3.And(z3.Not(k), c == 0, zreal(p.f['c']) != 0), nt == znum(p.f['nt']) - 1)); ex.assume(z3.Implies(z3.And(z3.Not(k), c != 0), nt >= 2)); return pol(ex, 'add', v=val(p) + n, c=c, lc=lc, nt=nt, int=ii, **q)
def muln(ex, p, g):
    g = zreal(g); ex.prove('the factor is not zero', g != 0, kind='pre'); v, c, lc = ex.fresh('v', 'real'), ex.fresh('c', 'real'), ex.fresh('lc', 'real'); ex.assume_nl(z3.And(v == val(p) * g, c == zreal(p.f['c']) * g, lc == zreal(p.f['lc']) * g))
    ii = ex.fresh('int', 'bool'); w = ex.ghost.get('cop')
    if w is not None: ex.assume(z3.Implies(z3.And(g == w[0], val(p) == w[1], zreal(p.f['c']) == 0, w[2]), ii))
    return pol(ex, 'mul', v=v, c=c, lc=lc, int=ii, **{n_: p.f[n_] for n_ in ('k', 'td', 'u', 'nt', 'even')})
def mulp(ex, p, q):
    k1, k2 = z3.simplify(zbool(p.f['k'])), z3.simplify(zbool(q.f['k']))
    if z3.is_true(k1): return muln(ex, q, p.f['c'])
    if z3.is_true(k2): return muln(ex, p, q.f['c'])
    v, lc = ex.fresh('v', 'real'), ex.fresh('lc', 'real'); ex.assume_nl(z3.And(v == val(p) * val(q), lc == zreal(p.f['lc']) * zreal(q.f['lc']))); return pol(ex, 'prod', v=v, lc=lc, td=znum(p.f['td']) + znum(q.f['td']), k=z3.And(k1, k2))
def k_sum(sign, assign):
    def h(ex, f, this, args, node):
        ops = ([this] if this is not None else []) + list(args); a = rd(ex, ops[0])
        if len(ops) == 1: return neg_(ex, a) if isP(a) and sign < 0 else NotImplemented
        b = rd(ex, ops[1])
        if not isP(a) or not isnum(b): return NotImplemented
        r = addn(ex, a, sign * zreal(b))
        if assign: ex.write(ops[0], r); return ops[0]
        return r
    return h
def k_mul(ex, f, this, args, node):
    ops = ([this] if this is not None else []) + list(args)
    a, b = rd(ex, ops[0]), rd(ex, ops[1])
    if isP(a) and isP(b): return mulp(ex, a, b)
    if isP(a) and isnum(b): return muln(ex, a, b)
    if isP(b) and isnum(a): return muln(ex, b, a)
    return NotImplemented
def get(n): return lambda ex, f, this, args, node: rd(ex, this).f[n] if isP(rd(ex, this)) else NotImplemented
def k_zero(ex, f, this, args, node):
    p = rd(ex, args[0] if args else this)
    if not isP(p): return NotImplemented
    return z3.And(zbool(p.f['k']), zreal(p.f['c']) == 0)
def k_lterm(which):
    def h(ex, f, this, args, node):
        p = rd(ex, this)
        if not isP(p): return NotImplemented
        ex.prove('the polynomial is not zero', znum(p.f['nt']) > 0, kind='pre'); c = zreal(p.f['lc'])
        if which == 'trailing': d = ex.fresh('tc', 'real'); ex.assume(z3.And(z3.Implies(znum(p.f['nt']) == 1, d == c), d != 0)); c = d
        return ex.alloc(Rec('carl::Term', {'mCoeff': c, 'mMonomial': NULL}), 'term')
    return h
def k_cop(ex, f, this, args, node):
    """coprimeCoefficients: the polynomial times a nonzero constant, coefficients integral (C31)"""
    p = rd(ex, this); g = ex.fresh('cf', 'real'); v, c, lc = ex.fresh('v', 'real'), ex.fresh('c', 'real'), ex.fresh('lc', 'real'); ex.assume(g != 0); ex.assume_nl(z3.And(v == val(p) * g, c == zreal(p.f['c']) * g, lc == zreal(p.f['lc']) * g))
    a, b = val(p), zreal(p.f['lc'])
    for t, s in ((v, a), (c, zreal(p.f['c'])), (lc, b)): ex.assume(z3.And((t == 0) == (s == 0), (t > 0) == z3.Or(z3.And(s > 0, g > 0), z3.And(s < 0, g < 0))))
    return pol(ex, 'cop', v=v, c=c, lc=lc, int=True, **{n: p.f[n] for n in ('k', 'td', 'u', 'nt', 'even')})
def k_cfw(ex, f, this, args, node):
    """coprimeFactorWithoutConstant of a polynomial with integral coefficients: 1/n up to sign, the other terms are divisible by n (C31)"""
    p = rd(ex, this); ex.prove('the polynomial is not constant and has integral coefficients', z3.And(z3.Not(zbool(p.f['k'])), zbool(p.f['int'])), kind='pre')
    g = ex.fresh('g', 'real'); n, m = ex.fresh('n', 'int'), ex.fresh('m', 'int'); s = ex.fresh('s', 'bool'); ex.assume(z3.And(n >= 1, g > 0)); ex.assume_nl(g * z3.ToReal(n) == 1); w = val(p) - zreal(p.f['c'])
    ex.assume_nl(w == z3.ToReal(n) * z3.ToReal(m)); ex.assume_nl(w * g == z3.ToReal(m)); ex.ghost['cop'] = (g, w, zbool(p.f['int'])); ex.ghost['gn'] = (g, n, m); ex.ghost.setdefault('ints', []).append(-m); return z3.If(s, g, -g)
def k_abs(ex, f, this, args, node):
    x = ex.val(args[0]); g = ex.ghost.get('gn')
    if g is None: return NotImplemented
    x = zreal(x); ex.prove('sign of the factor', z3.Or(x == g[0], x == -g[0])); return g[0]
def k_num(ex, f, this, args, node):
    x = zreal(ex.val(args[0])); i = ex.fresh('num', 'int'); [ex.assume(z3.Implies(x == z3.ToReal(c), i == c)) for c in ex.ghost.get('cis', [])]; return i
def k_den(ex, f, this, args, node):
    x = zreal(ex.val(args[0])); g = ex.ghost.get('gn'); d = ex.fresh('den', 'int'); ex.assume(d >= 1)
    if g is not None: ex.assume(z3.Implies(x == g[0], d == g[1]))
    return d
def k_mod(ex, f, this, args, node):
    a, b = znum(ex.val(args[0])), znum(ex.val(args[1])); r, q = ex.fresh('mod', 'int'), ex.fresh('quo', 'int'); ex.assume(z3.And(r >= 0, r < b)); ex.assume_nl(a == q * b + r); g, n, m = ex.ghost['gn']
    # a is a multiple of b iff the remainder is zero: at the multiple the point gives
    ex.assume_nl(z3.Implies(a == -m * b, r == 0)); ex.assume_nl(z3.ToReal(a) * g == z3.ToReal(q) + z3.ToReal(r) * g); ex.assume_nl(z3.Implies(z3.And(r > 0, r < n), z3.And(z3.ToReal(r) * g > 0, z3.ToReal(r) * g < 1))); ex.ghost['ints'] = ex.ghost['ints'] + [q, q + 1]
    t = m + q; nt = ex.fresh('nt', 'int'); ex.assume_nl(z3.And(nt == n * t, n * m + q * n == n * t, z3.Implies(t <= -1, nt <= -n), z3.Implies(t >= 0, nt >= 0))); ex.assume_nl(z3.ToReal(n) * z3.ToReal(m) == z3.ToReal(n * m))
    v = ex.ghost['V']; ex.assume_nl(z3.Implies(z3.And(v == ex.ghost['cop'][1] + z3.ToReal(a), b == n), v == z3.ToReal(nt) + z3.ToReal(r))); return r
def k_vtype(ex, f, this, args, node): return ex.ghost['VT_INT'] if ex.ghost['integer'] else ex.ghost['VT_REAL']
def k_single(ex, f, this, args, node): p = rd(ex, this); ex.prove('the polynomial has one variable', zbool(p.f['u']), kind='pre'); return Rec('carl::Variable', {'mContent': ex.ghost['xid']})
def k_linear(ex, f, this, args, node):
    p = rd(ex, args[0] if args else this)
    if not isP(p): return NotImplemented
    return znum(p.f['td']) <= 1
def VARS(ex, p):
    n = ex.fresh('nv', 'int'); ex.assume(z3.And(n >= 0, (n == 0) == zbool(p.f['k']), (n == 1) == z3.And(zbool(p.f['u']), z3.Not(zbool(p.f['k']))))); return Rec('VARS', {'n': n})
def k_variables(ex, f, this, args, node):
    p = rd(ex, args[0])
    if not isP(p): return NotImplemented
    r = VARS(ex, p)
    if len(args) > 1: ex.write(args[1], r); return None
    return r
def k_clear(ex, f, this, args, node): ex.write(this, Rec('VARS', {'n': Iv(0)})); return None
def k_kind(kind):
    def h(ex, f, this, args, node):
        n = znum(rd(ex, this).f['n']); m = ex.fresh('m', 'int')
        if ex.ghost['integer']: ex.assume(m == (n if kind == 'int' else 0))
        else: ex.assume(z3.And(m >= 0, z3.Implies(n == 0, m == 0)) if kind == 'int' else z3.And(m >= 0, z3.Implies(n > 0, m > 0)))
        return Rec('VARS', {'n': m})
    return h
def k_vec(ex, f, this, args, node): return ex.alloc(Rec('VARVEC', {}), 'vars')
def k_defin(ex, f, this, args, node):
    """definiteness (units d_term, d_poly)"""
    p = rd(ex, args[0])
    if not isP(p): return NotImplemented
    return defin(ex, p)
def defin(ex, p, d=None):
    if d is None: d = ex.fresh('def', 'int')
    v = val(p); lc = zreal(p.f['lc']); ev = zbool(p.f['even']); ex.assume(z3.And(d >= 0, d <= 4, z3.Implies(d == NEG, v < 0), z3.Implies(d == NEGS, v <= 0), z3.Implies(d == POSS, v >= 0), z3.Implies(d == POS, v > 0)))
    ex.assume(z3.Implies(z3.And(znum(p.f['nt']) == 1, zbool(p.f['u']), znum(p.f['td']) >= 2), d == z3.If(ev, z3.If(lc < 0, Iv(NEGS), Iv(POSS)), Iv(NON)))); ex.assume(z3.Implies(znum(p.f['td']) <= 1, d == NON)); return d
PC = {f'{MP}::MultivariatePolynomial': k_ctor, f'{MP}::operator=': k_assign, f'{MP}::operator-': k_sum(-1, False), 'carl::operator-': k_sum(-1, False), 'carl::operator+': k_sum(1, False), 'carl::operator*': k_mul, f'{MP}::operator+=': k_sum(1, True), f'{MP}::operator-=': k_sum(-1, True),
      f'{MP}::isConstant': get('k'), f'{MP}::constantPart': get('c'), f'{MP}::lcoeff': get('lc'), f'{MP}::totalDegree': get('td'), f'{MP}::nrTerms': get('nt'), f'{MP}::isUnivariate': get('u'), f'{MP}::lterm': k_lterm('lead'), f'{MP}::trailingTerm': k_lterm('trailing'), f'{MP}::isLinear': k_linear, 'carl::is_linear': k_linear,
      'carl::isZero': k_zero, f'{MP}::coprimeCoefficients': k_cop, f'{MP}::coprimeFactorWithoutConstant': k_cfw, 'carl::abs': k_abs, 'carl::getNum': k_num, 'carl::getDenom': k_den, 'carl::mod': k_mod, 'carl::Variable::type': k_vtype, f'{MP}::getSingleVariable': k_single,
      'carl::makePolynomial': lambda ex, f, this, args, node: variable(ex), 'carl::variables': k_variables, 'carl::carlVariables::clear': k_clear, 'carl::carlVariables::integer': k_kind('int'), 'carl::carlVariables::real': k_kind('real'), 'carl::carlVariables::size': lambda ex, f, this, args, node: rd(ex, this).f['n'],
      'carl::carlVariables::as_vector': k_vec, 'carl::definiteness': k_defin, **KFC}
def k_vempty(ex, f, this, args, node):
    a = rd(ex, this); return znum(a.f['n']) == 0 if isinstance(a, Rec) and a.q == 'VARS' else NotImplemented
def k_vat(ex, f, this, args, node):
    a = rd(ex, this); return ex.alloc(Rec('carl::Variable', {'mContent': ex.ghost['xid']}), 'x') if isinstance(a, Rec) and a.q == 'VARVEC' else NotImplemented
PC.update({'std::vector::empty': k_vempty, 'carl::carlVariables::empty': k_vempty, 'std::vector::operator[]': k_vat})
def point(ex, integer):
    x = ex.fresh('x', 'real'); i = ex.fresh('xi', 'int'); ex.ghost.update(x=x, integer=integer, xid=ex.fresh('xid', 'int'), VT_INT=VT['INT'], VT_REAL=VT['REAL'], ints=[i] if integer else [])
    if integer: ex.assume(x == z3.ToReal(i))
VT = {'BOOL': 0, 'REAL': 1, 'INT': 2}
def unit(name, op=None, contracts=None, both=True, **kw):
    def deco(fn):
        for integer in ((False, True) if both else (False,)):
            def run(ex, integer=integer): point(ex, integer); fn(ex)
            UNITS.append(U('C24', name + (f'[{"integer" if integer else "real"}]' if both else ''), run, op, svec=True, merge=False, qf_branch=True, contracts={**PC, **(contracts or {})}, **{'describe': lambda ex, m: [], **kw}))
        return fn
    return deco
RC = 'carl::RawConstraint'
def raw(ex, p, rel, d=None, vs=None): return Rec(RC, {'mRelation': rel, 'mLhs': p, 'mVariables': vs or Rec('VARS', {'n': ex.fresh('nv', 'int')}), 'mLhsDefiniteness': ex.fresh('d', 'int') if d is None else d})
def INT(ex, p):
    """constraints over integer variables have integral coefficients"""
    return z3.Or(zbool(p.f['k']), zbool(p.f['int'])) if ex.ghost['integer'] else z3.BoolVal(True)
def RCI(ex, name='c'):
    """a constraint after initialize()"""
    p = pol(ex, name); r = REL(ex); ex.assume(z3.Or(*[r == k for k in (EQ, NEQ, LESS, LEQ)])); ex.assume(INT(ex, p)); return ex.alloc(raw(ex, p, r, defin(ex, p), VARS(ex, p)), name), p, r
def keeps(ex, c, want, init=True):
    c = rd(ex, c); p = rd(ex, c.f['mLhs']); r = znum(c.f['mRelation']); ex.prove('the points that satisfy the constraint are kept', holds(val(p), r) == want); ex.prove('the relation is normalised', z3.Or(*[r == k for k in (EQ, NEQ, LESS, LEQ)])); ex.prove('constraints over integers have integral coefficients', INT(ex, p))
# ------------------------------------------------------------------ relations
@unit('relations', 'c24.relation', both=False)
def _(ex):
    r = REL(ex); q = ex.fresh('q', 'real'); h = holds(q, r); inv, tu = znum(R(ex, 'l_inverse', r)), znum(R(ex, 'l_turn', r)); ex.prove('the inverse relation holds for exactly the other numbers', holds(q, inv) == z3.Not(h)); ex.prove('the relation turned around holds for the negated number', holds(-q, tu) == h)
    ex.prove('weak relations hold for zero', zbool(R(ex, 'l_weak', r)) == holds(Rv(0), r)); ex.prove('strict relations do not hold for zero', zbool(R(ex, 'l_strict', r)) == z3.Not(holds(Rv(0), r)))
@unit('evaluate', 'c24.relation', both=False)
def _(ex):
    r = inp(ex, 'int', REL(ex)); q, p = inp(ex, 'Q', ex.fresh('q', 'real')), ex.fresh('p', 'real'); ex.prove('evaluation of a number', zbool(R(ex, 'l_eval', ex.alloc(q, 'q'), r)) == holds(q, r)); ex.prove('comparison of two numbers', zbool(R(ex, 'l_eval2', ex.alloc(q, 'q'), r, ex.alloc(p, 'p'))) == holds(q - p, r))
@unit('simple', 'c24.simple', both=False)
def _(ex):
    p = pol(ex, 'p'); r = REL(ex); c = ex.alloc(Rec('carl::SimpleConstraint', {'mLhs': p, 'mRelation': r}), 'c'); ex.prove('trivially true constraints hold everywhere', z3.Implies(zbool(R(ex, 's_true', c)), holds(val(p), r))); ex.prove('trivially false constraints hold nowhere', z3.Implies(zbool(R(ex, 's_false', c)), z3.Not(holds(val(p), r))))
# ------------------------------------------------------------------ setting up
@unit('r_trivial', 'c24.create')
def _(ex):
    b = ex.fresh('b', 'bool'); c = R(ex, 'r_trivial', b); keeps(ex, c, b)
@unit('r_set_bound', 'c24.bound')
def _(ex):
    r = REL(ex); q = ex.fresh('q', 'real'); c = ex.alloc(raw(ex, pol(ex, 'old'), REL(ex)), 'c')
    if ex.ghost['integer']:
        if ex.choose(2, 'whole') == 0: q = z3.ToReal(ex.fresh('qi', 'int'))
        else: ex.assume(z3.Not(z3.IsInt(q))); ex.assume(q != z3.ToReal(ex.ghost['ints'][0]))
    R(ex, 'r_set_bound', c, Rec('carl::Variable', {'mContent': ex.ghost['xid']}), r, ex.alloc(q, 'q')); keeps(ex, c, holds(X(ex) - q, r))
def k_bound(ex, f, this, args, node):
    """set_bound (unit r_set_bound)"""
    r = znum(ex.val(args[1])); q = zreal(ex.val(args[2])); set_(ex, this, holds(X(ex) - q, r)); return None
def set_(ex, this, want):
    p = pol(ex, 'n'); r = REL(ex); c = rd(ex, this); ex.assume(z3.And(holds(val(p), r) == want, z3.Or(*[r == k for k in (EQ, NEQ, LESS, LEQ)]), INT(ex, p))); ex.write(this, Rec(RC, {**c.f, 'mLhs': p, 'mRelation': r, 'mLhsDefiniteness': ex.fresh('d', 'int'), 'mVariables': Rec('VARS', {'n': ex.fresh('nv', 'int')})}))
def k_set(ex, f, this, args, node):
    """set_constraint (unit r_set_constraint)"""
    p = rd(ex, args[0]); set_(ex, this, holds(val(p), ex.val(args[1]))); return None
BOUND = {f'{RC}::set_bound': k_bound}; SET = {f'{RC}::set_constraint': k_set}
@unit('r_set_constraint', 'c24.create', contracts=BOUND)
def _(ex):
    p = pol(ex, 'p'); r = REL(ex); c = ex.alloc(raw(ex, pol(ex, 'old'), REL(ex)), 'c'); q = -zreal(p.f['c']) / zreal(p.f['lc']); lc = zreal(p.f['lc']); b = ex.fresh('b', 'real'); ex.assume_nl(z3.Implies(lc != 0, z3.And(b * lc == -zreal(p.f['c']), b == q, lc * X(ex) + zreal(p.f['c']) == lc * (X(ex) - b)))); y = X(ex) - b
    ex.assume_nl(z3.And(z3.Implies(lc > 0, z3.And((lc * y > 0) == (y > 0), (lc * y == 0) == (y == 0))), z3.Implies(lc < 0, z3.And((lc * y > 0) == (y < 0), (lc * y == 0) == (y == 0)))))
    R(ex, 'r_set_constraint', c, ex.alloc(p, 'p'), r); keeps(ex, c, holds(val(p), r))
@unit('r_initialize', 'c24.create')
def _(ex):
    p = pol(ex, 'p'); r = REL(ex); ex.assume(z3.And(z3.Or(*[r == k for k in (EQ, NEQ, LESS, LEQ)]), INT(ex, p))); c = ex.alloc(raw(ex, p, r), 'c'); R(ex, 'r_initialize', c); keeps(ex, c, holds(val(p), r)); initialised(ex, c)
def initialised(ex, c):
    c = rd(ex, c); p = c.f['mLhs']; v, d = val(p), znum(c.f['mLhsDefiniteness']); ex.prove('the recorded definiteness is right', z3.And(z3.Implies(d == NEG, v < 0), z3.Implies(d == NEGS, v <= 0), z3.Implies(d == POSS, v >= 0), z3.Implies(d == POS, v > 0)))
@unit('r_create', 'c24.create', contracts=SET)
def _(ex):
    p = pol(ex, 'p'); r = REL(ex); c = R(ex, 'r_create', ex.alloc(p, 'p'), r); keeps(ex, c, holds(val(p), r)); initialised(ex, c)
@unit('r_bound', 'c24.bound', contracts=BOUND)
def _(ex):
    q = ex.fresh('q', 'real'); r = REL(ex); c = R(ex, 'r_bound', Rec('carl::Variable', {'mContent': ex.ghost['xid']}), r, ex.alloc(q, 'q')); keeps(ex, c, holds(X(ex) - q, r)); initialised(ex, c)
@unit('r_consistent', 'c24.create')
def _(ex):
    c, p, r = RCI(ex); k = znum(R(ex, 'r_consistent', c)); ex.prove('the verdict true means that every point satisfies the constraint', z3.Implies(k == 1, holds(val(p), r))); ex.prove('the verdict false means that no point satisfies it', z3.Implies(k == 0, z3.Not(holds(val(p), r)))); ex.prove('there is a verdict', z3.And(k >= 0, k <= 2))
# ------------------------------------------------------------------ simplification
@unit('r_monomial', 'c24.create', contracts=SET)
def _(ex):
    c, p, r = RCI(ex); y = ex.fresh('y', 'real'); ex.assume_nl(z3.And(X(ex) * X(ex) >= 0, (X(ex) * X(ex) == 0) == (X(ex) == 0))); R(ex, 'r_monomial', c); keeps(ex, c, holds(val(p), r))
@unit('r_integer', 'c24.create', contracts=SET)
def _(ex):
    c, p, r = RCI(ex); ex.ghost['V'] = val(p); R(ex, 'r_integer', c); keeps(ex, c, holds(val(p), r))
def k_simp(ex, f, this, args, node):
    b = ex.fresh('changed', 'bool'); c = rd(ex, this); ex.prove('constraints over integers have integral coefficients', INT(ex, c.f['mLhs']), kind='pre')
    if ex.branch(b): set_(ex, this, holds(val(c.f['mLhs']), c.f['mRelation'])); return True
    return False
@unit('r_simplify', 'c24.create', contracts={f'{RC}::simplify_nonlinear_univariate_monomial': k_simp, f'{RC}::simplify_integer': k_simp})
def _(ex):
    c, p, r = RCI(ex); R(ex, 'r_simplify', c); keeps(ex, c, holds(val(p), r)); initialised(ex, c)
def k_cons(ex, f, this, args, node):
    """creation of a constraint (units r_create, r_simplify; the pool returns an equal constraint)"""
    if len(args) != 2: return NotImplemented
    p = rd(ex, args[0])
    if not isP(p): return NotImplemented
    q = pol(ex, 'n'); r = REL(ex); ex.assume(holds(val(q), r) == holds(val(p), ex.val(args[1]))); o = Rec('carl::Constraint', {'mpContent': ex.alloc(Rec('carl::ConstraintContent', {'mLhs': q, 'mRelation': r}), 'cc')})
    if isinstance(this, Loc): ex.write(this, o); return None
    return o
@unit('c_negation', 'c24.negation', contracts={'carl::Constraint::Constraint': k_cons})
def _(ex):
    p = pol(ex, 'p'); r = REL(ex); c = ex.alloc(Rec('carl::Constraint', {'mpContent': ex.alloc(Rec('carl::ConstraintContent', {'mLhs': p, 'mRelation': r}), 'cc')}), 'c')
    n = rd(ex, rd(ex, R(ex, 'c_negation', c)).f['mpContent']); ex.prove('the negation holds at exactly the other points', holds(val(n.f['mLhs']), n.f['mRelation']) == z3.Not(holds(val(p), r)))
# ------------------------------------------------------------------ definiteness
W, VM, code = MPO.W, MPO.VM, MPO.code
SQ = z3.Function('SQ', z3.RealSort(), z3.BoolSort())
def k_square(ex, f, this, args, node):
    """Monomial::isSquare (C08): a square has no negative value; x^e is a square iff e is even"""
    m = rd(ex, this).f['code']; ex.assume(z3.Implies(SQ(m), VM(m) >= 0)); return SQ(m)
def sign(d, v): return z3.And(d >= 0, d <= 4, z3.Implies(d == NEG, v < 0), z3.Implies(d == NEGS, v <= 0), z3.Implies(d == POSS, v >= 0), z3.Implies(d == POS, v > 0))
def tsig(ex, c, m):
    """sign of a term, with the products the solver needs"""
    ex.assume_nl(z3.And(z3.Implies(z3.And(c > 0, VM(m) >= 0), c * VM(m) >= 0), z3.Implies(z3.And(c < 0, VM(m) >= 0), c * VM(m) <= 0), VM(Rv(0)) == 1))
DEF = {'shapes': MPO.SHAPES, 'scalar_recs': ('std::shared_ptr',)}
DC = {k: h for k, h in PC.items() if not k.startswith('std::vector') and k != 'carl::definiteness'}
DC['carl::Monomial::isSquare'] = k_square
def k_abs2(ex, f, this, args, node): return NotImplemented
DC['carl::abs'] = k_abs2
@unit('d_term', 'c24.definite', contracts=DC, both=False, **DEF)
def _(ex):
    for null in (True, False):
        c, m = ex.fresh('c', 'real'), ex.fresh('m', 'real'); ex.assume(m > 0); tsig(ex, c, m); t = ex.alloc(Rec('carl::Term', {'mCoeff': c, 'mMonomial': NULL if null else ex.alloc(Rec('carl::Monomial', {'code': m}), 'm')}), 't')
        d = znum(R(ex, 'd_term', t)); ex.prove('the definiteness of a term bounds its value', sign(d, c if null else c * VM(m)))
        if not null: ex.prove('the definiteness of a square is known', z3.Implies(z3.And(c != 0, SQ(m)), d == z3.If(c < 0, Iv(NEGS), Iv(POSS)))); ex.prove('of other monomials it is not', z3.Implies(z3.Not(SQ(m)), d == NON))
def k_dt(ex, f, this, args, node):
    """definiteness of a term (unit d_term)"""
    t = rd(ex, args[0])
    if not (isinstance(t, Rec) and t.q == 'carl::Term'): return NotImplemented
    c, m = zreal(t.f['mCoeff']), code(ex, t.f['mMonomial']); tsig(ex, c, m); d = ex.fresh('dt', 'int'); ex.assume_nl(sign(d, c * VM(m))); ex.assume(z3.Implies(m > 0, z3.And(z3.Implies(z3.And(c != 0, SQ(m)), d == z3.If(c < 0, Iv(NEGS), Iv(POSS))), z3.Implies(z3.Not(SQ(m)), d == NON)))); return d
def k_sos(ex, f, this, args, node):
    """sos_decomposition (unit d_sos): if there is one, the value is not negative"""
    p = rd(ex, args[0]); n = ex.fresh('sos', 'int'); ex.assume(z3.And(n >= 0, z3.Implies(n > 0, val(p) >= 0))); return SVec(n, [ex.fresh('sc', z3.ArraySort(z3.IntSort(), z3.RealSort()))], REAL)
def wun(s, *ks):
    v = s.ghost['T']; s.assume_nl(W(v.cols[0], v.cols[1], Iv(0)) == 0)
    for k in ks: s.assume_nl(z3.Implies(k >= 0, W(v.cols[0], v.cols[1], k + 1) == W(v.cols[0], v.cols[1], k) + z3.Select(v.cols[0], k) * VM(z3.Select(v.cols[1], k))))
def Wn(s, k): v = s.ghost['T']; return W(v.cols[0], v.cols[1], znum(k))
def inv_def(up):
    def inv(s, L):
        d, k = znum(L.v('result')), znum(L.k); n = znum(s.ghost['T'].n); rest = Wn(s, n) - Wn(s, n - 1 - k); it = L.v('term'); yield 'the position', z3.And(znum(it.i) == k + 1, k + 1 <= n)
        yield 'the definiteness so far', z3.Or(d == POSS, d == POS) if up else z3.Or(d == NEGS, d == NEG)
        yield 'it bounds the terms visited', sign(d, rest)
    return Loop(inv=inv, begin=lambda s, L: wun(s, znum(s.ghost['T'].n) - 1), havoc=lambda s, L: wun(s, znum(s.ghost['T'].n) - 2 - znum(L.k)))
for full in (False, True):
    @unit(f'd_poly[{"full" if full else "quick"}]', 'c24.definite', contracts={**DC, 'carl::definiteness': k_dt, 'carl::sos_decomposition': k_sos, 'carl::total_degree': lambda ex, f, this, args, node: rd(ex, args[0]).f['td'], f'{MP}::hasConstantTerm': lambda ex, f, this, args, node: zreal(rd(ex, this).f['c']) != 0}, both=False, loops={'definiteness#0': inv_def(True), 'definiteness#1': inv_def(False)}, **DEF)
    def _(ex, full=full):
        v = fresh_svec(ex, 'T', MPO.TSH); p = pol(ex, 'p', nt=v.n, v=W(v.cols[0], v.cols[1], znum(v.n))); p = Rec(MP, {**p.f, 'mTerms': v, 'mOrdered': True}); ex.ghost['T'] = v; n = znum(v.n); wun(ex, n - 1); m = z3.Select(v.cols[1], n - 1)
        j = z3.Int('j!m'); ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(v.cols[0], j) != 0, z3.Select(v.cols[1], j) >= 0)), patterns=[z3.Select(v.cols[0], j)])); ex.assume(z3.Implies(n > 0, z3.And(z3.Select(v.cols[0], n - 1) == p.f['lc'], p.f['lc'] != 0, m >= 0)))
        uni = z3.And(n == 1, p.f['u'], p.f['td'] >= 2); ex.assume(z3.Implies(uni, z3.And(m > 0, p.f['even'] == SQ(m))))
        d = znum(R(ex, 'd_poly', ex.alloc(p, 'p'), full)); ex.prove('the definiteness bounds the value', sign(d, val(p)))
        ex.prove('the definiteness of a power is known', z3.Implies(uni, d == z3.If(p.f['even'], z3.If(p.f['lc'] < 0, Iv(NEGS), Iv(POSS)), Iv(NON)))); ex.prove('linear polynomials are not definite', z3.Implies(p.f['td'] <= 1, d == NON))
# ------------------------------------------------------------------ sums of squares
RSH = TupShape([REAL, RecShape(MP, [('v', REAL)])]); RA = z3.ArraySort(z3.IntSort(), z3.RealSort())
SS = z3.Function('SS', RA, RA, z3.IntSort(), z3.RealSort())          # sum of c[i]*q[i]^2 for i < n
def ssf(s, r, *ks):
    s.assume_nl(SS(r.cols[0], r.cols[1], 0) == 0)
    for k in ks:
        k = znum(k); c, q = z3.Select(r.cols[0], k), z3.Select(r.cols[1], k); s.assume_nl(z3.Implies(k >= 0, SS(r.cols[0], r.cols[1], k + 1) == SS(r.cols[0], r.cols[1], k) + c * q * q)); s.assume_nl(z3.Implies(c > 0, c * q * q >= 0))
def push(s, this, c, q):
    r = rd(s, this); n = znum(r.n); a, b = r.cols; A, B = z3.Store(a, n, c), z3.Store(b, n, q); s.prove('factors of squares are positive', c > 0); s.assume_nl(SS(A, B, n) == SS(a, b, n)); w = SVec(n + 1, [A, B], r.shape); ssf(s, w, n); s.write(this, w)      # SS(.., n) does not depend on entries from n on (lemma_ss)
def k_emplace(ex, f, this, args, node):
    r = rd(ex, this)
    if not isinstance(r, SVec) or len(args) != 2: return NotImplemented
    push(ex, this, zreal(ex.val(args[0])), val(rd(ex, args[1]))); return None
def k_info(ex, f, this, args, node):
    """getVarInfo<true>(x): the coefficients of the powers of x (the polynomial has total degree at most two)"""
    p = rd(ex, this); y = X(ex); on = [ex.choose(2, f'c{d}') == 0 for d in range(3)]; cs = []
    for d in range(3): cs.append(pol(ex, f'c{d}', **({'k': True} if d == 2 else {})) if on[d] else None)
    a, b, c = [val(q) if q is not None else Rv(0) for q in (cs[2], cs[1], cs[0])]; ex.assume_nl(val(p) == a * y * y + b * y + c)
    if on[2]: ex.assume(a != 0)
    ex.ghost['sq'] = (a, b, c, y); return Rec('INFO', {'cs': cs})
class CoIt:
    def __init__(self, p): self.p = p
def k_find(ex, f, this, args, node):
    m = rd(ex, this)
    if not (isinstance(m, Rec) and m.q == 'INFO'): return NotImplemented
    d = ex.val(args[0]); d = d if isinstance(d, int) else int(str(z3.simplify(znum(d)))); q = m.f['cs'][d]; return Rec('COIT', {'end': q is None, 'p': None if q is None else ex.alloc(Rec('std::pair', {'first': d, 'second': q}), 'entry')})
def k_eq(ex, f, this, args, node):
    a, b = [rd(ex, x) for x in (([this] if this is not None else []) + list(args))][:2]
    if not (isinstance(a, Rec) and a.q == 'COIT'): return NotImplemented
    r = a.f['end'] == b.f['end'] and (a.f['end'] or a is b); return (not r) if f['sn'].endswith('!=') else r
def k_end(ex, f, this, args, node):
    m = rd(ex, this); return Rec('COIT', {'end': True, 'p': None}) if isinstance(m, Rec) and m.q == 'INFO' else NotImplemented
def k_arrow(ex, f, this, args, node):
    a = rd(ex, this)
    if not (isinstance(a, Rec) and a.q == 'COIT'): return NotImplemented
    ex.prove('the coefficient exists', z3.BoolVal(not a.f['end']), kind='pre'); return a.f['p']
def k_sumP(sgn):
    def h(ex, f, this, args, node):
        ops = ([this] if this is not None else []) + list(args); a = rd(ex, ops[0])
        if len(ops) == 2 and isP(a) and isP(rd(ex, ops[1])):
            b = rd(ex, ops[1]); r = pol(ex, 'sum', v=val(a) + sgn * val(b))
            if f['sn'].endswith('='): ex.write(ops[0], r); return ops[0]
            return r
        return k_sum(sgn, f['sn'].endswith('='))(ex, f, this, args, node)
    return h
def k_divn(ex, f, this, args, node):
    ops = ([this] if this is not None else []) + list(args); a, b = rd(ex, ops[0]), rd(ex, ops[1])
    if not isP(a): return NotImplemented
    b = zreal(b); ex.prove('the divisor is not zero', b != 0, kind='pre'); v = ex.fresh('quo', 'real'); ex.assume_nl(v * b == val(a)); ex.ghost['qr'] = v; return pol(ex, 'quo', v=v)
def k_pow(ex, f, this, args, node):
    p = rd(ex, args[0]); e = ex.val(args[1])
    if not isP(p) or e != 2: return NotImplemented
    return pol(ex, 'sqr', v=val(p) * val(p))
def k_mulS(ex, f, this, args, node):
    ops = ([this] if this is not None else []) + list(args); a, b = rd(ex, ops[0]), rd(ex, ops[1])
    if isP(a) and isnum(b): return pol(ex, 'mul', v=val(a) * zreal(b))
    return NotImplemented
def k_lt0(ex, f, this, args, node): return ex.alloc(Rec('carl::Term', {'mCoeff': rd(ex, this).f['lc'], 'mMonomial': ex.alloc(Rec('carl::Monomial', {'mExponents': Vec([Tup([Rec('carl::Variable', {'mContent': ex.ghost['xid']}), 1])])}), 'm')}), 't')
SC = {**DC, f'{MP}::getVarInfo': k_info, 'carl::VariableInformation::coeffs': lambda ex, f, this, args, node: rd(ex, this), 'std::map::find': k_find, 'std::map::end': k_end, 'std::operator==': k_eq, 'std::operator!=': k_eq, 'std::_Rb_tree_const_iterator::operator->': k_arrow, 'std::_Rb_tree_iterator::operator->': k_arrow,
      f'{MP}::operator-=': k_sumP(-1), 'carl::operator+': k_sumP(1), 'carl::operator/': k_divn, 'carl::pow': k_pow, 'carl::operator*': k_mulS, f'{MP}::lterm': k_lt0, 'std::vector::emplace_back': k_emplace, 'std::pair::operator=': lambda *a: NotImplemented}
def inv_sos(s, L):
    r, p = rd(s, L.v('result')), rd(s, L.v('rem')); yield 'squares and remainder add up to the polynomial', SS(r.cols[0], r.cols[1], znum(r.n)) + val(p) == s.ghost['P']; yield 'the squares are not negative', z3.And(SS(r.cols[0], r.cols[1], znum(r.n)) >= 0, znum(r.n) >= 0)
def h_sos(s, L):
    s.ghost['x'] = s.fresh('x', 'real'); p = pol(s, 'rem'); s.write(L.loc('rem'), p); r = rd(s, L.v('result')); ssf(s, r)
def e_sos(s, L):
    a, b, c, y = s.ghost['sq']; q = s.ghost.get('qr')
    if q is not None: s.assume_nl(z3.Implies(q * (2 * a) == b, a * (y + q) * (y + q) == a * y * y + b * y + q * q * a))
@unit('d_sos', 'c24.definite', contracts=SC, both=False, loops={'sos_decomposition': Loop(inv=inv_sos, begin=lambda s, L: ssf(s, rd(s, L.v('result'))), havoc=h_sos, end=e_sos)}, shapes={'std::pair': RSH, MP: RecShape(MP, [('v', REAL)])})
def _(ex):
    p = pol(ex, 'p', td=2, k=False); ex.ghost['P'] = val(p); s = R(ex, 'd_sos', ex.alloc(p, 'p')); ex.prove('a polynomial with a decomposition is not negative', z3.Implies(zbool(s), val(p) >= 0))
@unit('lemma_ss', both=False)
def _(ex):
    """the sum of the first n squares does not depend on later entries; it is not negative if the factors are positive"""
    a, b = ex.fresh('a', RA), ex.fresh('b', RA); n, k = ex.fresh('n', 'int'), ex.fresh('k', 'int'); c, q = ex.fresh('c', 'real'), ex.fresh('q', 'real'); A, B = z3.Store(a, n, c), z3.Store(b, n, q); ex.assume(z3.And(0 <= k, k < n))
    ex.assume_nl(z3.And(SS(A, B, k + 1) == SS(A, B, k) + A[k] * B[k] * B[k], SS(a, b, k + 1) == SS(a, b, k) + a[k] * b[k] * b[k], SS(A, B, 0) == 0, SS(a, b, 0) == 0)); ex.prove('base', SS(A, B, 0) == SS(a, b, 0)); ex.assume(SS(A, B, k) == SS(a, b, k)); ex.assume(z3.And(A[k] == a[k], B[k] == b[k])); ex.prove('step', SS(A, B, k + 1) == SS(a, b, k + 1))

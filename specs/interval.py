"""Contracts for carl::Interval over exact rationals (C01, C02, C03).

Class invariant INV (assumed of every argument, proved of every result):
  bounded       : lower <= upper; an empty interval is stored as (0,0) with strict bounds
  half-bounded  : both stored endpoints equal the finite one
  unbounded     : both stored endpoints are 0
Abstraction: mem(i, x) -- the set of points; every contract is stated with it."""
from .common import *
DRIVER = 'interval'; HARNESS = 'interval'
BT = {0: '<', 1: '['}
def fl(i): return i.f['mContent'].f['low'], i.f['mContent'].f['up'], i.f['mLowerBoundType'], i.f['mUpperBoundType']
def mem(iv, x):
    lo, up, a, b = fl(iv)
    return AND(OR(eq(a, INF), AND(eq(a, WK), le(lo, x)), AND(eq(a, ST), lt(lo, x))), OR(eq(b, INF), AND(eq(b, WK), le(x, up)), AND(eq(b, ST), lt(x, up))))
def inv(iv):
    lo, up, a, b = fl(iv)
    return AND(OR(*[eq(a, k) for k in (0, 1, 2)]), OR(*[eq(b, k) for k in (0, 1, 2)]),
               IMP(AND(ne(a, INF), ne(b, INF)), OR(lt(lo, up), AND(eq(lo, up), eq(a, WK), eq(b, WK)), AND(eq(lo, 0), eq(up, 0), eq(a, ST), eq(b, ST)))),
               IMP(OR(eq(a, INF), eq(b, INF)), eq(lo, up)), IMP(AND(eq(a, INF), eq(b, INF)), eq(lo, 0)))
def nonempty(iv):
    lo, up, a, b = fl(iv)
    return OR(eq(a, INF), eq(b, INF), lt(lo, up), AND(eq(lo, up), eq(a, WK), eq(b, WK)))
def mk(ex, name, lt_, ut):
    l = ex.fresh(name + '_l', 'real'); u = ex.fresh(name + '_u', 'real')
    if lt_ == INF and ut == INF: lo = up = Fraction(0)
    elif lt_ == INF: lo = up = u
    elif ut == INF: lo = up = l
    else:
        lo, up = l, u
        if lt_ == WK and ut == WK: ex.assume(l <= u)
        elif lt_ == ST and ut == ST: ex.assume(OR(l < u, AND(l == 0, u == 0)))
        else: ex.assume(l < u)
    return Rec('carl::Interval', {'mContent': Rec('boost::numeric::interval', {'low': lo, 'up': up}), 'mLowerBoundType': lt_, 'mUpperBoundType': ut})
def anyiv(ex, name):
    """fresh interval satisfying INV with symbolic bound types (result of a contracted callee)"""
    lo = ex.fresh(name + '_l', 'real'); up = ex.fresh(name + '_u', 'real'); a = ex.fresh(name + '_lt', 'int'); b = ex.fresh(name + '_ut', 'int')
    r = Rec('carl::Interval', {'mContent': Rec('boost::numeric::interval', {'low': lo, 'up': up}), 'mLowerBoundType': a, 'mUpperBoundType': b})
    ex.assume(inv(r)); return r
def pI(m, v):
    lo, up, a, b = fl(v); a = mval(m, a); b = mval(m, b)
    return ('(-inf' if a == INF else ('[' if a == WK else '(') + qstr(mval(m, lo))) + ',' + ('inf)' if b == INF else qstr(mval(m, up)) + (']' if b == WK else ')'))
PRINT['I'] = pI
CS = list(itertools.product((0, 1, 2), repeat=2))
TN = {0: 'o', 1: 'c', 2: 'i'}
def tn(c): return TN[c[0]] + TN[c[1]]
UNITS = []
def unit1(prop, root, body, op, **kw):
    for c in CS:
        def run(ex, c=c):
            a = inp(ex, 'I', mk(ex, 'a', *c)); body(ex, a)
        UNITS.append(U(prop, f'interval.{root}[{tn(c)}]', run, op, **kw))
def unit2(prop, root, body, op, cs=None, **kw):
    for c1 in CS:
        for c2 in CS:
            if cs and not cs(c1, c2): continue
            def run(ex, c1=c1, c2=c2):
                a = inp(ex, 'I', mk(ex, 'a', *c1)); b = inp(ex, 'I', mk(ex, 'b', *c2)); body(ex, a, b)
            UNITS.append(U(prop, f'interval.{root}[{tn(c1)},{tn(c2)}]', run, op, **kw))
def Q(ex, n): return inp(ex, 'Q', ex.fresh(n, 'real'))
def R(ex, root, *args): return ex.call_root(root, list(args))
def L(ex, v): return ex.alloc(v)

# ------------------------------------------------------------------ C01 constructors establish INV and denote the bounds given
def ctor(ex, c, root, boost):
    l = Q(ex, 'l'); u = Q(ex, 'u'); x = Q(ex, 'x')
    if boost: ex.assume(le(l, u)); r = R(ex, root, L(ex, l), L(ex, u), c[0], c[1])
    else: r = R(ex, root, L(ex, l), c[0], L(ex, u), c[1])
    ex.prove('constructor establishes the class invariant', inv(r))
    want = AND(True if c[0] == INF else (lt(l, x) if c[0] == ST else le(l, x)), True if c[1] == INF else (lt(x, u) if c[1] == ST else le(x, u)))
    ex.prove('constructed interval has exactly the points between the given bounds', IFF(mem(r, x), want))
for c in CS:
    UNITS.append(U('C02', f'interval.ctor[{tn(c)}]', lambda ex, c=c: (ex.witness.update(args=[('str', str(c[0])), ('str', str(c[1]))]), ctor(ex, c, 'ctor4', False)), 'c02.ctor'))
    UNITS.append(U('C02', f'interval.ctorB[{tn(c)}]', lambda ex, c=c: (ex.witness.update(args=[('str', str(c[0])), ('str', str(c[1]))]), ctor(ex, c, 'ctorB', True)), 'c02.ctor'))
def ctor_small(ex):
    l = Q(ex, 'l'); u = Q(ex, 'u'); x = Q(ex, 'x')
    r = R(ex, 'ctor2', L(ex, l), L(ex, u))
    ex.prove('closed constructor: invariant', inv(r)); ex.prove('closed constructor: points', IFF(mem(r, x), AND(le(l, x), le(x, u))))
    r = R(ex, 'ctor1', L(ex, l)); ex.prove('point constructor', AND(inv(r), IFF(mem(r, x), eq(x, l))))
    r = R(ex, 'c_unbounded'); ex.prove('unbounded interval contains every point', AND(inv(r), mem(r, x)))
    r = R(ex, 'c_empty'); ex.prove('empty interval contains no point', AND(inv(r), NOT(mem(r, x))))
    r = R(ex, 'c_default'); ex.prove('default interval is empty', AND(inv(r), NOT(mem(r, x))))
    r = R(ex, 'c_zero'); ex.prove('zero interval', AND(inv(r), IFF(mem(r, x), eq(x, 0))))
UNITS.append(U('C02', 'interval.ctor.small', ctor_small, 'c02.ctor_small'))

# ------------------------------------------------------------------ C01 arithmetic
def attained_add(ex, r, a, b):
    """finite bounds are sums of the operands' bounds, attained exactly if closed"""
    rl, ru, rlt, rut = fl(r); al, au, alt, aut = fl(a); bl, bu, blt, but = fl(b)
    ne_ = AND(nonempty(a), nonempty(b))
    ex.prove('finite lower bound is the infimum, closed iff attained', IMP(AND(ne_, ne(rlt, INF)), AND(ne(alt, INF), ne(blt, INF), eq(rl, add(al, bl)), IFF(eq(rlt, WK), AND(eq(alt, WK), eq(blt, WK))))))
    ex.prove('finite upper bound is the supremum, closed iff attained', IMP(AND(ne_, ne(rut, INF)), AND(ne(aut, INF), ne(but, INF), eq(ru, add(au, bu)), IFF(eq(rut, WK), AND(eq(aut, WK), eq(but, WK))))))
def negI(a):
    l, u, lt_, ut = fl(a)
    return Rec(a.q, {'mContent': Rec('boost::numeric::interval', {'low': neg(u), 'up': neg(l)}), 'mLowerBoundType': ut, 'mUpperBoundType': lt_})
def empties(ex, r, a, b):
    ex.prove('empty operand gives the empty result', IMP(OR(NOT(nonempty(a)), NOT(nonempty(b))), NOT(nonempty(r))))
def b_add(root, assign=False, minus=False):
    def body(ex, a, b):
        x = Q(ex, 'x'); y = Q(ex, 'y'); ex.assume
        la = L(ex, a); lb = L(ex, b)
        r = R(ex, root, la, lb)
        if assign: r = ex.read(la)
        ex.prove('result is well-formed', inv(r))
        empties(ex, r, a, b)
        attained_add(ex, r, a, negI(b) if minus else b)
        ex.assume(mem(a, x)); ex.assume(mem(b, y))
        ex.prove('encloses all results', mem(r, sub(x, y) if minus else add(x, y)))
    return body
unit2('C01', 'add', b_add('add'), 'c01.add'); unit2('C01', 'sub', b_add('sub', minus=True), 'c01.sub')
unit2('C01', 'add_assign', b_add('add_assign', True), 'c01.add'); unit2('C01', 'sub_assign', b_add('sub_assign', True, True), 'c01.sub')
def b_num(root, fn, assign=False, nz=False, attained=True):
    def body(ex, a):
        n = Q(ex, 'n'); x = Q(ex, 'x')
        if nz: ex.assume(ne(n, 0))
        la = L(ex, a)
        r = R(ex, root, la, L(ex, n))
        if assign: r = ex.read(la)
        ex.prove('result is well-formed', inv(r))
        ex.prove('empty operand gives the empty result', IMP(NOT(nonempty(a)), NOT(nonempty(r))))
        ex.assume(mem(a, x))
        ex.prove('encloses all results', mem(r, fn(x, n)))
        # nothing else: a point of the result has a preimage
        z = ex.fresh('z', 'real')
        if attained == 'add': ex.prove('contains nothing else', IMP(mem(r, z), mem(a, attained_inv(root)(z, n))))
        elif attained == 'mul': ex.prove('contains nothing else', IMP(AND(mem(r, z), ne(n, 0)), mem(a, rdiv(z, n))))
        elif attained == 'div': ex.prove('contains nothing else', IMP(mem(r, z), mem(a, mul(z, n))))
    return body
def attained_inv(root):
    return {'addn': sub, 'naddi': sub, 'add_assignn': sub, 'subn': add, 'sub_assignn': add, 'nsubi': lambda z, n: sub(n, z)}[root]
for root, fn, asg, at, nz in (('addn', add, False, 'add', False), ('naddi', add, False, 'add', False), ('add_assignn', add, True, 'add', False),
        ('subn', sub, False, 'add', False), ('sub_assignn', sub, True, 'add', False), ('nsubi', lambda x, n: sub(n, x), False, 'add', False),
        ('muln', mul, False, 'mul', False), ('nmuli', mul, False, 'mul', False), ('mul_assignn', mul, True, 'mul', False),
        ('divn', rdiv, False, 'div', True), ('div_assignn', rdiv, True, 'div', True)):
    unit1('C01', root, b_num(root, fn, asg, nz, at), 'c01.' + root)
def b_neg(ex, a):
    x = Q(ex, 'x'); r = R(ex, 'neg', L(ex, a))
    ex.prove('result is well-formed', inv(r)); ex.prove('negation is exact', IFF(mem(a, x), mem(r, neg(x))))
unit1('C01', 'neg', b_neg, 'c01.neg')
def corners(a, b, fn):
    """pairs of closure points at which an extremum of a product can be attained, with membership"""
    out = []
    al, au, alt, aut = fl(a); bl, bu, blt, but = fl(b)
    for x, xt in ((al, alt), (au, aut)):
        for y, yt in ((bl, blt), (bu, but)):
            if xt == INF or yt == INF: continue
            out.append((fn(x, y), AND(mem(a, x), mem(b, y))))
    return out
def b_mul(root, assign=False):
    def body(ex, a, b):
        x = Q(ex, 'x'); y = Q(ex, 'y'); la = L(ex, a)
        r = R(ex, root, la, L(ex, b))
        if assign: r = ex.read(la)
        ex.prove('result is well-formed', inv(r))
        empties(ex, r, a, b)
        ne_ = AND(nonempty(a), nonempty(b))
        cs = corners(a, b, mul)
        z0 = OR(mem(a, 0), mem(b, 0))
        rl, ru, rlt, rut = fl(r)
        # closure of the factor's zero: an endpoint 0 makes the product's infimum/supremum 0 even if the other side is unbounded
        zc = OR(*[AND(ne(t, INF), eq(e, 0)) for iv in (a, b) for e, t in ((fl(iv)[0], fl(iv)[2]), (fl(iv)[1], fl(iv)[3]))])
        for e, t, w in ((rl, rlt, 'lower'), (ru, rut, 'upper')):
            ex.prove(f'finite {w} bound is an extremum, attained if closed', IMP(AND(ne_, ne(t, INF)), OR(AND(eq(e, 0), z0, eq(t, WK)), AND(eq(e, 0), zc, eq(t, ST)), *[AND(eq(e, v), OR(eq(t, ST), m)) for v, m in cs])))
        ex.assume(mem(a, x)); ex.assume(mem(b, y))
        ex.prove('encloses all results', mem(r, mul(x, y)))
    return body
unit2('C01', 'mul', b_mul('mul'), 'c01.mul'); unit2('C01', 'mul_assign', b_mul('mul_assign', True), 'c01.mul')

# contract of the product, used by its callers
def K_mul(ex, f, this, args, node):
    a = ex.read(this); b = ex.val(args[0])
    r = anyiv(ex, 'prod')
    for (x, y) in ex.ghost.get('mulpts', []):
        ex.assume(IMP(AND(mem(a, x), mem(b, y)), mem(r, mul(x, y))))
    ex.assume(IMP(OR(NOT(nonempty(a)), NOT(nonempty(b))), NOT(nonempty(r))))
    return r
def b_div(ex, a, b):
    x = Q(ex, 'x'); y = Q(ex, 'y')
    ex.assume(NOT(mem(b, 0))); ex.assume(mem(a, x)); ex.assume(mem(b, y))
    q = ex.fresh('q', 'real'); ex.assume(eq(mul(q, y), x))
    r = R(ex, 'div', L(ex, a), L(ex, b))
    ex.prove('result is well-formed', inv(r))
    ex.prove('encloses all quotients', mem(r, q))
unit2('C01', 'div', b_div, 'c01.div', cs=lambda c1, c2: c2 != (INF, INF))
def b_rec(ex, a):
    x = Q(ex, 'x'); ex.assume(mem(a, x)); ex.assume(ne(x, 0))
    q = ex.fresh('q', 'real'); ex.assume(eq(mul(q, x), 1))
    e = Rec('carl::Interval', {'mContent': Rec('boost::numeric::interval', {'low': Fraction(0), 'up': Fraction(0)}), 'mLowerBoundType': ST, 'mUpperBoundType': ST})
    l1 = L(ex, e); l2 = L(ex, e)
    s = R(ex, 'reciprocal', L(ex, a), l1, l2)
    r1, r2 = ex.read(l1), ex.read(l2)
    ex.prove('results are well-formed', AND(inv(r1), IMP(s, inv(r2))))
    ex.prove('encloses all reciprocals', OR(mem(r1, q), AND(s, mem(r2, q))))
unit1('C01', 'reciprocal', b_rec, 'c01.reciprocal')
def K_rec(ex, f, this, args, node):
    a = ex.read(this); r1 = anyiv(ex, 'rec1'); r2 = anyiv(ex, 'rec2'); s = ex.fresh('split', 'bool')
    for (y, iy) in ex.ghost.get('recpts', []):
        ex.assume(IMP(mem(a, y), OR(mem(r1, iy), AND(s, mem(r2, iy)))))
    ex.write(args[0], r1); ex.write(args[1], r2)
    return s
def b_divext(ex, a, b):
    x = Q(ex, 'x'); y = Q(ex, 'y'); ex.assume(mem(a, x)); ex.assume(mem(b, y)); ex.assume(ne(y, 0))
    iy = ex.fresh('iy', 'real'); ex.assume(eq(mul(iy, y), 1))
    ex.ghost['recpts'] = [(y, iy)]; ex.ghost['mulpts'] = [(x, iy)]
    e = Rec('carl::Interval', {'mContent': Rec('boost::numeric::interval', {'low': Fraction(0), 'up': Fraction(0)}), 'mLowerBoundType': ST, 'mUpperBoundType': ST})
    l1 = L(ex, e); l2 = L(ex, e)
    s = R(ex, 'div_ext', L(ex, a), L(ex, b), l1, l2)
    r1, r2 = ex.read(l1), ex.read(l2)
    ex.prove('results are well-formed', AND(inv(r1), IMP(s, inv(r2))))
    ex.prove('encloses all quotients', OR(mem(r1, mul(x, iy)), AND(s, mem(r2, mul(x, iy)))))
unit2('C01', 'div_ext', b_divext, 'c01.div_ext', contracts={'carl::Interval::mul': K_mul, 'carl::Interval::reciprocal': K_rec})
def b_abs(ex, a):
    x = Q(ex, 'x'); r = R(ex, 'abs', L(ex, a))
    ex.prove('result is well-formed', inv(r))
    ex.prove('absolute value contains no negative point', IMP(mem(r, x), ge(x, 0)))
    ex.prove('absolute value contains nothing else', IMP(mem(r, x), OR(mem(a, x), mem(a, neg(x)))))
    ex.assume(mem(a, x))
    ex.prove('encloses all absolute values', mem(r, ITE(ge(x, 0), x, neg(x))))
unit1('C01', 'abs', b_abs, 'c01.abs')

# integer power: Boost's pow is an assumed contract over the mathematical power function PW
PW = z3.Function('pw', z3.RealSort(), z3.IntSort(), z3.RealSort())
def pw_axioms(ex, pts, e):
    ev = z3.simplify(e % 2 == 0) if isz(e) else (e % 2 == 0)
    def P(x): return PW(zreal(x), znum(e))
    for x in pts: ex.assume(IMP(eq(e, 0), eq(P(x), 1)))
    ab = lambda x: ITE(ge(x, 0), x, neg(x))
    for x in pts:
        ex.assume(IMP(ev, AND(ge(P(x), 0), eq(P(x), P(neg(x))))))
        ex.assume(IMP(NOT(ev), AND(IFF(gt(x, 0), gt(P(x), 0)), IFF(lt(x, 0), lt(P(x), 0)))))
        ex.assume(IMP(ge(znum(e), 1), IFF(eq(x, 0), eq(P(x), 0))))
        for y in pts:
            if x is y: continue
            ex.assume(IMP(NOT(ev), IFF(lt(x, y), lt(P(x), P(y)))))
            ex.assume(IMP(AND(ev, ge(znum(e), 1)), IFF(lt(ab(x), ab(y)), lt(P(x), P(y)))))
    ex.stats.assumptions.add('boost::numeric::pow(I,n), n>0: returns [min,max] of x^n over the closed interval; x^n is monotone for odd n, monotone in |x| for even n (mathematical facts about powers)')
def K_pow(ex, f, this, args, node):
    i = ex.val(args[0]); n = ex.val(args[1])
    lo, up = i.f['low'], i.f['up']
    pts = [lo, up, Fraction(0), ex.ghost['x']]
    pw_axioms(ex, pts, n)
    P = lambda x: PW(zreal(x), znum(n))
    ev = simp(eq(znum(n) % 2, 0))
    mx = ITE(ge(P(lo), P(up)), P(lo), P(up)); mn = ITE(ge(P(lo), P(up)), P(up), P(lo))
    rl = ITE(ev, ITE(AND(le(lo, 0), le(0, up)), Fraction(0), mn), P(lo)); ru = ITE(ev, mx, P(up))
    return Rec('boost::numeric::interval', {'low': rl, 'up': ru})
def b_pow(ex, a):
    x = Q(ex, 'x'); e = inp(ex, 'int', ex.fresh('e', 'int')); ex.assume(AND(ge(e, 0), le(e, 1000)))
    ex.witness['args'] = [ex.witness['args'][0], ex.witness['args'][2], ex.witness['args'][1]]
    ex.assume(mem(a, x)); ex.ghost['x'] = x
    al, au, _, _ = fl(a)
    pw_axioms(ex, [al, au, Fraction(0), x], e)
    r = R(ex, 'pow', L(ex, a), e)
    ex.prove('result is well-formed', inv(r))
    ex.prove('encloses all powers', mem(r, PW(x, e)))
unit1('C01', 'pow', b_pow, 'c01.pow', contracts={'boost::numeric::pow': K_pow})
def b_hull(ex, a, b):
    x = Q(ex, 'x'); y = Q(ex, 'y'); z = Q(ex, 'z')
    r = R(ex, 'hull', L(ex, a), L(ex, b))
    ex.prove('result is well-formed', inv(r))
    ex.prove('hull contains both', IMP(OR(mem(a, x), mem(b, x)), mem(r, x)))
unit2('C02', 'hull', b_hull, 'c02.hull')

# ------------------------------------------------------------------ C02 sets and comparisons
EMPTY = lambda: Rec('carl::Interval', {'mContent': Rec('boost::numeric::interval', {'low': Fraction(0), 'up': Fraction(0)}), 'mLowerBoundType': ST, 'mUpperBoundType': ST})
def two_res(ex, root, *ivs):
    # out-parameters start as arbitrary intervals: nothing may leak from them
    l1 = L(ex, anyiv(ex, 'o1')); l2 = L(ex, anyiv(ex, 'o2'))
    s = R(ex, root, *[L(ex, i) for i in ivs], l1, l2)
    return s, ex.read(l1), ex.read(l2)
def set2(root, want):
    def body(ex, a, b):
        x = Q(ex, 'x'); s, r1, r2 = two_res(ex, root, a, b)
        # the second interval is part of the result iff the operation reports a twofold result
        ex.prove('results are well-formed', AND(inv(r1), IMP(s, inv(r2))))
        ex.prove('the reported intervals are exactly the demanded set', IFF(OR(mem(r1, x), AND(s, mem(r2, x))), want(mem(a, x), mem(b, x))))
    return body
unit2('C02', 's_union', set2('s_union', OR), 'c02.union')
unit2('C02', 's_diff', set2('s_diff', lambda p, q: AND(p, NOT(q))), 'c02.diff')
unit2('C02', 's_symm', set2('s_symm', lambda p, q: NOT(IFF(p, q))), 'c02.symm')
def b_compl(ex, a):
    x = Q(ex, 'x'); s, r1, r2 = two_res(ex, 's_compl', a)
    ex.prove('results are well-formed', AND(inv(r1), IMP(s, inv(r2))))
    ex.prove('complement is exact', IFF(OR(mem(r1, x), AND(s, mem(r2, x))), NOT(mem(a, x))))
unit1('C02', 's_compl', b_compl, 'c02.compl')
def b_inter(ex, a, b):
    x = Q(ex, 'x'); r = R(ex, 's_inter', L(ex, a), L(ex, b))
    ex.prove('result is well-formed', inv(r)); ex.prove('intersection is exact', IFF(mem(r, x), AND(mem(a, x), mem(b, x))))
unit2('C02', 's_inter', b_inter, 'c02.inter')
def low_le(a, b):
    """lower bound of a is at or below that of b (as sets of points above)"""
    al, au, alt, aut = fl(a); bl, bu, blt, but = fl(b)
    return OR(eq(alt, INF), AND(ne(blt, INF), OR(lt(al, bl), AND(eq(al, bl), OR(eq(alt, WK), eq(blt, ST))))))
def up_ge(a, b):
    al, au, alt, aut = fl(a); bl, bu, blt, but = fl(b)
    return OR(eq(aut, INF), AND(ne(but, INF), OR(gt(au, bu), AND(eq(au, bu), OR(eq(aut, WK), eq(but, ST))))))
def subset(a, b): return OR(NOT(nonempty(a)), AND(nonempty(b), low_le(b, a), up_ge(b, a)))
def disjoint_below(a, b):
    """every point of a is below every point of b (both non-empty)"""
    au, aut = fl(a)[1], fl(a)[3]; bl, blt = fl(b)[0], fl(b)[2]
    return AND(ne(aut, INF), ne(blt, INF), OR(lt(au, bl), AND(eq(au, bl), OR(eq(aut, ST), eq(blt, ST)))))
def leq_below(a, b):
    au, aut = fl(a)[1], fl(a)[3]; bl, blt = fl(b)[0], fl(b)[2]
    return AND(ne(aut, INF), ne(blt, INF), le(au, bl))
def b_pred2(root, want, pre=None, label=None):
    def body(ex, a, b):
        if pre: ex.assume(pre(a, b))
        r = R(ex, root, L(ex, a), L(ex, b))
        ex.prove(label or f'{root} decides the question about the sets', IFF(zbool(r), want(a, b)))
    return body
bothne = lambda a, b: AND(nonempty(a), nonempty(b))
inter_ne = lambda a, b: AND(nonempty(a), nonempty(b), NOT(disjoint_below(a, b)), NOT(disjoint_below(b, a)))
same = lambda a, b: AND(subset(a, b), subset(b, a))
for root, want, pre, op in (('s_have', inter_ne, None, 'c02.have'), ('s_psub', lambda a, b: AND(subset(a, b), NOT(subset(b, a))), None, 'c02.psub'),
        ('s_sub', subset, None, 'c02.sub'), ('containsI', lambda a, b: subset(b, a), None, 'c02.containsI'),
        ('eq', same, None, 'c02.eq'), ('ne', lambda a, b: NOT(same(a, b)), None, 'c02.eq'),
        ('lt', disjoint_below, bothne, 'c02.cmp'), ('gt', lambda a, b: disjoint_below(b, a), bothne, 'c02.cmp'),
        ('le', leq_below, bothne, 'c02.cmp'), ('ge', lambda a, b: leq_below(b, a), bothne, 'c02.cmp')):
    unit2('C02', root, b_pred2(root, want, pre), op)
# the set vocabulary used above means what it says: lemmas over mem
def lemmas(ex, a, b):
    x = Q(ex, 'x'); y = Q(ex, 'y')
    ex.prove('lemma: subset implies pointwise inclusion', IMP(AND(subset(a, b), mem(a, x)), mem(b, x)))
    ex.prove('lemma: empty iff no points', IMP(mem(a, x), nonempty(a)))
    ex.prove('lemma: below means below for all points', IMP(AND(disjoint_below(a, b), mem(a, x), mem(b, y)), lt(x, y)))
    ex.prove('lemma: at most means at most for all points', IMP(AND(leq_below(a, b), mem(a, x), mem(b, y)), le(x, y)))
    ex.prove('lemma: common point refutes below', IMP(AND(mem(a, x), mem(b, x)), inter_ne(a, b)))
unit2('C02', 'lemma', lemmas, None)
def b_cmpn(root, want, ne_=True):
    def body(ex, a):
        n = Q(ex, 'n')
        if ne_: ex.assume(nonempty(a))
        r = R(ex, root, L(ex, a), L(ex, n)); ex.prove(f'{root} decides the comparison for all points', IFF(zbool(r), want(a, n)))
    return body
def pt(n): return Rec('carl::Interval', {'mContent': Rec('boost::numeric::interval', {'low': n, 'up': n}), 'mLowerBoundType': WK, 'mUpperBoundType': WK})
for root, want, ne_ in (('ltn', lambda a, n: disjoint_below(a, pt(n)), True), ('ngt', lambda a, n: disjoint_below(a, pt(n)), True),
        ('nlt', lambda a, n: disjoint_below(pt(n), a), True), ('gtn', lambda a, n: disjoint_below(pt(n), a), True),
        ('len', lambda a, n: leq_below(a, pt(n)), True), ('nge', lambda a, n: leq_below(a, pt(n)), True),
        ('nle', lambda a, n: leq_below(pt(n), a), True), ('gen', lambda a, n: leq_below(pt(n), a), True),
        ('eqn', lambda a, n: same(a, pt(n)), False), ('neqi', lambda a, n: same(a, pt(n)), False), ('nen', lambda a, n: NOT(same(a, pt(n))), False),
        ('contains', mem, False), ('meets', lambda a, n: OR(mem(a, n), AND(ne(fl(a)[2], INF), eq(fl(a)[0], n)), AND(ne(fl(a)[3], INF), eq(fl(a)[1], n))), True)):
    unit1('C02', root, b_cmpn(root, want, ne_), 'c02.cmpn')
zero = lambda a: Fraction(0)
def b_q(root, want, pre=None):
    def body(ex, a):
        if pre: ex.assume(pre(a))
        r = R(ex, root, L(ex, a)); ex.prove(f'{root} answers about the set', IFF(zbool(r), want(a)))
    return body
for root, want, pre in (('isEmpty', lambda a: NOT(nonempty(a)), None), ('isInfinite', lambda a: AND(eq(fl(a)[2], INF), eq(fl(a)[3], INF)), None),
        ('isUnbounded', lambda a: OR(eq(fl(a)[2], INF), eq(fl(a)[3], INF)), None), ('isHalfBounded', lambda a: NOT(IFF(eq(fl(a)[2], INF), eq(fl(a)[3], INF))), None),
        ('isPoint', lambda a: AND(eq(fl(a)[0], fl(a)[1]), nonempty(a), ne(fl(a)[2], INF), ne(fl(a)[3], INF)), None),
        ('isZero', lambda a: same(a, pt(Fraction(0))), None), ('isZeroN', lambda a: same(a, pt(Fraction(0))), None), ('isOne', lambda a: same(a, pt(Fraction(1))), None),
        ('isPositive', lambda a: disjoint_below(pt(Fraction(0)), a), nonempty), ('isNegative', lambda a: disjoint_below(a, pt(Fraction(0))), nonempty),
        ('isSemiPositive', lambda a: leq_below(pt(Fraction(0)), a), nonempty), ('isSemiNegative', lambda a: leq_below(a, pt(Fraction(0))), nonempty)):
    unit1('C02', root, b_q(root, want, pre), 'c02.queries')
def b_sgn(ex, a):
    ex.assume(nonempty(a)); r = R(ex, 'sgn', L(ex, a))
    p = disjoint_below(pt(Fraction(0)), a); n = disjoint_below(a, pt(Fraction(0)))
    ex.prove('sign of an interval is the common sign of its points', AND(IFF(eq(r, 1), p), IFF(eq(r, -1), n), IFF(eq(r, 0), AND(NOT(p), NOT(n)))))
unit1('C02', 'sgn', b_sgn, 'c02.queries')

# ------------------------------------------------------------------ C03 sampling and measures
def b_sample(root, inc=None):
    def body(ex, a):
        ex.assume(nonempty(a))
        args = [L(ex, a)]
        if inc is not None:
            args.append(inc); inp(ex, 'bool', inc)
            if not inc: ex.assume(NOT(AND(eq(fl(a)[0], fl(a)[1]), ne(fl(a)[2], INF), ne(fl(a)[3], INF))))
        r = R(ex, root, *args)
        ex.prove('sampled point lies in the interval', mem(a, r))
        if inc is False: ex.prove('sampled point is no endpoint', AND(OR(eq(fl(a)[2], INF), ne(r, fl(a)[0])), OR(eq(fl(a)[3], INF), ne(r, fl(a)[1]))))
    return body
for root in ('center', 'sample_left', 'sample_right', 'sample_zero', 'sample_infty'): unit1('C03', root, b_sample(root), 'c03.' + root)
SB = Loop(inv=lambda s, L: [('denominators stay non-negative and their sum positive', AND(ge(L.v('leftden'), 0), ge(L.v('rightden'), 0), gt(add(L.v('leftden'), L.v('rightden')), 0)))])
for inc in (True, False):
    for root in ('sample', 'sample_sb'):
        for c in CS:
            def run(ex, c=c, root=root, inc=inc): b_sample(root, inc)(ex, inp(ex, 'I', mk(ex, 'a', *c)))
            UNITS.append(U('C03', f'interval.{root}.{"incl" if inc else "excl"}[{tn(c)}]', run, 'c03.' + root, loops={'sample_stern_brocot': SB}))
def b_split(ex, a):
    x = Q(ex, 'x'); ex.assume(nonempty(a))
    r = R(ex, 'split', L(ex, a)); p, q = r.items
    ispt = AND(eq(fl(a)[0], fl(a)[1]), ne(fl(a)[2], INF), ne(fl(a)[3], INF))
    ex.assume(NOT(ispt))
    ex.prove('parts are well-formed', AND(inv(p), inv(q)))
    ex.prove('parts together contain exactly the points of the original', IFF(OR(mem(p, x), mem(q, x)), mem(a, x)))
    ex.prove('parts do not overlap', NOT(AND(mem(p, x), mem(q, x))))
unit1('C03', 'split', b_split, 'c03.split')
def b_int(ex, a):
    k = inp(ex, 'Z', ex.fresh('k', 'int')); ex.ghost['ints'] = [k]; r = R(ex, 'integralPart', L(ex, a))
    ex.prove('result is well-formed', inv(r))
    ex.prove('integral part has exactly the integers of the interval', IFF(mem(r, zreal(k)), mem(a, zreal(k))))
    lo, up, a_, b_ = fl(r)
    ex.prove('finite bounds of the integral part are integers', IMP(nonempty(r), AND(OR(eq(a_, INF), z3.IsInt(zreal(lo))), OR(eq(b_, INF), z3.IsInt(zreal(up))))))
unit1('C03', 'integralPart', b_int, 'c03.integralPart', contracts=KFC)
def b_cint(ex, a):
    k = inp(ex, 'Z', ex.fresh('k', 'int')); ex.ghost['ints'] = [k]
    ex.assume(nonempty(a)); r = R(ex, 'containsInteger', L(ex, a))
    lo, up, a_, b_ = fl(a)
    for e in (lo, up): ex.assume(IMP(zreal(k) == zreal(e), z3.IsInt(zreal(e))))   # definition of "is an integer" at k
    fl_ = z3.ToInt(zreal(lo)); cand = [zreal(lo), zreal(fl_) + 1, zreal(up), zreal(z3.ToInt(zreal(up)))]
    ex.prove('a contained integer is reported', IMP(mem(a, zreal(k)), zbool(r)))
    wit = OR(*[AND(mem(a, c), z3.IsInt(c)) for c in cand + [zreal(z3.ToInt(zreal(up))) - 1]])
    ex.prove('a reported integer exists', IMP(zbool(r), wit))
unit1('C03', 'containsInteger', b_cint, 'c03.containsInteger', contracts=KFC)
def b_isint(ex, a):
    r = R(ex, 'isInteger', L(ex, a)); ex.prove('isInteger: a single integer point', IFF(zbool(r), AND(eq(fl(a)[0], fl(a)[1]), nonempty(a), ne(fl(a)[2], INF), ne(fl(a)[3], INF), z3.IsInt(zreal(fl(a)[0])))))
unit1('C03', 'isInteger', b_isint, 'c03.isInteger')
def b_diam(ex, a):
    ex.assume(nonempty(a)); ex.assume(AND(ne(fl(a)[2], INF), ne(fl(a)[3], INF)))
    r = R(ex, 'diameter', L(ex, a)); ex.prove('diameter of a bounded interval', eq(r, sub(fl(a)[1], fl(a)[0])))
    r = R(ex, 'magnitude', L(ex, a)); l, u = fl(a)[0], fl(a)[1]
    ab = lambda v: ITE(ge(v, 0), v, neg(v))
    ex.prove('magnitude of a bounded interval', AND(ge(r, ab(l)), ge(r, ab(u)), OR(eq(r, ab(l)), eq(r, ab(u)))))
for c in CS:
    if INF not in c: UNITS.append(U('C03', f'interval.measures[{tn(c)}]', lambda ex, c=c: b_diam(ex, inp(ex, 'I', mk(ex, 'a', *c))), 'c03.measures'))
def b_dist(ex, a, b):
    ex.assume(bothne(a, b)); r = R(ex, 'distance', L(ex, a), L(ex, b))
    al, au, alt, aut = fl(a); bl, bu, blt, but = fl(b)
    want = ITE(disjoint_below(a, b), sub(bl, au), ITE(disjoint_below(b, a), sub(al, bu), Fraction(0)))
    ex.prove('distance is the gap between the sets', eq(r, want))
unit2('C03', 'distance', b_dist, 'c03.distance')
# the interval operations that interval evaluation relies on are obligations of C25 as well
UNITS += [dict(u, prop='C25') for u in UNITS if u['prop'] == 'C01' and u['name'].split('[')[0] in ('interval.pow', 'interval.mul_assign', 'interval.add_assign')]

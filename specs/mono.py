"""Contracts for monomials (C08) and their orders (C09).  A monomial is its list of (variable, exponent) pairs.
XE(x, v, e, k) is the exponent of variable x among the first k pairs (a sum), SM(e, k) the sum of their exponents;
defining equations are instantiated at the positions the code visits, the derived facts (lemma_*) are proved by induction.
x is an arbitrary variable, so equality of XE at x is equality of the monomials as functions."""
from .common import *
from vc.containers import *
import vc.containers as K
from vc.engine import NULL
DRIVER = 'mono'; HARNESS = 'mono'
UNITS = []
IA = z3.ArraySort(z3.IntSort(), z3.IntSort())
XE = z3.Function('XE', z3.IntSort(), IA, IA, z3.IntSort(), z3.IntSort())
SM = z3.Function('SM', IA, z3.IntSort(), z3.IntSort())
Iv = z3.IntVal
PSH = TupShape([RecShape('carl::Variable', [('mContent', INT)]), INT])
def R(ex, root, *a): return ex.call_root(root, list(a))
# ------------------------------------------------------------------ inputs
def var(ex, name, rec=True):
    c = ex.fresh(name, 'int'); ex.assume(c > 0)
    if rec: inp(ex, 'V', c)
    return c
def VR(c): return Rec('carl::Variable', {'mContent': c})
def content(ex, name, rec=True):
    v = fresh_svec(ex, name, PSH); ex.assume(wf(v)); ex.assume(v.n >= 1)
    if rec: inp(ex, 'M', v)
    ex.ghost.setdefault('ms', []).append(v)
    return v
def sorted_(v):
    i, j = z3.Ints('i!s j!s'); return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < znum(v.n)), z3.Select(v.cols[0], i) < z3.Select(v.cols[0], j)))
def adjacent(v):
    i = z3.Int('i!a'); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < znum(v.n)), z3.Select(v.cols[0], i) < z3.Select(v.cols[0], i + 1)))
def positive(v):
    i = z3.Int('i!p'); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(v.n)), z3.And(z3.Select(v.cols[1], i) > 0, z3.Select(v.cols[0], i) > 0)))
def wf(v): return z3.And(sorted_(v), positive(v))
def mono(ex, v, name='m'):
    """a monomial object of the pool: canonical content, total degree, identity"""
    t = SM(v.cols[1], znum(v.n)); ex.assume(t > 0)
    i = ex.fresh(name + '_id', 'int'); ex.assume(i > 0)
    l = ex.alloc(Rec('carl::Monomial', {'mExponents': v, 'mTotalDegree': t, 'mId': i, 'mHash': ex.fresh(name + '_hash', 'int'), 'mWeakPtr': NULL}), name)
    for f in ex.p.funcs.values():
        if f['sn'] == 'carl::Monomial::lexicalCompare': pass
    return l
def MON(ex, name, rec=True):
    v = content(ex, name, rec); m = mono(ex, v, name); base(ex, v)
    for x in XS(ex): ex.assume(bounds_(v, v.n, x))
    return m
def ARG(ex, name, null):
    if null: inp(ex, 'M', None); return NULL
    return MON(ex, name)
def C(ex, m):
    if isinstance(m, SVec): return m
    if isinstance(m, Loc):
        m = ex.read(m)
        if isinstance(m, Loc): m = ex.read(m)
    return m.f['mExponents']
def isnull(m): return m is NULL or m is None
def GX(ex):
    x = ex.ghost.get('x')
    if x is None: x = ex.ghost['x'] = ex.fresh('x', 'int'); ex.assume(x > 0)
    return x
def XS(ex): return [GX(ex)] + ex.ghost.get('xs', [])
def xe(v, k, x): return XE(x, v.cols[0], v.cols[1], znum(k))
def sm(v, k): return SM(v.cols[1], znum(k))
def E_(ex, m, x=None):
    """exponent of x in the monomial m (null: 1)"""
    if isnull(m): return Iv(0)
    v = C(ex, m); return xe(v, v.n, GX(ex) if x is None else x)
def D_(ex, m):
    if isnull(m): return Iv(0)
    v = C(ex, m); return sm(v, v.n)
# ------------------------------------------------------------------ facts about the sums (definitions and lemma_* units)
def unfold(ex, v, k):
    k = znum(k)
    for x in XS(ex): ex.assume(z3.Implies(k >= 0, xe(v, k + 1, x) == xe(v, k, x) + z3.If(z3.Select(v.cols[0], k) == x, z3.Select(v.cols[1], k), 0)))
    ex.assume(z3.Implies(k >= 0, sm(v, k + 1) == sm(v, k) + z3.Select(v.cols[1], k)))
def base(ex, v):
    for x in XS(ex): ex.assume(xe(v, 0, x) == 0)
    ex.assume(sm(v, 0) == 0)
def before(v, k, x):
    """all variables before position k are smaller than x: none of them is x"""
    k = znum(k); return z3.Implies(z3.And(k >= 0, k <= znum(v.n), z3.Or(k == 0, z3.Select(v.cols[0], k - 1) < x)), xe(v, k, x) == 0)
def after(v, k, x):
    """all variables from position k on are larger than x: they do not contribute"""
    k = znum(k); return z3.Implies(z3.And(k >= 0, k <= znum(v.n), z3.Or(k == znum(v.n), z3.Select(v.cols[0], k) > x)), xe(v, v.n, x) == xe(v, k, x))
def bounds_(v, k, x):
    k = znum(k); return z3.Implies(z3.And(k >= 0, k <= znum(v.n)), z3.And(xe(v, k, x) >= 0, xe(v, k, x) <= xe(v, v.n, x), sm(v, k) >= k, sm(v, k) <= sm(v, v.n), xe(v, k, x) <= sm(v, k)))
def at_(ex, v, k):
    """everything known about an input monomial at position k"""
    k = znum(k); base(ex, v); unfold(ex, v, k); c, e = v.cols
    for j in (k, k + 1): ex.assume(z3.Implies(z3.And(0 < j, j < znum(v.n)), z3.Select(c, j - 1) < z3.Select(c, j)))
    ex.assume(z3.Implies(z3.And(0 <= k, k < znum(v.n)), z3.Select(e, k) > 0))
    for x in XS(ex):
        for j in (k, k + 1): ex.assume(z3.And(before(v, j, x), after(v, j, x), bounds_(v, j, x)))
# pushing and appending (definition of the sums over the extended list)
def note_push(ex, o, n):
    for x in XS(ex): ex.assume(xe(n, n.n, x) == xe(o, o.n, x) + z3.If(z3.Select(n.cols[0], znum(o.n)) == x, z3.Select(n.cols[1], znum(o.n)), 0))
    ex.assume(sm(n, n.n) == sm(o, o.n) + z3.Select(n.cols[1], znum(o.n)))
def is_content(v): return isinstance(v, SVec) and len(v.cols) == 2 and isinstance(v.shape, TupShape)
def k_push(name):
    h = K.BUILTINS['std::vector::' + name]
    def k(ex, f, this, args, node):
        o = ex.read(this)
        if not is_content(o): return NotImplemented
        r = h(ex, f, this, args, node); note_push(ex, o, ex.read(this)); return r
    return k
def k_insert(ex, f, this, args, node):
    o = ex.read(this)
    if not is_content(o) or len(args) != 3: return NotImplemented
    b, e = ex.val(args[1]), ex.val(args[2])
    r = K.BUILTINS['std::vector::insert'](ex, f, this, args, node); n = ex.read(this); src = ex.read(b.c)
    base(ex, o); base(ex, src)
    for x in XS(ex): ex.assume(xe(n, n.n, x) == xe(o, o.n, x) + xe(src, e.i, x) - xe(src, b.i, x))
    ex.assume(sm(n, n.n) == sm(o, o.n) + sm(src, e.i) - sm(src, b.i))
    return r
def k_assign(ex, f, this, args, node):
    b, e = ex.val(args[0]), ex.val(args[1])
    r = K.BUILTINS['std::vector::assign'](ex, f, this, args, node); n = ex.read(this); src = ex.read(b.c); base(ex, src)
    note_copy(ex, n, src, b, e); return r
def note_copy(ex, n, src, b, e):
    for x in XS(ex): ex.assume(xe(n, n.n, x) == xe(src, e.i, x) - xe(src, b.i, x))
    ex.assume(sm(n, n.n) == sm(src, e.i) - sm(src, b.i))
def k_vector(ex, f, this, args, node):
    r = K.seq_ctor(ex, f, this, args, node)
    if is_content(r):
        if len(args) >= 2:
            b, e = ex.val(args[0]), ex.val(args[1])
            if isinstance(b, It): src = ex.read(b.c); base(ex, src); note_copy(ex, r, src, b, e)
        elif not args: base(ex, r)
    return r
def make(ex, v, deg, what='the created monomial'):
    """contract of MonomialPool::create: canonical content and the right degree in, the monomial with that content out"""
    base(ex, v); upd(ex, v)
    if not isz(v.n):
        for k in range(int(v.n)): unfold(ex, v, k)
    ex.prove(f'{what} is not empty', znum(v.n) >= 1)
    ex.prove(f'{what} lists its variables strictly ordered', adjacent(v))
    ex.prove(f'{what} has positive exponents', positive(v))
    if deg is not None: ex.prove(f'{what} is given its total degree', sm(v, v.n) == znum(deg))
    ex.assume(wf(v)); ex.assume(bounds_(v, v.n, GX(ex)))
    return mono(ex, v, 'res')
def k_create(ex, f, this, args, node):
    a = [ex.val(x) for x in args]
    if isinstance(a[0], Rec):
        c = SVec(1, [z3.K(z3.IntSort(), znum(a[0].f['mContent'])), z3.K(z3.IntSort(), znum(a[1]))], PSH)
        return make(ex, c, a[1])
    v = as_svec(ex, a[0], PSH) if isinstance(a[0], Vec) else a[0]
    return make(ex, v, a[1] if len(a) > 1 else None)
def k_find(ex, f, this, args, node):
    b, e = ex.val(args[0]), ex.val(args[1]); v = ex.read(b.c); x = znum(ex.val(args[2]).f['mContent'])
    r = ex.fresh('found', 'int'); j = z3.Int('j!f')
    ex.assume(z3.And(znum(b.i) <= r, r <= znum(e.i), z3.Implies(r < znum(e.i), z3.Select(v.cols[0], r) == x)))
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(znum(b.i) <= j, j < r), z3.Select(v.cols[0], j) != x)))
    if x.get_id() not in [y.get_id() for y in XS(ex)]: ex.ghost.setdefault('xs', []).append(x)
    at_(ex, v, r)
    return It(b.c, r)
def k_find_if(ex, f, this, args, node):
    r = K.BUILTINS['std::find_if'](ex, f, this, args, node)
    if isinstance(r, It) and is_content(ex.read(r.c)): at_(ex, ex.read(r.c), r.i)
    return r
KM = {'std::find_if': k_find_if, 'carl::createMonomial': k_create, 'carl::MonomialPool::create': k_create, 'carl::MonomialPool::getInstance': lambda ex, f, this, args, node: NULL, 'carl::Singleton::getInstance': lambda ex, f, this, args, node: NULL,
      'std::vector::push_back': k_push('push_back'), 'std::vector::emplace_back': k_push('emplace_back'), 'std::vector::insert': k_insert, 'std::vector::assign': k_assign, 'std::vector::vector': k_vector, 'std::find': k_find}
def ranks(ex, model):
    vs = set()
    for k, v in ex.witness.get('args', []):
        if k == 'V': vs.add(int(mval(model, v)))
        if k == 'M' and v is not None:
            n = int(mval(model, v.n))
            if n > 8: raise ValueError('too long')
            for i in range(n): vs.add(int(mval(model, z3.Select(v.cols[0], i))))
    return {v: i for i, v in enumerate(sorted(vs))}
def mdescribe(ex, model):
    rk = ranks(ex, model); out = []
    for k, v in ex.witness.get('args', []):
        if k == 'V': out.append(str(rk[int(mval(model, v))]))
        elif k == 'M': out.append('-' if v is None else ','.join(f'{rk[int(mval(model, z3.Select(v.cols[0], i)))]}:{int(mval(model, z3.Select(v.cols[1], i)))}' for i in range(int(mval(model, v.n)))) or '-')
        else: out.append(PRINT[k](model, v))
    return out
def unit(name, op=None, prop='C08', **kw):
    def d(run):
        k = dict(svec=True, describe=mdescribe, contracts=KM, qf_first=True); k.update(kw)
        if 'contracts' in kw: k['contracts'] = {**KM, **kw['contracts']}
        UNITS.append(U(prop, 'mono.' + name, run, op, **k)); return run
    return d
# ------------------------------------------------------------------ lemmas by induction
def flist(ex):
    v = fresh_svec(ex, 'v', PSH); ex.assume(wf(v)); return v
@unit('lemma_before')
def _(ex):
    v = flist(ex); x = GX(ex); k = ex.fresh('k', 'int'); base(ex, v)
    ex.prove('base', before(v, 0, x))
    ex.assume(z3.And(k >= 0, k < znum(v.n))); unfold(ex, v, k); ex.assume(before(v, k, x)); ex.prove('step', before(v, k + 1, x))
@unit('lemma_after')
def _(ex):
    # if everything from position k on is larger than x, no later prefix gains anything
    v = flist(ex); x = GX(ex); k = ex.fresh('k', 'int'); j = ex.fresh('j', 'int')
    st = lambda j: z3.Implies(z3.And(k >= 0, k <= j, j <= znum(v.n), z3.Or(k == znum(v.n), z3.Select(v.cols[0], k) > x)), xe(v, j, x) == xe(v, k, x))
    ex.prove('base', st(k)); ex.assume(z3.And(j >= k, j < znum(v.n), k >= 0)); unfold(ex, v, j); ex.assume(st(j)); ex.prove('step', st(j + 1))
@unit('lemma_bounds')
def _(ex):
    v = flist(ex); x = GX(ex); k = ex.fresh('k', 'int'); j = ex.fresh('j', 'int'); base(ex, v)
    a = lambda k: z3.And(xe(v, k, x) >= 0, sm(v, k) >= k, xe(v, k, x) <= sm(v, k))
    ex.prove('base', a(Iv(0))); ex.assume(z3.And(k >= 0, k < znum(v.n))); unfold(ex, v, k); ex.assume(a(k)); ex.prove('step', a(k + 1))
    b = lambda j: z3.And(xe(v, k, x) <= xe(v, j, x), sm(v, k) <= sm(v, j))
    ex.prove('monotone: base', b(k)); ex.assume(z3.And(j >= k, j < znum(v.n))); unfold(ex, v, j); ex.assume(b(j)); ex.prove('monotone: step', b(j + 1))
# ------------------------------------------------------------------ merging loops
def out_inv(s, o, comb, csum, fr):
    yield 'the list built so far is strictly ordered', adjacent(o)
    yield 'the list built so far has positive exponents', positive(o)
    yield 'length', z3.And(znum(o.n) >= 0, sm(o, o.n) >= 0)
    for a, i in fr:
        yield 'the list built so far precedes the rest', z3.Implies(z3.And(znum(o.n) > 0, znum(i) < znum(a.n)), z3.Select(o.cols[0], znum(o.n) - 1) < z3.Select(a.cols[0], znum(i)))
    for x in XS(s): yield 'exponents so far', xe(o, o.n, x) == comb(x)
    if csum is not None: yield 'sum of exponents so far', sm(o, o.n) == csum
def h_at(*names):
    """instantiate the facts about the inputs at the current positions"""
    def h(s, L):
        for a, it in names:
            v = a(s, L); at_(s, v, L.v(it).i if isinstance(L.v(it), It) else L.v(it))
        if L.has('newExps'): base(s, L.v('newExps'))
    return h
A0 = lambda s, L: s.ghost['ms'][0]
A1 = lambda s, L: s.ghost['ms'][1]
def inv_mul(s, L):
    l, r = A0(s, L), A1(s, L); i, j = znum(L.v('itleft').i), znum(L.v('itright').i)
    yield 'positions', z3.And(i >= 0, i <= znum(l.n), j >= 0, j <= znum(r.n))
    yield from out_inv(s, L.v('newExps'), lambda x: xe(l, i, x) + xe(r, j, x), sm(l, i) + sm(r, j), [(l, i), (r, j)])
def entry(*cur):
    def b(s, L):
        for v in s.ghost['ms']: base(s, v)
        base(s, L.v('newExps'))
    return b
MUL = Loop(inv=inv_mul, begin=entry(), havoc=h_at((A0, 'itleft'), (A1, 'itright')), variant=lambda s, L: znum(A0(s, L).n) - znum(L.v('itleft').i) + znum(A1(s, L).n) - znum(L.v('itright').i))
for na in (False, True):
    for nb in (False, True):
        @unit(f'mul_{int(na)}{int(nb)}', 'c08.mul', loops={'operator*': MUL})
        def _(ex, na=na, nb=nb):
            a = ARG(ex, 'a', na); b = ARG(ex, 'b', nb); r = R(ex, 'm_mul', a, b)
            ex.prove('the product of ones is one', isnull(r) == (na and nb))
            ex.prove('exponents add up', E_(ex, r) == E_(ex, a) + E_(ex, b)); ex.prove('total degrees add up', D_(ex, r) == D_(ex, a) + D_(ex, b))
def upd(ex, v):
    """lemma_update: changing the exponent at one position changes the sums by the difference"""
    a = v.cols[1]; n = znum(v.n)
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        o, r, e = a.arg(0), a.arg(1), a.arg(2); ok = z3.And(r >= 0, r < n)
        for x in XS(ex): ex.assume(z3.Implies(ok, XE(x, v.cols[0], a, n) == XE(x, v.cols[0], o, n) + z3.If(z3.Select(v.cols[0], r) == x, e - z3.Select(o, r), 0)))
        ex.assume(z3.Implies(ok, SM(a, n) == SM(o, n) + e - z3.Select(o, r)))
        a = o
@unit('lemma_update')
def _(ex):
    v = flist(ex); x = GX(ex); r = ex.fresh('r', 'int'); e = ex.fresh('e', 'int'); k = ex.fresh('k', 'int'); ex.assume(r >= 0)
    w = SVec(v.n, [v.cols[0], z3.Store(v.cols[1], r, e)], PSH); base(ex, v); base(ex, w)
    st = lambda k: z3.And(xe(w, k, x) == xe(v, k, x) + z3.If(z3.And(r < k, z3.Select(v.cols[0], r) == x), e - z3.Select(v.cols[1], r), 0), sm(w, k) == sm(v, k) + z3.If(r < k, e - z3.Select(v.cols[1], r), 0))
    ex.prove('base', st(Iv(0))); ex.assume(k >= 0); unfold(ex, v, k); unfold(ex, w, k); ex.assume(st(k)); ex.prove('step', st(k + 1))
# facts at a witness variable w
def wit(ex, v, k, w):
    k = znum(k); ex.assume(z3.And(xe(v, 0, w) == 0, z3.Implies(k >= 0, xe(v, k + 1, w) == xe(v, k, w) + z3.If(z3.Select(v.cols[0], k) == w, z3.Select(v.cols[1], k), 0))))
    for j in (k, k + 1): ex.assume(z3.And(before(v, j, w), after(v, j, w), bounds_(v, j, w)))
def frontier(l, i, r, j):
    yield 'visited pairs of the left precede the rest of the right', z3.Implies(z3.And(i > 0, j < znum(r.n)), z3.Select(l.cols[0], i - 1) < z3.Select(r.cols[0], j))
    yield 'visited pairs of the right precede the rest of the left', z3.Implies(z3.And(j > 0, i < znum(l.n)), z3.Select(r.cols[0], j - 1) < z3.Select(l.cols[0], i))
def mx(a, b): return z3.If(a >= b, a, b)
def mn(a, b): return z3.If(a <= b, a, b)
VAR2 = lambda s, L: znum(A0(s, L).n) - znum(L.v('itleft').i) + znum(A1(s, L).n) - znum(L.v('itright').i)
def pos2(l, i, r, j): return 'positions', z3.And(i >= 0, i <= znum(l.n), j >= 0, j <= znum(r.n))
def inv_lcm(s, L):
    l, r = A0(s, L), A1(s, L); i, j = znum(L.v('itleft').i), znum(L.v('itright').i)
    yield pos2(l, i, r, j); yield from frontier(l, i, r, j)
    yield from out_inv(s, L.v('newExps'), lambda x: mx(xe(l, i, x), xe(r, j, x)), None, [(l, i), (r, j)])
    yield 'something is listed once something was visited', z3.Implies(i + j > 0, znum(L.v('newExps').n) > 0)
    yield 'degree left to place', znum(L.v('expsum')) == sm(L.v('newExps'), L.v('newExps').n) + sm(l, l.n) - sm(l, i) + sm(r, r.n) - sm(r, j)
def inv_gcd(s, L):
    l, r = A0(s, L), A1(s, L); i, j = znum(L.v('itleft').i), znum(L.v('itright').i)
    yield pos2(l, i, r, j); yield from frontier(l, i, r, j)
    yield from out_inv(s, L.v('newExps'), lambda x: mn(xe(l, i, x), xe(r, j, x)), znum(L.v('expsum')), [(l, i), (r, j)])
H2 = h_at((A0, 'itleft'), (A1, 'itright'))
LCM = Loop(inv=inv_lcm, begin=entry(), havoc=H2, variant=VAR2)
GCDL = Loop(inv=inv_gcd, begin=entry(), havoc=H2, variant=VAR2)
for na in (False, True):
    for nb in (False, True):
        @unit(f'lcm_{int(na)}{int(nb)}', 'c08.lcm', loops={'lcm': LCM})
        def _(ex, na=na, nb=nb):
            a = ARG(ex, 'a', na); b = ARG(ex, 'b', nb); r = R(ex, 'm_lcm', a, b)
            ex.prove('the lcm of ones is one', isnull(r) == (na and nb)); ex.prove('lcm takes maxima', E_(ex, r) == mx(E_(ex, a), E_(ex, b)))
@unit('gcd', 'c08.gcd', loops={'gcd': GCDL})
def _(ex):
    a = MON(ex, 'a'); b = MON(ex, 'b'); r = R(ex, 'm_gcd', a, b); ex.prove('gcd takes minima', E_(ex, r) == mn(E_(ex, a), E_(ex, b)))
# ------------------------------------------------------------------ division
def inv_div(out):
    def inv(s, L):
        l, r = A0(s, L), A1(s, L); i = znum(L.v('itleft').i) if out else znum(L.k); j = znum(L.v('itright').i)
        yield pos2(l, i, r, j); yield list(frontier(l, i, r, j))[0]
        for x in [GX(s)]: yield 'every visited exponent suffices', xe(l, i, x) >= xe(r, j, x)
        if out: yield from out_inv(s, L.v('newExps'), lambda x: xe(l, i, x) - xe(r, j, x), sm(l, i) - sm(r, j), [(l, i)])
        if not out: yield 'visited part of the divisor precedes the rest', list(frontier(l, i, r, j))[1][1]
    return inv
def h_div(out):
    def h(s, L):
        l, r = A0(s, L), A1(s, L); i = znum(L.v('itleft').i) if out else znum(L.k); j = znum(L.v('itright').i)
        at_(s, l, i); at_(s, r, j)
        w = z3.Select(r.cols[0], j); s.ghost['w'] = w
        wit(s, l, i, w); wit(s, r, j, w)
        if out: base(s, L.v('newExps'))
    return h
def b_div(s, L):
    for v in s.ghost['ms']: base(s, v)
    if L.has('newExps'): base(s, L.v('newExps'))
DIV = Loop(inv=inv_div(True), begin=b_div, havoc=h_div(True)); DVS = Loop(inv=inv_div(False), begin=b_div, havoc=h_div(False))
def lemma_divisor(ex, l, r):
    """lemma_divisor: unless some variable w0 has a larger exponent in r, r has at most the degree and the number of variables of l"""
    w = ex.fresh('w0', 'int'); ex.ghost['w0'] = w
    ex.assume(z3.Or(xe(r, r.n, w) > xe(l, l.n, w), z3.And(sm(r, r.n) <= sm(l, l.n), znum(r.n) <= znum(l.n))))
    for v in (l, r): ex.assume(bounds_(v, v.n, w))
@unit('lemma_divisor')
def _(ex):
    # p(j): position in l of the j-th variable of r; it exists because the exponent in l is at least the positive one in r (lemma_occurs)
    l = flist(ex); r = flist(ex); P = z3.Function('P', z3.IntSort(), z3.IntSort()); j = ex.fresh('j', 'int'); L, E2 = l.cols, r.cols
    q = z3.Int('q!p'); ex.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < znum(r.n)), z3.And(P(q) >= 0, P(q) < znum(l.n), z3.Select(L[0], P(q)) == z3.Select(E2[0], q), z3.Select(L[1], P(q)) >= z3.Select(E2[1], q)))))
    base(ex, l); base(ex, r)
    st = lambda j: z3.And(P(j) >= j, SM(E2[1], j + 1) <= SM(L[1], P(j) + 1))
    mono_ = lambda a, b: z3.Implies(z3.And(0 <= a, a <= b, b <= znum(l.n)), SM(L[1], a) <= SM(L[1], b))      # lemma_bounds
    ex.assume(z3.And(j >= 0, j + 1 < znum(r.n)))
    unfold(ex, l, P(j)); unfold(ex, l, P(j + 1)); unfold(ex, l, P(0)); unfold(ex, r, j); unfold(ex, r, j + 1); unfold(ex, r, 0)
    ex.assume(z3.And(mono_(Iv(0), P(0)), mono_(P(j) + 1, P(j + 1))))
    ex.prove('base', st(Iv(0))); ex.assume(st(j)); ex.prove('positions increase', P(j) < P(j + 1)); ex.prove('step', st(j + 1))
@unit('lemma_divisor_end')
def _(ex):
    l = flist(ex); r = flist(ex); p = ex.fresh('p', 'int'); m = znum(r.n)
    ex.assume(z3.And(m >= 1, p >= m - 1, p < znum(l.n), sm(r, m) <= SM(l.cols[1], p + 1), SM(l.cols[1], p + 1) <= sm(l, l.n)))
    ex.prove('no more variables', m <= znum(l.n)); ex.prove('no greater degree', sm(r, m) <= sm(l, l.n))
@unit('lemma_occurs')
def _(ex):
    # a positive exponent of x means x is listed (contrapositive by induction: not listed -> 0), and the listed exponent is the exponent
    v = flist(ex); x = GX(ex); k = ex.fresh('k', 'int'); q = z3.Int('q!o'); base(ex, v)
    ex.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < znum(v.n)), z3.Select(v.cols[0], q) != x)))
    ex.prove('base', xe(v, 0, x) == 0); ex.assume(z3.And(k >= 0, k < znum(v.n), xe(v, k, x) == 0)); unfold(ex, v, k); ex.prove('step', xe(v, k + 1, x) == 0)
@unit('lemma_listed')
def _(ex):
    v = flist(ex); k = ex.fresh('k', 'int'); ex.assume(z3.And(k >= 0, k < znum(v.n))); x = z3.Select(v.cols[0], k); wit(ex, v, k, x)
    ex.prove('the exponent of a listed variable is the one listed with it', xe(v, v.n, x) == z3.Select(v.cols[1], k))
def null_res(ex):
    l = ex.alloc(NULL, 'res'); t = [i for i, t in enumerate(ex.p.types) if t['s'] == 'std::shared_ptr<const carl::Monomial>']
    if t: ex.atypes[l.addr] = t[0]
    return l
def failed(ex, a, b):
    ws = [w for w in (ex.ghost.get('w'), ex.ghost.get('w0')) if w is not None]
    return z3.Or(*[E_(ex, a, w) < E_(ex, b, w) for w in ws])
@unit('divide', 'c08.div', loops={'divide': DIV}, merge=False)
def _(ex):
    a = MON(ex, 'a'); b = MON(ex, 'b'); lemma_divisor(ex, C(ex, a), C(ex, b)); res = null_res(ex)
    ok = ex.branch(ex.condval(R(ex, 'm_div', a, b, res)))
    if ok:
        r = ex.read(res); ex.prove('exponents are subtracted', E_(ex, r) == E_(ex, a) - E_(ex, b)); ex.prove('division succeeds only if every exponent suffices', E_(ex, a) >= E_(ex, b)); ex.prove('degree of the quotient', D_(ex, r) == D_(ex, a) - D_(ex, b))
    else: ex.prove('division fails only if some exponent does not suffice', failed(ex, a, b))
@unit('divide_one', 'c08.div')
def _(ex):
    a = MON(ex, 'a'); inp(ex, 'M', None); res = null_res(ex); ok = R(ex, 'm_div', a, NULL, res)
    ex.prove('dividing by one succeeds', zbool(ok)); ex.prove('and changes nothing', E_(ex, ex.read(res)) == E_(ex, a))
@unit('divisible', 'c08.divisible', loops={'divisible': DVS}, merge=False)
def _(ex):
    a = MON(ex, 'a'); b = MON(ex, 'b'); lemma_divisor(ex, C(ex, a), C(ex, b))
    if ex.branch(ex.condval(R(ex, 'm_divisible', a, b))): ex.prove('divisible only if every exponent suffices', E_(ex, a) >= E_(ex, b))
    else: ex.prove('not divisible only if some exponent does not suffice', failed(ex, a, b))
@unit('divisible_one', 'c08.divisible')
def _(ex): a = MON(ex, 'a'); inp(ex, 'M', None); ex.prove('divisible by one', zbool(R(ex, 'm_divisible', a, NULL)))
@unit('divide_var', 'c08.divv', merge=False)
def _(ex):
    a = MON(ex, 'a'); v = var(ex, 'v'); res = null_res(ex); ok = ex.branch(ex.condval(R(ex, 'm_divv', a, VR(v), res)))
    e = E_(ex, a, v)
    if ok:
        r = ex.read(res); ex.prove('the variable occurs', e >= 1); ex.prove('its exponent decreases by one', E_(ex, r) == E_(ex, a) - z3.If(GX(ex) == v, 1, 0))
    else: ex.assume(occurs_not(ex, C(ex, a), v)); ex.prove('fails only if the variable does not occur', e == 0)
def occurs_not(ex, v, x):
    q = z3.Int('q!n'); return z3.Implies(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < znum(v.n)), z3.Select(v.cols[0], q) != x)), xe(v, v.n, x) == 0)
# ------------------------------------------------------------------ products with variables
def inv_mulv(s, L):
    l = A0(s, L); k = znum(L.k); o = L.v('newExps'); ins = zbool(L.v('inserted')); v = s.ghost['v']
    yield from out_inv(s, o, lambda x: xe(l, k, x) + z3.If(z3.And(ins, x == v), 1, 0), sm(l, k) + z3.If(ins, 1, 0), [(l, k)])
    yield 'not placed: everything listed so far is smaller', z3.Implies(z3.And(z3.Not(ins), znum(o.n) > 0), z3.Select(o.cols[0], znum(o.n) - 1) < v)
    yield 'placed: everything to come is larger', z3.Implies(z3.And(ins, k < znum(l.n)), z3.Select(l.cols[0], k) > v)
def h_k(s, L):
    at_(s, A0(s, L), L.k); base(s, L.v('newExps'))
MULV = Loop(inv=inv_mulv, begin=entry(), havoc=h_k)
for root in ('m_mulv', 'm_vmul'):
    for na in (False, True):
        @unit(f'{root[2:]}_{int(na)}', 'c08.' + root[2:], loops={'operator*': MULV})
        def _(ex, root=root, na=na):
            if root == 'm_vmul': v = var(ex, 'v'); a = ARG(ex, 'a', na)
            else: a = ARG(ex, 'a', na); v = var(ex, 'v')
            ex.ghost['v'] = v; x = GX(ex); r = R(ex, root, *((VR(v), a) if root == 'm_vmul' else (a, VR(v))))
            ex.prove('never one', not isnull(r)); ex.prove('the exponent of the variable increases by one', E_(ex, r) == E_(ex, a) + z3.If(x == v, 1, 0)); ex.prove('degree increases by one', D_(ex, r) == D_(ex, a) + 1)
@unit('vv', 'c08.vv')
def _(ex):
    v = var(ex, 'v'); w = var(ex, 'w'); x = GX(ex); r = R(ex, 'm_vv', VR(v), VR(w)); ex.prove('product of two variables', E_(ex, r) == z3.If(x == v, 1, 0) + z3.If(x == w, 1, 0)); ex.prove('degree two', D_(ex, r) == 2)
@unit('vpow', 'c08.vpow')
def _(ex):
    v = var(ex, 'v'); e = ex.fresh('e', 'int'); ex.assume(e >= 0); inp(ex, 'int', e); x = GX(ex); r = R(ex, 'm_vpow', VR(v), e)
    ex.prove('power of a variable', E_(ex, r) == z3.If(x == v, e, 0))
# ------------------------------------------------------------------ maps over the exponents
def inv_map(fx, fs, extra=None):
    def inv(s, L):
        l = A0(s, L); k = znum(L.k); o = L.v('newExps'); i = z3.Int('i!m')
        yield 'one pair per visited pair', znum(o.n) == k
        yield 'with the same variable', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.Select(o.cols[0], i) == z3.Select(l.cols[0], i)))
        yield 'positive exponents', positive(o)
        yield 'exponents so far', fx(s, xe(l, k, GX(s)), xe(o, o.n, GX(s)))
        yield 'sum so far', fs(s, sm(l, k), sm(o, o.n), k, L)
        if extra: yield from extra(s, L)
    return inv
def odd_witness(ex, v):
    """lemma_parity: unless some exponent (at position o) is odd, the degree is even"""
    o = ex.fresh('odd', 'int'); ex.ghost['odd'] = o
    ex.assume(z3.Or(z3.And(o >= 0, o < znum(v.n), z3.Select(v.cols[1], o) % 2 == 1), sm(v, v.n) % 2 == 0))
    return o
@unit('lemma_parity')
def _(ex):
    v = flist(ex); k = ex.fresh('k', 'int'); q = z3.Int('q!e'); base(ex, v)
    ex.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < znum(v.n)), z3.Select(v.cols[1], q) % 2 == 0)))
    ex.prove('base', sm(v, 0) % 2 == 0); ex.assume(z3.And(k >= 0, k < znum(v.n), sm(v, k) % 2 == 0)); unfold(ex, v, k); ex.prove('step', sm(v, k + 1) % 2 == 0)
def odd_at(ex, v, o):
    o = znum(o); w = z3.Select(v.cols[0], o); wit(ex, v, o, w); return z3.And(o >= 0, o < znum(v.n), xe(v, v.n, w) % 2 == 1)
def h_sqrt(s, L): h_k(s, L); s.ghost['oddk'] = znum(L.k)
SQRT = Loop(inv=inv_map(lambda s, a, b: a == 2 * b, lambda s, a, b, k, L: a == 2 * b), begin=entry(), havoc=h_sqrt)
@unit('sqrt', 'c08.sqrt', loops={'sqrt': SQRT}, merge=False)
def _(ex):
    a = MON(ex, 'a'); v = C(ex, a); o = odd_witness(ex, v); r = R(ex, 'm_sqrt', a)
    if isnull(r): ex.prove('no square root only if some exponent is odd', z3.Or(*[odd_at(ex, v, p) for p in (o, ex.ghost.get('oddk')) if p is not None]))
    else: ex.prove('a square root has half the exponents', 2 * E_(ex, r) == E_(ex, a))
@unit('square', 'c08.square', merge=False)
def _(ex):
    a = MON(ex, 'a'); v = C(ex, a); o = odd_witness(ex, v); x = GX(ex); r = ex.branch(ex.condval(R(ex, 'm_square', a)))
    if not r: ex.prove('no square only if some exponent is odd', z3.Or(*[odd_at(ex, v, p) for p in (o, ex.ghost.get('found')) if p is not None]))
    else:
        # lemma_even (same induction as lemma_parity, for the exponent of x)
        q = z3.Int('q!e'); ex.assume(z3.Implies(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < znum(v.n)), z3.Select(v.cols[1], q) % 2 == 0)), xe(v, v.n, x) % 2 == 0))
        ex.prove('a square has even exponents', E_(ex, a) % 2 == 0)
@unit('lemma_even')
def _(ex):
    v = flist(ex); x = GX(ex); k = ex.fresh('k', 'int'); q = z3.Int('q!e'); base(ex, v)
    ex.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < znum(v.n)), z3.Select(v.cols[1], q) % 2 == 0)))
    ex.prove('base', xe(v, 0, x) % 2 == 0); ex.assume(z3.And(k >= 0, k < znum(v.n), xe(v, k, x) % 2 == 0)); unfold(ex, v, k); ex.prove('step', xe(v, k + 1, x) % 2 == 0)
SEP = Loop(inv=inv_map(lambda s, a, b: z3.And(a >= 0, b == z3.If(a > 0, 1, 0)), lambda s, a, b, k, L: b == k), begin=entry(), havoc=h_k)
@unit('sep', 'c08.sep', loops={'separable_part': SEP})
def _(ex):
    a = MON(ex, 'a'); r = R(ex, 'm_sep', a); ex.prove('the separable part has exponent one where the monomial has a positive one', E_(ex, r) == z3.If(E_(ex, a) > 0, 1, 0))
def cong(s, L):
    l = A0(s, L); k = znum(L.k); e = s.ghost['e']; x = GX(s)
    for a, t in ((xe(l, k + 1, x), xe(l, k, x) + z3.If(z3.Select(l.cols[0], k) == x, z3.Select(l.cols[1], k), 0)), (sm(l, k + 1), sm(l, k) + z3.Select(l.cols[1], k))):
        s.assume(z3.Implies(a == t, a * e == t * e))
    s.assume(z3.Implies(z3.And(z3.Select(l.cols[1], k) > 0, e > 0), z3.Select(l.cols[1], k) * e > 0))
def h_pow(s, L): h_k(s, L); cong(s, L)
POW = Loop(inv=inv_map(lambda s, a, b: b == a * s.ghost['e'], lambda s, a, b, k, L: z3.And(b == a * s.ghost['e'], znum(L.v('expsum')) == b)), begin=entry(), havoc=h_pow)
for na in (False, True):
    @unit(f'pow_{int(na)}', 'c08.pow', loops={'pow': POW})
    def _(ex, na=na):
        a = ARG(ex, 'a', na); e = ex.fresh('e', 'int'); ex.assume(e >= 0); inp(ex, 'int', e); ex.ghost['e'] = e; r = R(ex, 'm_pow', a, e)
        ex.prove('the power multiplies the exponents', E_(ex, r) == E_(ex, a) * e)
# ------------------------------------------------------------------ variable removal, derivative
@unit('drop', 'c08.drop', merge=False)
def _(ex):
    a = MON(ex, 'a'); v = var(ex, 'v'); x = GX(ex); r = R(ex, 'm_drop', a, VR(v)); ex.assume(occurs_not(ex, C(ex, a), v))
    ex.prove('the variable is removed, the rest stays', E_(ex, r) == z3.If(x == v, 0, E_(ex, a)))
FF = z3.Function('FF', z3.IntSort(), z3.IntSort(), z3.IntSort())
def k_ff(ex, f, this, args, node): return FF(*[znum(ex.val(a)) for a in args])
def inv_der(s, L):
    l = A0(s, L); k = znum(L.k); o = L.v('newExps'); v = s.ghost['v']; x = GX(s); i = z3.Int('i!m')
    yield from out_inv(s, o, lambda x: z3.If(x == v, 0, xe(l, k, x)), sm(l, k) - XE(v, l.cols[0], l.cols[1], k), [(l, k)])
    yield 'some pair is kept once another variable was seen', z3.Implies(z3.Or(k >= 2, z3.And(k >= 1, z3.Select(l.cols[0], 0) != v)), znum(o.n) >= 1)
def b_der(s, L):
    entry()(s, L); f = s.ghost.get('found')
    if f is not None: at_(s, A0(s, L), f)
DER = Loop(inv=inv_der, begin=b_der, havoc=h_k)
for na in (False, True):
    @unit(f'der_{int(na)}', 'c08.der', loops={'derivative': DER}, contracts={'carl::detail_derivative::multiply': k_ff}, merge=False)
    def _(ex, na=na):
        a = ARG(ex, 'a', na); v = var(ex, 'v'); n = ex.fresh('n', 'int'); ex.assume(n >= 0); inp(ex, 'int', n); x = GX(ex); ex.ghost['v'] = v; ex.ghost.setdefault('xs', []).append(v)
        r = ex.val(R(ex, 'm_der', a, VR(v), n))
        fac, m = znum(ex.val(r.items[0])), r.items[1]
        if not na: ex.assume(occurs_not(ex, C(ex, a), v)); fnd = ex.ghost.get('found'); fnd is not None and at_(ex, C(ex, a), fnd)
        e = E_(ex, a, v)
        ex.prove('order zero changes nothing', z3.Implies(n == 0, z3.And(fac == 1, E_(ex, m) == E_(ex, a))))
        ex.prove('vanishes exactly beyond the exponent', z3.Implies(z3.And(n > 0, n > e), fac == 0))
        ex.prove('factor', z3.Implies(z3.And(n > 0, n <= e), fac == FF(e, n)))
        ex.prove('the exponent decreases by the order', z3.Implies(n <= e, E_(ex, m) == E_(ex, a) - z3.If(x == v, n, 0)))
# ------------------------------------------------------------------ queries
@unit('queries', 'c08.queries', merge=False)
def _(ex):
    a = MON(ex, 'a'); c = C(ex, a); v = var(ex, 'v'); x = GX(ex); e = E_(ex, a, v); n = znum(c.n); D = D_(ex, a)
    got = R(ex, 'm_exp', a, VR(v)); ex.assume(occurs_not(ex, c, v)); ex.prove('exponent of a variable', znum(got) == e)
    h = R(ex, 'm_has', a, VR(v)); ex.prove('occurrence of a variable', IFF(zbool(h), e > 0))
    ex.assume(bounds_(c, 1, x)); ex.assume(bounds_(c, 1, v)); base(ex, c); unfold(ex, c, 0)
    ex.prove('total degree', znum(R(ex, 'm_tdeg', a)) == D); ex.prove('constant', z3.Not(zbool(R(ex, 'm_const', a)))); ex.prove('never constant (free function)', z3.Not(zbool(R(ex, 'm_isconst', a))))
    ex.prove('linear iff degree one', IFF(zbool(R(ex, 'm_lin', a)), D == 1)); ex.prove('at most linear', IFF(zbool(R(ex, 'm_alin', a)), D <= 1)); ex.prove('linear (free function)', IFF(zbool(R(ex, 'm_islin', a)), D == 1))
    ex.prove('number of variables', znum(R(ex, 'm_nvars', a)) == n)
    ex.assume(z3.Implies(n == 1, z3.And(after(c, 1, x), before(c, 0, x), xe(c, 1, x) == z3.If(z3.Select(c.cols[0], 0) == x, z3.Select(c.cols[1], 0), 0))))
    no = zbool(R(ex, 'm_noother', a, VR(v))); ex.prove('no other variable', IFF(no, z3.And(n == 1, z3.Select(c.cols[0], 0) == v))); ex.prove('no other variable has an exponent', z3.Implies(z3.And(no, x != v), E_(ex, a) == 0))
def inv_cons(s, L):
    l = A0(s, L); yield 'sum so far', znum(L.v('tdegree')) == sm(l, L.k)
@unit('consistent', 'c08.queries', loops={'isConsistent': Loop(inv=inv_cons, begin=lambda s, L: base(s, A0(s, L)), havoc=lambda s, L: at_(s, A0(s, L), L.k))},
      contracts={'std::is_sorted': lambda ex, f, this, args, node: k_is_sorted(ex, f, this, args, node)})
def _(ex): a = MON(ex, 'a'); ex.prove('a well-formed monomial is consistent', zbool(R(ex, 'm_consistent', a)))
def k_is_sorted(ex, f, this, args, node):
    b, e = ex.val(args[0]), ex.val(args[1]); j = ex.fresh('pos', 'int'); i = z3.Int('i!so')
    c = zbool(ex.condval(ex.val(ex.call_closure(ex.val(args[2]), [b.c.sub(('[]', j + 1)), b.c.sub(('[]', j))], node))))
    return z3.ForAll([i], z3.Implies(z3.And(i >= znum(b.i), i + 1 < znum(e.i)), z3.Not(z3.substitute(c, (j, i)))))
# ------------------------------------------------------------------ callers against the contracts of lcm, divide, product, square root (proved above)
def fresh_m(ex, name):
    v = content(ex, name, False); m = mono(ex, v, name); base(ex, v)
    for x in XS(ex): ex.assume(bounds_(v, v.n, x))
    return m
def karg(ex, a): return ptr_of(ex, a)
def pointwise(name, fx, one):
    def k(ex, f, this, args, node):
        a, b = karg(ex, args[0]), karg(ex, args[1])
        if one(a, b): return NULL
        r = fresh_m(ex, name)
        fact = lambda x: ex.assume(z3.And(E_(ex, r, x) == fx(E_(ex, a, x), E_(ex, b, x)), E_(ex, a, x) >= 0, E_(ex, b, x) >= 0))
        for x in XS(ex): fact(x)
        ex.ghost.setdefault('pointwise', []).append(fact)      # holds for every variable: instantiated again at later witnesses
        return r
    return k
both = lambda a, b: isnull(a) and isnull(b)
k_lcm = pointwise('lcm', mx, both)
def k_mmul(ex, f, this, args, node):
    if not all('shared_ptr' in ex.p.types[p['t']]['s'] for p in f['p']): return NotImplemented
    a, b = karg(ex, args[0]), karg(ex, args[1])
    if isnull(a): return b
    if isnull(b): return a
    return pointwise('prod', lambda a, b: a + b, both)(ex, f, this, args, node)
def k_mdivide(ex, f, this, args, node):
    if 'Variable' in ex.p.types[f['p'][0]['t']]['s']:
        v = ex.val(args[0]).f['mContent']; l = this; ev = lambda x: z3.If(x == v, 1, 0)
    else:
        b = karg(ex, args[0]); l = this; ev = lambda x: E_(ex, b, x)
        if isnull(b): ex.write(args[1], this); return True
    w = ex.fresh('wdiv', 'int'); ex.ghost['w'] = w
    for fact in ex.ghost.get('pointwise', []): fact(w)
    ok = ex.fresh('divides', 'bool')
    if not ex.branch(ok): ex.assume(E_(ex, l, w) < ev(w)); return False
    one = ex.fresh('quotient_is_one', 'bool')
    r = NULL if ex.branch(one) else fresh_m(ex, 'quot')
    for x in XS(ex) + [w]: ex.assume(E_(ex, r, x) == E_(ex, l, x) - ev(x)); ex.assume(E_(ex, r, x) >= 0)
    ex.write(args[1], r); return True
def k_mdivisible(ex, f, this, args, node):
    b = karg(ex, args[0])
    if isnull(b): return True
    w = ex.fresh('wdiv', 'int'); ex.ghost['w'] = w
    if not ex.branch(ex.fresh('divides', 'bool')): ex.assume(E_(ex, this, w) < E_(ex, b, w)); return False
    for x in XS(ex): ex.assume(E_(ex, this, x) >= E_(ex, b, x))
    return True
def k_msqrt(ex, f, this, args, node):
    w = ex.fresh('wodd', 'int'); ex.ghost['w'] = w
    if not ex.branch(ex.fresh('square', 'bool')): ex.assume(E_(ex, this, w) % 2 == 1); return NULL
    r = fresh_m(ex, 'root')
    for x in XS(ex): ex.assume(2 * E_(ex, r, x) == E_(ex, this, x))
    return r
KT = {'carl::Monomial::lcm': k_lcm, 'carl::Monomial::divide': k_mdivide, 'carl::Monomial::divisible': k_mdivisible, 'carl::Monomial::sqrt': k_msqrt, 'carl::operator*': k_mmul}
for na in (False, True):
    for nb in (False, True):
        @unit(f'lcmdiv_{int(na)}{int(nb)}', 'c08.lcmdiv', contracts=KT)
        def _(ex, na=na, nb=nb):
            a = ARG(ex, 'a', na); b = ARG(ex, 'b', nb); GX(ex); r = R(ex, 'm_lcmdiv', a, b); w = ex.ghost.get('w')
            if not nb and w is not None: ex.prove('the lcm is divisible', True)
            ex.prove('lcm divided by the second', E_(ex, r) == mx(E_(ex, a), E_(ex, b)) - E_(ex, b))
def TERM(ex, name, null, nz=False):
    c = ex.fresh(name + '_c', 'real'); inp(ex, 'Q', c); m = ARG(ex, name, null)
    if nz: ex.assume(c != 0)
    return ex.alloc(Rec('carl::Term', {'mCoeff': c, 'mMonomial': m}), name)
def tc(ex, t): t = ex.val(t); return t.f['mCoeff']
def tm(ex, t): t = ex.val(t); return t.f['mMonomial']
def res_term(ex):
    l = ex.alloc(Rec('carl::Term', {'mCoeff': Fraction(0), 'mMonomial': NULL}), 'tres'); t = [i for i, t in enumerate(ex.p.types) if t['s'] == 'carl::Term<mpq_class>' or t['s'].startswith('carl::Term<__gmp_expr')]
    if t: ex.atypes[l.addr] = t[0]
    return l
for na in (False, True):
    tag = 'const' if na else 'mono'
    @unit(f'term_divv_{tag}', 'c08.t_divv', contracts=KT)
    def _(ex, na=na):
        a = TERM(ex, 'a', na); v = var(ex, 'v'); x = GX(ex); r = res_term(ex); ok = ex.branch(ex.condval(R(ex, 't_divv', a, VR(v), r))); m = tm(ex, a)
        if ok: ex.prove('coefficient stays', tc(ex, r) == tc(ex, a)); ex.prove('exponent decreases', E_(ex, tm(ex, r)) == E_(ex, m) - z3.If(x == v, 1, 0))
        else: w = ex.ghost.get('w', v); ex.prove('fails only if the variable does not occur', E_(ex, m, w) < z3.If(w == v, 1, 0))
    for nb in (False, True):
        for root in ('t_divm', 't_divt'):
            @unit(f'{root}_{int(na)}{int(nb)}', 'c08.' + root, contracts=KT)
            def _(ex, na=na, nb=nb, root=root):
                a = TERM(ex, 'a', na)
                if root == 't_divm': b = bm = ARG(ex, 'b', nb); bc = 1
                else: b = TERM(ex, 'b', nb, True); bm = tm(ex, b); bc = tc(ex, b)
                GX(ex); r = res_term(ex); ok = ex.branch(ex.condval(R(ex, root, a, b, r))); m = tm(ex, a)
                if ok: ex.prove('coefficients are divided', zreal(tc(ex, r)) * bc == zreal(tc(ex, a))); ex.prove('exponents are subtracted', E_(ex, tm(ex, r)) == E_(ex, m) - E_(ex, bm))
                else:
                    ex.prove('dividing by a constant never fails', not nb); w = ex.ghost.get('w')
                    if w is not None: ex.prove('fails only if some exponent does not suffice', E_(ex, m, w) < E_(ex, bm, w))
                    else: ex.prove('fails only on a constant dividend', na)
        @unit(f't_divisible_{int(na)}{int(nb)}', 'c08.t_divisible', contracts=KT)
        def _(ex, na=na, nb=nb):
            a = TERM(ex, 'a', na); b = TERM(ex, 'b', nb, True); GX(ex); ok = ex.branch(ex.condval(R(ex, 't_divisible', a, b)))
            if ok: ex.prove('divisible only if every exponent suffices', z3.Or(E_(ex, tm(ex, a)) >= E_(ex, tm(ex, b)), na and not nb)); ex.prove('a constant is not divisible by a monomial', not (na and not nb))
            else: ex.prove('every term is divisible by a constant', not nb)
        @unit(f't_mul_{int(na)}{int(nb)}', 'c08.t_mul', contracts=KT)
        def _(ex, na=na, nb=nb):
            a = TERM(ex, 'a', na); b = TERM(ex, 'b', nb); GX(ex); r = R(ex, 't_mul', a, b)
            ex.prove('coefficients multiply', zreal(tc(ex, r)) == zreal(tc(ex, a)) * zreal(tc(ex, b)))
            ex.prove('exponents add (unless the product is zero)', z3.Or(zreal(tc(ex, r)) == 0, E_(ex, tm(ex, r)) == E_(ex, tm(ex, a)) + E_(ex, tm(ex, b))))
    @unit(f't_unary_{tag}', 'c08.t_unary', contracts=KT)
    def _(ex, na=na):
        a = TERM(ex, 'a', na); c = ex.fresh('c', 'real'); inp(ex, 'Q', c); GX(ex); r = R(ex, 't_neg', a)
        ex.prove('negation', zreal(tc(ex, r)) == -tc(ex, a)); ex.prove('negation keeps the monomial', E_(ex, tm(ex, r)) == E_(ex, tm(ex, a)))
        r = R(ex, 't_mulc', a, ex.alloc(c)); ex.prove('multiple', zreal(tc(ex, r)) == tc(ex, a) * c); ex.prove('multiple keeps the monomial unless zero', z3.Or(zreal(tc(ex, r)) == 0, E_(ex, tm(ex, r)) == E_(ex, tm(ex, a))))
# ================================================================== C09: orders
# less(a, b): lower degree, or equal degree and at some variable w the exponent of a is larger while all smaller variables y agree.
# equal(a, b): same degree, same exponent of every variable.  Ids: two pooled monomials have the same id iff their contents agree (C21).
class VarM:
    def __init__(self, v): self.v = v
def ex9(ex, m, x):
    if isinstance(m, VarM): return z3.If(x == m.v, 1, 0)
    return E_(ex, m, x)
def dg9(ex, m): return Iv(1) if isinstance(m, VarM) else D_(ex, m)
def wits(ex): return ex.ghost.get('ws', [])
def less9(ex, a, b):
    y = GX(ex)
    return z3.Or(dg9(ex, a) < dg9(ex, b), z3.And(dg9(ex, a) == dg9(ex, b), z3.Or(*[z3.And(ex9(ex, a, w) > ex9(ex, b, w), z3.Implies(y < w, ex9(ex, a, y) == ex9(ex, b, y))) for w in wits(ex)])))
def equal9(ex, a, b):
    y = GX(ex); return z3.And(dg9(ex, a) == dg9(ex, b), ex9(ex, a, y) == ex9(ex, b, y))
def pool_fact(ex, a, b):
    """identity of pooled monomials (C21), and the facts of a single linear variable"""
    for m in (a, b):
        if isinstance(m, Loc):
            c = C(ex, m); base(ex, c)
            for x in [GX(ex)] + wits(ex): wit(ex, c, 0, x); ex.assume(bounds_(c, c.n, x)); ex.assume(bounds_(c, 1, x))
            unfold(ex, c, 0)
    if isinstance(a, Loc) and isinstance(b, Loc):
        l, r = C(ex, a), C(ex, b); i = z3.Int('i!pf'); p = ex.fresh('differ', 'int'); ia, ib = ex.read(a).f['mId'], ex.read(b).f['mId']
        ex.assume(z3.Implies(ia == ib, z3.And(znum(l.n) == znum(r.n), sm(l, l.n) == sm(r, r.n), xe(l, l.n, GX(ex)) == xe(r, r.n, GX(ex)), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < znum(l.n)), z3.And(*[z3.Select(l.cols[k], i) == z3.Select(r.cols[k], i) for k in (0, 1)]))))))
        ex.assume(z3.Implies(ia != ib, z3.Or(znum(l.n) != znum(r.n), z3.And(p >= 0, p < znum(l.n), z3.Or(*[z3.Select(l.cols[k], p) != z3.Select(r.cols[k], p) for k in (0, 1)])))))
def side(s, L, n):
    m = L.v(n)
    if isinstance(m, Loc): m = s.read(m)
    return m.f['mExponents']
def inv_lex(s, L):
    l, r = side(s, L, 'lhs'), side(s, L, 'rhs'); i, j = znum(L.v('lhsit').i), znum(L.v('rhsit').i); t = z3.Int('t!lx')
    yield 'both lists are visited in step', z3.And(i == j, i >= 0, i <= znum(l.n), j <= znum(r.n))
    yield 'visited pairs agree', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < i), z3.And(*[z3.Select(l.cols[k], t) == z3.Select(r.cols[k], t) for k in (0, 1)])))
    yield 'visited exponents agree', z3.And(xe(l, i, GX(s)) == xe(r, j, GX(s)), sm(l, i) == sm(r, j))
def h_lex(s, L):
    l, r = side(s, L, 'lhs'), side(s, L, 'rhs'); i, j = znum(L.v('lhsit').i), znum(L.v('rhsit').i)
    lv, rv = z3.Select(l.cols[0], i), z3.Select(r.cols[0], j)
    w = z3.If(i >= znum(l.n), rv, z3.If(j >= znum(r.n), lv, z3.If(lv < rv, lv, rv))); s.ghost.setdefault('ws', []).append(w); s.ghost['pos'] = i
    at_(s, l, i); at_(s, r, j); wit(s, l, i, w); wit(s, r, j, w)
    # last pairs visited (agree by the invariant)
    s.assume(z3.Implies(z3.And(i > 0, i < znum(l.n)), z3.Select(l.cols[0], i - 1) < lv)); s.assume(z3.Implies(z3.And(j > 0, j < znum(r.n)), z3.Select(r.cols[0], j - 1) < rv))
def b_lex(s, L): base(s, side(s, L, 'lhs')); base(s, side(s, L, 'rhs'))
LEX = Loop(inv=inv_lex, begin=b_lex, havoc=h_lex, variant=lambda s, L: znum(side(s, L, 'lhs').n) - znum(L.v('lhsit').i))
def unit9(name, op, **kw): return unit('order.' + name, op, prop='C09', loops={'lexicalCompare': LEX}, merge=False, **kw)
CR = {'LESS': -1, 'EQUAL': 0, 'GREATER': 1}
def cres(ex, r): return znum(r)
def prove_cmp(ex, r, a, b):
    r = znum(r)
    ex.prove('one of less, equal, greater', z3.Or(r == -1, r == 0, r == 1))
    ex.prove('less', z3.Implies(r == -1, less9(ex, a, b))); ex.prove('greater', z3.Implies(r == 1, less9(ex, b, a))); ex.prove('equal', z3.Implies(r == 0, equal9(ex, a, b)))
def prove_rel(ex, op, r, a, b):
    r = zbool(r); L_, G_, E9 = less9(ex, a, b), less9(ex, b, a), equal9(ex, a, b)
    yes, no = {'lt': (L_, z3.Or(G_, E9)), 'le': (z3.Or(L_, E9), G_), 'gt': (G_, z3.Or(L_, E9)), 'ge': (z3.Or(G_, E9), L_), 'eq': (E9, z3.Or(L_, G_)), 'ne': (z3.Or(L_, G_), E9)}[op]
    ex.prove('true only if the relation holds', z3.Implies(r, yes)); ex.prove('false only if it does not', z3.Implies(z3.Not(r), no))
def two(ex, na, nb):
    a = ARG(ex, 'a', na); b = ARG(ex, 'b', nb); pool_fact(ex, a, b); return a, b
def diff_wit(ex, a, b):
    """for (in)equality only: two different monomials of equal degree differ at some variable (any first difference is a witness of one direction)"""
    if isinstance(a, Loc) and isinstance(b, Loc):
        l, r = C(ex, a), C(ex, b); w = ex.fresh('first_difference', 'int'); y = GX(ex); ia, ib = ex.read(a).f['mId'], ex.read(b).f['mId']
        # lemma_first: contents that differ have a smallest variable with different exponents
        ex.assume(z3.Implies(ia != ib, z3.And(xe(l, l.n, w) != xe(r, r.n, w), z3.Implies(y < w, xe(l, l.n, y) == xe(r, r.n, y))))); ex.ghost.setdefault('ws', []).append(w)
def same_obj(ex, a): return ex.ghost.get('same')
for na in (False, True):
    for nb in (False, True):
        t = f'{int(na)}{int(nb)}'
        @unit9('gr_' + t, 'c09.cmp')
        def _(ex, na=na, nb=nb): a, b = two(ex, na, nb); prove_cmp(ex, R(ex, 'o_gr', a, b), a, b)
        for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            @unit9(f'{op}_{t}', 'c09.rel')
            def _(ex, na=na, nb=nb, op=op):
                inp(ex, 'str', op); a, b = two(ex, na, nb)
                if op in ('eq', 'ne'): diff_wit(ex, a, b)
                prove_rel(ex, op, R(ex, 'o_' + op, a, b), a, b)
        for root, op in (('o_sless', 'lt'), ('o_seq', 'eq'), ('o_grless', 'lt'), ('o_grequal', 'eq')):
            @unit9(f'{root}_{t}', 'c09.std')
            def _(ex, na=na, nb=nb, op=op, root=root):
                a, b = two(ex, na, nb)
                if op == 'eq': diff_wit(ex, a, b)
                prove_rel(ex, op, R(ex, root, a, b), a, b)
        @unit9('lex_' + t, 'c09.lex')
        def _(ex, na=na, nb=nb):
            a, b = two(ex, na, nb); r = znum(R(ex, 'o_lex', a, b)); ex.prove('one of less, equal, greater', z3.Or(r == -1, r == 0, r == 1))
            if na or nb: ex.prove('one is below every monomial', r == (0 if na and nb else -1 if na else 1)); return
            l, q = C(ex, a), C(ex, b); p = ex.ghost.get('pos'); k = z3.Int('t!lx')
            if p is None: ex.prove('equal lists', r == 0); ex.prove('equal', z3.Implies(r == 0, equal9(ex, a, b))); return
            ex.prove('the lists agree before the deciding position', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < p), z3.And(*[z3.Select(l.cols[c], k) == z3.Select(q.cols[c], k) for c in (0, 1)]))))
            lv, qv, le, qe = z3.Select(l.cols[0], p), z3.Select(q.cols[0], p), z3.Select(l.cols[1], p), z3.Select(q.cols[1], p); el, eq_ = p >= znum(l.n), p >= znum(q.n)
            ls = z3.Or(z3.And(el, z3.Not(eq_)), z3.And(z3.Not(el), z3.Not(eq_), z3.Or(lv < qv, z3.And(lv == qv, le > qe)))); gt_ = z3.Or(z3.And(eq_, z3.Not(el)), z3.And(z3.Not(el), z3.Not(eq_), z3.Or(lv > qv, z3.And(lv == qv, le < qe))))
            ex.prove('decided by the first difference', z3.And(IFF(r == -1, ls), IFF(r == 1, gt_)))
    @unit9(f'grv_{int(na)}', 'c09.var')
    def _(ex, na=na):
        a = ARG(ex, 'a', na); v = var(ex, 'v'); vw(ex, a, v); prove_cmp(ex, R(ex, 'o_grv', a, VR(v)), a, VarM(v))
    @unit9(f'lexv_{int(na)}', 'c09.var')
    def _(ex, na=na):
        a = ARG(ex, 'a', na); v = var(ex, 'v'); c = SVec(1, [z3.K(z3.IntSort(), v), z3.K(z3.IntSort(), Iv(1))], PSH); base(ex, c); unfold(ex, c, 0); m = mono(ex, c, 'v'); pool_fact(ex, a, m)
        ex.prove('agrees with comparing against the monomial of the variable', znum(R(ex, 'o_lexv', a, VR(v))) == znum(R(ex, 'o_lex', a, m)))
    for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        @unit9(f'{op}v_{int(na)}', 'c09.var')
        def _(ex, na=na, op=op): a = ARG(ex, 'a', na); v = var(ex, 'v'); vw(ex, a, v); prove_rel(ex, op, R(ex, f'o_{op}v', a, VR(v)), a, VarM(v))
        @unit9(f'v{op}_{int(na)}', 'c09.var')
        def _(ex, na=na, op=op): a = ARG(ex, 'a', na); v = var(ex, 'v'); vw(ex, a, v); prove_rel(ex, op, R(ex, f'o_v{op}', VR(v), a), VarM(v), a)
def vw(ex, a, v):
    ws = ex.ghost.setdefault('ws', []); ws.append(v)
    if isinstance(a, Loc): ws.append(z3.Select(C(ex, a).cols[0], 0))
    pool_fact(ex, a, None)
# ------------------------------------------------------------------ terms
def tless(ex, a, ca, b, cb): return z3.Or(less9(ex, a, b), z3.And(equal9(ex, a, b), ca < cb))
def prove_trel(ex, op, r, a, ca, b, cb):
    r = zbool(r); ca, cb = zreal(ca), zreal(cb); L_, G_, E9 = tless(ex, a, ca, b, cb), tless(ex, b, cb, a, ca), z3.And(equal9(ex, a, b), ca == cb)
    yes, no = {'lt': (L_, z3.Or(G_, E9)), 'le': (z3.Or(L_, E9), G_), 'gt': (G_, z3.Or(L_, E9)), 'ge': (z3.Or(G_, E9), L_), 'eq': (E9, z3.Or(L_, G_)), 'ne': (z3.Or(L_, G_), E9)}[op]
    ex.prove('true only if the relation holds', z3.Implies(r, yes)); ex.prove('false only if it does not', z3.Implies(z3.Not(r), no))
for na in (False, True):
    for nb in (False, True):
        t = f'{int(na)}{int(nb)}'
        for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            @unit9(f't{op}_{t}', 'c09.term')
            def _(ex, na=na, nb=nb, op=op):
                inp(ex, 'str', op); a = TERM(ex, 'a', na); b = TERM(ex, 'b', nb); ma, mb = tm(ex, a), tm(ex, b); pool_fact(ex, ma, mb)
                if op in ('eq', 'ne'): diff_wit(ex, ma, mb)
                prove_trel(ex, op, R(ex, 't_' + op, a, b), ma, tc(ex, a), mb, tc(ex, b))
        for root, op in (('o_grlesst', 'lt'), ('o_grequalt', 'eq'), ('t_moneq', 'eq'), ('t_monless', 'lt')):
            @unit9(f'{root}_{t}', 'c09.tmon')
            def _(ex, na=na, nb=nb, op=op, root=root):
                a = TERM(ex, 'a', na); b = TERM(ex, 'b', nb); ma, mb = tm(ex, a), tm(ex, b); pool_fact(ex, ma, mb)
                if op == 'eq': diff_wit(ex, ma, mb)
                prove_rel(ex, op, R(ex, root, a, b), ma, mb)
        for root, sw in (('t_ltm', False), ('t_mlt', True), ('t_eqm', False)):
            @unit9(f'{root}_{t}', 'c09.tmixed')
            def _(ex, na=na, nb=nb, root=root, sw=sw):
                a = TERM(ex, 'a', na); b = ARG(ex, 'b', nb); ma = tm(ex, a); pool_fact(ex, ma, b)
                if root == 't_eqm': diff_wit(ex, ma, b)
                if sw: prove_trel(ex, 'lt', R(ex, root, b, a), b, 1, ma, tc(ex, a))
                else: prove_trel(ex, root[2:4], R(ex, root, a, b), ma, tc(ex, a), b, 1)
    for root in ('t_ltv', 't_vlt', 't_eqv'):
        @unit9(f'{root}_{int(na)}', 'c09.tmixed2')
        def _(ex, na=na, root=root):
            a = TERM(ex, 'a', na); v = var(ex, 'v'); m = tm(ex, a); vw(ex, m, v)
            if root == 't_vlt': prove_trel(ex, 'lt', R(ex, root, VR(v), a), VarM(v), 1, m, tc(ex, a))
            else: prove_trel(ex, root[2:4], R(ex, root, a, VR(v)), m, tc(ex, a), VarM(v), 1)
    for root in ('t_ltc', 't_clt', 't_eqc'):
        @unit9(f'{root}_{int(na)}', 'c09.tmixed3')
        def _(ex, na=na, root=root):
            a = TERM(ex, 'a', na); c = ex.fresh('c', 'real'); inp(ex, 'Q', c); m = tm(ex, a); pool_fact(ex, m, None)
            if root == 't_clt': prove_trel(ex, 'lt', R(ex, root, ex.alloc(c), a), NULL, c, m, tc(ex, a))
            else: prove_trel(ex, root[2:4], R(ex, root, a, ex.alloc(c)), m, tc(ex, a), NULL, c)
# ------------------------------------------------------------------ the characterisation is a total order compatible with products
FX = lambda n: z3.Function(n, z3.IntSort(), z3.IntSort())
def lt_at(a, b, w):
    y = z3.Int('y!lt'); return z3.And(a(w) > b(w), z3.ForAll([y], z3.Implies(y < w, a(y) == b(y)), patterns=[a(y), b(y)] if False else []))
@unit9('theory', None)
def _(ex):
    a, b, c = FX('fa'), FX('fb'), FX('fc'); w, u = ex.fresh('w', 'int'), ex.fresh('u', 'int'); P = lambda *fs: (lambda x: sum((f(x) for f in fs[1:]), fs[0](x)))
    y = z3.Int('y!t')
    eqb = lambda f, g, w: z3.ForAll([y], z3.Implies(y < w, f(y) == g(y)))
    ex.assume(z3.And(a(w) > b(w), eqb(a, b, w)))
    ex.prove('asymmetric', z3.Not(z3.And(b(u) > a(u), eqb(b, a, u))))
    ex.prove('irreflexive', z3.Not(z3.ForAll([y], a(y) == b(y))))
    ex.prove('compatible with products', z3.And(a(w) + c(w) > b(w) + c(w), eqb(lambda x: a(x) + c(x), lambda x: b(x) + c(x), w)))
    ex.assume(z3.And(b(u) > c(u), eqb(b, c, u))); m = z3.If(w < u, w, u)
    ex.prove('transitive', z3.And(a(m) > c(m), eqb(a, c, m)))
@unit('lemma_first', prop='C09')
def _(ex):
    l = flist(ex); r = flist(ex); y = GX(ex); p = ex.fresh('p', 'int'); i = z3.Int('i!lf'); nl, nr = znum(l.n), znum(r.n)
    lv, rv = z3.Select(l.cols[0], p), z3.Select(r.cols[0], p); w = z3.If(p >= nl, rv, z3.If(p >= nr, lv, z3.If(lv < rv, lv, rv)))
    ex.assume(z3.And(p >= 0, p <= nl, p <= nr, z3.Or(p < nl, p < nr), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < p), z3.And(*[z3.Select(l.cols[k], i) == z3.Select(r.cols[k], i) for k in (0, 1)])))))
    ex.assume(z3.Implies(z3.And(p < nl, p < nr), z3.Or(lv != rv, z3.Select(l.cols[1], p) != z3.Select(r.cols[1], p))))
    ex.assume(xe(l, p, y) == xe(r, p, y))        # equal prefixes have equal sums (induction below)
    at_(ex, l, p); at_(ex, r, p); wit(ex, l, p, w); wit(ex, r, p, w)
    ex.prove('exponents differ at the smaller of the two variables', xe(l, l.n, w) != xe(r, r.n, w)); ex.prove('and agree below', z3.Implies(y < w, xe(l, l.n, y) == xe(r, r.n, y)))
@unit('lemma_prefix', prop='C09')
def _(ex):
    l = flist(ex); r = flist(ex); y = GX(ex); k = ex.fresh('k', 'int'); ex.assume(k >= 0); base(ex, l); base(ex, r); unfold(ex, l, k); unfold(ex, r, k); st = lambda k: z3.And(xe(l, k, y) == xe(r, k, y), sm(l, k) == sm(r, k))
    ex.prove('base', st(Iv(0))); ex.assume(z3.And(st(k), *[z3.Select(l.cols[c], k) == z3.Select(r.cols[c], k) for c in (0, 1)])); ex.prove('step', st(k + 1))

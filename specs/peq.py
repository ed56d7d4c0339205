"""Contracts for the order and the hash of multivariate polynomials (C21).  Monomials are codes ordered as the monomial order (mpoly.py).
The order is lexicographic on the sorted term lists, from the leading term down: D is the first position (from the end) where the sorted lists differ.
The hash is a fold over the sorted term list, which is determined by the polynomial (FH is the hash step as a function of the coefficient and the monomial)."""
from .mpoly import *
from . import mpoly as MPO
from vc.containers import *
from vc.loops import Loop
DRIVER = 'peq'; HARNESS = 'pool'
UNITS = []
TD = z3.Function('TD', z3.RealSort(), z3.IntSort()); FH = z3.Function('FH', z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.IntSort())
def unit(name, op=None, **kw):
    kw.setdefault('contracts', PCON); kw.setdefault('loops', {}); kw.setdefault('merge', False)
    def deco(fn): UNITS.append(U('C21', 'peq.' + name, fn, op, describe=lambda ex, m: [], svec=True, shapes=SHAPES, scalar_recs=('std::shared_ptr',), weak_oracle=True, qf_branch=True, value_goal=value_goal, **kw)); return fn
    return deco
def LAST(v, j): return znum(v.n) - 1 - j
def PO(ex, name):
    """a polynomial together with its sorted term list"""
    p = POL(ex, name); v, o = terms(ex, p), ordered(ex, p); s = fresh_svec(ex, name + '_sorted', TSH, v.n); n = znum(v.n)
    ex.assume(z3.And(nz(s), nonneg(s), sorted_(s))); ex.assume_nl(Wk(s, s.n) == Wk(v, v.n)); ex.assume(z3.Implies(n >= 1, z3.And(CO(s, n - 1) == CO(v, n - 1), MO(s, n - 1) == MO(v, n - 1), MO(s, n - 1) >= 0, z3.Implies(n >= 2, MO(s, n - 1) > 0))))
    ex.assume(z3.Implies(o, z3.And(cs(s) == cs(v), ms(s) == ms(v)))); ex.ghost.setdefault('sorted', {})[p] = s; return p
def k_sort(ex, f, this, args, node):
    """std::sort with the order of the monomials: the sorted rearrangement (the comparison is shown to be that order)"""
    b, e = ex.val(args[0]), ex.val(args[1]); v = as_svec(ex, ex.read(b.c), TSH); x, y = TERM(ex, 'x', rec=False), TERM(ex, 'y', rec=False)
    r = ex.condval(ex.val(ex.call_closure(ex.val(args[2]), [x, y], node))); ex.prove('sorted by the order of the monomials', zbool(r) == (ex.read(x).f['mMonomial'] < ex.read(y).f['mMonomial'])); ex.prove('the whole list is sorted', z3.And(znum(b.i) == 0, znum(e.i) == znum(v.n)))
    for p, s in ex.ghost['sorted'].items():
        if b.c == p.sub('mTerms'): ex.write(b.c, s); return VOID
    return NotImplemented
def k_fold(ex, f, this, args, node):
    """std::accumulate over the terms"""
    b, e = ex.val(args[0]), ex.val(args[1]); v = as_svec(ex, ex.read(b.c), TSH); t = TERM(ex, 't', rec=False); s = ex.fresh('seed', 'int'); ex.assume(s >= 0); I, J = GIJ(ex)
    r = ex.val(ex.call_closure(ex.val(args[3]), [s, t], node)); tr = ex.read(t); ex.prove('the hash of the term is added', znum(r) == FH(s, tr.f['mCoeff'], tr.f['mMonomial']))
    ex.prove('all terms are hashed', z3.And(znum(b.i) == 0, znum(e.i) == znum(v.n))); ex.prove('the hash starts from zero', znum(ex.val(args[2])) == 0); ex.prove('the terms are hashed in their order', z3.Implies(z3.And(0 <= I, I < J, J < znum(v.n)), MO(v, I) < MO(v, J))); ex.ghost['hashed'] = v
    h = ex.fresh('hash', 'int'); ex.ghost['hash'] = h; return h
def k_hadd(ex, f, this, args, node):
    t = ex.read(args[1]) if isinstance(args[1], Loc) else args[1]
    if len(args) != 2 or not (isinstance(t, Rec) and 'mCoeff' in t.f): return NotImplemented
    ex.write(args[0], FH(znum(ex.read(args[0])), zreal(t.f['mCoeff']), code(ex, t.f['mMonomial']))); return VOID
def k_td(ex, f, this, args, node):
    v = terms(ex, this); return TD(MO(v, znum(v.n) - 1))
def k_lt(fn):
    def k(ex, f, this, args, node):
        if not (is_sp(ex, f, 0) and is_sp(ex, f, 1)): return NotImplemented
        return fn(code(ex, args[0]), code(ex, args[1]))
    return k
PCON = {**CON, 'std::sort': k_sort, 'std::accumulate': k_fold, 'carl::hash_add': k_hadd, MP + '::totalDegree': k_td, 'carl::operator<': k_lt(lambda a, b: a < b), 'carl::operator>': k_lt(lambda a, b: a > b)}
@unit('order', 'c21.polys')
def _(ex):
    p = PO(ex, 'p'); v = terms(ex, p); R(ex, 'p_order', p); w = terms(ex, p); I, J = GIJ(ex); value_is(ex, 'the ordered polynomial', p, Wk(v, v.n)); ex.prove('the polynomial says it is ordered', ordered(ex, p)); ex.prove('the terms are in order', z3.Implies(z3.And(0 <= I, I < J, J < znum(w.n)), MO(w, I) < MO(w, J)))
@unit('hash', 'c21.polys')
def _(ex):
    p = PO(ex, 'p'); v = terms(ex, p); s = ex.ghost['sorted'][p]; r = R(ex, 'p_hash', p); g = ex.fresh('g', 'int'); h = ex.ghost.get('hashed')
    ex.prove('the hash is the fold over the terms', z3.BoolVal(h is not None) if h is None else znum(r) == ex.ghost['hash']); value_is(ex, 'the polynomial', p, Wk(v, v.n))
    if h is not None: ex.prove('the terms hashed are those of the sorted polynomial', z3.And(znum(h.n) == znum(s.n), CO(h, g) == CO(s, g), MO(h, g) == MO(s, g)))
def eqat(a, b, j): return z3.And(CO(a, LAST(a, j)) == CO(b, LAST(b, j)), MO(a, LAST(a, j)) == MO(b, LAST(b, j)))
def ltat(a, b, j): return z3.Or(MO(a, LAST(a, j)) < MO(b, LAST(b, j)), z3.And(MO(a, LAST(a, j)) == MO(b, LAST(b, j)), CO(a, LAST(a, j)) < CO(b, LAST(b, j))))
def dfact(ex, j):
    a, b, D = ex.ghost['cmp']; lo = z3.If(znum(a.n) < znum(b.n), znum(a.n), znum(b.n)); ex.assume(z3.Implies(z3.And(0 <= j, j < D), eqat(a, b, j))); ex.assume(z3.Implies(z3.And(j == D, D < lo), z3.Not(eqat(a, b, j))))
def inv_cmp(s, L):
    a, b, D = s.ghost['cmp']; l, r = L.v('lit'), L.v('rit'); k = znum(L.k)
    yield 'both positions advance together', z3.And(znum(l.i) == k + 1, znum(r.i) == k + 1, k + 1 <= znum(a.n), k + 1 <= znum(b.n)); yield 'the terms passed agree', D >= k + 1
def cmp_loop(): return Loop(inv=inv_cmp, havoc=lambda s, L: dfact(s, znum(L.k) + 1))
def pair(ex):
    p, q = PO(ex, 'p'), PO(ex, 'q'); a, b = ex.ghost['sorted'][p], ex.ghost['sorted'][q]; D = ex.fresh('D', 'int'); na, nb = znum(a.n), znum(b.n); ex.assume(z3.And(0 <= D, D <= na, D <= nb)); ex.ghost['cmp'] = (a, b, D); dfact(ex, Iv(0)); dfact(ex, D)
    for v in (a, b): m = MO(v, znum(v.n) - 1); ex.assume(z3.Implies(znum(v.n) >= 1, z3.And(TD(m) >= 0, (TD(m) == 0) == (m == 0))))
    x, y = MO(a, na - 1), MO(b, nb - 1); ex.assume(z3.And(z3.Implies(x <= y, TD(x) <= TD(y)), z3.Implies(y <= x, TD(y) <= TD(x))))
    lt = z3.If(D == na, D < nb, z3.If(D == nb, False, ltat(a, b, D))); gt = z3.If(D == nb, D < na, z3.If(D == na, False, ltat(b, a, D))); eq_ = z3.And(D == na, D == nb); return p, q, lt, gt, eq_
for _n, _root in (('less', 'p_less'), ('greater', 'p_greater')):
    @unit(_n, 'c21.order', loops={'operator<': cmp_loop()})
    def _(ex, root=_root):
        p, q, lt, gt, e = pair(ex)
        if root == 'p_greater':
            a, b, D = ex.ghost['cmp']; ex.ghost['cmp'] = (b, a, D); dfact(ex, Iv(0)); dfact(ex, D)
        r = R(ex, root, p, q); ex.prove('the order compares the sorted terms from the leading one', zbool(ex.condval(r)) == (lt if root == 'p_less' else gt)); ex.prove('equal polynomials are not ordered', z3.Implies(e, z3.Not(zbool(ex.condval(r))))); ex.prove('exactly one of less, equal, greater', z3.PbEq([(lt, 1), (gt, 1), (e, 1)], 1))
# ------------------------------------------------------------------ equality: a table from identifiers to pointers to the coefficients of the left operand (0 is null, i + 1 points to the coefficient of term i)
ID = MPO.ID; MID = MPO.MID; LID = z3.Int('largest_id')
class CoeffPtr(ScalarShape):
    def build(self, comps): return Rec('coeffptr', {'p': comps[0]})
    def split(self, ex, v):
        if v is NULL: return [Iv(0)]
        if isinstance(v, Loc) and v.path and v.path[-1] != 'mCoeff': v = ex.read(v)
        if isinstance(v, Rec): return [znum(v.f['p'])]
        if not (isinstance(v, Loc) and v.path[-1] == 'mCoeff' and v.addr == ex.ghost['lhs'].addr): raise Unsupported('pointer to something else')
        return [index_of(v) + 1]
def index_of(l): return znum([x for x in l.path if isinstance(x, tuple) or not isinstance(x, str)][-1][1])
CPTR = CoeffPtr(z3.IntSort())
def idfact(ex, m): ex.assume(z3.And(ID(Rv(0)) == 0, z3.Implies(m > 0, ID(m) > 0), MID(ID(m)) == m, ID(m) <= LID))
def ids(v):
    """live monomials have identifiers of their own, up to the largest one in use"""
    i = z3.Int('i!x'); m = MO(v, i); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(v.n)), z3.And(MID(ID(m)) == m, ID(m) <= LID, z3.If(m == 0, ID(m) == 0, ID(m) > 0))), patterns=[m])
def k_ident(ex, f, this, args, node): m = ex.read(this).f['code']; idfact(ex, m); return ID(m)
def k_memset(ex, f, this, args, node):
    l = ex.val(args[0]) if not isinstance(args[0], Loc) else args[0]; c = Loc(l.addr, l.path[:-1]); v = ex.read(c)
    if not isinstance(v, SVec) or v.shape is not CPTR: return NotImplemented
    ex.prove('the whole table is cleared', z3.And(znum(l.path[-1][1]) == 0, znum(ex.val(args[2])) == 8 * znum(v.n), znum(ex.val(args[1])) == 0)); ex.write(c, SVec(v.n, [z3.K(z3.IntSort(), Iv(0))], CPTR)); return VOID
def pt(t, i): return z3.Select(t.cols[0], i)
def table(s, L): return s.read(s.ghost['table'])
def FA(v, body, patterns):
    try: return z3.ForAll(v, body, patterns=patterns)
    except z3.Z3Exception: return z3.ForAll(v, body)
def inv_l(s, L):
    a, t, k = terms(s, s.ghost['lhs']), table(s, L), znum(L.k); i = z3.Int('i!t'); s.ghost['a'] = a
    yield 'the table has room for all identifiers', znum(t.n) == LID + 1
    yield 'every entry points to a term passed with this identifier', FA([i], z3.Implies(z3.And(0 <= i, i <= LID), z3.Or(pt(t, i) == 0, z3.And(1 <= pt(t, i), pt(t, i) <= k, ID(MO(a, pt(t, i) - 1)) == i))), patterns=[pt(t, i)])
    yield 'every term passed is found under its identifier', FA([i], z3.Implies(z3.And(0 <= i, i < k), pt(t, ID(MO(a, i))) == i + 1), patterns=[MO(a, i)])
def inv_r(s, L):
    a, b, t, k = terms(s, s.ghost['lhs']), terms(s, s.ghost['rhs']), table(s, L), znum(L.k); j = z3.Int('j!t')
    yield 'the terms passed are in the table with their coefficient', FA([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(pt(t, ID(MO(b, j))) != 0, CO(a, pt(t, ID(MO(b, j))) - 1) == CO(b, j))), patterns=[MO(b, j)])
def note(s, L): s.ghost['w'] = znum(L.k)
def k_static(ex, d):
    v = fresh_svec(ex, 'table', CPTR); return v
def k_tresize(ex, f, this, args, node):
    v = ex.read(this)
    if not isinstance(v, SVec) or v.shape is not CPTR: return NotImplemented
    ex.ghost['table'] = this; return K.BUILTINS['std::vector::resize'](ex, f, this, args, node)
ECON = {**PCON, 'carl::Monomial::id': k_ident, 'memset': k_memset, 'carl::Singleton::getInstance': lambda ex, f, this, args, node: ex.alloc(Rec('carl::MonomialPool', {}), 'pool'), 'carl::MonomialPool::largestID': lambda ex, f, this, args, node: LID, 'std::vector::resize': k_tresize}
for _n, _root in (('equal', 'p_eq'), ('unequal', 'p_neq')):
    @unit(_n, 'c21.order', contracts=ECON, loops={'operator==#0': Loop(inv=inv_l), 'operator==#1': Loop(inv=inv_r, havoc=note)}, statics={'coeffs': k_static}, null_eq=lambda s, v: znum(v.f['p']) == 0, deref=lambda s, v: CO(s.ghost['a'], znum(v.f['p']) - 1))
    def _(ex, root=_root):
        p, q = POL(ex, 'p'), POL(ex, 'q'); a, b = terms(ex, p), terms(ex, q); ex.ghost['lhs'], ex.ghost['rhs'] = p, q; ex.assume(z3.And(LID >= 0, LID < 1 << 60, ID(Rv(0)) == 0, ids(a), ids(b)))
        r = zbool(ex.condval(R(ex, root, p, q))); r = z3.Not(r) if root == 'p_neq' else r; g, h, w = ex.fresh('g', 'int'), ex.fresh('h', 'int'), ex.ghost.get('w', Iv(0)); na, nb = znum(a.n), znum(b.n)
        i = pt(ex.read(ex.ghost['table']), ID(MO(b, g))) - 1 if 'table' in ex.ghost else Iv(0)
        ex.prove('equal polynomials have as many terms', z3.Implies(r, na == nb)); ex.prove('equal polynomials have the same terms', z3.Implies(z3.And(r, 0 <= g, g < nb), z3.And(0 <= i, i < na, MO(a, i) == MO(b, g), CO(a, i) == CO(b, g))))
        ex.prove('unequal polynomials differ in a term', z3.Implies(z3.And(z3.Not(r), na == nb), z3.And(0 <= w, w < nb, z3.Implies(z3.And(0 <= h, h < na), z3.Or(MO(a, h) != MO(b, w), CO(a, h) != CO(b, w))))))
@unit('equal_self', 'c21.order', contracts=ECON)
def _(ex): ex.prove('a polynomial equals itself', zbool(ex.condval(R(ex, 'p_self', POL(ex, 'p')))))

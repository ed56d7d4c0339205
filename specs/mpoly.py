"""Contracts for multivariate polynomials (C10) and their queries (C11).
A monomial is represented by a rational code: the codes are ordered as the monomials are, the constant monomial (null) is 0 and all
others are positive (the monomial order is total and countable: C09).  VM(m) is the value of the monomial at an arbitrary point,
MUL(a,b) the product; what is used about them is what C08/C09 establish (instantiated facts, see K_*).
W(c, m, k) = sum of c[i]*VM(m[i]) for i < k is the value of the first k terms: equal values at an arbitrary point are equal polynomials.
The derived facts about W under updates of the term list are the lemma_* units (induction)."""
from .common import *
from vc.containers import *
import vc.containers as K
from vc.engine import NULL
DRIVER = 'mpoly'; HARNESS = 'mpoly'
UNITS = []
RA = z3.ArraySort(z3.IntSort(), z3.RealSort())
W = z3.Function('W', RA, RA, z3.IntSort(), z3.RealSort())
VM = z3.Function('VM', z3.RealSort(), z3.RealSort())
MUL = z3.Function('MUL', z3.RealSort(), z3.RealSort(), z3.RealSort())
VC = z3.Function('VC', z3.IntSort(), z3.IntSort(), z3.RealSort())      # code of the monomial v^e
PV = z3.Function('PV', z3.IntSort(), z3.IntSort(), z3.RealSort())      # value of v^e at the point
Rv, Iv = z3.RealVal, z3.IntVal
MP = 'carl::MultivariatePolynomial'
def code(ex, x):
    """the code behind an expression of type Monomial::Arg"""
    while isinstance(x, Loc): x = ex.read(x)
    if x is NULL or x is None or x is UNDEF: return Rv(0)
    return zreal(x)
class PtrShape(ScalarShape):
    def split(self, ex, v): return [code(ex, v)]
PTR = PtrShape(z3.RealSort())
TSH = RecShape('carl::Term', [('mCoeff', REAL), ('mMonomial', PTR)])
SHAPES = {'carl::Term': TSH, 'std::shared_ptr': PTR}
def R(ex, root, *a): return ex.call_root(root, list(a))
def cs(v): return v.cols[0]
def ms(v): return v.cols[1]
def CO(v, i): return z3.Select(cs(v), znum(i))
def MO(v, i): return z3.Select(ms(v), znum(i))
def Wk(v, k): return W(cs(v), ms(v), znum(k))
def terms(ex, p):
    while isinstance(p, Loc): p = ex.read(p)
    if isinstance(p, Rec): p = p.f['mTerms']
    return as_svec(ex, p, TSH)
def val(ex, p): v = terms(ex, p); facts(ex, v); return Wk(v, v.n)
def ordered(ex, p):
    while isinstance(p, Loc): p = ex.read(p)
    return zbool(p.f['mOrdered'])
# ------------------------------------------------------------------ monomial facts
def mfact(ex, m):
    ex.assume(z3.And(m >= 0, VM(Rv(0)) == 1))
    return m
def mul(ex, a, b):
    """product of monomials: value, neutral element, positivity and monotonicity with respect to the other products of this run"""
    a, b = z3.simplify(a), z3.simplify(b)
    r = MUL(a, b); seen = ex.ghost.setdefault('muls', [])
    if not any(a.eq(x) and b.eq(y) for x, y in seen):
        ex.assume(z3.And(r >= 0, z3.Implies(a == 0, r == b), z3.Implies(b == 0, r == a), (r == 0) == z3.And(a == 0, b == 0)))
        ex.assume_nl(z3.And(VM(r) == VM(a) * VM(b), VM(Rv(0)) == 1))
        for x, y in seen: mono2(ex, a, b, x, y)
        seen.append((a, b))
    return r
def mono2(ex, a, b, x, y):
    """order is compatible with multiplication (C09)"""
    ex.assume(z3.Implies(z3.And(a <= x, b <= y, z3.Or(a < x, b < y)), MUL(a, b) < MUL(x, y)))
    ex.assume(z3.Implies(z3.And(x <= a, y <= b, z3.Or(x < a, y < b)), MUL(x, y) < MUL(a, b)))
    ex.assume(z3.Implies(z3.And(a == x, b == y), MUL(a, b) == MUL(x, y)))
def var_code(ex, v, e):
    v, e = znum(v), znum(e); r = VC(v, e)
    ex.assume(z3.And(VM(Rv(0)) == 1, z3.Implies(e >= 1, r > 0), z3.Implies(e == 0, r == 0), VM(r) == PV(v, e)))
    return r
# ------------------------------------------------------------------ value facts: structure of the term list
def facts(ex, v, extra=()):
    n = znum(v.n)
    _facts(ex, cs(v), ms(v), [n - 1, n, n + 1] + [znum(k) for k in extra])
def _facts(ex, c, m, ks):
    seen = ex.ghost.setdefault('wseen', set())
    ks = [z3.simplify(k) for k in ks]; new = []
    for k in ks:
        key = (c.get_id(), m.get_id(), k.get_id())
        if key in seen: continue
        seen.add(key); new.append(k); ex.keep.append((c, m, k)) if hasattr(ex, 'keep') else ex.ghost.setdefault('keep', []).append((c, m, k))
    if not new: return
    ex.assume_nl(W(c, m, 0) == 0)
    for k in new: ex.assume_nl(z3.Implies(k >= 1, W(c, m, k) == W(c, m, k - 1) + z3.Select(c, k - 1) * VM(z3.Select(m, k - 1))))
    reg = ex.ghost.get('upd', {}).get((c.get_id(), m.get_id()))
    if reg:
        kind, o, i, x, y = reg
        for k in new:
            if kind == 'ins': ex.assume_nl(ins_fact(c, m, cs(o), ms(o), i, x, y, k))
            if kind == 'ers': ex.assume_nl(ers_fact(c, m, cs(o), ms(o), i, k))
            if kind == 'pre': ex.assume_nl(pre_fact(c, m, cs(o), ms(o), i, k))
        _facts(ex, cs(o), ms(o), new + [k + d for k in new for d in ((-1,) if kind == 'ins' else (1,))] + [znum(o.n), i, i + 1])
        return
    if z3.is_store(c) and z3.is_store(m):
        c0, i, x = c.children(); m0, j, y = m.children()
        if i.eq(j):
            for k in new: ex.assume_nl(sto_fact(c0, m0, i, x, y, k))
            _facts(ex, c0, m0, new)
def sto_fact(c, m, i, x, y, k): return W(z3.Store(c, i, x), z3.Store(m, i, y), k) == W(c, m, k) + z3.If(z3.And(0 <= i, i < k), x * VM(y) - z3.Select(c, i) * VM(z3.Select(m, i)), 0)
def ins_fact(c, m, oc, om, i, x, y, k): return z3.Implies(z3.And(0 <= i, 0 <= k), W(c, m, k) == z3.If(k <= i, W(oc, om, k), W(oc, om, k - 1) + x * VM(y)))
def ers_fact(c, m, oc, om, i, k): return z3.Implies(z3.And(0 <= i, 0 <= k), W(c, m, k) == z3.If(k <= i, W(oc, om, k), W(oc, om, k + 1) - z3.Select(oc, i) * VM(z3.Select(om, i))))
def pre_fact(c, m, oc, om, i, k): return z3.Implies(z3.And(0 <= k, k <= i), W(c, m, k) == W(oc, om, k))
def register(ex, n, kind, o, i, x=None, y=None): ex.ghost.setdefault('upd', {})[(cs(n).get_id(), ms(n).get_id())] = (kind, o, znum(i), x, y); ex.ghost.setdefault('keep', []).append(n)
def is_terms(v): return isinstance(v, SVec) and len(v.cols) == 2 and isinstance(v.shape, RecShape) and v.shape.q == 'carl::Term'
def k_insert(ex, f, this, args, node):
    o = ex.read(this)
    if not is_terms(o): return NotImplemented
    r = K.BUILTINS['std::vector::insert'](ex, f, this, args, node); n = ex.read(this)
    if z3.is_store(cs(n)): return r
    if len(args) == 2:
        i = ex.val(args[0]).i; x, y = TSH.split(ex, ex.val(args[1])); register(ex, n, 'ins', o, i, x, y)
    else:
        b, e = ex.val(args[1]), ex.val(args[2]); src = terms(ex, ex.read(b.c))
        if not isz(o.n) and o.n == 0 and not isz(b.i) and b.i == 0: register(ex, n, 'pre', src, e.i)
    return r
def k_emplace(ex, f, this, args, node):
    o = ex.read(this)
    if not is_terms(o): return NotImplemented
    it = ex.val(args[0]); x, y = TSH.split(ex, K.build_elem(ex, elem_type(ex, ex.p.types[f['cls']]), args[1:], [p['t'] for p in f['p'][1:]]))
    if ex.known(eq(it.i, o.n)): ex.write(this, push(ex, o, TSH.build([x, y]))); return It(this, it.i)
    k = z3.Int('k!emp'); i = znum(it.i)
    n = SVec(simp(add(o.n, 1)), [z3.Lambda([k], z3.If(k < i, z3.Select(c, k), z3.If(k == i, w, z3.Select(c, k - 1)))) for c, w in zip(o.cols, (x, y))], TSH)
    ex.write(this, n); register(ex, n, 'ins', o, i, x, y); return It(this, it.i)
def k_erase(ex, f, this, args, node):
    o = ex.read(this)
    if not is_terms(o) or len(args) != 1: return NotImplemented
    i = ex.val(args[0]).i
    r = K.BUILTINS['std::vector::erase'](ex, f, this, args, node); register(ex, ex.read(this), 'ers', o, i); return r
# ------------------------------------------------------------------ canonical term lists
def nz(v):
    i = z3.Int('i!n'); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(v.n)), CO(v, i) != 0), patterns=[MO(v, i)])
def inner(v):
    i = z3.Int('i!p'); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(v.n)), z3.And(MO(v, i) >= 0, z3.Implies(i >= 1, MO(v, i) > 0))), patterns=[MO(v, i)])
def nonneg(v):
    i = z3.Int('i!p'); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(v.n)), MO(v, i) >= 0), patterns=[MO(v, i)])
def distinct(v):
    i, j = z3.Ints('i!d j!d'); return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < znum(v.n)), MO(v, i) != MO(v, j)), patterns=[z3.MultiPattern(MO(v, i), MO(v, j))])
def leading(v):
    i = z3.Int('i!l'); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(v.n) - 1), MO(v, i) < MO(v, znum(v.n) - 1)), patterns=[MO(v, i)])
def sorted_(v):
    i, j = z3.Ints('i!s j!s'); return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < znum(v.n)), MO(v, i) < MO(v, j)), patterns=[z3.MultiPattern(MO(v, i), MO(v, j))])
def canon(v, o): return z3.And(nz(v), inner(v), distinct(v), leading(v), z3.Implies(o, sorted_(v)))
def canon_at(v, o, i, j):
    """the canonical form at positions i < j (quantifier-free)"""
    n = znum(v.n); I = z3.And(0 <= i, i < n); J = z3.And(0 <= i, i < j, j < n)
    return [('has no zero coefficient', z3.Implies(I, CO(v, i) != 0)), ('has its constant term only in front', z3.Implies(I, z3.And(MO(v, i) >= 0, z3.Implies(i >= 1, MO(v, i) > 0)))),
            ('lists no monomial twice', z3.Implies(J, MO(v, i) != MO(v, j))), ('has its leading term last', z3.Implies(z3.And(J, j == n - 1), MO(v, i) < MO(v, j))), ('is sorted if it says so', z3.Implies(z3.And(J, o), MO(v, i) < MO(v, j)))]
def inst(ex, v, o, idx):
    """instances of the canonical form of a list at the given positions"""
    for a in idx:
        for b in idx:
            for _, fm in canon_at(v, o, znum(a), znum(b)): ex.assume(fm)
def GIJ(ex):
    if 'I' not in ex.ghost: ex.ghost['I'] = ex.fresh('I', 'int'); ex.ghost['J'] = ex.fresh('J', 'int')
    return ex.ghost['I'], ex.ghost['J']
def mentions(e, d, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen: return False
    seen.add(e.get_id())
    if z3.is_app(e) and e.decl().eq(d): return True
    return any(mentions(c, d, seen) for c in e.children())
def value_goal(g): return mentions(g, W) or mentions(g, VM)
def is_canonical(ex, what, p):
    v, o = terms(ex, p), ordered(ex, p); I, J = GIJ(ex)
    for nm, fm in canon_at(v, o, I, J): ex.prove(f'{what} {nm}', fm)
# ------------------------------------------------------------------ inputs
def POL(ex, name, rec=True, nonzero=False):
    v = fresh_svec(ex, name, TSH); o = ex.fresh(name + '_ordered', 'bool'); ex.assume(canon(v, o)); inst(ex, v, o, list(GIJ(ex)) + [0, 1, znum(v.n) - 1, znum(v.n) - 2])
    if nonzero: ex.assume(znum(v.n) >= 1)
    if rec: inp(ex, 'P', (v, o))
    l = ex.alloc(Rec(MP, {'mTerms': v, 'mOrdered': o}), name); facts(ex, v)
    ex.ghost.setdefault('pols', []).append((v, o)); ex.assume(VM(Rv(0)) == 1)
    return l
def TERM(ex, name, rec=True):
    c, m = ex.fresh(name + '_c', 'real'), ex.fresh(name + '_m', 'real'); ex.assume(z3.And(m >= 0, VM(Rv(0)) == 1))
    if rec: inp(ex, 'T', (c, m))
    return ex.alloc(Rec('carl::Term', {'mCoeff': c, 'mMonomial': m}), name)
def MONO(ex, name, rec=True):
    m = ex.fresh(name, 'real'); ex.assume(z3.And(m >= 0, VM(Rv(0)) == 1))
    if rec: inp(ex, 'M', m)
    return ex.alloc(m, name)
def VAR(ex, name, rec=True):
    c = ex.fresh(name, 'int'); ex.assume(c > 0)
    if rec: inp(ex, 'V', c)
    return Rec('carl::Variable', {'mContent': c})
def NUM(ex, name, rec=True):
    c = ex.fresh(name, 'real')
    if rec: inp(ex, 'Q', c)
    return ex.alloc(c, name)
def tval(ex, t):
    while isinstance(t, Loc): t = ex.read(t)
    return zreal(t.f['mCoeff']) * VM(code(ex, t.f['mMonomial']))
# printing: codes are printed as the k-th smallest of a fixed chain of monomials
CHAIN = ['0.0.0.0', '0.0.0.1', '0.0.1.0', '0.1.0.0', '1.0.0.0', '0.0.0.2', '0.0.1.1', '0.1.0.1', '1.0.0.1', '0.0.2.0', '0.1.1.0', '1.0.1.0', '0.2.0.0', '1.1.0.0', '2.0.0.0']
def codes_of(m, ex):
    s = {Fraction(0)}
    for k, v in ex.witness.get('args', []):
        if k == 'P': s |= {Fraction(mval(m, MO(v[0], i))) for i in range(min(int(mval(m, v[0].n)), 12))}
        if k in ('T',): s.add(Fraction(mval(m, v[1])))
        if k == 'M': s.add(Fraction(mval(m, v)))
    s = sorted(s); return {c: CHAIN[min(i, len(CHAIN) - 1)] for i, c in enumerate(s)}
def describe(ex, m):
    cd = codes_of(m, ex); r = []
    def t(c, mm): return f'{qstr(mval(m, c))}*{cd[Fraction(mval(m, mm))]}'
    for k, v in ex.witness.get('args', []):
        if k == 'P':
            n = int(mval(m, v[0].n))
            if n > 12: raise ValueError('too long')
            r.append('+'.join(['o' if mval(m, v[1]) else 'u'] + [t(CO(v[0], i), MO(v[0], i)) for i in range(n)]))
        elif k == 'T': r.append(t(*v))
        elif k == 'M': r.append(cd[Fraction(mval(m, v))])
        elif k == 'V': r.append(str(int(mval(m, v)) % 4))
        else: r.append(PRINT[k](m, v))
    return r
# ------------------------------------------------------------------ contracts of the monomial layer
def is_sp(ex, f, i): return i < len(f['p']) and 'shared_ptr<const carl::Monomial>' in ex.p.types[f['p'][i]['t']]['s'] or (i < len(f['p']) and ex.p.deref_t(f['p'][i]['t']).get('sq') == 'std::shared_ptr')
def is_var(ex, f, i): return i < len(f['p']) and ex.p.deref_t(f['p'][i]['t']).get('sq') == 'carl::Variable'
def k_mmul(ex, f, this, args, node):
    """product of monomials (C08)"""
    sp, vr = [is_sp(ex, f, i) for i in range(2)], [is_var(ex, f, i) for i in range(2)]
    if not all(a or b for a, b in zip(sp, vr)): return NotImplemented
    x = [code(ex, a) if s else var_code(ex, ex.val(a).f['mContent'], 1) for a, s in zip(args, sp)]
    return mul(ex, x[0], x[1])
def k_create(ex, f, this, args, node):
    """createMonomial(v, e): the monomial v^e (C08)"""
    a = [ex.val(x) for x in args]
    if not isinstance(a[0], Rec): return NotImplemented
    return var_code(ex, a[0].f['mContent'], a[1] if len(a) > 1 else 1)
def k_cmp(ex, f, this, args, node):
    """the monomial order (C09)"""
    if not is_sp(ex, f, 0): return NotImplemented
    a, b = code(ex, args[0]), code(ex, args[1]); return z3.If(a < b, Iv(-1), z3.If(a == b, Iv(0), Iv(1)))
def k_meq(neg_):
    def k(ex, f, this, args, node):
        if not any(is_sp(ex, f, i) for i in range(2)): return NotImplemented
        for i in range(2):
            if not is_sp(ex, f, i) and 'nullptr' not in ex.p.types[f['p'][i]['t']]['s']: return NotImplemented
        a, b = code(ex, args[0]), code(ex, args[1]); return (a != b) if neg_ else (a == b)
    return k
def k_sp(ex, f, this, args, node): return Rv(0) if not args else code(ex, args[0])
def k_spas(ex, f, this, args, node): ex.write(this, code(ex, args[0])); return this
def k_bool(ex, f, this, args, node): return code(ex, this) != 0
def k_deref(ex, f, this, args, node): return ex.alloc(Rec('carl::Monomial', {'code': code(ex, this)}), 'mono')
SPN = ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access')
MONOC = {'carl::operator*': k_mmul, 'carl::createMonomial': k_create, 'carl::Monomial::compareGradedLexical': k_cmp, 'carl::MonomialComparator::compare': k_cmp, 'carl::operator==': k_meq(False), 'carl::operator!=': k_meq(True),
         'std::operator==': k_meq(False), 'std::operator!=': k_meq(True), 'std::shared_ptr::shared_ptr': k_sp, 'std::shared_ptr::operator=': k_spas, **{n + '::operator bool': k_bool for n in SPN}, **{n + '::' + o: k_deref for n in SPN for o in ('operator->', 'operator*', 'get')},
         'std::vector::insert': k_insert, 'std::vector::emplace': k_emplace, 'std::vector::erase': k_erase}
# ------------------------------------------------------------------ contract of the term addition manager (units tam_*)
def k_getid(ex, f, this, args, node):
    n = ex.val(args[0]) if args else 0
    return It(ex.alloc(Rec('TAM', {'val': Rv(0), 'cnt': Iv(0), 'hi': Rv(-1), 'size': znum(n)}), 'tam'), 0)
def k_tadd(ex, f, this, args, node):
    """addTerm: adds the term; without SizeUnknown the number of terms added must stay within the announced size"""
    t = ex.val(args[1]); l = ex.val(args[0]).c; s = ex.read(l); m = code(ex, t.f['mMonomial']); c = zreal(t.f['mCoeff'])
    ex.prove('the term handed to the term addition manager is not zero', c != 0, kind='pre')
    if not tam_unknown(ex, f): ex.prove('the number of added terms stays within the announced size', s.f['cnt'] + 1 <= s.f['size'], kind='pre')
    if f['ta'][1]['i'] == 0: ex.prove('only monomials known before are added without growing the table', not any(MUL(a, b).eq(m) for a, b in ex.ghost.get('muls', [])), kind='pre')
    ex.write(l, Rec('TAM', {'val': s.f['val'] + c * VM(m), 'cnt': s.f['cnt'] + 1, 'hi': z3.If(m > s.f['hi'], m, s.f['hi']), 'size': s.f['size']})); return VOID
def tam_unknown(ex, f): return f['ta'][0]['i'] == 1
def k_tread(ex, f, this, args, node):
    """readTerms: the sum of the added terms as a list without zero coefficients and duplicates, the constant first"""
    s = ex.read(ex.val(args[0]).c); v = fresh_svec(ex, 'read', TSH)
    ex.assume(z3.And(nz(v), inner(v), distinct(v))); ex.assume_nl(Wk(v, v.n) == s.f['val']); i = z3.Int('i!h')
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(v.n)), MO(v, i) <= s.f['hi']), patterns=[MO(v, i)]))
    facts(ex, v); ex.write(args[1], v); ex.ghost.setdefault('read', []).append(v); return VOID
TAMC = {'carl::TermAdditionManager::getId': k_getid, 'carl::TermAdditionManager::addTerm': k_tadd, 'carl::TermAdditionManager::readTerms': k_tread}
# ------------------------------------------------------------------ makeMinimallyOrdered
def k_min(ex, f, this, args, node):
    """makeMinimallyOrdered: a rearrangement with the leading term last (and the constant term first)"""
    if args: return NotImplemented
    p = ex.read(this); o = as_svec(ex, p.f['mTerms'], TSH); I, J = GIJ(ex)
    full = min_full(ex, f)
    n = znum(o.n)
    ex.prove('makeMinimallyOrdered: no monomial occurs twice', z3.Implies(z3.And(0 <= I, I < J, J < n), MO(o, I) != MO(o, J)), kind='pre')
    ex.prove('makeMinimallyOrdered: monomials are valid', z3.Implies(z3.And(0 <= I, I < n), MO(o, I) >= 0), kind='pre')
    if not full: ex.prove('makeMinimallyOrdered: only the first term may be constant', z3.Implies(z3.And(1 <= I, I < n), MO(o, I) > 0), kind='pre')
    ex.prove('makeMinimallyOrdered: no zero coefficient', z3.Implies(z3.And(0 <= I, I < n), CO(o, I) != 0), kind='pre')
    i, j = z3.Ints('i!q j!q')
    v = fresh_svec(ex, 'min', TSH, o.n); facts(ex, o)
    srt = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), MO(o, i) < MO(o, j)))
    ex.assume(z3.And(nz(v), inner(v), distinct(v), leading(v))); ex.assume_nl(Wk(v, v.n) == Wk(o, o.n))
    # nothing to do if the list is sorted already: the positions are arbitrary
    gi, gj = ex.fresh('gi', 'int'), ex.fresh('gj', 'int')
    ex.assume(z3.Or(z3.And(0 <= gi, gi < gj, gj < n, z3.Not(MO(o, gi) < MO(o, gj))), z3.And(cs(v) == cs(o), ms(v) == ms(o))))
    facts(ex, v); ex.write(this, p.upd('mTerms', v)); return VOID
def min_full(ex, f): return f['ta'][0]['i'] == 1
MINC = {f'{MP}::makeMinimallyOrdered': k_min}
CON = {**MONOC, **TAMC, **MINC}
def unit(name, op=None, prop='C10', **kw):
    kw.setdefault('contracts', CON)
    kw.setdefault('loops', {}); kw.setdefault('merge', False)
    def deco(fn):
        UNITS.append(U(prop, name, fn, op, describe=describe, svec=True, shapes=SHAPES, scalar_recs=('std::shared_ptr',), weak_oracle=True, qf_branch=True, value_goal=value_goal, globals={MP + '::mTermAdditionManager': lambda *a: Rec('carl::TermAdditionManager', {})}, **kw)); return fn
    return deco
def value_is(ex, what, p, expr):
    v = terms(ex, p); facts(ex, v); ex.prove(f'{what} has the right value', Wk(v, v.n) == expr)

# ------------------------------------------------------------------ C10: construction
@unit('p_new', 'c10.mk')
def _(ex):
    r = R(ex, 'p_new'); is_canonical(ex, 'the default polynomial', r); value_is(ex, 'the default polynomial', r, 0)
@unit('p_copy', 'c10.terms')
def _(ex):
    p = POL(ex, 'p'); v = val(ex, p); r = R(ex, 'p_copy', p); is_canonical(ex, 'the copy', r); value_is(ex, 'the copy', r, v)
@unit('p_c', 'c10.mk')
def _(ex):
    c = NUM(ex, 'c'); ex.assume(VM(Rv(0)) == 1); r = R(ex, 'p_c', c); is_canonical(ex, 'the polynomial of a constant', r); value_is(ex, 'the polynomial of a constant', r, ex.read(c))
@unit('p_v', 'c10.mk')
def _(ex):
    v = VAR(ex, 'v'); r = R(ex, 'p_v', v); is_canonical(ex, 'the polynomial of a variable', r); value_is(ex, 'the polynomial of a variable', r, PV(v.f['mContent'], 1))
@unit('p_m', 'c10.mk')
def _(ex):
    m = MONO(ex, 'm'); r = R(ex, 'p_m', m); is_canonical(ex, 'the polynomial of a monomial', r); value_is(ex, 'the polynomial of a monomial', r, VM(ex.read(m)))
@unit('p_t', 'c10.mk')
def _(ex):
    t = TERM(ex, 't'); r = R(ex, 'p_t', t); is_canonical(ex, 'the polynomial of a term', r); value_is(ex, 'the polynomial of a term', r, tval(ex, t))
# ------------------------------------------------------------------ loops that feed the term addition manager
def tam(s, L, name='id'): return s.read(L.v(name).c)
def tam_old(s, L, name='id'): return L.at_entry(L.v(name).c)
def tam_loop(src, contrib=None, bound=None, it=None, upto=None):
    """after k rounds the contributions of the first k terms of src have been added"""
    contrib = contrib or (lambda s, L, v, k: Wk(v, k))
    def inv(s, L):
        t, o = tam(s, L), tam_old(s, L); v = src(s, L)
        yield 'the terms visited so far have been added', t.f['val'] == o.f['val'] + contrib(s, L, v, L.k)
        yield 'every round adds one term', z3.And(t.f['cnt'] == o.f['cnt'] + znum(L.k), t.f['size'] == o.f['size'])
        if it: yield 'the iterator advances with the rounds', z3.And(znum(L.v(it).i) == znum(L.k), znum(L.k) <= (znum(v.n) if upto is None else upto(s, L)))
        if bound: yield 'all monomials stay below the leading one', z3.And(t.f['hi'] < bound(s, L))
    def begin(s, L): facts(s, src(s, L), [0])
    def havoc(s, L):
        v = src(s, L); facts(s, v, [L.k, add(L.k, 1)])
        for w, o in s.ghost.get('pols', []):
            if w.cols[0].eq(v.cols[0]): inst(s, w, o, [L.k, znum(w.n) - 1, 0, *GIJ(s)])
    return Loop(inv=inv, begin=begin, havoc=havoc)
def this_terms(s, L): return terms(s, L.this)
def rhs_terms(s, L): return terms(s, L.v('rhs'))
def TERMS(ex, name, ord_, dup):
    v = fresh_svec(ex, name, TSH); ex.assume(z3.And(nz(v), nonneg(v), VM(Rv(0)) == 1))
    if not dup: ex.assume(distinct(v))
    if not dup and ord_: ex.assume(sorted_(v))
    inp(ex, 'P', (v, z3.BoolVal(bool(ord_)))); facts(ex, v); I, J = GIJ(ex)
    ex.assume(znum(v.n) < 1 << 60)
    return ex.alloc(v, name)
def ctor_unit(root, ord_, dup):
    @unit(f'{root}_{"o" if ord_ else "u"}{"d" if dup else ""}', 'c10.ctor', loops={'MultivariatePolynomial': tam_loop(this_terms)})
    def _(ex):
        t = TERMS(ex, 't', ord_, dup); v = Wk(ex.read(t), ex.read(t).n)
        r = R(ex, root, t, dup, ord_); is_canonical(ex, 'the polynomial of a list of terms', r); value_is(ex, 'the polynomial of a list of terms', r, v)
for root in ('p_ts', 'p_tsm'):
    for o in (False, True):
        for d in (False, True): ctor_unit(root, o, d)
# ------------------------------------------------------------------ C10: addition and subtraction
def newl(s, L): return code(s, L.v('newlterm').f['mMonomial'])
LADD = {'operator+=#0': tam_loop(this_terms, bound=newl, it='termIter'), 'operator+=#1': tam_loop(rhs_terms, bound=newl, it='termIter', upto=lambda s, L: znum(L.v('rhsEnd').i))}
def fresh_pol(ex, name, value):
    v = fresh_svec(ex, name, TSH); o = ex.fresh(name + '_ordered', 'bool'); ex.assume(canon(v, o)); facts(ex, v); inst(ex, v, o, list(GIJ(ex)) + [0, znum(v.n) - 1])
    ex.assume_nl(Wk(v, v.n) == value); ex.ghost.setdefault('pols', []).append((v, o)); return Rec(MP, {'mTerms': v, 'mOrdered': o})
def kind_of(ex, f, i):
    t = ex.p.deref_t(f['p'][i]['t'])
    if ex.p.gmp(t): return 'Q'
    return {MP: 'P', 'carl::Term': 'T', 'std::shared_ptr': 'M', 'carl::Variable': 'V'}.get(t.get('sq'))
def value_of(ex, kind, a):
    if kind == 'P': return val(ex, a)
    if kind == 'T': t = ex.val(a); return zreal(t.f['mCoeff']) * VM(code(ex, t.f['mMonomial']))
    if kind == 'M': ex.assume(VM(Rv(0)) == 1); return VM(code(ex, a))
    if kind == 'V': return VM(var_code(ex, ex.val(a).f['mContent'], 1))
    return zreal(ex.val(a))
def k_comp(op, kinds):
    """contract of P op= X for the kinds given (their own units prove it)"""
    def k(ex, f, this, args, node):
        if this is None or len(args) != 1: return NotImplemented
        kd = kind_of(ex, f, 0)
        if kd not in kinds: return NotImplemented
        b = value_of(ex, kd, args[0]); a = val(ex, this)
        if op == '/':
            ex.prove('the divisor is not zero', b != 0, kind='pre'); r = ex.fresh('quo', 'real'); ex.assume_nl(r * b == a); ex.write(this, fresh_pol(ex, 'res', r)); return this
        ex.write(this, fresh_pol(ex, 'res', {'+': a + b, '-': a - b, '*': a * b}[op])); return this
    return k
def first_then(h):
    """the call under proof runs the body, the others the contract"""
    def k(ex, f, this, args, node):
        if not ex.ghost.get('entered'): ex.ghost['entered'] = 1; return NotImplemented
        return h(ex, f, this, args, node)
    return k
@unit('p_adda', 'c10.add', loops=LADD, contracts={**CON, f'{MP}::operator+=': k_comp('+', 'Q')})
def _(ex):
    p, q = POL(ex, 'p'), POL(ex, 'q'); e = val(ex, p) + val(ex, q); R(ex, 'p_adda', p, q); is_canonical(ex, 'the sum', p); value_is(ex, 'the sum', p, e)
@unit('p_adda_self', 'c10.add', loops=LADD, contracts={**CON, f'{MP}::operator+=': k_comp('+', 'Q')})
def _(ex):
    p = POL(ex, 'p'); inp(ex, 'P', ex.witness['args'][0][1]); e = val(ex, p) + val(ex, p); R(ex, 'p_adda', p, p); is_canonical(ex, 'the sum', p); value_is(ex, 'the sum', p, e)
@unit('p_addat', 'c10.addt', loops={'operator+=': tam_loop(this_terms)})
def _(ex):
    p, t = POL(ex, 'p'), TERM(ex, 't'); e = val(ex, p) + tval(ex, t); R(ex, 'p_addat', p, t); is_canonical(ex, 'the sum', p); value_is(ex, 'the sum', p, e)
@unit('p_addac', 'c10.addc')
def _(ex):
    p, c = POL(ex, 'p'), NUM(ex, 'c'); e = val(ex, p) + ex.read(c); R(ex, 'p_addac', p, c); is_canonical(ex, 'the sum', p); value_is(ex, 'the sum', p, e)
def search_loop(it, rhs_m, ordered_too=False):
    """linear search for a monomial: none of the terms passed has it; the list changes only when the search ends"""
    def inv(s, L):
        v, o = terms(s, L.this), terms(s, L.old_this); m = rhs_m(s, L); k = znum(L.k); i = z3.Int('i!u'); r = zbool(L.this.f['mOrdered'])
        yield 'the iterator advances with the rounds', z3.And(znum(L.v(it).i) == k, k <= znum(v.n))
        yield 'the terms are not changed by the search', z3.And(znum(v.n) == znum(o.n), cs(v) == cs(o), ms(v) == ms(o), zbool(L.this.f['mOrdered']) == zbool(L.old_this.f['mOrdered']))
        yield 'no term passed has the monomial', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(MO(v, i) != m, z3.Implies(r, MO(v, i) < m) if ordered_too else True)), patterns=[MO(v, i)])
    def havoc(s, L):
        s.write(L.frame.this.sub('mTerms'), L.old_this.f['mTerms']); s.write(L.frame.this.sub('mOrdered'), L.old_this.f['mOrdered']); v = terms(s, L.this)
        I, J = GIJ(s)
        for w, o in s.ghost.get('pols', []): inst(s, w, o, [znum(L.k), znum(L.k) - 1, znum(L.k) + 1, I, J, I + 1, J + 1, I - 1, J - 1, 0, znum(w.n) - 1])
        m = rhs_m(s, L)
        for i in (I, J, I - 1, J - 1): s.assume(z3.Implies(z3.And(0 <= i, i < znum(L.k)), z3.And(MO(v, i) != m, z3.Implies(zbool(L.this.f['mOrdered']), MO(v, i) < m) if ordered_too else True)))
    return Loop(inv=inv, havoc=havoc)
def rhs_code(s, L): return code(s, L.v('rhs'))
def rhs_tcode(s, L): return code(s, L.v('rhs').f['mMonomial'])
@unit('p_addam', 'c10.addm', loops={'operator+=': search_loop('it', rhs_code)}, contracts={**CON, f'{MP}::operator+=': k_comp('+', 'Q')})
def _(ex):
    p, m = POL(ex, 'p'), MONO(ex, 'm'); e = val(ex, p) + VM(ex.read(m)); R(ex, 'p_addam', p, m); is_canonical(ex, 'the sum', p); value_is(ex, 'the sum', p, e)
@unit('p_addav', 'c10.addv', contracts={**CON, f'{MP}::operator+=': k_comp('+', 'M')})
def _(ex):
    p, x = POL(ex, 'p'), VAR(ex, 'x'); e = val(ex, p) + PV(x.f['mContent'], 1); R(ex, 'p_addav', p, x); is_canonical(ex, 'the sum', p); value_is(ex, 'the sum', p, e)
LSUB = {'operator-=#0': tam_loop(this_terms), 'operator-=#1': tam_loop(rhs_terms, contrib=lambda s, L, v, k: -Wk(v, k))}
def k_neg(ex, f, this, args, node):
    """unary minus (unit p_neg)"""
    if this is None: return NotImplemented
    v = terms(ex, this); facts(ex, v); return fresh_pol(ex, 'neg', -Wk(v, v.n))
@unit('p_suba', 'c10.sub', loops=LSUB, contracts={**CON, f'{MP}::operator+=': k_comp('+', 'Q'), f'{MP}::operator-': k_neg, f'{MP}::operator-=': k_comp('-', 'Q')})
def _(ex):
    p, q = POL(ex, 'p'), POL(ex, 'q'); e = val(ex, p) - val(ex, q); R(ex, 'p_suba', p, q); is_canonical(ex, 'the difference', p); value_is(ex, 'the difference', p, e)
@unit('p_suba_self', 'c10.sub', loops=LSUB, contracts={**CON, f'{MP}::operator+=': k_comp('+', 'Q'), f'{MP}::operator-': k_neg, f'{MP}::operator-=': k_comp('-', 'Q')})
def _(ex):
    p = POL(ex, 'p'); inp(ex, 'P', ex.witness['args'][0][1]); R(ex, 'p_suba', p, p); is_canonical(ex, 'the difference', p); value_is(ex, 'the difference', p, 0)
@unit('p_subat', 'c10.addt', loops={'operator-=': search_loop('it', rhs_tcode, True)}, contracts={**CON, f'{MP}::operator-=': k_comp('-', 'Q')})
def _(ex):
    p, t = POL(ex, 'p'), TERM(ex, 't'); e = val(ex, p) - tval(ex, t); R(ex, 'p_subat', p, t); is_canonical(ex, 'the difference', p); value_is(ex, 'the difference', p, e)
@unit('p_subam', 'c10.addm', loops={'operator-=': search_loop('it', rhs_code, True)}, contracts={**CON, f'{MP}::operator-=': k_comp('-', 'Q')})
def _(ex):
    p, m = POL(ex, 'p'), MONO(ex, 'm'); e = val(ex, p) - VM(ex.read(m)); R(ex, 'p_subam', p, m); is_canonical(ex, 'the difference', p); value_is(ex, 'the difference', p, e)
@unit('p_subav', 'c10.addv', contracts={**CON, f'{MP}::operator+=': k_comp('+', 'T')})
def _(ex):
    p, x = POL(ex, 'p'), VAR(ex, 'x'); e = val(ex, p) - PV(x.f['mContent'], 1); R(ex, 'p_subav', p, x); is_canonical(ex, 'the difference', p); value_is(ex, 'the difference', p, e)
@unit('p_subac', 'c10.addc', contracts={**CON, f'{MP}::operator+=': k_comp('+', 'Q')})
def _(ex):
    p, c = POL(ex, 'p'), NUM(ex, 'c'); e = val(ex, p) - ex.read(c); R(ex, 'p_subac', p, c); is_canonical(ex, 'the difference', p); value_is(ex, 'the difference', p, e)
# ------------------------------------------------------------------ C10: term-wise maps (negation, multiplication by a term, division by a number)
def map_loop(out, src, fc, fm, scale):
    """the list built so far is the image of the first k terms: at the two arbitrary positions and in value"""
    def inv(s, L):
        v, w = src(s, L), out(s, L); k = znum(L.k)
        yield 'one term per round', znum(w.n) == k
        for nm, g in zip('IJ', GIJ(s)): yield f'the term at position {nm} is the image', z3.Implies(z3.And(0 <= g, g < k), z3.And(CO(w, g) == fc(s, L, CO(v, g)), MO(w, g) == fm(s, L, MO(v, g))))
        yield 'the value is scaled', Wk(w, k) == Wk(v, k) * scale(s, L)
    def begin(s, L):
        v = src(s, L); facts(s, v, [0]); facts(s, out(s, L), [0])
        for g in GIJ(s): fm(s, L, MO(v, g))
    def havoc(s, L):
        v = src(s, L); facts(s, v, [L.k, add(L.k, 1)])
        for w, o in s.ghost.get('pols', []):
            if w.cols[0].eq(v.cols[0]): inst(s, w, o, [znum(L.k), *GIJ(s)])
    def end(s, L):
        facts(s, out(s, L), [L.k]); v, w = src(s, L), out(s, L); k = z3.simplify(znum(L.k) - 1)
        a, b, c, e, sc = Wk(v, k), Wk(w, k), CO(v, k), VM(MO(v, k)), scale(s, L)
        s.prove('the step scales the new term', Wk(w, k + 1) == Wk(w, k) + c * e * sc)
        s.assume_nl(Wk(w, k + 1) == Wk(w, k) + c * e * sc); s.assume_nl((a + c * e) * sc == a * sc + c * e * sc); s.assume_nl(z3.Implies(Wk(v, k + 1) == a + c * e, Wk(v, k + 1) * sc == a * sc + c * e * sc))
    return Loop(inv=inv, begin=begin, havoc=havoc, end=end)
def neg_out(s, L): return terms(s, L.v('negation'))
def new_out(s, L): return terms(s, L.v('newTerms'))
idm = lambda s, L, m: m
@unit('p_neg', 'c10.sub', loops={'operator-': map_loop(neg_out, this_terms, lambda s, L, c: -c, idm, lambda s, L: Rv(-1))})
def _(ex):
    p = POL(ex, 'p'); e = val(ex, p); r = R(ex, 'p_neg', p); is_canonical(ex, 'the negation', r); value_is(ex, 'the negation', r, -e)
def tc(s, L): return zreal(L.v('rhs').f['mCoeff'])
def tm(s, L): return code(s, L.v('rhs').f['mMonomial'])
@unit('p_mulat', 'c10.mult', loops={'operator*=': map_loop(new_out, this_terms, lambda s, L, c: c * tc(s, L), lambda s, L, m: mul(s, m, tm(s, L)), lambda s, L: tc(s, L) * VM(tm(s, L)))})
def _(ex):
    p, t = POL(ex, 'p'), TERM(ex, 't'); e = val(ex, p) * tval(ex, t); R(ex, 'p_mulat', p, t); is_canonical(ex, 'the product', p); value_is(ex, 'the product', p, e)
@unit('p_mulam', 'c10.mult', loops={'operator*=': map_loop(new_out, this_terms, lambda s, L, c: c, lambda s, L, m: mul(s, m, rhs_code(s, L)), lambda s, L: VM(rhs_code(s, L)))})
def _(ex):
    p, m = POL(ex, 'p'), MONO(ex, 'm'); e = val(ex, p) * VM(ex.read(m)); R(ex, 'p_mulam', p, m); is_canonical(ex, 'the product', p); value_is(ex, 'the product', p, e)
def rv_code(s, L): return var_code(s, L.v('rhs').f['mContent'], 1)
@unit('p_mulav', 'c10.mult', loops={'operator*=': map_loop(new_out, this_terms, lambda s, L, c: c, lambda s, L, m: mul(s, m, rv_code(s, L)), lambda s, L: VM(rv_code(s, L)))})
def _(ex):
    p, x = POL(ex, 'p'), VAR(ex, 'x'); e = val(ex, p) * PV(x.f['mContent'], 1); R(ex, 'p_mulav', p, x); is_canonical(ex, 'the product', p); value_is(ex, 'the product', p, e)
@unit('p_mulac', 'c10.mult', loops={'operator*=': map_loop(new_out, this_terms, lambda s, L, c: c * zreal(L.v('rhs')), idm, lambda s, L: zreal(L.v('rhs')))})
def _(ex):
    p, c = POL(ex, 'p'), NUM(ex, 'c'); e = val(ex, p) * ex.read(c); R(ex, 'p_mulac', p, c); is_canonical(ex, 'the product', p); value_is(ex, 'the product', p, e)
# ------------------------------------------------------------------ C10: product of polynomials
def total(s, L): t = tam(s, L); f = zbool(L.v('first')); l = L.v('newlterm'); return t.f['val'] + z3.If(f, Rv(0), zreal(l.f['mCoeff']) * VM(code(s, l.f['mMonomial'])))
def mul_state(s, L, k, j):
    A, B = terms(s, L.this), terms(s, L.v('rhs')); n1, n2 = znum(A.n), znum(B.n); t = tam(s, L); f = zbool(L.v('first')); l = L.v('newlterm'); lm = code(s, l.f['mMonomial'])
    yield 'the first product is kept apart', f == z3.And(k == 0, j == 0)
    yield 'the leading term of the product', z3.Implies(z3.Not(f), z3.And(zreal(l.f['mCoeff']) == CO(A, n1 - 1) * CO(B, n2 - 1), lm == MUL(z3.simplify(MO(A, n1 - 1)), z3.simplify(MO(B, n2 - 1)))))
    yield 'one term per round', z3.And(t.f['cnt'] == k * n2 + j - z3.If(f, 0, 1), t.f['size'] == n1 * n2)
    yield 'all monomials stay below the leading one', z3.And(z3.Implies(f, t.f['hi'] == -1), z3.Implies(z3.Not(f), t.f['hi'] < lm))
def inv_mo(s, L):
    A, B = terms(s, L.this), terms(s, L.v('rhs')); n1, n2 = znum(A.n), znum(B.n); k = znum(L.k)
    yield 'the iterator advances with the rounds', z3.And(znum(L.v('t1').i) == k, k <= n1)
    yield from mul_state(s, L, k, Iv(0))
    yield 'products of the last k terms', total(s, L) == (Wk(A, n1) - Wk(A, n1 - k)) * Wk(B, n2)
def inv_mi(s, L):
    A, B = terms(s, L.this), terms(s, L.v('rhs')); n1, n2 = znum(A.n), znum(B.n); j = znum(L.k); k = znum(L.v('t1').i)
    yield 'the iterator advances with the rounds', z3.And(znum(L.v('t2').i) == j, j <= n2)
    yield from mul_state(s, L, k, j)
    yield 'products of this row', total(s, L) == L.ghost['t0'] + CO(A, n1 - 1 - k) * VM(MO(A, n1 - 1 - k)) * (Wk(B, n2) - Wk(B, n2 - j))
def b_mo(s, L):
    A, B = terms(s, L.this), terms(s, L.v('rhs')); facts(s, A, [0]); facts(s, B, [0]); mul(s, MO(A, znum(A.n) - 1), MO(B, znum(B.n) - 1))
def h_mo(s, L):
    A, B = terms(s, L.this), terms(s, L.v('rhs')); n1, n2 = znum(A.n), znum(B.n); k = znum(L.k); facts(s, A, [n1 - k]); s.assume_nl(z3.Implies(k + 1 <= n1, k * n2 + n2 <= n1 * n2))
    for w, o in s.ghost['pols']: inst(s, w, o, [n1 - 1 - k, znum(w.n) - 1])
    t, e, wa, wb = Wk(A, n1 - k), CO(A, n1 - 1 - k) * VM(MO(A, n1 - 1 - k)), Wk(A, n1 - 1 - k), Wk(B, n2)
    s.assume_nl(z3.Implies(t == wa + e, (Wk(A, n1) - wa) * wb == (Wk(A, n1) - t) * wb + CO(A, n1 - 1 - k) * VM(MO(A, n1 - 1 - k)) * wb)); s.assume_nl((k + 1) * n2 == k * n2 + n2)
def b_mi(s, L): L.ghost['t0'] = total(s, L)
def h_mi(s, L):
    A, B = terms(s, L.this), terms(s, L.v('rhs')); n1, n2 = znum(A.n), znum(B.n); k = znum(L.v('t1').i); j = znum(L.k); facts(s, B, [n2 - j])
    for w, o in s.ghost['pols']: inst(s, w, o, [n1 - 1 - k, n2 - 1 - j, znum(w.n) - 1])
    a, b = MO(A, n1 - 1 - k), MO(B, n2 - 1 - j); mul(s, a, b)
    e1 = CO(A, n1 - 1 - k) * VM(a); c2 = CO(B, n2 - 1 - j); s.assume_nl(z3.Implies(Wk(B, n2 - j) == Wk(B, n2 - 1 - j) + c2 * VM(b), e1 * (Wk(B, n2) - Wk(B, n2 - 1 - j)) == e1 * (Wk(B, n2) - Wk(B, n2 - j)) + e1 * c2 * VM(b)))
LMUL = {'operator*=#0': Loop(inv=inv_mo, begin=b_mo, havoc=h_mo), 'operator*=#1': Loop(inv=inv_mi, begin=b_mi, havoc=h_mi)}
@unit('p_mula', 'c10.mul', loops=LMUL, contracts={**CON, f'{MP}::operator*=': k_comp('*', 'Q')})
def _(ex):
    p, q = POL(ex, 'p'), POL(ex, 'q'); e = val(ex, p) * val(ex, q); R(ex, 'p_mula', p, q); is_canonical(ex, 'the product', p); value_is(ex, 'the product', p, e)
# ------------------------------------------------------------------ C10: binary operators (callers of the compound operators)
COMP = {f'{MP}::operator+=': k_comp('+', 'PTMVQ'), f'{MP}::operator-=': k_comp('-', 'PTMVQ'), f'{MP}::operator*=': k_comp('*', 'PTMVQ'), f'{MP}::operator-': k_neg, f'{MP}::operator/=': k_comp('/', 'Q')}
MK = {'P': POL, 'T': TERM, 'M': MONO, 'V': VAR, 'Q': NUM}
def bin_unit(root, op, ka, kb, orc):
    @unit(root, orc, contracts={**CON, **COMP})
    def _(ex):
        ex.assume(VM(Rv(0)) == 1)
        a, b = MK[ka](ex, 'a'), MK[kb](ex, 'b'); x, y = value_of(ex, ka, a), value_of(ex, kb, b); r = R(ex, root, a, b)
        is_canonical(ex, 'the result', r); value_is(ex, 'the result', r, {'+': x + y, '-': x - y, '*': x * y}[op])
for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*')):
    for k, sfx, orc in (('P', '', {'add': 'c10.add', 'sub': 'c10.sub', 'mul': 'c10.mul'}[nm]), ('T', 't', 'c10.mult' if nm == 'mul' else 'c10.addt'), ('M', 'm', 'c10.mult' if nm == 'mul' else 'c10.addm'), ('V', 'v', 'c10.mult' if nm == 'mul' else 'c10.addv'), ('Q', 'c', 'c10.mult' if nm == 'mul' else 'c10.addc')):
        bin_unit(f'p_{nm}{sfx}', op, 'P', k, orc)
        if k != 'P': bin_unit(f'p_{sfx}{nm}', op, k, 'P', None)
for root in ('t_addt', 't_addm', 't_addv', 't_addc', 't_subt', 't_subm', 't_subv', 't_subc', 'm_addt', 'm_addc', 'm_subc', 'v_addt', 'v_addc', 'v_subc', 'c_addt', 'c_addm', 'c_addv', 'c_subm', 'c_subv'):
    k = {'t': 'T', 'm': 'M', 'v': 'V', 'c': 'Q'}; bin_unit(root, '+' if 'add' in root else '-', k[root[0]], k[root[-1]], None)
def div_hook(src):
    def inv(s, L):
        v, o = src(s, L), src_old(s, L); k = znum(L.k); c = div_by(s, L)
        yield 'the number of terms stays', z3.And(znum(v.n) == znum(o.n))
        for nm, g in zip('IJ', GIJ(s)):
            yield f'the term at position {nm}', z3.And(MO(v, g) == MO(o, g), CO(v, g) == z3.If(z3.And(0 <= g, g < k), CO(o, g) / c, CO(o, g)))
        i = z3.Int('i!dv'); yield 'the terms not visited are unchanged', z3.And(ms(v) == ms(o), z3.ForAll([i], z3.Implies(k <= i, CO(v, i) == CO(o, i))))
        yield 'the value of the terms visited is divided', Wk(v, k) * c == Wk(o, k)
    return inv
def src_old(s, L): return terms(s, L.old_this if L.s.ghost.get('div') == 'this' else L.at_entry(L.loc('result')))
def div_by(s, L): return zreal(L.v('rhs') if s.ghost['div'] == 'this' else L.v('lc'))
def h_div(src):
    def h(s, L):
        v, o = src(s, L), src_old(s, L); k = znum(L.k); facts(s, o, [k, k + 1]); facts(s, v, [k]); s.assume(div_by(s, L) != 0)
    return h
def e_div(src):
    def e(s, L):
        v, o = src(s, L), src_old(s, L); k = z3.simplify(znum(L.k) - 1); c = div_by(s, L); _facts(s, cs(v), ms(v), [k, k + 1])
        s.prove('dividing one coefficient', CO(v, k) * c == CO(o, k)); x, w = CO(v, k), VM(MO(o, k)); s.assume_nl(z3.Implies(x * c == CO(o, k), (x * w) * c == CO(o, k) * w)); s.assume_nl((Wk(v, k) + x * w) * c == Wk(v, k) * c + (x * w) * c)
    return e
@unit('p_divac', 'c10.divn', loops={'operator/=': Loop(inv=div_hook(this_terms), havoc=h_div(this_terms), end=e_div(this_terms), begin=lambda s, L: facts(s, this_terms(s, L), [0]))})
def _(ex):
    p, c = POL(ex, 'p'), NUM(ex, 'c'); x = ex.read(c); ex.assume(x != 0); ex.ghost['div'] = 'this'; e = val(ex, p); R(ex, 'p_divac', p, c); is_canonical(ex, 'the quotient', p); v = terms(ex, p); facts(ex, v); ex.prove('the quotient times the divisor is the polynomial', Wk(v, v.n) * x == e)
def res_out(s, L): return terms(s, L.v('result'))
@unit('p_norm', None, loops={'normalize': Loop(inv=div_hook(res_out), havoc=h_div(res_out), end=e_div(res_out), begin=lambda s, L: facts(s, res_out(s, L), [0]))})
def _(ex):
    p = POL(ex, 'p'); ex.ghost['div'] = 'result'; v = terms(ex, p); e = val(ex, p); r = R(ex, 'p_norm', p); is_canonical(ex, 'the normalised polynomial', r); w = terms(ex, r); facts(ex, w)
    I = GIJ(ex)[0]; ex.prove('the normalised polynomial has leading coefficient one', z3.Implies(z3.And(znum(w.n) >= 1, I == znum(w.n) - 1), CO(w, I) == 1)); ex.prove('the normalised polynomial times the leading coefficient is the polynomial', z3.If(znum(v.n) == 0, znum(w.n) == 0, Wk(w, w.n) * CO(v, znum(v.n) - 1) == e))
@unit('p_divc', 'c10.divn', contracts={**CON, **COMP})
def _(ex):
    p, c = POL(ex, 'p'), NUM(ex, 'c'); x = ex.read(c); ex.assume(x != 0); e = val(ex, p); r = R(ex, 'p_divc', p, c); is_canonical(ex, 'the quotient', r); v = terms(ex, r); facts(ex, v); ex.prove('the quotient times the divisor is the polynomial', Wk(v, v.n) * x == e)
def lhs_terms(s, L): return terms(s, L.v('lhs'))
@unit('p_divn', 'c10.divn', loops={'operator/': map_loop(res_out, lhs_terms, lambda s, L, c: c / z3.ToReal(znum(L.v('rhs'))), idm, lambda s, L: 1 / z3.ToReal(znum(L.v('rhs'))))})
def _(ex):
    p = POL(ex, 'p'); n = inp(ex, 'int', ex.fresh('n', 'int')); ex.assume(z3.And(n >= 1, n < 1 << 30)); e = val(ex, p); r = R(ex, 'p_divn', p, n); is_canonical(ex, 'the quotient', r); v = terms(ex, r); facts(ex, v); ex.prove('the quotient times the divisor is the polynomial', Wk(v, v.n) * z3.ToReal(n) == e)
# ------------------------------------------------------------------ C10: addTerm, subtractProduct, tail, stripLT, powers
def add_sorted(s, L):
    v, o = terms(s, L.this), terms(s, L.old_this); m = code(s, L.v('term').f['mMonomial']); k = znum(L.k); i = z3.Int('i!u')
    yield 'the iterator advances with the rounds', z3.And(znum(L.v('it').i) == k, k <= znum(v.n))
    yield 'the terms are not changed by the search', z3.And(znum(v.n) == znum(o.n), cs(v) == cs(o), ms(v) == ms(o))
    yield 'all terms passed are smaller', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), MO(v, i) < m), patterns=[MO(v, i)])
def h_adds(s, L):
    s.write(L.frame.this.sub('mTerms'), L.old_this.f['mTerms']); v = terms(s, L.this); I, J = GIJ(s); k = znum(L.k)
    for w, o in s.ghost.get('pols', []): inst(s, w, o, [k, k - 1, k + 1, I, J, I + 1, J + 1, I - 1, J - 1, 0, znum(w.n) - 1])
    m = code(s, L.v('term').f['mMonomial'])
    for i in (I, J, I - 1, J - 1, k - 1): s.assume(z3.Implies(z3.And(0 <= i, i < k), MO(v, i) < m))
def tcode_(s, L): return code(s, L.v('term').f['mMonomial'])
LADDT = {'addTerm#0': Loop(inv=add_sorted, havoc=h_adds), 'addTerm#1': search_loop('it', tcode_)}
@unit('p_addterm', 'c10.addt', loops=LADDT)
def _(ex):
    p, t = POL(ex, 'p'), TERM(ex, 't'); ex.assume(ex.read(t).f['mCoeff'] != 0); I, J = GIJ(ex)
    for w, o in ex.ghost['pols']: inst(ex, w, o, [I + 1, J + 1, I - 1, J - 1, I, J, 0, znum(w.n) - 1])
    e = val(ex, p) + tval(ex, t); R(ex, 'p_addterm', p, t); is_canonical(ex, 'the sum', p); value_is(ex, 'the sum', p, e)
def k_addterm(ex, f, this, args, node):
    """addTerm (unit p_addterm): a non-zero term"""
    t = ex.val(args[0]); ex.prove('addTerm: the term is not zero', zreal(t.f['mCoeff']) != 0, kind='pre'); ex.write(this, fresh_pol(ex, 'sum', val(ex, this) + value_of(ex, 'T', args[0]))); return VOID
def p_terms(s, L): return terms(s, L.v('p'))
def fct(s, L): f = L.v('factor'); return zreal(f.f['mCoeff']) * VM(code(s, f.f['mMonomial']))
def h_sp1(s, L):
    v = p_terms(s, L); f = L.v('factor'); facts(s, v, [L.k, add(L.k, 1)]); k = znum(L.k)
    for w, o in s.ghost['pols']: inst(s, w, o, [k])
    w0, c, e, sc = Wk(v, k), CO(v, k), VM(MO(v, k)), fct(s, L)
    s.assume_nl(z3.Implies(Wk(v, k + 1) == w0 + c * e, Wk(v, k + 1) * sc == w0 * sc + c * e * sc))
    a, b = zreal(f.f['mCoeff']), VM(code(s, f.f['mMonomial'])); s.assume_nl(c * e * sc == (a * c) * (b * e))
LSP = {'subtractProduct#1': tam_loop(this_terms), 'subtractProduct#2': tam_loop(p_terms, contrib=lambda s, L, v, k: -(Wk(v, k) * fct(s, L)))}
LSP['subtractProduct#2'].havoc = h_sp1
def sp0(s, L):
    v = p_terms(s, L); k = znum(L.k); t = terms(s, L.this)
    I, J = GIJ(s)
    yield 'the product with the single term is subtracted', Wk(t, t.n) == Wk(terms(s, L.old_this), terms(s, L.old_this).n) - Wk(v, k) * fct(s, L)
    yield from canon_at(t, zbool(L.this.f['mOrdered']), I, J)
LSP['subtractProduct#0'] = Loop(inv=sp0, havoc=h_sp1, begin=lambda s, L: facts(s, p_terms(s, L), [0]))
@unit('p_subprod', 'c10.subprod', loops=LSP, contracts={**CON, **COMP, f'{MP}::addTerm': k_addterm})
def _(ex):
    p, t, q = POL(ex, 'p'), TERM(ex, 't'), POL(ex, 'q'); a, b, c = val(ex, p), tval(ex, t), val(ex, q); R(ex, 'p_subprod', p, t, q); is_canonical(ex, 'the difference', p); value_is(ex, 'the difference', p, a - b * c)
@unit('p_tail', 'c10.tail', contracts={**CON, 'std::sort': None})
def _(ex):
    p = POL(ex, 'p', nonzero=True); v = terms(ex, p); I, J = GIJ(ex); e = Wk(v, znum(v.n) - 1); r = R(ex, 'p_tail', p, False); is_canonical(ex, 'the tail', r); value_is(ex, 'the tail', r, e)
@unit('p_strip', 'c10.tail')
def _(ex):
    p = POL(ex, 'p', nonzero=True); v = terms(ex, p); e = Wk(v, znum(v.n) - 1); R(ex, 'p_strip', p); is_canonical(ex, 'the polynomial without its leading term', p); value_is(ex, 'the polynomial without its leading term', p, e)
PW = z3.Function('PW', z3.RealSort(), z3.IntSort(), z3.RealSort())
def pw(ex, x, *ks):
    ex.assume(PW(x, 0) == 1)
    for k in ks: ex.assume_nl(z3.Implies(k >= 0, PW(x, k + 1) == PW(x, k) * x))
def keep_canon(name, nm='res'):
    def y(s, L):
        p = L.v(nm)
        for n, f in canon_at(terms(s, p), zbool(p.f['mOrdered']), *GIJ(s)): yield f'{name} {n}', f
    return y
def inv_pow(s, L):
    x = s.ghost['x']; yield 'the factors taken so far', val(s, L.v('res')) == PW(x, znum(L.k)); yield 'the exponent left', z3.And(znum(L.v('exp')) == s.ghost['n'] - znum(L.k), znum(L.v('exp')) >= 0)
    yield 'the base', val(s, L.v('mult')) == x
    yield from keep_canon('the power')(s, L)
def h_pow(s, L): pw(s, s.ghost['x'], znum(L.k)); [facts(s, terms(s, L.v(n)), [0]) for n in ('res', 'mult') if L.has(n)]
@unit('p_pow', 'c10.pow', loops={'pow': Loop(inv=inv_pow, havoc=h_pow, begin=h_pow)}, contracts={**CON, **COMP})
def _(ex):
    p = POL(ex, 'p'); n = inp(ex, 'int', ex.fresh('n', 'int')); ex.assume(z3.And(0 <= n, n < 1 << 30)); x = val(ex, p); ex.ghost.update(x=x, n=n); pw(ex, x, Iv(0), Iv(1), n - 1); ex.assume(z3.Implies(z3.And(x == 0, n >= 1), PW(x, n) == 0))
    r = R(ex, 'p_pow', p, n); is_canonical(ex, 'the power', r); value_is(ex, 'the power', r, PW(x, n))
def inv_pown(s, L):
    x = s.ghost['x']; yield 'the factors taken so far', val(s, L.v('res')) == PW(x, znum(L.v('i'))); yield 'the counter', z3.And(znum(L.v('i')) == znum(L.k) + 1, znum(L.v('i')) <= s.ghost['n'])
    yield from keep_canon('the power')(s, L)
def h_pown(s, L): pw(s, s.ghost['x'], znum(L.v('i'))); facts(s, terms(s, L.v('res')), [0])
@unit('p_pown', 'c10.pow', loops={'pow_naive': Loop(inv=inv_pown, havoc=h_pown)}, contracts={**CON, **COMP})
def _(ex):
    p = POL(ex, 'p'); n = inp(ex, 'int', ex.fresh('n', 'int')); ex.assume(z3.And(0 <= n, n < 1 << 30)); x = val(ex, p); ex.ghost.update(x=x, n=n); pw(ex, x, Iv(0), Iv(1), n - 1)
    r = R(ex, 'p_pown', p, n); is_canonical(ex, 'the power', r); value_is(ex, 'the power', r, PW(x, n))
# ------------------------------------------------------------------ C10: makeMinimallyOrdered
def inv_min(full):
    def inv(s, L):
        v = terms(s, L.this); l, it = znum(L.v('lTerm').i), znum(L.v('it').i); i = z3.Int('i!m'); n = znum(v.n)
        yield 'positions', z3.And(it == znum(L.k) + 1, 0 <= l, l < it, it <= (n if full else n - 1))
        yield 'the largest of the terms passed', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it), MO(v, i) <= MO(v, l)), patterns=[MO(v, i)])
        if full:
            c = znum(L.v('constTerm').i); yield 'the constant term, if it was passed', z3.If(c == n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it), MO(v, i) > 0), patterns=[MO(v, i)]), z3.And(0 <= c, c < it, MO(v, c) == 0))
    return inv
def UNORD(ex, full, sorted_in=False):
    v = fresh_svec(ex, 'p', TSH); ex.assume(z3.And(nz(v), nonneg(v) if full else inner(v), distinct(v), VM(Rv(0)) == 1))
    if sorted_in: ex.assume(sorted_(v))
    inp(ex, 'P', (v, z3.BoolVal(False))); facts(ex, v); ex.assume(znum(v.n) < 1 << 60)
    return ex.alloc(Rec(MP, {'mTerms': v, 'mOrdered': z3.BoolVal(sorted_in)}), 'p'), v
def min_unit(root, full, srt):
    c = {k: h for k, h in CON.items() if k != f'{MP}::makeMinimallyOrdered'}
    @unit(f'{root}{"_sorted" if srt else ""}', None, contracts=c, loops={'makeMinimallyOrdered': Loop(inv=inv_min(full))})
    def _(ex):
        p, v = UNORD(ex, full, srt); R(ex, root, p); w = terms(ex, p)
        is_canonical(ex, 'the rearranged polynomial', p); value_is(ex, 'the rearranged polynomial', p, Wk(v, v.n)); ex.prove('the number of terms stays', znum(w.n) == znum(v.n))
        if srt: g = ex.fresh('g', 'int'); ex.prove('a sorted polynomial is not changed', z3.And(CO(w, g) == CO(v, g), MO(w, g) == MO(v, g)))
for srt in (False, True): min_unit('p_min', False, srt); min_unit('p_minc', True, srt)
# ------------------------------------------------------------------ lemmas about W (induction on the number of terms)
def lemma(name):
    def deco(fn):
        @unit('lemma_' + name)
        def _(ex):
            A = lambda n: ex.fresh(n, RA)
            c, m, i, x, y = A('c'), A('m'), ex.fresh('i', 'int'), ex.fresh('x', 'real'), ex.fresh('y', 'real'); k = ex.fresh('k', 'int'); ex.assume(k >= 0)
            fact = fn(ex, c, m, i, x, y)
            def unf(c, m, k): ex.assume(W(c, m, 0) == 0); ex.assume(z3.Implies(k >= 0, W(c, m, k + 1) == W(c, m, k) + z3.Select(c, k) * VM(z3.Select(m, k))))
            for a, b in ex.ghost['arrs']:
                for d in (-2, -1, 0, 1, 2): unf(a, b, k + d)
                unf(a, b, Iv(0)); unf(a, b, i); unf(a, b, i - 1)
            ex.prove(f'{name}: no terms', fact(Iv(0))); ex.assume(fact(k)); ex.prove(f'{name}: one more term', fact(k + 1))
    return deco
def lams(ex, c, m, i, x, y, fn):
    k = z3.Int('k!lam'); C, M = ex.fresh('C', RA), ex.fresh('M', RA)
    ex.assume(z3.ForAll([k], z3.Select(C, k) == fn(k, c, x), patterns=[z3.Select(C, k)])); ex.assume(z3.ForAll([k], z3.Select(M, k) == fn(k, m, y), patterns=[z3.Select(M, k)]))
    return C, M
@lemma('store')
def _(ex, c, m, i, x, y):
    ex.ghost['arrs'] = [(c, m), (z3.Store(c, i, x), z3.Store(m, i, y))]; return lambda k: sto_fact(c, m, i, x, y, k)
@lemma('insert')
def _(ex, c, m, i, x, y):
    C, M = lams(ex, c, m, i, x, y, lambda k, a, e: z3.If(k < i, z3.Select(a, k), z3.If(k == i, e, z3.Select(a, k - 1)))); ex.ghost['arrs'] = [(c, m), (C, M)]; return lambda k: ins_fact(C, M, c, m, i, x, y, k)
@lemma('erase')
def _(ex, c, m, i, x, y):
    C, M = lams(ex, c, m, i, x, y, lambda k, a, e: z3.If(k < i, z3.Select(a, k), z3.Select(a, k + 1))); ex.ghost['arrs'] = [(c, m), (C, M)]; return lambda k: ers_fact(C, M, c, m, i, k)
@lemma('prefix')
def _(ex, c, m, i, x, y):
    C, M = lams(ex, c, m, i, x, y, lambda k, a, e: z3.If(k < i, z3.Select(a, k), e)); ex.ghost['arrs'] = [(c, m), (C, M)]; return lambda k: pre_fact(C, M, c, m, i, k)
# ------------------------------------------------------------------ C10: the term addition manager itself
ID = z3.Function('ID', z3.RealSort(), z3.IntSort()); MID = z3.Function('MID', z3.IntSort(), z3.RealSort())
def k_id(ex, f, this, args, node):
    """pool identifiers are positive and different for different monomials (C08)"""
    m = ex.read(this).f['code']; ident(ex, m); return ID(m)
def ident(ex, m): ex.assume(z3.And(z3.Implies(m > 0, ID(m) > 0), MID(ID(m)) == m))
def k_resize(ex, f, this, args, node):
    o = ex.read(this)
    if not is_terms(o): return NotImplemented
    r = K.BUILTINS['std::vector::resize'](ex, f, this, args, node); n = ex.read(this)
    if not cs(n).eq(cs(o)): register(ex, n, 'pre', o, o.n)
    return r
def tam_state(ex, x=None, name='d'):
    """a manager entry in use: representation invariant and ghost bound of the monomials"""
    ids = fresh_svec(ex, name + '_ids', INT); ts = fresh_svec(ex, name + '_terms', TSH); c = ex.fresh(name + '_const', 'real'); nx = ex.fresh(name + '_next', 'int'); hi = ex.fresh(name + '_hi', 'real')
    ex.assume(z3.And(VM(Rv(0)) == 1, znum(ts.n) >= 1, 1 <= nx, nx <= znum(ts.n), znum(ts.n) < 1 << 31)); m = z3.Real('m!id'); ex.assume(z3.ForAll([m], z3.And(MID(ID(m)) == m), patterns=[ID(m)]))
    g = z3.Int('g!r'); ex.assume(z3.ForAll([g], z3.And(*[f for _, f in rep_id(ids, ts, nx, g)]), patterns=[z3.Select(ids.cols[0], g)])); ex.assume(z3.ForAll([g], z3.And(*[f for _, f in rep_term(ids, ts, nx, hi, g)]), patterns=[CO(ts, g)])); ex.assume(z3.Implies(c != 0, hi >= 0))
    facts(ex, ts, [0, 1])
    l = ex.alloc(Vec([Tup([ids, ts, True, c, nx])]), name); return l, ids, ts, c, nx, hi
def TID(v, i): return z3.Select(v.cols[0], znum(i))
def rep_id(ids, ts, nx, g):
    l = TID(ids, g); yield 'every used identifier points to its term', z3.Implies(z3.And(0 <= g, g < znum(ids.n), l != 0), z3.And(1 <= l, l < nx, l < znum(ts.n), CO(ts, l) != 0, MO(ts, l) > 0, ID(MO(ts, l)) == g))
def rep_term(ids, ts, nx, hi, h):
    yield 'every stored term is found under its identifier', z3.Implies(z3.And(0 <= h, h < znum(ts.n), CO(ts, h) != 0), z3.And(1 <= h, h < nx, MO(ts, h) > 0, MO(ts, h) <= hi, ID(MO(ts, h)) >= 0, ID(MO(ts, h)) < znum(ids.n), TID(ids, ID(MO(ts, h))) == h))
def tam_now(ex, l): t = ex.read(l).items[0]; return [as_svec(ex, t.items[0], INT), as_svec(ex, t.items[1], TSH), *t.items[2:]]
NOTAM = {k: h for k, h in CON.items() if k not in TAMC}
NOTAM.update({'carl::Monomial::id': k_id, 'std::vector::resize': k_resize})
def tam_add_unit(root, unknown, newm):
    @unit('tam_' + root[4:], None, contracts=NOTAM)
    def _(ex):
        l, ids, ts, c, nx, hi = tam_state(ex); t = TERM(ex, 't', rec=False); tc_, tm_ = ex.read(t).f['mCoeff'], ex.read(t).f['mMonomial']; ex.assume(tc_ != 0); ident(ex, tm_)
        if not unknown: ex.assume(nx < znum(ts.n))
        if not newm: ex.assume(z3.Implies(tm_ > 0, ID(tm_) < znum(ids.n)))
        ex.assume(z3.And(*[f for _, f in rep_id(ids, ts, nx, ID(tm_))])); ex.assume(z3.And(*[f for _, f in rep_term(ids, ts, nx, hi, TID(ids, ID(tm_)))])); ex.assume(z3.And(*[f for _, f in rep_term(ids, ts, nx, hi, nx)])); ex.assume(z3.And(*[f for _, f in rep_term(ids, ts, nx, hi, Iv(0))])); ex.assume(z3.Implies(tm_ > 0, ID(tm_) > 0))
        R(ex, root, ex.alloc(Rec('carl::TermAdditionManager', {}), 'm'), It(l, 0), t)
        ids2, ts2, fl, c2, nx2 = tam_now(ex, l); nx2 = znum(nx2); hi2 = z3.If(tm_ > hi, tm_, hi); facts(ex, ts2, [ts.n, nx])
        for h in (ex.fresh('h', 'int'),):
            ex.assume(z3.And(*[f for _, f in rep_term(ids, ts, nx, hi, h)]))
            for n, f in rep_term(ids2, ts2, nx2, hi2, h): ex.prove(n, f)
            for n, f in rep_id(ids2, ts2, nx2, h): ex.prove(n, f)
        ex.prove('the entry stays in use and its counter in range', z3.And(zbool(fl), 1 <= nx2, nx2 <= nx + 1, nx2 <= znum(ts2.n), z3.Implies(zreal(c2) != 0, hi2 >= 0)))
        if not unknown: ex.prove('the table of terms keeps its size', znum(ts2.n) == znum(ts.n))
        ex.prove('the term is added', Wk(ts2, ts2.n) + zreal(c2) == Wk(ts, ts.n) + c + tc_ * VM(tm_))
for r, u, n in (('tam_add00', False, False), ('tam_add01', False, True), ('tam_add11', True, True)): tam_add_unit(r, u, n)
def rd_state(s, L): l = s.ghost['tam']; ids, ts, *_ = tam_now(s, l); return ids, ts
def inv_read(s, L):
    ids, ts = rd_state(s, L); i = znum(L.v('i').i); n = znum(ts.n); j, k, g = z3.Ints('j!r k!r g!r'); pos = L.ghost['pos']; hi = s.ghost['hi']
    yield 'the position is within the list', z3.And(0 <= i, i <= n)
    yield 'the value of the list stays', Wk(ts, n) == s.ghost['val']
    yield 'the terms passed are not zero', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), CO(ts, j) != 0), patterns=[CO(ts, j)])
    yield 'only the first term may be constant', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, CO(ts, j) != 0), z3.And(MO(ts, j) >= 0, MO(ts, j) <= hi, z3.Implies(j >= 1, MO(ts, j) > 0), z3.Implies(MO(ts, j) > 0, z3.And(ID(MO(ts, j)) >= 0, ID(MO(ts, j)) < znum(ids.n))))), patterns=[CO(ts, j)])
    yield 'no monomial occurs twice', z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n, CO(ts, j) != 0, CO(ts, k) != 0), MO(ts, j) != MO(ts, k)), patterns=[z3.MultiPattern(CO(ts, j), CO(ts, k))])
    yield 'identifiers still in use belong to terms not passed yet', z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < znum(ids.n), TID(ids, g) != 0), z3.And(i <= z3.Select(pos, g), z3.Select(pos, g) < n, CO(ts, z3.Select(pos, g)) != 0, MO(ts, z3.Select(pos, g)) > 0, ID(MO(ts, z3.Select(pos, g))) == g)), patterns=[TID(ids, g)])
def b_read(s, L): ids, ts = rd_state(s, L); L.ghost['pos'] = ids.cols[0]; facts(s, ts)
def h_read(s, L):
    L.ghost['pos'] = s.fresh('pos', z3.ArraySort(z3.IntSort(), z3.IntSort())); ids, ts = rd_state(s, L); L.ghost['ts'] = ts; L.ghost['i'] = znum(L.v('i').i); facts(s, ts)
def e_read(s, L):
    ids, ts = rd_state(s, L); o, i = L.ghost['ts'], L.ghost['i']; last = MO(o, znum(o.n) - 1); L.ghost['pos'] = L.ghost['pos'] if cs(ts).eq(cs(o)) else z3.If(CO(o, znum(o.n) - 1) != 0, z3.Store(L.ghost['pos'], ID(last), i), L.ghost['pos']); facts(s, ts)
@unit('tam_read', None, contracts=NOTAM, loops={'readTerms': Loop(inv=inv_read, begin=b_read, havoc=h_read, end=e_read)})
def _(ex):
    l, ids, ts, c, nx, hi = tam_state(ex); out = ex.alloc(fresh_svec(ex, 'out', TSH), 'out'); ex.ghost.update(tam=l, hi=hi, val=Wk(ts, ts.n) + c); ex.assume(z3.And(*[f for _, f in rep_term(ids, ts, nx, hi, Iv(0))]))
    R(ex, 'tam_read', ex.alloc(Rec('carl::TermAdditionManager', {}), 'm'), It(l, 0), out); w = terms(ex, out); facts(ex, w); ids2, ts2, fl, *_ = tam_now(ex, l); I, J = GIJ(ex); n = znum(w.n)
    ex.prove('the entry is released', z3.Not(zbool(fl))); g = ex.fresh('g', 'int'); ex.prove('no identifier stays in use', z3.Implies(z3.And(0 <= g, g < znum(ids2.n)), TID(ids2, g) == 0))
    ex.prove('no term read is zero', z3.Implies(z3.And(0 <= I, I < n), CO(w, I) != 0)); ex.prove('only the first term read may be constant', z3.Implies(z3.And(0 <= I, I < n), z3.And(MO(w, I) >= 0, z3.Implies(I >= 1, MO(w, I) > 0)))); ex.prove('no monomial is read twice', z3.Implies(z3.And(0 <= I, I < J, J < n), MO(w, I) != MO(w, J)))
    ex.prove('only monomials added are read', z3.Implies(z3.And(0 <= I, I < n), MO(w, I) <= hi)); ex.prove('the terms read are the sum of the terms added', Wk(w, n) == ex.ghost['val'])
def inv_drop(s, L):
    ids, ts = rd_state(s, L); k = znum(L.k); g = z3.Int('g!r'); o = s.ghost['ids']
    yield 'positions', z3.And(znum(L.v('i').i) == k, k <= znum(ts.n), znum(ids.n) == znum(o.n)); t0 = s.ghost['rest'][0]; yield 'the terms stay', z3.And(cs(ts) == cs(t0), ms(ts) == ms(t0), znum(ts.n) == znum(t0.n), *[eq(a, b) for a, b in zip(s.read(s.ghost['tam']).items[0].items[2:], s.ghost['rest'][1:])])
    yield 'identifiers of the terms passed are released', z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < znum(ids.n)), z3.Or(TID(ids, g) == 0, z3.And(TID(ids, g) == TID(o, g), TID(o, g) >= k))), patterns=[TID(ids, g)])
def zero_ok(ids, ts, h): return z3.Implies(z3.And(0 <= h, h < znum(ts.n)), z3.And(MO(ts, h) >= 0, z3.Implies(MO(ts, h) > 0, z3.And(ID(MO(ts, h)) >= 0, ID(MO(ts, h)) < znum(ids.n)))))
def h_drop(s, L):
    l = s.ghost['tam']; t = s.read(l).items[0]; s.write(l, Vec([Tup([t.items[0], *s.ghost['rest']])]))
    o, ts = s.ghost['ids'], rd_state(s, L)[1]; k = znum(L.k); s.assume(zero_ok(o, ts, k)); ident(s, MO(ts, k))
@unit('tam_drop', None, contracts=NOTAM, loops={'dropTerms': Loop(inv=inv_drop, havoc=h_drop)})
def _(ex):
    l, ids, ts, c, nx, hi = tam_state(ex); ex.ghost.update(tam=l, ids=ids, rest=list(ex.read(l).items[0].items[1:])); h = z3.Int('h!z'); ex.assume(z3.ForAll([h], zero_ok(ids, ts, h), patterns=[MO(ts, h)]))
    R(ex, 'tam_drop', ex.alloc(Rec('carl::TermAdditionManager', {}), 'm'), It(l, 0)); ids2, ts2, fl, *_ = tam_now(ex, l); g = ex.fresh('g', 'int')
    ex.prove('the entry is released', z3.Not(zbool(fl))); ex.prove('no identifier stays in use', z3.Implies(z3.And(0 <= g, g < znum(ids2.n)), TID(ids2, g) == 0))
@unit('p_eqt', 'c10.eq')
def _(ex):
    p, t = POL(ex, 'p'), TERM(ex, 't', rec=False); v = terms(ex, p); t_ = ex.read(t); n = znum(v.n); r = R(ex, 'p_eqt', p, t)
    ex.prove('a polynomial equals a term iff it consists of it', zbool(r) == z3.If(t_.f['mCoeff'] == 0, n == 0, z3.And(n == 1, CO(v, 0) == t_.f['mCoeff'], MO(v, 0) == t_.f['mMonomial'])))
@unit('p_eqm', None)
def _(ex):
    p, m = POL(ex, 'p'), MONO(ex, 'm'); v = terms(ex, p); r = R(ex, 'p_eqm', p, m); ex.prove('a polynomial equals a monomial iff it consists of it', zbool(r) == z3.And(znum(v.n) == 1, CO(v, 0) == 1, MO(v, 0) == ex.read(m)))
@unit('p_eqc', None)
def _(ex):
    p, c = POL(ex, 'p'), NUM(ex, 'c'); v = terms(ex, p); x = ex.read(c); n = znum(v.n); r = R(ex, 'p_eqc', p, c); ex.prove('a polynomial equals a number iff it is that constant', zbool(r) == z3.If(x == 0, n == 0, z3.And(n == 1, CO(v, 0) == x, MO(v, 0) == 0)))

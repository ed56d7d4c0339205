"""Contracts for the monomial pool (C21).
The hash table (boost::intrusive::unordered_set) is used through its contract: a lookup returns the stored monomial with the given content, if there is one.  The pool invariant is followed at an
arbitrary stored monomial g: ids of stored monomials are in use, not zero, and differ for different contents; a stored monomial refers to itself.  HC is the hash as a function of the content."""
from .common import *
from vc.containers import *
from vc.engine import NULL
from .mono import PSH, SM, wf, VR
DRIVER = 'pool'; HARNESS = 'pool'
UNITS = []
MN, MP = 'carl::Monomial', 'carl::MonomialPool'
IA = z3.ArraySort(z3.IntSort(), z3.IntSort()); USED = z3.ArraySort(z3.IntSort(), z3.BoolSort())
HC = z3.Function('hash_content', IA, IA, z3.IntSort(), z3.IntSort())
def R(ex, root, *a): return ex.call_root(root, list(a))
def rd(ex, x):
    while isinstance(x, Loc): x = ex.read(x)
    return x
def hc(v): return HC(v.cols[0], v.cols[1], znum(v.n))
def same(ex, a, b):
    """equal lists (the hash is a function of the list)"""
    i = z3.Int('i!q'); e = z3.And(znum(a.n) == znum(b.n), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(a.n)), z3.And(z3.Select(a.cols[0], i) == z3.Select(b.cols[0], i), z3.Select(a.cols[1], i) == z3.Select(b.cols[1], i)))))
    q = ex.fresh('same', 'bool'); ex.assume(q == e); ex.assume(z3.Implies(q, hc(a) == hc(b))); ex.assume(z3.Implies(q, SM(a.cols[1], znum(a.n)) == SM(b.cols[1], znum(b.n)))); return q
def content(ex, name):
    v = fresh_svec(ex, name, PSH); ex.assume(wf(v)); ex.assume(znum(v.n) >= 1); ex.assume(SM(v.cols[1], znum(v.n)) > 0); return v
def stored(ex, v, name):
    i = ex.fresh(name + '_id', 'int'); ex.assume(z3.And(i > 0, z3.Select(ex.ghost['used'], i)))
    l = ex.alloc(Rec(MN, {'mExponents': v, 'mTotalDegree': SM(v.cols[1], znum(v.n)), 'mId': i, 'mHash': hc(v), 'mWeakPtr': NULL}), name); r = ex.read(l); ex.write(l, Rec(MN, {**r.f, 'mWeakPtr': l})); return l
def fld(ex, l, n): return rd(ex, l).f[n]
def pool(ex):
    u = ex.fresh('used', USED); ex.assume(z3.Select(u, 0)); ex.ghost['used'] = u; ex.ghost['g'] = stored(ex, content(ex, 'G'), 'g'); ex.ghost['log'] = []
    return ex.alloc(Rec(MP, {'mIDs': Rec('carl::IDPool', {}), 'mRehashPolicy': Rec('carl::pool::RehashPolicy', {}), 'mPoolBuckets': NULL, 'mPool': Rec('table', {}), 'mMutex': Rec('mutex', {})}), 'pool')
def log(ex, *x): ex.ghost['log'] = ex.ghost['log'] + [x]
# ------------------------------------------------------------------ contracts of the table, the identifiers and the pointers
def k_check(ex, f, this, args, node):
    c = rd(ex, args[0]); g = ex.ghost['g']; q = same(ex, c, fld(ex, g, 'mExponents')); ex.ghost['checked'] = c; ex.ghost['stale'] = False
    if ex.branch(ex.fresh('found', 'bool')):
        if ex.branch(q): return Tup([it(g), False])
        o = stored(ex, c, 'o'); ex.assume(fld(ex, o, 'mId') != fld(ex, g, 'mId')); ex.ghost['o'] = o; return Tup([it(o), False])
    ex.assume(z3.Not(q)); ex.ghost['new'] = True; return Tup([it(NULL), True])
def k_commit(ex, f, this, args, node):
    m = args[0]; r = rd(ex, m); c = ex.ghost.get('checked')
    ex.prove('an entry is only added after looking for its content', z3.BoolVal(c is not None and bool(ex.ghost.get('new'))), kind='precondition'); ex.prove('the table was not changed since the lookup', z3.BoolVal(not ex.ghost.get('stale')), kind='precondition')
    ex.prove('the added monomial has the content looked for', same(ex, r.f['mExponents'], c), kind='precondition'); ex.prove('the cached hash is the hash of the content', znum(r.f['mHash']) == hc(c), kind='precondition')
    ex.prove('the added monomial has an identifier of its own', z3.And(znum(r.f['mId']) != 0, z3.Select(ex.ghost['used'], znum(r.f['mId'])), znum(r.f['mId']) != fld(ex, ex.ghost['g'], 'mId')), kind='precondition')
    ex.prove('the added monomial refers to itself', z3.BoolVal(r.f['mWeakPtr'] == m), kind='precondition'); log(ex, 'commit', m); return it(m)
def k_rehash(ex, f, this, args, node):
    """the entries are kept, but the place found by an earlier lookup is not valid any more"""
    ex.ghost['stale'] = True; return VOID
def k_get(ex, f, this, args, node):
    r = ex.fresh('issued', 'int'); u = ex.ghost['used']; ex.assume(z3.And(r >= 0, z3.Not(z3.Select(u, r)))); ex.ghost['used'] = z3.Store(u, r, True); return r
def k_idfree(ex, f, this, args, node):
    i = znum(ex.val(args[0])); u = ex.ghost['used']; ex.prove('the identifier given back is in use', z3.Select(u, i), kind='precondition'); ex.ghost['used'] = z3.Store(u, i, False); log(ex, 'free', i); return VOID
def k_sort(ex, f, this, args, node):
    """sorting a list that is sorted already (the comparison is shown to be by variable)"""
    b, e = ex.val(args[0]), ex.val(args[1]); v = ex.read(b.c); x, y, p, q = (ex.fresh(n, 'int') for n in 'xypq'); ex.assume(z3.And(x > 0, y > 0))
    r = ex.condval(ex.val(ex.call_closure(ex.val(args[2]), [ex.alloc(Tup([VR(x), p])), ex.alloc(Tup([VR(y), q]))], node))); ex.prove('sorted by variable', zbool(r) == (x < y)); ex.prove('the whole list', z3.And(znum(b.i) == 0, znum(e.i) == znum(v.n))); ex.prove('the list is sorted already', wf(v)); return VOID
def k_acc(ex, f, this, args, node):
    b, e = ex.val(args[0]), ex.val(args[1]); v = ex.read(b.c); d, x, p = (ex.fresh(n, 'int') for n in 'dxp'); ex.assume(z3.And(d >= 0, p >= 0))
    r = ex.val(ex.call_closure(ex.val(args[3]), [d, ex.alloc(Tup([VR(x), p]))], node)); ex.prove('the exponents are added', znum(r) == d + p); ex.prove('the whole list from zero', z3.And(znum(b.i) == 0, znum(e.i) == znum(v.n), znum(ex.val(args[2])) == 0)); return SM(v.cols[1], znum(v.n))
def k_hash(ex, f, this, args, node): return hc(rd(ex, args[0]))
def ptr(ex, x):
    """the object behind a pointer, an iterator or a place holding one"""
    while isinstance(x, Loc):
        v = ex.read(x)
        if v is NULL: return NULL
        if not isinstance(v, Loc): return x
        x = v
    return x
def it(p): return Rec('iterator', {'p': p})
def itp(ex, x): return rd(ex, x).f['p']
def k_weak(ex, f, this, args, node): ex.write(this, ptr(ex, args[0])); return this
def k_find(ex, f, this, args, node): return it(args[0] if ex.ghost['in'] else NULL)
def k_erase(ex, f, this, args, node): log(ex, 'erase', itp(ex, args[0])); return VOID
def k_veq(ex, f, this, args, node):
    a, b = rd(ex, args[0]), rd(ex, args[1])
    return same(ex, a, b) if isinstance(a, SVec) and isinstance(b, SVec) and a.shape is PSH and b.shape is PSH else NotImplemented
BI = 'boost::intrusive::'
CON = {BI + 'unordered_set_impl::insert_check': k_check, BI + 'unordered_set_impl::insert_commit': k_commit, BI + 'insert_commit_data_impl::insert_commit_data_impl': lambda ex, f, this, args, node: Rec('commit_data', {}),
    BI + 'hashtable_iterator::operator->': lambda ex, f, this, args, node: itp(ex, this), BI + 'hashtable_iterator::hashtable_iterator': lambda ex, f, this, args, node: rd(ex, args[0]), BI + 'hashtable_impl::find': k_find, BI + 'hashtable_impl::erase': k_erase,
    BI + 'bucket_plus_vtraits::end': lambda ex, f, this, args, node: it(NULL), BI + 'hashtable_impl::end': lambda ex, f, this, args, node: it(NULL), BI + 'operator!=': lambda ex, f, this, args, node: itp(ex, args[0]) != itp(ex, args[1]), BI + 'operator==': lambda ex, f, this, args, node: itp(ex, args[0]) == itp(ex, args[1]),
    BI + 'unordered_set_base_hook::unordered_set_base_hook': lambda ex, f, this, args, node: Rec('hook', {}), 'carl::IDPool::get': k_get, 'carl::IDPool::free': k_idfree, 'std::weak_ptr::weak_ptr': lambda ex, f, this, args, node: NULL, 'std::weak_ptr::operator=': k_weak,
    'std::weak_ptr::lock': lambda ex, f, this, args, node: ptr(ex, this), 'std::sort': k_sort, 'std::accumulate': k_acc, MN + '::hashContent': k_hash, MP + '::check_rehash': k_rehash, 'std::operator==': k_veq}
def unit(name, op=None, **kw):
    kw.setdefault('merge', False); kw.setdefault('describe', lambda ex, m: [])
    def deco(fn): UNITS.append(U('C21', 'pool.' + name, fn, op, contracts=CON, svec=True, **kw)); return fn
    return deco
def created(ex, r, c):
    """what every creation guarantees"""
    g = ex.ghost['g']; r = ptr(ex, r); ex.prove('a monomial is returned', z3.BoolVal(r is not NULL)); q = same(ex, c, fld(ex, g, 'mExponents')); i = znum(fld(ex, r, 'mId'))
    ex.prove('the monomial has the requested content', same(ex, fld(ex, r, 'mExponents'), c)); ex.prove('a stored monomial with this content is returned itself', z3.Implies(q, z3.BoolVal(r == g))); ex.prove('different contents have different identities', z3.Implies(z3.Not(q), i != fld(ex, g, 'mId')))
    ex.prove('the identifier is in use', z3.And(i != 0, z3.Select(ex.ghost['used'], i))); ex.prove('the identifier of the stored monomial stays in use', z3.Select(ex.ghost['used'], fld(ex, g, 'mId'))); ex.prove('the hash is that of the content', znum(fld(ex, r, 'mHash')) == hc(c)); ex.prove('the total degree is the sum of the exponents', znum(fld(ex, r, 'mTotalDegree')) == SM(c.cols[1], znum(c.n)))
    ex.prove('a new monomial is stored, others are not', z3.BoolVal(ex.ghost['log'] == ([('commit', r)] if ex.ghost.get('new') else [])))
@unit('create', 'c21.create')
def _(ex):
    p = pool(ex); c = content(ex, 'C'); d = ex.fresh('d', 'int'); ex.assume(z3.Or(d == 0, d == SM(c.cols[1], znum(c.n)))); created(ex, R(ex, 'p_create', p, ex.alloc(c, 'c'), d), c)
@unit('create0', 'c21.create')
def _(ex): p = pool(ex); c = content(ex, 'C'); created(ex, R(ex, 'p_create0', p, ex.alloc(c, 'c')), c)
@unit('create_var', 'c21.create')
def _(ex):
    p = pool(ex); x, e = ex.fresh('x', 'int'), ex.fresh('e', 'int'); ex.assume(z3.And(x > 0, e > 0)); c = SVec(1, [z3.K(z3.IntSort(), x), z3.K(z3.IntSort(), e)], PSH); ex.assume(SM(c.cols[1], 1) == e); created(ex, R(ex, 'p_var', p, VR(x), e), c)
for _n, _in, _who in (('free', True, 'o'), ('free_g', True, 'g'), ('free_null', False, None)):
    @unit(_n, 'c21.history')
    def _(ex, inside=_in, who=_who):
        p = pool(ex); g = ex.ghost['g']; u0 = ex.ghost['used']; gi = fld(ex, g, 'mId'); ex.ghost['in'] = inside; m = g if who == 'g' else NULL
        if who == 'o': m = stored(ex, content(ex, 'O'), 'o'); ex.assume(fld(ex, m, 'mId') != gi)
        R(ex, 'p_free', p, m); u = ex.ghost['used']; k = ex.fresh('k', 'int')
        if m is NULL: ex.prove('nothing happens', z3.BoolVal(ex.ghost['log'] == [])); return
        i = fld(ex, m, 'mId'); ex.prove('exactly the identifier of the monomial is given back', z3.Select(u, k) == z3.And(k != i, z3.Select(u0, k))); ex.prove('exactly the monomial is removed', z3.BoolVal([x for x in ex.ghost['log'] if x[0] == 'erase'] == [('erase', m)]))
@unit('content_equal', 'c21.create')
def _(ex):
    p = pool(ex); g = ex.ghost['g']; c = content(ex, 'C'); q = same(ex, c, fld(ex, g, 'mExponents')); l = ex.alloc(c, 'c')
    ex.prove('equal iff the contents agree', zbool(ex.condval(R(ex, 'e_cm', l, g))) == q); ex.prove('equal iff the contents agree, operands swapped', zbool(ex.condval(R(ex, 'e_mc', g, l))) == q); ex.prove('looked up by the hash of the content', znum(R(ex, 'e_hash', l)) == hc(c))
@unit('identity', 'c21.create')
def _(ex):
    p = pool(ex); g = ex.ghost['g']; c = content(ex, 'C'); q = same(ex, c, fld(ex, g, 'mExponents'))
    o = g if ex.branch(q) else stored(ex, c, 'o')
    if o is not g: ex.assume(fld(ex, o, 'mId') != fld(ex, g, 'mId'))
    ex.prove('equality of monomials is equality of contents', zbool(ex.condval(R(ex, 'm_eq', g, o))) == q); ex.prove('equality of pointers is equality of contents', zbool(ex.condval(R(ex, 'a_eq', ex.alloc(g, 'a'), ex.alloc(o, 'b')))) == q)
    ex.prove('equal monomials have equal hashes', z3.Implies(q, znum(R(ex, 'm_hash', g)) == znum(R(ex, 'm_hash', o)))); ex.prove('both hash functions agree', znum(R(ex, 'm_hash', g)) == znum(R(ex, 'm_hashv', g))); ex.prove('the identity is the identifier', znum(R(ex, 'm_id', g)) == fld(ex, g, 'mId'))

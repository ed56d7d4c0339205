"""Contracts for variables and the variable pool (C20)."""
from .common import *
from vc.containers import *
import vc.containers as K
DRIVER = 'vars'; HARNESS = 'vars'
UNITS = []
def unit(name, op=None, **kw):
    def d(run): UNITS.append(U('C20', 'vars.' + name, run, op, **kw)); return run
    return d
def R(ex, root, *a): return ex.call_root(root, list(a))
B64 = z3.BitVecSort(64)
TYPES = {'bool': 0, 'real': 1, 'int': 2, 'un': 3, 'bv': 4}
def bv(v): return v if isz(v) and z3.is_bv(v) else z3.BitVecVal(int(v), 64)
def content(ex, v):
    if isinstance(v, Loc): v = ex.read(v)
    return bv(v.f['mContent'])
def fields(c): return z3.LShR(c, 60), z3.LShR(c, 3) & z3.BitVecVal((1 << 57) - 1, 64), c & z3.BitVecVal(7, 64)   # rank, id, type
def wf(c):
    """a variable as made by the constructor within the documented ranges"""
    r, i, t = fields(c); return z3.And(i != 0, z3.ULE(t, 4))
def V(ex, name, ok=True):
    c = ex.fresh(name, B64)
    if ok: ex.assume(wf(c))
    ex.witness.setdefault('args', []).append(('V', c))
    return ex.alloc(Rec('carl::Variable', {'mContent': c}), name)
PRINT['V'] = lambda m, c: str(mval(m, c))
PRINT['bv'] = lambda m, c: str(mval(m, c))
def ctor(ex, id, ty, rank):
    for fid, f in ex.p.funcs.items():
        if f['sn'] == 'carl::Variable::Variable' and len(f['p']) == 3: return ex.construct_args(f, fid, ex.p.types[f['cls']], [id, ty, rank], None)
    raise Unsupported('constructor of Variable not extracted')
def nm_type(ex, r): r = ex.val(r); return bv(r) if isz(r) and z3.is_bv(r) else r
for tn, t in TYPES.items():
    @unit('make_' + tn, 'c20.make', bv={64})
    def _(ex, t=t):
        i = inp(ex, 'bv', ex.fresh('id', B64)); r = inp(ex, 'bv', ex.fresh('rank', B64)); inp(ex, 'Z', t)
        ex.assume(z3.And(i != 0, z3.ULT(i, 1 << 57), z3.ULT(r, 16)))
        v = ctor(ex, i, t, r); v = v if isinstance(v, Loc) else ex.alloc(v)
        ex.prove('identifier, rank and type are packed into separate fields', AND(*[a == b for a, b in zip(fields(content(ex, v)), (r, i, z3.BitVecVal(t, 64)))]))
        ex.prove('identifier is kept', bv(R(ex, 'v_id', v)) == i)
        ex.prove('type is kept', eq(R(ex, 'v_type', v), t) if not (isz(R(ex, 'v_type', v)) and z3.is_bv(R(ex, 'v_type', v))) else R(ex, 'v_type', v) == z3.BitVecVal(t, R(ex, 'v_type', v).size()))
        ex.prove('rank is kept', bv(R(ex, 'v_rank', v)) == r)
@unit('fields', 'c20.cmp', bv={64})
def _(ex):
    v = V(ex, 'v'); V(ex, 'w'); r, i, t = fields(content(ex, v))
    ex.prove('id() is the identifier field', bv(R(ex, 'v_id', v)) == i); ex.prove('rank() is the rank field', bv(R(ex, 'v_rank', v)) == r)
    ty = R(ex, 'v_type', v); ex.prove('type() is the type field', (z3.ZeroExt(64 - ty.size(), ty) == t) if isz(ty) and z3.is_bv(ty) else znum(ty) == z3.BV2Int(t))
@unit('none', 'c20.none', bv={64})
def _(ex):
    v = V(ex, 'v'); n = R(ex, 'v_none'); n = n if isinstance(n, Loc) else ex.alloc(n)
    ex.prove('the invalid variable has identifier zero', bv(R(ex, 'v_id', n)) == 0); ex.prove('no valid variable equals the invalid one', NOT(zbool(R(ex, 'v_eq', v, n))))
@unit('compare', 'c20.cmp', bv={64})
def _(ex):
    a = V(ex, 'a'); b = V(ex, 'b'); ca, cb = content(ex, a), content(ex, b); fa, fb = fields(ca), fields(cb)
    same = z3.And(*[x == y for x, y in zip(fa, fb)])
    e, n, l, g, le_, ge_ = [zbool(R(ex, 'v_' + o, a, b)) for o in ('eq', 'ne', 'lt', 'gt', 'le', 'ge')]
    ex.prove('equal exactly when identifier, type and rank agree', IFF(e, same)); ex.prove('different is the negation of equal', IFF(n, z3.Not(e)))
    ex.prove('exactly one of less, equal, greater', z3.And(z3.Or(l, e, g), z3.Not(z3.And(l, e)), z3.Not(z3.And(l, g)), z3.Not(z3.And(e, g))))
    ex.prove('less-or-equal and greater-or-equal are consistent', z3.And(le_ == z3.Or(l, e), ge_ == z3.Or(g, e)))
    ex.prove('greater is less with swapped sides', IFF(g, zbool(R(ex, 'v_lt', b, a))))
    h1, h2 = R(ex, 'v_hash', a), R(ex, 'v_hash', b); ex.prove('equal variables have equal hashes', z3.Implies(e, bv(h1) == bv(h2)))
@unit('order', 'c20.trans', bv={64})
def _(ex):
    a = V(ex, 'a'); b = V(ex, 'b'); c = V(ex, 'c')
    ab, bc, ac = [zbool(R(ex, 'v_lt', x, y)) for x, y in ((a, b), (b, c), (a, c))]; ex.prove('the order is transitive', z3.Implies(z3.And(ab, bc), ac))
    ex.prove('the order is irreflexive', z3.Not(zbool(R(ex, 'v_lt', a, a))))
    ra, rb = fields(content(ex, a))[0], fields(content(ex, b))[0]; ex.prove('a variable of lower rank is smaller', z3.Implies(z3.ULT(ra, rb), ab))

# ------------------------------------------------------------------ pool
NS = TupShape([RecShape('carl::Variable', [('mContent', ScalarShape(B64))]), INT])
SH = {'carl::Variable': RecShape('carl::Variable', [('mContent', ScalarShape(B64))])}
def POOL(ex):
    nx = [ex.fresh(f'next{i}', B64) for i in range(5)]
    ex.assume(z3.And(*[z3.And(n != 0, z3.ULT(n, (1 << 57) - 1)) for n in nx]))
    names = K.fresh_map(ex, 'names', NS); pers = fresh_svec(ex, 'pers', NS)
    # every persistent variable was issued: well-formed, rank 0, identifier below the counter of its type
    j = z3.Int('j!p'); c = pers.cols[0]
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < pers.n), issued(nx, c[j])), patterns=[c[j]]))
    p = ex.alloc(Rec('carl::VariablePool', {'mNextIDs': Vec(nx), 'mPersistentVariables': pers, 'mVariableNames': names, 'mVariablePrefix': ex.fresh('prefix', 'int'), 'freshVarMutex': UNDEF, 'setNameMutex': UNDEF}), 'pool')
    ex.atypes[p.addr] = next(f['cls'] for f in ex.p.funcs.values() if f['sn'] == 'carl::VariablePool::clear')
    ex.ghost['pool'] = p; ex.ghost['old'] = ex.read(p)
    return p
def below(nx, i, t): return z3.Or(*[z3.And(t == k, z3.ULT(i, bv(nx[k]))) for k in range(5)])
def issued(nx, c):
    r, i, t = fields(c); return z3.And(r == 0, i != 0, below(nx, i, t))
KP = {'carl::Singleton::getInstance': lambda ex, f, this, args, node: ex.ghost['pool']}
PK = dict(contracts=KP, bv={64}, shapes=SH, weak_oracle=True)
def after_fresh(ex, p, v, t):
    """representation invariant after issuing v"""
    o = ex.ghost['old'].f['mNextIDs'].items; n = ex.read(p).f['mNextIDs'].items; c = content(ex, v); g = ex.fresh('g', B64)
    ex.prove('the new variable was not created before', z3.Not(issued(o, c)))
    ex.prove('the new variable has the requested type, rank 0 and a valid identifier', AND(*[a == b for a, b in zip((fields(c)[0], fields(c)[2]), (z3.BitVecVal(0, 64), z3.BitVecVal(t, 64)))], fields(c)[1] != 0))
    ex.prove('the new variable and all earlier ones count as created', z3.And(issued(n, c), z3.Implies(issued(o, g), issued(n, g))))
def named(ex, p, c, s):
    """c is registered under s"""
    m = ex.read(p).f['mVariableNames'] if not isinstance(p, SVec) else p; w = ex.ghost.get('nw')
    return m
def KSET(ex, f, this, args, node): return NotImplemented
for tn, t in TYPES.items():
    @unit('fresh_' + tn, 'c20.fresh', **PK)
    def _(ex, t=t): p = POOL(ex); after_fresh(ex, p, R(ex, 'v_fresh', t), t)
    @unit('freshapi_' + tn, 'c20.fresh', **PK)
    def _(ex, t=t, tn=tn): p = POOL(ex); after_fresh(ex, p, R(ex, 'v_' + tn), t)
    for root in ('v_freshn', 'v_%sn' % tn):
        @unit('named_%s_%s' % (tn, root), 'c20.fresh', **PK)
        def _(ex, t=t, tn=tn, root=root):
            p = POOL(ex); s = ex.fresh('name', 'int'); sl = ex.alloc(s); v = R(ex, root, *([sl, t] if root == 'v_freshn' else [sl])); after_fresh(ex, p, v, t)
            v = v if isinstance(v, Loc) else ex.alloc(v); ex.prove('the name of the new variable is found again', eq(ex.val(R(ex, 'p_name', p, v)), s))
    @unit('persistent_' + tn, 'c20.fresh', **PK)
    def _(ex, t=t): 
        p = POOL(ex); v = R(ex, 'p_pers', p, t); after_fresh(ex, p, v, t); pers_ok(ex, p, v, None)
    @unit('persistentn_' + tn, 'c20.fresh', **PK)
    def _(ex, t=t):
        p = POOL(ex); s = ex.fresh('name', 'int'); v = R(ex, 'p_persn', p, ex.alloc(s), t); after_fresh(ex, p, v, t); pers_ok(ex, p, v, s)
        v = v if isinstance(v, Loc) else ex.alloc(v); ex.prove('the name of the new variable is found again', eq(ex.val(R(ex, 'p_name', p, v)), s))
    @unit('count_' + tn, 'c20.fresh', **PK)
    def _(ex, t=t):
        p = POOL(ex); ex.prove('the number of variables is that of the identifiers issued', bv(R(ex, 'p_nr', p, t)) == bv(ex.read(p).f['mNextIDs'].items[t]) - 1)
def pers_ok(ex, p, v, s):
    o = ex.ghost['old'].f['mPersistentVariables']; q = ex.read(p).f['mPersistentVariables']; g = ex.fresh('pg', 'int')
    ex.assume(z3.And(g >= 0, g < o.n))
    ex.prove('persistent variables so far are kept', z3.And(znum(q.n) > g, *[x[g] == y[g] for x, y in zip(o.cols, q.cols)]))
    w = znum(o.n); ex.prove('the new variable is persistent', z3.And(znum(q.n) > w, q.cols[0][w] == content(ex, v), True if s is None else q.cols[1][w] == s))
@unit('set_name', 'c20.fresh', **PK)
def _(ex):
    p = POOL(ex); v = V(ex, 'v'); w = V(ex, 'w'); s = ex.fresh('name', 'int'); sl = ex.alloc(s); before = ex.val(R(ex, 'p_name', p, w)); had = has_name(ex, p, content(ex, w))
    R(ex, 'p_set', p, v, sl)
    ex.prove('a registered name is found again', eq(ex.val(R(ex, 'p_name', p, v)), s))
    ex.prove('the names of other variables stay', z3.Implies(z3.And(had, content(ex, v) != content(ex, w)), znum(ex.val(R(ex, 'p_name', p, w))) == znum(before)))
    ex.prove('keys stay distinct', dist(ex, ex.read(p).f['mVariableNames']))
def dist(ex, m):
    i, j = ex.fresh('di', 'int'), ex.fresh('dj', 'int'); return z3.Implies(z3.And(i >= 0, j >= 0, i < znum(m.n), j < znum(m.n), m.cols[0][i] == m.cols[0][j]), i == j)
def has_name(ex, p, c):
    m = ex.read(p).f['mVariableNames']; i = K.map_find(ex, m, Rec('carl::Variable', {'mContent': c})); return znum(i) < znum(m.n)
def find_inv(s, L):
    m = s.read(s.ghost['pool']).f['mVariableNames']; j = z3.Int('j!fi')
    return [('names passed differ', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), m.cols[1][j] != s.ghost['name']), patterns=[m.cols[1][j]]))]
NOV = lambda ex, *a: ex.alloc(Rec('carl::Variable', {'mContent': z3.BitVecVal(0, 64)}))
@unit('find', 'c20.fresh', loops={'findVariableWithName': Loop(inv=find_inv)}, globals={'carl::Variable::NO_VARIABLE': NOV}, **PK)
def _(ex):
    p = POOL(ex); m = ex.read(p).f['mVariableNames']; s = ex.fresh('name', 'int'); ex.ghost['name'] = s; v = R(ex, 'p_find', p, ex.alloc(s)); c = content(ex, v); g = ex.fresh('g', 'int')
    jj = z3.Int('j!nz'); ex.assume(z3.ForAll([jj], m.cols[0][jj] != 0, patterns=[m.cols[0][jj]]))   # only valid variables are named
    ex.prove('no registered variable of that name is overlooked', z3.Implies(z3.And(g >= 0, g < m.n, m.cols[1][g] == s), c != 0))
    i = K.map_find(ex, m, Rec('carl::Variable', {'mContent': c}))
    ex.prove('the variable found is registered under that name', z3.Implies(c != 0, z3.And(i < znum(m.n), m.cols[1][i] == s)))
def clear_inv(s, L):
    me = L.this; pers = s.ghost['old'].f['mPersistentVariables']; k = znum(L.k); j = z3.Int('j!ci'); nx = [bv(x) for x in me.f['mNextIDs'].items]; o = s.ghost['old'].f['mNextIDs'].items; g = s.ghost['pg']
    m = me.f['mVariableNames']; 
    return [('counters valid', z3.And(*[z3.And(n != 0, z3.ULE(n, b)) for n, b in zip(nx, o)])),
            ('the persistent variables passed count as created', z3.Implies(z3.And(g >= 0, g < k), issued(nx, pers.cols[0][g])))]
@unit('clear', 'c20.fresh', loops={'clear': Loop(inv=clear_inv)}, **PK)
def _(ex):
    ex.ghost['pg'] = g = ex.fresh('pg', 'int'); p = POOL(ex); pers = ex.read(p).f['mPersistentVariables']; R(ex, 'p_clear', p); q = ex.read(p)
    ex.prove('persistent variables still count as created after clear()', z3.Implies(z3.And(g >= 0, g < pers.n), issued(q.f['mNextIDs'].items, pers.cols[0][g])))
    ex.prove('the list of persistent variables is kept', z3.Implies(z3.And(g >= 0, g < pers.n), z3.And(znum(q.f['mPersistentVariables'].n) == pers.n, q.f['mPersistentVariables'].cols[0][g] == pers.cols[0][g])))

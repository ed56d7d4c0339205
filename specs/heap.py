"""Contracts for the heap based priority queue (C28).
Entries are opaque; the order of the configuration is an uninterpreted key function (any total preorder).  The element array is modelled as the positions 1..capacity of the tree; element
access (pointer arithmetic) and growing the storage are assumed contracts, everything else is the code.  CNT(a, n, v) is the number of positions 1..n of a that hold v, used through its
change by a single store and by a change of n."""
from .common import *
from vc.containers import *
DRIVER = 'heap'; HARNESS = 'heap'
UNITS = []
I = z3.IntSort(); ARR = z3.ArraySort(I, I)
KEY = z3.Function('key', I, I); CNT = z3.Function('cnt', ARR, I, I, I)
sel = z3.Select
def R(ex, root, *a): return ex.call_root(root, list(a))
def rd(ex, x):
    while isinstance(x, Loc): x = ex.read(x)
    return x
def one(c): return z3.If(c, 1, 0)
def store(ex, a, i, x, n):
    """array after a store, with the change of the count of the ghost value"""
    b = z3.Store(a, i, x); v = ex.ghost['v']; ex.assume(z3.Implies(z3.And(1 <= i, i <= n), CNT(b, n, v) == CNT(a, n, v) - one(sel(a, i) == v) + one(x == v))); return b
def edge(a, n, but=None):
    p, c = z3.Ints('p!h c!h'); A = [1 <= p, c <= n, 2 * p <= c, c <= 2 * p + 1]
    if but is not None: A += [c != but, p != but]
    return z3.ForAll([p, c], z3.Implies(z3.And(*A), KEY(sel(a, p)) >= KEY(sel(a, c))), patterns=[z3.MultiPattern(sel(a, p), sel(a, c))])
def above(a, n, h):
    """the parent of position h is not below the children of h"""
    p, c = z3.Ints('p!a c!a'); return z3.ForAll([p, c], z3.Implies(z3.And(1 <= p, 2 * p <= h, h <= 2 * p + 1, 2 * h <= c, c <= 2 * h + 1, c <= n), KEY(sel(a, p)) >= KEY(sel(a, c))), patterns=[z3.MultiPattern(sel(a, p), sel(a, c))])
def W(ex): return ex.ghost['w']
def idx(ex, node): return znum(rd(ex, node).f['_index']) / W(ex)
def tree(ex, h): return rd(ex, h).f['_tree']
def arr(t): return t.f['_array'].cols[0]
def last(ex, t): return znum(t.f['_lastLeaf'].f['_index']) / W(ex)
def k_at(ex, f, this, args, node):
    i = idx(ex, args[0]); a = rd(ex, this).f['_array']; ex.prove('position inside the storage', z3.And(1 <= i, i < znum(a.n)), kind='precondition'); ex.prove('position is a multiple of the element size', znum(rd(ex, args[0]).f['_index']) % W(ex) == 0, kind='precondition'); return this.sub('_array').sub(('[]', i))
def k_grow(ex, f, this, args, node):
    t = rd(ex, this); a = t.f['_array']; m = ex.fresh('capacity', 'int'); ex.assume(m >= znum(a.n)); ex.assume(m >= 2); cap = t.f['_capacityEnd']; d = dict(t.f); d['_array'] = SVec(m + 1, a.cols, a.shape); d['_capacityEnd'] = Rec(cap.q, {'_index': m * W(ex)}); ex.write(this, Rec(t.q, d)); return VOID
def k_compare(ex, f, this, args, node): return KEY(znum(ex.val(args[0]))) - KEY(znum(ex.val(args[1])))
T = 'carl::CompactTree'
CS = {f'{T}::operator[]': k_at, f'{T}::increaseCapacity': k_grow, 'vp::ConfBase::compare': k_compare}
def the(s, L): t = L.this.f['_tree']; return arr(t), last(s, t)
def node_ok(s, x, n): x = znum(rd(s, x).f['_index']); return z3.And(x % W(s) == 0, x >= W(s), x <= n * W(s))
# sift down: the hole may hold anything
def inv_down(s, L):
    a, n = the(s, L); h = idx(s, L.v('hole')); v = s.ghost['v']; yield 'number of entries', n == s.ghost['m']; yield 'position', node_ok(s, L.v('hole'), n)
    yield 'ordered apart from the hole', edge(a, n, h); yield 'ordered around the hole', above(a, n, h)
    yield 'no entry lost: those outside the hole are the old ones', CNT(a, n, v) - one(sel(a, h) == v) == s.ghost['others']
def hv_down(s, L): a, n = the(s, L); s.ghost['a_'] = a; s.ghost['h_'] = idx(s, L.v('hole'))
def fin_down(s, L): a, n = the(s, L); a0, h0 = s.ghost['a_'], s.ghost['h_']; h = idx(s, L.v('hole')); b = store(s, a0, h0, sel(a0, h), n); s.prove('the entry moved is that of the new hole', b == a); s.assume(b == a)
def hole_var(s, L): a, n = the(s, L); return n - idx(s, L.v('hole'))
# sift up: the value belongs into the hole
def inv_up(s, L):
    a, n = the(s, L); h = idx(s, L.v('pos')); x = znum(L.v('value')); v = s.ghost['v']; b = z3.Store(a, h, x); p, c = z3.Ints('p!u c!u'); yield 'number of entries', n == s.ghost['m']; yield 'position', node_ok(s, L.v('pos'), n)
    yield 'ordered apart from the hole', edge(a, n, h); yield 'ordered around the hole', above(a, n, h)
    yield 'the value is not below the children of the hole', z3.ForAll([c], z3.Implies(z3.And(2 * h <= c, c <= 2 * h + 1, c <= n), KEY(x) >= KEY(sel(a, c))), patterns=[sel(a, c)])
    yield 'no entry lost: those outside the hole are the old ones', CNT(a, n, v) - one(sel(a, h) == v) == s.ghost['others']; yield 'the value is kept', x == s.ghost['x']
def hv_up(s, L): a, n = the(s, L); s.ghost['a_'] = a; s.ghost['h_'] = idx(s, L.v('pos'))
def fin_up(s, L): a, n = the(s, L); a0, h0 = s.ghost['a_'], s.ghost['h_']; h = idx(s, L.v('pos')); b = store(s, a0, h0, sel(a0, h), n); s.prove('the entry moved is that of the new hole', b == a); s.assume(b == a)
def begin_up(s, L):
    # the hole may have moved once more, to a single left child
    if 'a_' in s.ghost: a, n = the(s, L); a0, h0 = s.ghost['a_'], s.ghost['h_']; store(s, a0, h0, sel(a0, idx(s, L.v('pos'))), n)
LOOPS = {'moveHoleDown': Loop(inv=inv_down, havoc=hv_down, end=fin_down, variant=hole_var), 'moveValueUp': Loop(begin=begin_up, inv=inv_up, havoc=hv_up, end=fin_up, variant=lambda s, L: idx(s, L.v('pos')))}
def heap(ex, fast, least):
    ex.ghost['w'] = 8 if fast else 1; w = W(ex); n, cap = ex.fresh('n', 'int'), ex.fresh('cap', 'int'); ex.assume(z3.And(n >= least, n <= cap)); a = ex.fresh('a', ARR); v = ex.fresh('v', 'int'); ex.ghost.update(v=v, a0=a, n0=n, m=n); ex.assume(edge(a, n)); N = f'{T}::Node'
    return ex.alloc(Rec('carl::Heap', {'_tree': Rec(T, {'_array': SVec(cap + 1, [a], INT), '_lastLeaf': Rec(N, {'_index': n * w}), '_capacityEnd': Rec(N, {'_index': cap * w})}), '_conf': Rec('vp::' + ('Fast' if fast else 'Slow'), {})}), 'h')
def result(ex, h, m, before, add):
    """after an operation: m entries, ordered, and the count of the ghost value is as expected"""
    t = tree(ex, h); a = arr(t); ex.prove('number of entries', z3.And(znum(t.f['_lastLeaf'].f['_index']) == m * W(ex), znum(t.f['_lastLeaf'].f['_index']) <= znum(t.f['_capacityEnd'].f['_index']))); ex.prove('ordered', edge(a, m)); ex.prove('exactly the expected entries', CNT(a, m, ex.ghost['v']) == before + add)
def shrink(ex, a, n): v = ex.ghost['v']; ex.assume(CNT(a, n, v) == CNT(a, n - 1, v) + one(sel(a, n) == v)); return CNT(a, n - 1, v)
def final_store(ex):
    """the last store puts the value into the hole"""
    store(ex, ex.ghost['a_'], ex.ghost['h_'], ex.ghost['x'], ex.ghost['m'])
def unit(name, op, **kw):
    def deco(fn):
        for fast in (True, False): UNITS.append(U('C28', f'{name}[{"byte offsets" if fast else "indices"}]', lambda ex, fast=fast: fn(ex, fast, 'f' if fast else 'g'), op, contracts=CS, loops=LOOPS, merge=False, describe=lambda ex, m: [], shapes={}, svec=True, **kw))
        return fn
    return deco
@unit('push', 'c28.queue')
def _(ex, fast, r):
    h = heap(ex, fast, 0); x = ex.fresh('x', 'int'); a, n, v = ex.ghost['a0'], ex.ghost['n0'], ex.ghost['v']; ex.ghost.update(m=n + 1, x=x)
    b = store(ex, a, n + 1, x, n + 1); ex.assume(CNT(a, n + 1, v) == CNT(a, n, v) + one(sel(a, n + 1) == v)); ex.ghost['others'] = CNT(a, n, v)
    R(ex, f'{r}_push', h, x); final_store(ex); result(ex, h, n + 1, CNT(a, n, v), one(x == v))
@unit('pop', 'c28.queue')
def _(ex, fast, r):
    h = heap(ex, fast, 1); a, n, v = ex.ghost['a0'], ex.ghost['n0'], ex.ghost['v']; x = sel(a, n); less = shrink(ex, a, n); ex.ghost.update(m=n - 1, x=x, others=less - one(sel(a, 1) == v))
    t = znum(R(ex, f'{r}_pop', h)); ex.prove('the entry at the root is returned', t == sel(a, 1))
    if ex.branch(n > 1): final_store(ex)
    else: ex.assume(CNT(a, 0, v) == 0); ex.assume(n == 1)
    result(ex, h, n - 1, CNT(a, n, v), -one(sel(a, 1) == v))
@unit('decreaseTop', 'c28.queue')
def _(ex, fast, r):
    h = heap(ex, fast, 1); x = ex.fresh('x', 'int'); a, n, v = ex.ghost['a0'], ex.ghost['n0'], ex.ghost['v']; ex.ghost.update(m=n, x=x, others=CNT(a, n, v) - one(sel(a, 1) == v))
    R(ex, f'{r}_decrease', h, x); final_store(ex); result(ex, h, n, CNT(a, n, v), one(x == v) - one(sel(a, 1) == v))
@unit('popPosition', 'c28.positions')
def _(ex, fast, r):
    h = heap(ex, fast, 1); k = ex.fresh('k', 'int'); a, n, v = ex.ghost['a0'], ex.ghost['n0'], ex.ghost['v']; ex.assume(z3.And(1 <= k, k < n)); x = sel(a, n); less = shrink(ex, a, n); ex.ghost.update(m=n - 1, x=x, others=less - one(sel(a, k) == v))
    R(ex, f'{r}_popat', h, Rec('carl::Heap::c_iterator', {'mTree': h.sub('_tree'), 'pos': Rec(f'{T}::Node', {'_index': k * W(ex)})})); final_store(ex); result(ex, h, n - 1, CNT(a, n, v), -one(sel(a, k) == v))
@unit('top', 'c28.queue')
def _(ex, fast, r):
    h = heap(ex, fast, 1); a, n = ex.ghost['a0'], ex.ghost['n0']; ex.prove('the entry at the root', znum(R(ex, f'{r}_top', h)) == sel(a, 1))
    # every entry is at most the root: induction over the positions
    j, i = ex.fresh('j', 'int'), z3.Int('i!t'); ex.assume(z3.And(2 <= j, j <= n)); ex.assume(z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < j), KEY(sel(a, 1)) >= KEY(sel(a, i))), patterns=[sel(a, i)])); ex.prove('the root is not below any entry (induction step)', z3.And(KEY(sel(a, j / 2)) >= KEY(sel(a, j)), KEY(sel(a, 1)) >= KEY(sel(a, j / 2))))
@unit('empty, size', 'c28.queue')
def _(ex, fast, r): h = heap(ex, fast, 0); n = ex.ghost['n0']; ex.prove('empty', zbool(ex.condval(R(ex, f'{r}_empty', h))) == (n == 0)); ex.prove('size', znum(R(ex, f'{r}_size', h)) == n)

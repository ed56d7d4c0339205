"""Contracts for set covers (C22).
Bit sets (proved in C18) are used through their contracts: a set of natural numbers and a size above its elements.  Statements about every element and every set are proved at an arbitrary
ghost element and ghost set.  Cardinalities are an uninterpreted function that is non-negative, zero exactly for the empty set and smaller after removing a non-empty part."""
from .common import *
from vc.containers import *
DRIVER = 'covering'; HARNESS = 'covering'
UNITS = []
B, SC = 'carl::Bitset', 'carl::covering::SetCover'
SET = z3.ArraySort(z3.IntSort(), z3.BoolSort()); EMPTY = z3.K(z3.IntSort(), z3.BoolVal(False))
SH = RecShape(B, [('s', ScalarShape(SET)), ('n', INT)])
CARD = z3.Function('card', SET, z3.IntSort())
def R(ex, root, *a): return ex.call_root(root, list(a))
def rd(ex, x):
    while isinstance(x, Loc): x = ex.read(x)
    return x
S = lambda ex, x: rd(ex, x).f['s']
def mk(s, n=None): return Rec(B, {'s': s, 'n': n})
def sized(ex, s):
    n = ex.fresh('bits', 'int'); x = z3.Int('x!b'); ex.assume(n >= 0); ex.assume(z3.ForAll([x], z3.Implies(z3.Select(s, x), z3.And(x >= 0, x < n)), patterns=[z3.Select(s, x)])); return mk(s, n)
def new(ex, name='bits'): return sized(ex, ex.fresh(name, SET))
def upd(ex, this, s): ex.write(this, sized(ex, s)); return this
def fresh_eq(ex, e): s = ex.fresh('set', SET); ex.assume(s == e); return s
def card(ex, s): c = CARD(s); ex.assume(z3.And(c >= 0, (c == 0) == (s == EMPTY))); return c
def k_ctor(ex, f, this, args, node):
    if args and isinstance(rd(ex, args[0]), Rec): return rd(ex, args[0])
    if args and rd(ex, args[0]) not in (False, 0): return NotImplemented
    return mk(EMPTY, 0)
def k_assign(ex, f, this, args, node): ex.write(this, rd(ex, args[0])); return this
def k_minus(ex, f, this, args, node):
    a, b = S(ex, this), S(ex, args[0]); r = fresh_eq(ex, z3.SetDifference(a, b)); card(ex, r); card(ex, a)
    ex.assume(z3.Implies(z3.SetIntersect(a, b) != EMPTY, CARD(r) < CARD(a))); return upd(ex, this, r)
def k_or(ex, f, this, args, node): return upd(ex, this, fresh_eq(ex, z3.SetUnion(S(ex, this), S(ex, args[0]))))
def k_or2(ex, f, this, args, node): return sized(ex, fresh_eq(ex, z3.SetUnion(S(ex, args[0]), S(ex, args[1]))))
def k_set(ex, f, this, args, node):
    v = zbool(ex.condval(ex.val(args[1]))) if len(args) > 1 else z3.BoolVal(True); return upd(ex, this, fresh_eq(ex, z3.Store(S(ex, this), znum(ex.val(args[0])), v)))
def k_interval(ex, f, this, args, node):
    a, b = znum(ex.val(args[0])), znum(ex.val(args[1])); v = ex.condval(ex.val(args[2])) if len(args) > 2 else True; ex.prove('interval not reversed', a <= b, kind='precondition')
    old = S(ex, this); r = ex.fresh('interval', SET); x = z3.Int('x!i'); ex.assume(z3.ForAll([x], z3.Select(r, x) == z3.If(z3.And(a <= x, x <= b), zbool(v), z3.Select(old, x)), patterns=[z3.Select(r, x)])); return upd(ex, this, r)
def k_any(ex, f, this, args, node): s = S(ex, this); x = ex.fresh('member', 'int'); ex.assume(z3.Or(s == EMPTY, z3.Select(s, x))); return s != EMPTY
def k_none(ex, f, this, args, node): return S(ex, this) == EMPTY
def k_test(ex, f, this, args, node): return z3.Select(S(ex, this), znum(ex.val(args[0])))
def k_subset(ex, f, this, args, node): return z3.IsSubset(S(ex, this), S(ex, args[0]))
BC = {f'{B}::Bitset': k_ctor, f'{B}::operator=': k_assign, f'{B}::operator-=': k_minus, f'{B}::operator|=': k_or, 'carl::operator|': k_or2, f'{B}::set': k_set, f'{B}::set_interval': k_interval, f'{B}::any': k_any, f'{B}::none': k_none, f'{B}::test': k_test,
      f'{B}::count': lambda ex, f, this, args, node: card(ex, S(ex, this)), f'{B}::size': lambda ex, f, this, args, node: rd(ex, this).f['n'], f'{B}::is_subset_of': k_subset}
def unit(name, op=None, contracts=None, **kw):
    kw.setdefault('merge', False); kw.setdefault('describe', lambda ex, m: [])
    def deco(fn): UNITS.append(U('C22', name, fn, op, contracts={**BC, **(contracts or {})}, shapes={B: SH}, emplace={B: lambda ex, et, args: mk(EMPTY, 0)}, svec=True, globals={'std::nullopt': lambda ex, v: Rec('std::nullopt_t', {})}, **kw)); return fn
    return deco
def cover(ex, least=0):
    n = ex.fresh('sets', 'int'); ex.assume(n >= least); v = fresh_svec(ex, 'S', SH, n); i, x = z3.Ints('i!c x!c'); ex.assume(z3.ForAll([i, x], z3.Implies(z3.Select(z3.Select(v.cols[0], i), x), z3.And(x >= 0, x < z3.Select(v.cols[1], i))))); ex.assume(z3.ForAll([i], z3.Select(v.cols[1], i) >= 0))
    ex.ghost.update(n=n, S=v.cols[0], sz=v.cols[1]); return ex.alloc(Rec(SC, {'mSets': v}), 'sc')
rows = lambda ex, c: rd(ex, c).f['mSets'].cols[0]
num = lambda ex, c: znum(rd(ex, c).f['mSets'].n)
def gidx(ex, name): i = ex.fresh(name, 'int'); ex.assume(i >= 0); ex.ghost[name] = i; return i
sel = z3.Select
# ------------------------------------------------------------------ SetCover
def inv_grow(s, L):
    v = L.this.f['mSets']; i = s.ghost['i']; n = s.ghost['n']; yield 'the sets are kept', z3.And(znum(v.n) >= n, z3.Implies(i < n, sel(v.cols[0], i) == sel(s.ghost['S'], i))); yield 'new sets are empty', z3.Implies(z3.And(n <= i, i < znum(v.n)), sel(v.cols[0], i) == EMPTY); yield 'not grown beyond the set', z3.Or(znum(v.n) == n, znum(v.n) <= znum(L.v('set')) + 1)
for _r in ('c_set', 'c_sets'):
    @unit(_r, 'c22.set', loops={'set': Loop(inv=inv_grow, variant=lambda s, L: znum(L.v('set')) + 1 - znum(L.this.f['mSets'].n))})
    def _(ex, r=_r):
        c = cover(ex); i = gidx(ex, 'i'); k = ex.fresh('set', 'int'); ex.assume(k >= 0); n = ex.ghost['n']; old = sel(ex.ghost['S'], i)
        if r == 'c_set': e = ex.fresh('e', 'int'); ex.assume(e >= 0); add = z3.Store(EMPTY, e, True); R(ex, r, c, k, e)
        else: x = new(ex); add = x.f['s']; R(ex, r, c, k, ex.alloc(x, 'x'))
        ex.assume(True); m = num(ex, c); now = sel(rows(ex, c), i); was = z3.If(i < n, old, EMPTY); ex.prove('the number of sets', m == z3.If(k < n, n, k + 1)); ex.prove('exactly the given elements are added', z3.Implies(i < m, now == z3.If(i == k, z3.SetUnion(was, add), was)))
def inv_max(s, L): i = s.ghost['i']; yield 'not below any size', z3.And(znum(L.v('max')) >= 0, z3.Implies(i < L.k, znum(L.v('max')) >= sel(s.ghost['sz'], i)))
@unit('c_elements', 'c22.queries', loops={'element_count': Loop(inv=inv_max)})
def _(ex): c = cover(ex); i = gidx(ex, 'i'); e = gidx(ex, 'e'); r = znum(R(ex, 'c_elements', c)); ex.prove('every element is counted', z3.Implies(z3.And(i < ex.ghost['n'], sel(sel(ex.ghost['S'], i), e)), e < r))
def inv_same(s, L): i = s.ghost['i']; v = L.this.f['mSets']; yield 'the sets are kept', z3.And(znum(v.n) == s.ghost['n'], z3.Implies(i < znum(v.n), sel(v.cols[0], i) == sel(s.ghost['S'], i)))
@unit('c_prune', 'c22.queries', loops={'prune_sets': Loop(inv=inv_same)})
def _(ex): c = cover(ex); i = gidx(ex, 'i'); R(ex, 'c_prune', c); ex.prove('sets are kept', z3.And(num(ex, c) == ex.ghost['n'], z3.Implies(i < ex.ghost['n'], sel(rows(ex, c), i) == sel(ex.ghost['S'], i))))
def inv_diff(s, L): i = s.ghost['i']; v = L.this.f['mSets']; yield 'processed sets lose the selected one', z3.And(znum(v.n) == s.ghost['n'], z3.Implies(i < znum(v.n), sel(v.cols[0], i) == z3.If(i < L.k, z3.SetDifference(sel(s.ghost['S'], i), s.ghost['chosen']), sel(s.ghost['S'], i)))); yield 'the selected set is kept aside', S(s, L.v('selected')) == s.ghost['chosen']
@unit('c_select', 'c22.queries', loops={'select_set': Loop(inv=inv_diff)})
def _(ex):
    c = cover(ex); i = gidx(ex, 'i'); k = ex.fresh('s', 'int'); ex.assume(z3.And(k >= 0, k < ex.ghost['n'])); ex.ghost['chosen'] = sel(ex.ghost['S'], k); R(ex, 'c_select', c, k)
    ex.prove('the elements of the chosen set are removed from all sets, no others', z3.And(num(ex, c) == ex.ghost['n'], z3.Implies(i < ex.ghost['n'], sel(rows(ex, c), i) == z3.SetDifference(sel(ex.ghost['S'], i), ex.ghost['chosen']))))
def inv_large(weighted):
    def inv(s, L):
        i, n, ss = s.ghost['i'], s.ghost['n'], s.ghost['S']; g, z, k = znum(L.v('largest_id')), L.v('largest_size'), znum(L.v('id')); key = s.ghost['key']
        yield 'a position', z3.And(0 <= g, g < n, 1 <= k, k <= n); yield 'its size', zreal(z) == key(g); yield 'no earlier set is larger', z3.Implies(i < k, key(i) <= key(g))
    return inv
for _r in ('c_largest', 'c_largest_w'):
    @unit(_r, 'c22.queries', loops={'largest_set': Loop(inv=inv_large(_r == 'c_largest_w'), variant=lambda s, L: s.ghost['n'] - znum(L.v('id')))})
    def _(ex, r=_r):
        c = cover(ex, 1); i = gidx(ex, 'i'); n, ss = ex.ghost['n'], ex.ghost['S']; a = [c]; ex.ghost['key'] = lambda j: z3.ToReal(CARD(sel(ss, j)))
        if r == 'c_largest_w': w = fresh_svec(ex, 'w', REAL, n); a.append(ex.alloc(w, 'w')); ex.ghost['key'] = lambda j: z3.ToReal(CARD(sel(ss, j))) * sel(w.cols[0], j)
        g = znum(R(ex, r, *a)); ex.prove('a set', z3.And(g >= 0, g < n)); ex.prove('no set is larger', z3.Implies(i < n, ex.ghost['key'](i) <= ex.ghost['key'](g)))
def k_accumulate(ex, f, this, args, node):
    """folding a function over a range: the function is shown to be the union, so that the result is the union of the start value and all sets of the range"""
    b, e = ex.val(args[0]), ex.val(args[1]); v = ex.read(b.c)
    p, q = new(ex, 'acc'), new(ex, 'elem'); r = rd(ex, ex.call_closure(ex.val(args[3]), [ex.alloc(p, 'p'), ex.alloc(q, 'q')], node)); ex.prove('the folded function is the union', r.f['s'] == z3.SetUnion(p.f['s'], q.f['s']))
    ex.prove('the whole range, from the empty set', z3.And(znum(b.i) == 0, znum(e.i) == znum(v.n), S(ex, args[2]) == EMPTY)); return union(ex, v)
def union(ex, v):
    u = ex.fresh('union', SET); W = z3.Function('witness%d' % len(ex.pc), z3.IntSort(), z3.IntSort()); i, x = z3.Ints('i!u x!u'); n = znum(v.n)
    ex.assume(z3.ForAll([x], z3.Implies(sel(u, x), z3.And(0 <= W(x), W(x) < n, sel(sel(v.cols[0], W(x)), x))), patterns=[sel(u, x)])); ex.assume(z3.ForAll([i, x], z3.Implies(z3.And(0 <= i, i < n, sel(sel(v.cols[0], i), x)), sel(u, x)), patterns=[sel(sel(v.cols[0], i), x)])); ex.ghost['W'] = W; return sized(ex, u)
@unit('c_uncovered', 'c22.queries', contracts={'std::accumulate': k_accumulate})
def _(ex):
    c = cover(ex); i = gidx(ex, 'i'); e = gidx(ex, 'e'); u = S(ex, R(ex, 'c_uncovered', c)); n, ss = ex.ghost['n'], ex.ghost['S']; w = ex.ghost['W'](e)
    ex.prove('every element of a set is uncovered', z3.Implies(z3.And(i < n, sel(sel(ss, i), e)), sel(u, e))); ex.prove('an uncovered element is in some set', z3.Implies(sel(u, e), z3.And(0 <= w, w < n, sel(sel(ss, w), e))))
ACT = z3.Function('active', z3.ArraySort(z3.IntSort(), SET), z3.IntSort(), z3.IntSort())
def active(ex, v):
    a = ACT(v.cols[0], znum(v.n)); i = z3.Int('i!a'); j = ex.fresh('nonempty', 'int'); n = znum(v.n)
    ex.assume(z3.And(a >= 0, a <= n)); ex.assume(z3.Implies(a == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), sel(v.cols[0], i) == EMPTY)))); ex.assume(z3.Implies(a > 0, z3.And(0 <= j, j < n, sel(v.cols[0], j) != EMPTY))); return a
def k_count_if(ex, f, this, args, node):
    b, e = ex.val(args[0]), ex.val(args[1]); v = ex.read(b.c); p = new(ex, 'elem'); r = ex.condval(ex.val(ex.call_closure(ex.val(args[2]), [ex.alloc(p, 'p')], node))); ex.prove('non-empty sets are counted', zbool(r) == (p.f['s'] != EMPTY)); ex.prove('the whole range', z3.And(znum(b.i) == 0, znum(e.i) == znum(v.n))); return active(ex, v)
@unit('c_active', 'c22.queries', contracts={'std::count_if': k_count_if})
def _(ex):
    c = cover(ex); r = znum(R(ex, 'c_active', c)); ex.prove('the number of non-empty sets', r == ACT(ex.ghost['S'], ex.ghost['n']))
# ------------------------------------------------------------------ heuristics, against the contracts above
def mv(ex, this): return rd(ex, this).f['mSets']
def k_select(ex, f, this, args, node):
    v = mv(ex, this); s = znum(ex.val(args[0])); n = znum(v.n); ex.prove('the selected set exists', z3.And(0 <= s, s < n), kind='precondition'); w = fresh_svec(ex, 'rest', SH, v.n); i, x = z3.Ints('i!s x!s'); c = sel(v.cols[0], s)
    ex.assume(z3.ForAll([i, x], z3.Implies(z3.And(0 <= i, i < n), sel(sel(w.cols[0], i), x) == z3.And(sel(sel(v.cols[0], i), x), z3.Not(sel(c, x)))), patterns=[sel(sel(w.cols[0], i), x)])); ex.write(this, Rec(SC, {'mSets': w})); return VOID
def k_largest(ex, f, this, args, node):
    v = mv(ex, this); n = znum(v.n); ex.prove('there is a set', n > 0, kind='precondition'); g = ex.fresh('largest', 'int'); ex.assume(z3.And(0 <= g, g < n)); w = rd(ex, args[0]).cols[0] if args else None; i = z3.Int('i!l')
    card(ex, sel(v.cols[0], g)); k = (lambda j: z3.ToReal(CARD(sel(v.cols[0], j))) * sel(w, j)) if args else (lambda j: CARD(sel(v.cols[0], j)))
    # no set is larger (positive weights): if some set is not empty then this one is not
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, sel(v.cols[0], i) != EMPTY), sel(v.cols[0], g) != EMPTY))); return g
def k_prune(ex, f, this, args, node):
    v = mv(ex, this); ex.write(this, Rec(SC, {'mSets': SVec(v.n, [v.cols[0], ex.fresh('sizes', v.cols[1].sort())], v.shape)})); return VOID
def k_elements(ex, f, this, args, node):
    v = mv(ex, this); r = ex.fresh('elements', 'int'); i, x = z3.Ints('i!e x!e'); ex.assume(r >= 0); ex.assume(z3.ForAll([i, x], z3.Implies(z3.And(0 <= i, i < znum(v.n), sel(sel(v.cols[0], i), x)), z3.And(0 <= x, x < r)), patterns=[sel(sel(v.cols[0], i), x)])); return r
HC = {f'{SC}::select_set': k_select, f'{SC}::largest_set': k_largest, f'{SC}::prune_sets': k_prune, f'{SC}::get_uncovered': lambda ex, f, this, args, node: union(ex, mv(ex, this)), f'{SC}::active_set_count': lambda ex, f, this, args, node: active(ex, mv(ex, this)), f'{SC}::element_count': k_elements}
def state(s, L, name='sc'): v = rd(s, L.v(name)).f['mSets']; return v
def chosen(s, L, r): return z3.SetIntersect(S(s, L.v(r)), s.ghost['col']) != EMPTY
def inv_part(res):
    def inv(s, L):
        v = state(s, L); i, e = s.ghost['i'], s.ghost['e']; j = z3.Int('j!v'); x = z3.Int('x!v'); S0, n = s.ghost['S'], s.ghost['n']
        yield 'the number of sets is kept', znum(v.n) == n
        yield 'sets only lose elements', z3.ForAll([j, x], z3.Implies(z3.And(0 <= j, j < n, sel(sel(v.cols[0], j), x)), sel(sel(S0, j), x)), patterns=[sel(sel(v.cols[0], j), x)])
        yield 'an element lost is in a selected set', z3.Or(z3.Not(sel(sel(S0, i), e)), sel(sel(v.cols[0], i), e), chosen(s, L, res))
        yield 'only sets of the instance are selected', z3.ForAll([j], z3.Implies(sel(S(s, L.v(res)), j), z3.And(0 <= j, j < n)), patterns=[sel(S(s, L.v(res)), j)])
    return inv
def instance(ex):
    c = cover(ex); i = gidx(ex, 'i'); e = gidx(ex, 'e'); ex.assume(i < ex.ghost['n']); col = ex.fresh('column', SET); j = z3.Int('j!k'); ex.assume(z3.ForAll([j], sel(col, j) == z3.And(0 <= j, j < ex.ghost['n'], sel(sel(ex.ghost['S'], j), e)), patterns=[sel(col, j)])); ex.ghost['col'] = col; return c
def partial(ex, c, r):
    S0, i, e = ex.ghost['S'], ex.ghost['i'], ex.ghost['e']; rest = sel(sel(rows(ex, c), i), e); j = z3.Int('j!z')
    ex.prove('every element is in a selected set or left in its set', z3.Implies(sel(sel(S0, i), e), z3.Or(rest, z3.SetIntersect(r, ex.ghost['col']) != EMPTY))); ex.prove('only sets of the instance are selected', z3.Implies(sel(r, gidx(ex, 'k')), ex.ghost['k'] < ex.ghost['n'])); return rest
def inv_greedy(s, L):
    yield from inv_part('result')(s, L)
    v = state(s, L); U = S(s, L.v('uncovered')); x, j = z3.Ints('x!g j!g'); W, n = s.ghost['W'], s.ghost['n']
    yield 'uncovered elements are in some set', z3.ForAll([x], z3.Implies(sel(U, x), z3.And(0 <= W(x), W(x) < n, sel(sel(v.cols[0], W(x)), x))), patterns=[sel(U, x)])
    yield 'all sets consist of uncovered elements', z3.ForAll([j, x], z3.Implies(z3.And(0 <= j, j < n, sel(sel(v.cols[0], j), x)), sel(U, x)), patterns=[sel(sel(v.cols[0], j), x)])
def left(s, L): c = S(s, L.v('uncovered')); card(s, c); return CARD(c)
@unit('h_greedy', 'c22.greedy', contracts=HC, loops={'greedy': Loop(inv=inv_greedy, variant=left)})
def _(ex):
    c = instance(ex); r = S(ex, R(ex, 'h_greedy', c)); rest = partial(ex, c, r); ex.prove('every element of a set is in a selected set', z3.Implies(sel(sel(ex.ghost['S'], ex.ghost['i']), ex.ghost['e']), z3.SetIntersect(r, ex.ghost['col']) != EMPTY))
for _r, _f in (('h_bounded', 'greedy_bounded'), ('h_weighted', 'greedy_weighted')):
    @unit(_r, 'c22.' + _f, contracts=HC, loops={_f: Loop(inv=inv_part('result'))})
    def _(ex, r=_r):
        c = instance(ex); b = ex.fresh('bound', 'int'); ex.assume(b >= 0); a = [c]
        if r == 'h_weighted': a.append(ex.alloc(fresh_svec(ex, 'w', REAL, ex.ghost['n']), 'w'))
        res = S(ex, R(ex, r, *a, b)); rest = partial(ex, c, res); ex.prove('at most the bound remains', ACT(rows(ex, c), num(ex, c)) <= b); ex.prove('bound zero: every element is in a selected set', z3.Implies(z3.And(b == 0, sel(sel(ex.ghost['S'], ex.ghost['i']), ex.ghost['e'])), z3.SetIntersect(res, ex.ghost['col']) != EMPTY))
def inv_seen(s, L):
    yield from inv_part('selected')(s, L); n = s.ghost['n']; e, num_, st, k = znum(L.v('e')), znum(L.v('num')), znum(L.v('set')), znum(L.v('s')); v = state(s, L)
    yield 'the last set seen contains the element', z3.And(0 <= num_, num_ <= k, 0 <= k, k <= n, z3.Implies(num_ > 0, z3.And(0 <= st, st < n, sel(sel(v.cols[0], st), e)))); j = z3.Int('j!n')
    yield 'no other set before contains it', z3.ForAll([j], z3.Implies(z3.And(num_ <= 1, 0 <= j, j < k, sel(sel(v.cols[0], j), e)), z3.And(num_ == 1, j == st)))
ALONE = 'a set selected is the only one left with some element'
def k_select_e(ex, f, this, args, node):
    L = ex.frames[-1]; v = mv(ex, this); s = znum(ex.val(args[0])); i = z3.Int('i!o'); loc = lambda nm: next(ex.read(fr.vars[fr.nm[nm]]) for fr in reversed(ex.frames) if nm in fr.nm and fr.nm[nm] in fr.vars)
    e = znum(loc('e')); ex.prove(ALONE, z3.And(sel(sel(v.cols[0], s), e), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < znum(v.n), sel(sel(v.cols[0], i), e)), i == s)))); return k_select(ex, f, this, args, node)
@unit('h_essential', 'c22.select_essential', contracts={**HC, f'{SC}::select_set': k_select_e}, loops={'select_essential#0': Loop(inv=inv_part('selected')), 'select_essential#1': Loop(inv=inv_part('selected')), 'select_essential#2': Loop(inv=inv_seen, variant=lambda s, L: s.ghost['n'] - znum(L.v('s')))})
def _(ex): c = instance(ex); partial(ex, c, S(ex, R(ex, 'h_essential', c)))
@unit('h_trivial', 'c22.trivial', contracts=HC)
def _(ex): c = instance(ex); r = S(ex, R(ex, 'h_trivial', c)); ex.prove('every set is selected', sel(r, ex.ghost['i'])); ex.prove('only sets of the instance are selected', z3.Implies(sel(r, gidx(ex, 'k')), ex.ghost['k'] < ex.ghost['n']))
@unit('h_trivial[no sets]', 'c22.trivial', contracts=HC)
def _(ex): c = ex.alloc(Rec(SC, {'mSets': fresh_svec(ex, 'S', SH, 0)}), 'sc'); r = S(ex, R(ex, 'h_trivial', c)); ex.prove('nothing is selected', r == EMPTY)
# exact_of_size: any selection of the flags may be tried
def k_perm(ex, f, this, args, node):
    b = ex.val(args[0]); v = ex.read(b.c); ex.write(b.c, SVec(v.n, [ex.fresh('flags', c.sort()) for c in v.cols], v.shape)); return ex.fresh('more', 'bool')
def flags(s, L): return L.v('selection').cols[0]
def inv_tries(s, L): yield 'one flag per set', znum(L.v('selection').n) == s.ghost['m']
def inv_cov(s, L):
    yield from inv_tries(s, L); k = znum(L.v('id')); e = s.ghost['e']; j = z3.Int('j!w'); M = s.ghost['M']
    yield 'covered elements are in a flagged set', z3.And(0 <= k, k <= s.ghost['m'], z3.Implies(sel(S(s, L.v('covered')), e), z3.Exists([j], z3.And(0 <= j, j < k, sel(flags(s, L), j), sel(sel(s.ghost['S'], sel(M, j)), e)))))
def inv_res(s, L):
    yield from inv_tries(s, L); k = znum(L.v('id')); j = z3.Int('j!r'); M, m = s.ghost['M'], s.ghost['m']; r = S(s, L.v('result'))
    yield 'exactly the flagged sets', z3.And(0 <= k, k <= m, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), sel(r, sel(M, j)) == z3.And(j < k, sel(flags(s, L), j))), patterns=[sel(M, j)]))
@unit('h_of_size', 'c22.exact', contracts={**HC, 'std::next_permutation': k_perm, 'std::_Bit_reference::operator bool': lambda ex, f, this, args, node: rd(ex, this)}, loops={'exact_of_size#0': Loop(inv=inv_tries), 'exact_of_size#1': Loop(inv=inv_cov, variant=lambda s, L: s.ghost['m'] - znum(L.v('id'))), 'exact_of_size#2': Loop(inv=inv_res, variant=lambda s, L: s.ghost['m'] - znum(L.v('id')))})
def _(ex):
    c = instance(ex); u = new(ex, 'uncovered'); mp = fresh_svec(ex, 'map', INT); m, M, n = mp.n, mp.cols[0], ex.ghost['n']; a, b = z3.Ints('a!m b!m'); ex.ghost.update(M=M, m=m); k = ex.fresh('size', 'int'); ex.assume(z3.And(k >= 0, k <= m))
    ex.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < m), z3.And(0 <= sel(M, a), sel(M, a) < n)), patterns=[sel(M, a)])); ex.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < m, 0 <= b, b < m, sel(M, a) == sel(M, b)), a == b)))
    r = rd(ex, R(ex, 'h_of_size', c, ex.alloc(u, 'u'), ex.alloc(mp, 'map'), k)); j = z3.Int('j!h')
    if ex.branch(r.has): ex.prove('every element asked for is in a selected set', z3.Implies(sel(u.f['s'], ex.ghost['e']), z3.Exists([j], z3.And(0 <= j, j < n, sel(S(ex, r.v), j), sel(sel(ex.ghost['S'], j), ex.ghost['e'])))))

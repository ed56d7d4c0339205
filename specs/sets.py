"""Contracts for bit sets (C17), packed bit vectors (C18), identifier pools and generators (C19)."""
from .common import *
from vc.containers import *
import vc.containers as K
DRIVER = 'sets'; HARNESS = 'sets'
UNITS = []
def add_unit(prop, name, run, op=None, **kw): UNITS.append(U(prop, 'sets.' + name, run, op, **kw))
def unit(prop, name, op=None, **kw):
    def d(run): add_unit(prop, name, run, op, **kw); return run
    return d
def R(ex, root, *a): return ex.call_root(root, list(a))
def N(ex, n, hi=None):
    v = inp(ex, 'Z', ex.fresh(n, 'int')); ex.assume(AND(v >= 0, v < (1 << 64) - 2 if hi is None else v < hi)); return v

# ------------------------------------------------------------------ C17
def pbits(m, v):
    b, d = v; n = int(mval(m, b.n))
    if n > 400: raise ValueError('too long')
    return ''.join('1' if mval(m, z3.Select(b.a, i)) else '0' for i in range(n)) + '|' + ('1' if mval(m, d) else '0')
PRINT['Bs'] = pbits
def BS(ex, name, d=None):
    b = fresh_bits(ex, name); ex.assume(b.n < (1 << 64) - 2)
    d = ex.fresh(name + '_d', 'bool') if d is None else d
    inp(ex, 'Bs', (b, d))
    return ex.alloc(Rec('carl::Bitset', {'mData': b, 'mDefault': d}), name)
def val(ex, x): return x if isinstance(x, Rec) else ex.read(x)
def mem(ex, x, g):
    """membership of g in the denoted set"""
    r = val(ex, x); b = r.f['mData']
    return z3.If(z3.And(znum(g) >= 0, znum(g) < znum(b.n)), z3.Select(b.a, znum(g)), zbool(r.f['mDefault']))
def G(ex):
    g = ex.fresh('g', 'int'); ex.assume(g >= 0); ex.ghost.setdefault('ints', []).append(g); return g
@unit('C17', 'new', 'c17.new')
def _(ex):
    d = inp(ex, 'bool', ex.fresh('d', 'bool')); g = G(ex)
    ex.prove('a new bit set has the default everywhere', IFF(mem(ex, R(ex, 'bs_new', d), g), d))
@unit('C17', 'base', 'c17.base')
def _(ex):
    b = BS(ex, 'b'); r = val(ex, b); g = G(ex)
    ex.prove('a bit set made of stored bits and default denotes them', IFF(mem(ex, R(ex, 'bs_base', ex.alloc(r.f['mData']), r.f['mDefault']), g), mem(ex, r, g)))
def list_inv(s, L):
    l = s.read(s.ghost['list']); g = s.ghost['ints'][0]; d = s.ghost['d']; k = znum(L.k)
    j = z3.Int('j!l')
    # IN(k): g among the first k listed
    IN = s.ghost['IN']; s.assume(z3.And(z3.Not(IN(0)), z3.Implies(k >= 0, IN(k + 1) == z3.Or(IN(k), l.cols[0][k] == g))))
    me = L.this
    return [('default kept', IFF(me.f['mDefault'], d)), ('listed so far', IFF(mem(s, me, g), z3.Or(zbool(d), IN(k))))]
@unit('C17', 'list', 'c17.list', loops={'Bitset#0': Loop(inv=list_inv)}, weak_oracle=True)
def _(ex):
    d = inp(ex, 'bool', ex.fresh('d', 'bool')); g = G(ex); l = fresh_svec(ex, 'l', INT); j = z3.Int('j!ls')
    ex.assume(z3.ForAll([j], z3.And(l.cols[0][j] >= 0, l.cols[0][j] < (1 << 64) - 2)))
    ex.ghost['list'] = ex.alloc(l); ex.ghost['d'] = d; ex.ghost['IN'] = z3.Function('IN', z3.IntSort(), z3.BoolSort())
    r = R(ex, 'bs_list', ex.ghost['list'], d)
    ex.prove('exactly the listed numbers and the default are members', IFF(mem(ex, r, g), z3.Or(zbool(d), ex.ghost['IN'](znum(l.n)))))
for nm, opn in (('bs_set', 'c17.set'), ('bs_set1', 'c17.set')):
    def run(ex, nm=nm):
        b = BS(ex, 'b'); o = val(ex, b); n = N(ex, 'n'); g = G(ex)
        v = inp(ex, 'bool', ex.fresh('v', 'bool') if nm == 'bs_set' else True)
        R(ex, nm, *([b, n, v] if nm == 'bs_set' else [b, n]))
        ex.prove('set() changes exactly the given number', IFF(mem(ex, b, g), z3.If(g == n, zbool(v), mem(ex, o, g))))
    add_unit('C17', nm, run, opn)
@unit('C17', 'bs_reset', 'c17.reset')
def _(ex):
    b = BS(ex, 'b'); o = val(ex, b); n = N(ex, 'n'); g = G(ex); R(ex, 'bs_reset', b, n)
    ex.prove('reset() removes exactly the given number', IFF(mem(ex, b, g), z3.And(g != n, mem(ex, o, g))))
def iv_inv(s, L):
    g = s.ghost['ints'][0]; st0 = znum(s.ghost['start']); e = znum(L.v('end')); st = znum(L.v('start')); me = L.this; o = s.ghost['old']
    return [('position in the interval', AND(st >= st0, st <= z3.If(st0 > e, st0, e + 1))), ('stored range reaches the end', lt(e, me.f['mData'].n)), ('numbers set so far', IFF(mem(s, me, g), z3.If(z3.And(g >= st0, g < st), zbool(L.v('value')), mem(s, o, g))))]
@unit('C17', 'bs_interval', 'c17.interval', loops={'set_interval': Loop(inv=iv_inv)}, weak_oracle=True)
def _(ex):
    b = BS(ex, 'b'); o = val(ex, b); s = N(ex, 's'); e = N(ex, 'e'); v = inp(ex, 'bool', ex.fresh('v', 'bool')); g = G(ex)
    ex.ghost['start'] = s; ex.ghost['old'] = o
    R(ex, 'bs_interval', b, s, e, v)
    ex.prove('set_interval() changes exactly the numbers of the interval', IFF(mem(ex, b, g), z3.If(z3.And(g >= s, g <= e), zbool(v), mem(ex, o, g))))
@unit('C17', 'bs_test', 'c17.test')
def _(ex):
    b = BS(ex, 'b'); n = N(ex, 'n'); ex.prove('test() answers membership', IFF(zbool(R(ex, 'bs_test', b, n)), mem(ex, b, n)))
@unit('C17', 'bs_resize', 'c17.resize')
def _(ex):
    b = BS(ex, 'b'); o = val(ex, b); n = N(ex, 'n'); g = G(ex); ex.assume(n >= o.f['mData'].n)
    R(ex, 'bs_resize', b, n); ex.prove('growing the stored range keeps the set', IFF(mem(ex, b, g), mem(ex, o, g)))
@unit('C17', 'bs_resizev', 'c17.resizev')
def _(ex):
    b = BS(ex, 'b'); o = val(ex, b); n = N(ex, 'n'); v = inp(ex, 'bool', ex.fresh('v', 'bool')); g = G(ex); m = o.f['mData'].n; ex.assume(n >= m)
    R(ex, 'bs_resizev', b, n, v); ex.prove('growing with a value sets the new numbers to it', IFF(mem(ex, b, g), z3.If(z3.And(g >= m, g < n), zbool(v), mem(ex, o, g))))
@unit('C17', 'bs_align', 'c17.and')
def _(ex):
    a = BS(ex, 'a'); b = BS(ex, 'b'); oa = val(ex, a); ob = val(ex, b); g = G(ex); R(ex, 'bs_align', a, b)
    ex.prove('aligning stored ranges keeps both sets', AND(IFF(mem(ex, a, g), mem(ex, oa, g)), IFF(mem(ex, b, g), mem(ex, ob, g))))
    ex.prove('aligned stored ranges have equal size', eq(val(ex, a).f['mData'].n, val(ex, b).f['mData'].n))
for nm, fn, eqd in (('bs_minus', lambda x, y: z3.And(x, z3.Not(y)), True), ('bs_anda', z3.And, False), ('bs_ora', z3.Or, False)):
    def run(ex, nm=nm, fn=fn, eqd=eqd):
        a = BS(ex, 'a'); b = BS(ex, 'b'); oa = val(ex, a); ob = val(ex, b); g = G(ex)
        if eqd: ex.assume(IFF(oa.f['mDefault'], ob.f['mDefault']))
        R(ex, nm, a, b)
        ex.prove('the set operation acts on every number', IFF(mem(ex, a, g), fn(mem(ex, oa, g), mem(ex, ob, g))))
        ex.prove('the right operand keeps its set', IFF(mem(ex, b, g), mem(ex, ob, g)))
    add_unit('C17', nm, run, 'c17.' + nm[3:])
    def run(ex, nm=nm, fn=fn):
        a = BS(ex, 'a'); oa = val(ex, a); g = G(ex); R(ex, nm, a, a)
        ex.prove('the set operation with itself as operand', IFF(mem(ex, a, g), fn(mem(ex, oa, g), mem(ex, oa, g))))
    add_unit('C17', nm + '_self', run, 'c17.self')
for nm, fn in (('bs_and', z3.And), ('bs_or', z3.Or)):
    def run(ex, nm=nm, fn=fn):
        a = BS(ex, 'a'); b = BS(ex, 'b'); oa = val(ex, a); ob = val(ex, b); g = G(ex); r = R(ex, nm, a, b)
        ex.prove('the set operation acts on every number', IFF(mem(ex, r, g), fn(mem(ex, oa, g), mem(ex, ob, g))))
        ex.prove('both operands keep their sets', AND(IFF(mem(ex, a, g), mem(ex, oa, g)), IFF(mem(ex, b, g), mem(ex, ob, g))))
    add_unit('C17', nm, run, 'c17.' + nm[3:])
@unit('C17', 'bs_not', 'c17.not')
def _(ex):
    a = BS(ex, 'a'); oa = val(ex, a); g = G(ex); r = R(ex, 'bs_not', a)
    ex.prove('complement has exactly the other numbers', IFF(mem(ex, r, g), z3.Not(mem(ex, oa, g)))); ex.prove('operand unchanged', IFF(mem(ex, a, g), mem(ex, oa, g)))
def wit(ex, *sets):
    """candidate witnesses: those of the primitive tests, and the first number beyond both stored ranges"""
    ns = [znum(val(ex, s).f['mData'].n) for s in sets]
    w = list(ex.ghost.get('wit', []))
    m = ns[0]
    for n in ns[1:]: m = z3.If(n > m, n, m)
    return w + [m]
@unit('C17', 'bs_eq', 'c17.eq')
def _(ex):
    a = BS(ex, 'a'); b = BS(ex, 'b'); oa = val(ex, a); ob = val(ex, b); g = G(ex); r = zbool(R(ex, 'bs_eq', a, b))
    ex.prove('equal bit sets agree on every number', z3.Implies(r, mem(ex, oa, g) == mem(ex, ob, g)))
    ex.prove('unequal bit sets differ on some number', z3.Implies(z3.Not(r), z3.Or(*[z3.And(w >= 0, mem(ex, oa, w) != mem(ex, ob, w)) for w in wit(ex, oa, ob)])))
    ex.prove('comparison keeps the sets', AND(IFF(mem(ex, a, g), mem(ex, oa, g)), IFF(mem(ex, b, g), mem(ex, ob, g))))
@unit('C17', 'bs_subset', 'c17.subset')
def _(ex):
    a = BS(ex, 'a'); b = BS(ex, 'b'); oa = val(ex, a); ob = val(ex, b); g = G(ex); r = zbool(R(ex, 'bs_subset', a, b))
    ex.prove('every member of a subset is a member', z3.Implies(z3.And(r, mem(ex, oa, g)), mem(ex, ob, g)))
    ex.prove('a non-subset has a member outside', z3.Implies(z3.Not(r), z3.Or(*[z3.And(w >= 0, mem(ex, oa, w), z3.Not(mem(ex, ob, w))) for w in wit(ex, oa, ob)])))
    ex.prove('subset test keeps the sets', AND(IFF(mem(ex, a, g), mem(ex, oa, g)), IFF(mem(ex, b, g), mem(ex, ob, g))))
for nm, pol in (('bs_any', True), ('bs_none', False)):
    def run(ex, nm=nm, pol=pol):
        a = BS(ex, 'a', False); g = G(ex); r = zbool(R(ex, nm, a)); r = r if pol else z3.Not(r)
        ex.prove('an empty set has no member', z3.Implies(z3.Not(r), z3.Not(mem(ex, a, g)))); ex.prove('a non-empty set has a member', z3.Implies(r, z3.Or(*[mem(ex, a, w) for w in wit(ex, a)])))
    add_unit('C17', nm, run, 'c17.any')
@unit('C17', 'bs_count', 'c17.count')
def _(ex):
    a = BS(ex, 'a', False); b = val(ex, a).f['mData']; ex.prove('count() is the number of stored members', eq(R(ex, 'bs_count', a), K.CNT(b.a, znum(b.n))))
def first_post(ex, a, r, start, g):
    b = val(ex, a).f['mData']; r = znum(r)
    ex.prove('search finds a stored member, or none', z3.Or(r == K.NPOS, z3.And(r >= start, r < b.n, mem(ex, a, r))))
    ex.prove('search skips no stored member', z3.Implies(z3.And(g >= start, g < b.n, mem(ex, a, g)), z3.And(r <= g, r != K.NPOS)))
for nm in ('bs_first', 'bs_begin'):
    def run(ex, nm=nm):
        a = BS(ex, 'a'); g = G(ex); first_post(ex, a, R(ex, nm, a), 0, g)
    add_unit('C17', nm, run, 'c17.iter')
for nm in ('bs_next', 'bs_step', 'bs_post2'):
    def run(ex, nm=nm):
        a = BS(ex, 'a'); p = ex.fresh('p', 'int'); ex.assume(AND(p >= 0, p < val(ex, a).f['mData'].n)); g = G(ex); first_post(ex, a, R(ex, nm, a, p), p + 1, g)
    add_unit('C17', nm, run, 'c17.iter')
@unit('C17', 'bs_post', 'c17.iter')
def _(ex):
    a = BS(ex, 'a'); p = ex.fresh('p', 'int'); q = ex.fresh('q', 'int'); ex.assume(AND(p >= 0, q >= 0)); ex.prove('post-increment returns the old position', eq(R(ex, 'bs_post', a, p), p))
    ex.prove('iterators are equal iff their positions are', AND(IFF(zbool(R(ex, 'bs_iteq', a, p, q)), p == q), IFF(zbool(R(ex, 'bs_itne', a, p, q)), p != q)))
    ex.prove('end position is npos', eq(R(ex, 'bs_end', a), K.NPOS))

# ------------------------------------------------------------------ C18
W32 = z3.BitVecSort(32); WS = ScalarShape(W32); M32 = 1 << 32
def pwords(m, v):
    n = int(mval(m, v.n))
    if n > 60: raise ValueError('too long')
    return ','.join(str(mval(m, z3.Select(v.cols[0], i))) for i in range(n)) or '-'
PRINT['Bv'] = pwords
def BV(ex, name):
    v = fresh_svec(ex, name, WS); ex.assume(v.n <= 1 << 27); inp(ex, 'Bv', v)
    return ex.alloc(Rec('carl::BitVector', {'mBits': v}), name)
def wordbit(w, i):
    r = z3.Extract(31, 31, w) == 1
    for k in range(30, -1, -1): r = z3.If(i == k, z3.Extract(k, k, w) == 1, r)
    return r
def words(ex, x): return val(ex, x).f['mBits']
def asv(ex, x):
    v = words(ex, x)
    return as_svec(ex, v, WS)
def word(ex, x, w):
    v = asv(ex, x); return z3.If(z3.And(w >= 0, w < znum(v.n)), z3.Select(v.cols[0], w), z3.BitVecVal(0, 32))
def bit_(ex, x, q):
    """bit at position q; unwritten positions read as unset"""
    w, i = pos(ex, q); return wordbit(word(ex, x, w), i)
def pos(ex, q):
    """q = 32 w + i"""
    return znum(q) / 32, znum(q) % 32
def P(ex, n):
    p = inp(ex, 'Z', ex.fresh(n, 'int')); ex.assume(AND(p >= 0, p < M32)); return p
BVK = dict(bv={32}, shapes={})
def GQ(ex):
    """arbitrary position"""
    w = ex.fresh('gw', 'int'); i = ex.fresh('gi', 'int'); ex.assume(AND(w >= 0, i >= 0, i < 32)); ex.ghost['gw'] = w; return w, i
@unit('C18', 'bv_new', 'c18.one', svec=True, **BVK)
def _(ex):
    w, i = GQ(ex); ex.prove('a new bit vector has no bit set', z3.Not(wordbit(word(ex, R(ex, 'bv_new'), w), i)))
@unit('C18', 'bv_one', 'c18.one', svec=True, **BVK)
def _(ex):
    p = P(ex, 'p'); w, i = GQ(ex); r = R(ex, 'bv_one', p); ex.prove('exactly the given position is set', wordbit(word(ex, r, w), i) == (32 * w + i == p))
@unit('C18', 'bv_clear', 'c18.clear', svec=True, **BVK)
def _(ex):
    v = BV(ex, 'v'); w, i = GQ(ex); R(ex, 'bv_clear', v); ex.prove('no bit is set after clear()', z3.Not(wordbit(word(ex, v, w), i)))
@unit('C18', 'bv_reserve', 'c18.reserve', **BVK)
def _(ex):
    v = BV(ex, 'v'); o = val(ex, v); n = P(ex, 'n'); w, i = GQ(ex); R(ex, 'bv_reserve', v, n); ex.prove('reserving space keeps every bit', wordbit(word(ex, v, w), i) == wordbit(word(ex, o, w), i))
@unit('C18', 'bv_size', 'c18.get', **BVK)
def _(ex):
    v = BV(ex, 'v'); ex.prove('size is 32 bits per word', eq(R(ex, 'bv_size', v), words(ex, v).n * 32))
@unit('C18', 'bv_set', 'c18.set', **BVK)
def _(ex):
    v = BV(ex, 'v'); o = val(ex, v); p = P(ex, 'p'); b = inp(ex, 'bool', ex.fresh('b', 'bool')); w, i = GQ(ex)
    R(ex, 'bv_set', v, p, b)
    ex.prove('setBit() changes exactly the given position', wordbit(word(ex, v, w), i) == z3.If(32 * w + i == p, b, wordbit(word(ex, o, w), i)))
@unit('C18', 'bv_get', 'c18.get', **BVK)
def _(ex):
    v = BV(ex, 'v'); p = P(ex, 'p'); w = ex.fresh('w', 'int'); i = ex.fresh('i', 'int'); ex.assume(AND(i >= 0, i < 32, p == 32 * w + i))
    ex.prove('getBit() returns the bit at the position', zbool(R(ex, 'bv_get', v, p)) == wordbit(word(ex, v, w), i))
def ge_(k): return [('range', k)]
def empty_inv(s, L):
    v = s.ghost['v']; j = z3.Int('j!e')
    return [('words seen so far are zero', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), v.cols[0][j] == 0), patterns=[v.cols[0][j]]))]
@unit('C18', 'bv_empty', 'c18.empty', loops={'empty': Loop(inv=empty_inv)}, weak_oracle=True, **BVK)
def _(ex):
    v = BV(ex, 'v'); ex.ghost['v'] = a = words(ex, v); w, i = GQ(ex); r = zbool(R(ex, 'bv_empty', v)); j = z3.Int('j!z')
    ex.prove('an empty vector has no bit set', z3.Implies(r, z3.Not(wordbit(word(ex, v, w), i))))
    ex.prove('a vector without set bits is empty', z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.n), a.cols[0][j] == 0), patterns=[a.cols[0][j]]), r))
def first_outer(s, L):
    v = s.ghost['v']; j = z3.Int('j!f')
    return [('position counts the words passed', eq(L.v('pos'), 32 * znum(L.k))), ('words passed are zero', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), v.cols[0][j] == 0), patterns=[v.cols[0][j]]))]
def first_inner(s, L):
    b = L.v('b'); e = L.v('elem'); p = znum(L.v('pos')); base = znum(L.old('pos'))
    return [('bits shifted out are zero', OR(*[AND(p == base + t, e == z3.LShR(b, t), (b & ((1 << t) - 1)) == 0) for t in range(32)]))]
@unit('C18', 'bv_first', 'c18.first', loops={'findFirstSetBit#0': Loop(inv=first_outer), 'findFirstSetBit#1': Loop(inv=first_inner)}, weak_oracle=True, **BVK)
def _(ex):
    v = BV(ex, 'v'); ex.ghost['v'] = a = words(ex, v); w, i = GQ(ex); r = znum(R(ex, 'bv_first', v))
    ex.prove('first set bit: no set position before it', z3.Implies(wordbit(word(ex, v, w), i), r <= 32 * w + i))
    rw = ex.fresh('rw', 'int'); ri = ex.fresh('ri', 'int'); ex.assume(AND(ri >= 0, ri < 32, r == 32 * rw + ri))
    ex.prove('first set bit is set, or the size is returned', z3.Or(r == 32 * a.n, wordbit(word(ex, v, rw), ri)))
def ora_inv(s, L):
    a = s.ghost['a']; b = s.ghost['b']; w = s.ghost['gw']; i = znum(L.v('lhsIt').i); cur = as_svec(s, L.this.f['mBits'], WS)
    return [('iterators in step', AND(eq(L.v('rhsIt').i, i), i >= 0, i <= a.n, i <= b.n)), ('length kept', eq(cur.n, a.n)),
            ('words passed are united, the others kept', z3.Implies(z3.And(w >= 0, w < a.n), cur.cols[0][w] == z3.If(w < i, a.cols[0][w] | b.cols[0][w], a.cols[0][w])))]
for nm in ('bv_ora', 'bv_union'):
    def run(ex, nm=nm):
        a = BV(ex, 'a'); b = BV(ex, 'b'); ex.ghost['a'] = words(ex, a); ex.ghost['b'] = words(ex, b); oa = val(ex, a); w, i = GQ(ex)
        R(ex, nm, a, b)
        ex.prove('union has exactly the set positions of both', wordbit(word(ex, a, w), i) == z3.Or(wordbit(word(ex, oa, w), i), wordbit(word(ex, b, w), i)))
    add_unit('C18', nm, run, 'c18.or', loops={'operator|=': Loop(inv=ora_inv)}, weak_oracle=True, **BVK)
def or_inv(s, L):
    a = s.ghost['a']; b = s.ghost['b']; w = s.ghost['gw']; i = znum(L.v('lhsIt').i); cur = as_svec(s, L.v('res').f['mBits'], WS)
    return [('iterators in step', AND(eq(L.v('rhsIt').i, i), i >= 0, i <= a.n, i <= b.n)), ('one word per step', eq(cur.n, i)), ('words passed are united', z3.Implies(z3.And(w >= 0, w < i), cur.cols[0][w] == (a.cols[0][w] | b.cols[0][w])))]
@unit('C18', 'bv_or', 'c18.or', loops={'operator|': Loop(inv=or_inv)}, svec=True, weak_oracle=True, **BVK)
def _(ex):
    a = BV(ex, 'a'); b = BV(ex, 'b'); ex.ghost['a'] = words(ex, a); ex.ghost['b'] = words(ex, b); w, i = GQ(ex); r = R(ex, 'bv_or', a, b)
    ex.prove('union has exactly the set positions of both', wordbit(word(ex, r, w), i) == z3.Or(wordbit(word(ex, a, w), i), wordbit(word(ex, b, w), i)))
def sub0(s, L):
    a = s.ghost['a']; b = s.ghost['b']; i = znum(L.v('sub').i); j = z3.Int('j!s')
    return [('iterators in step', AND(eq(L.v('sup').i, i), i >= 0, i < a.n, i <= b.n)), ('words passed are subsets', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), (a.cols[0][j] & ~b.cols[0][j]) == 0), patterns=[a.cols[0][j]]))]
def sub1(s, L):
    a = s.ghost['a']; b = s.ghost['b']; i = znum(L.v('sub').i); j = z3.Int('j!s')
    return [('position', AND(i >= b.n, i <= a.n)), ('remaining words passed are zero', z3.ForAll([j], z3.Implies(z3.And(j >= b.n, j < i), a.cols[0][j] == 0), patterns=[a.cols[0][j]])),
            ('words passed are subsets', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < b.n), (a.cols[0][j] & ~b.cols[0][j]) == 0), patterns=[a.cols[0][j]]))]
@unit('C18', 'bv_subset', 'c18.subset', loops={'subsetOf#0': Loop(inv=sub0, variant=lambda s, L: sub(s.ghost['a'].n, L.v('sub').i)), 'subsetOf#1': Loop(inv=sub1, variant=lambda s, L: sub(s.ghost['a'].n, L.v('sub').i))}, weak_oracle=True, **BVK)
def _(ex):
    a = BV(ex, 'a'); b = BV(ex, 'b'); ex.ghost['a'] = va = words(ex, a); ex.ghost['b'] = vb = words(ex, b); w, i = GQ(ex); r = zbool(R(ex, 'bv_subset', a, b)); j = z3.Int('j!t')
    ex.prove('every set position of a subset is set', z3.Implies(z3.And(r, wordbit(word(ex, a, w), i)), wordbit(word(ex, b, w), i)))
    sub = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < va.n), (va.cols[0][j] & ~z3.If(j < vb.n, vb.cols[0][j], z3.BitVecVal(0, 32))) == 0), patterns=[va.cols[0][j]])
    ex.prove('a subset is recognised', z3.Implies(sub, r))
@unit('C18', 'bv_eq', 'c18.eq', **BVK)
def _(ex):
    a = BV(ex, 'a'); b = BV(ex, 'b'); w, i = GQ(ex); r = zbool(R(ex, 'bv_eq', a, b))
    ex.prove('equal vectors have the same set positions', z3.Implies(r, wordbit(word(ex, a, w), i) == wordbit(word(ex, b, w), i)))
# iterator: at word vi, bit p; current element is the word shifted by p (0 at the end)
def FI(ex, v, vi, p):
    a = words(ex, v); cur = z3.If(vi < a.n, K.z3.If(vi < a.n, sh(z3.Select(a.cols[0], vi), p), z3.BitVecVal(0, 32)), z3.BitVecVal(0, 32))
    vl = v.sub('mBits')
    return ex.alloc(Rec('carl::BitVector::forward_iterator', {'posInVec': p, 'vecIter': It(vl, vi), 'vecEnd': It(vl, a.n), 'curVecElem': cur}), 'it')
def sh(w, p):
    r = z3.LShR(w, 31)
    for k in range(30, -1, -1): r = z3.If(p == k, z3.LShR(w, k), r)
    return r
def fi_ok(ex, v, r, q):
    """iterator record r stands at position q = 32 w + i of v"""
    a = words(ex, v); w, i = q
    return AND(eq(r.f['posInVec'], i), eq(r.f['vecIter'].i, w), eq(r.f['vecEnd'].i, a.n), r.f['curVecElem'] == z3.If(w < a.n, sh(z3.Select(a.cols[0], w), i), z3.BitVecVal(0, 32)))
@unit('C18', 'bv_begin', 'c18.iter', **BVK)
def _(ex):
    v = BV(ex, 'v'); r = R(ex, 'bv_begin', v); ex.prove('iteration begins at position 0', fi_ok(ex, v, r if isinstance(r, Rec) else ex.read(r), (z3.IntVal(0), z3.IntVal(0))))
for nm in ('bv_it_next', 'bv_it_inc'):
    def run(ex, nm=nm):
        v = BV(ex, 'v'); a = words(ex, v); w = ex.fresh('w', 'int'); i = ex.fresh('i', 'int'); ex.assume(AND(w >= 0, w < a.n, i >= 0, i < 32)); it = FI(ex, v, w, i)
        R(ex, nm, it); ex.prove('iteration steps to the next position', fi_ok(ex, v, ex.read(it), (z3.If(i == 31, w + 1, w), z3.If(i == 31, 0, i + 1))))
    add_unit('C18', nm, run, 'c18.iter', **BVK)
@unit('C18', 'bv_it_get', 'c18.iter', **BVK)
def _(ex):
    v = BV(ex, 'v'); a = words(ex, v); w = ex.fresh('w', 'int'); i = ex.fresh('i', 'int'); ex.assume(AND(w >= 0, w <= a.n, i >= 0, i < 32, z3.Implies(w == a.n, i == 0))); it = FI(ex, v, w, i)
    ex.prove('iterator reads the bit at its position', zbool(R(ex, 'bv_it_get', it)) == wordbit(word(ex, v, w), i))
    ex.prove('iteration ends after the last word', IFF(zbool(R(ex, 'bv_it_end', it)), w == a.n))

# ------------------------------------------------------------------ C19
def POOL(ex):
    """pool with arbitrary history: the free set is stored with default true"""
    b = fresh_bits(ex, 'free'); ex.assume(b.n < 1 << 63); m = ex.fresh('m', 'int'); ex.assume(m >= 0)
    return ex.alloc(Rec('carl::IDPool', {'mFreeIDs': Rec('carl::Bitset', {'mData': b, 'mDefault': True}), 'mLargestID': m}), 'pool')
def free_(ex, p, g):
    r = p if isinstance(p, Rec) else ex.read(p); return mem(ex, r.f['mFreeIDs'], g)
def pool_ok(ex, p):
    r = p if isinstance(p, Rec) else ex.read(p); ex.prove('every identifier beyond the stored ones is free', zbool(r.f['mFreeIDs'].f['mDefault']))
@unit('C19', 'ip_new', 'c19.pool')
def _(ex):
    g = G(ex); p = ex.val(R(ex, 'ip_new')); pool_ok(ex, p); ex.prove('all identifiers are free initially', free_(ex, p, g))
@unit('C19', 'ip_get', 'c19.pool', weak_oracle=True)
def _(ex):
    p = POOL(ex); o = ex.read(p); g = G(ex); r = R(ex, 'ip_get', p); pool_ok(ex, p)
    ex.prove('the issued identifier was free', AND(ge(r, 0), free_(ex, o, r)))
    ex.prove('exactly the issued identifier becomes used', IFF(free_(ex, p, g), z3.And(g != znum(r), free_(ex, o, g))))
@unit('C19', 'ip_free', 'c19.pool', weak_oracle=True)
def _(ex):
    p = POOL(ex); o = ex.read(p); g = G(ex); i = ex.fresh('i', 'int'); ex.assume(AND(i >= 0, i < o.f['mFreeIDs'].f['mData'].n, NOT(free_(ex, o, i))))
    R(ex, 'ip_free', p, i); pool_ok(ex, p); ex.prove('exactly the given identifier becomes free', IFF(free_(ex, p, g), z3.Or(g == i, free_(ex, o, g))))
@unit('C19', 'ip_clear', 'c19.pool', weak_oracle=True)
def _(ex):
    p = POOL(ex); g = G(ex); R(ex, 'ip_clear', p); pool_ok(ex, p); ex.prove('all identifiers are free after clear()', free_(ex, p, g))
# generator: ids 1 .. mNext-1 not in the queue are in use; the queue holds distinct ids below mNext
def gi(r):
    j = z3.Int('j!gi'); c = r.f['mFree'].c; n = znum(r.f['mNext'])
    return z3.And(n >= 1, z3.ForAll([j], z3.And(c[j] >= 0, c[j] <= 1, z3.Implies(c[j] > 0, z3.And(j >= 1, j < n))), patterns=[c[j]]))
def used(r, g): return z3.And(znum(g) >= 1, znum(g) < znum(r.f['mNext']), r.f['mFree'].c[znum(g)] == 0)
def GEN(ex):
    n = ex.fresh('next', 'int'); c = ex.fresh('queue', z3.ArraySort(z3.IntSort(), z3.IntSort())); r = Rec('carl::IDGenerator', {'mNext': n, 'mFree': K.PQ(c)})
    ex.assume(AND(gi(r), n < 1 << 63)); return ex.alloc(r, 'gen')
def inv_gi(ex, r):
    """invariant of the representation, at an arbitrary index"""
    j = ex.fresh('jq', 'int'); c = r.f['mFree'].c; n = znum(r.f['mNext'])
    ex.prove('the queue holds distinct issued identifiers', AND(n >= 1, c[j] >= 0, c[j] <= 1, z3.Implies(c[j] > 0, z3.And(j >= 1, j < n))))
@unit('C19', 'ig_new', 'c19.gen')
def _(ex):
    g = G(ex); r = ex.val(R(ex, 'ig_new')); inv_gi(ex, r); ex.prove('no identifier is in use initially', z3.Not(used(r, g)))
@unit('C19', 'ig_get', 'c19.gen', weak_oracle=True)
def _(ex):
    p = GEN(ex); o = ex.read(p); g = G(ex); r = R(ex, 'ig_get', p); n = ex.read(p); inv_gi(ex, n)
    ex.prove('the issued identifier was not in use', z3.Not(used(o, r))); ex.prove('exactly the issued identifier becomes used', IFF(used(n, g), z3.Or(g == znum(r), used(o, g))))
def shrink(s, L):
    g = s.ghost['ints'][0]; r = L.this; o = s.ghost['o']; i = s.ghost['id']
    return [('representation', gi(r)), ('identifiers in use', IFF(used(r, g), z3.And(g != i, used(o, g))))]
@unit('C19', 'ig_free', 'c19.gen', loops={'free': Loop(inv=shrink)}, weak_oracle=True)
def _(ex):
    p = GEN(ex); ex.ghost['o'] = o = ex.read(p); g = G(ex); i = ex.fresh('i', 'int'); ex.ghost['id'] = i; ex.assume(used(o, i))
    R(ex, 'ig_free', p, i); n = ex.read(p); inv_gi(ex, n); ex.prove('exactly the given identifier is no longer in use', IFF(used(n, g), z3.And(g != i, used(o, g))))
@unit('C19', 'ig_clear', 'c19.gen', weak_oracle=True)
def _(ex):
    p = GEN(ex); g = G(ex); R(ex, 'ig_clear', p); n = ex.read(p); inv_gi(ex, n); ex.prove('no identifier is in use after clear()', z3.Not(used(n, g)))
@unit('C19', 'ig_next', 'c19.gen')
def _(ex):
    p = GEN(ex); g = G(ex); ex.prove('nextID() is beyond all identifiers in use', z3.Implies(used(ex.read(p), g), gt(R(ex, 'ig_next', p), g)))

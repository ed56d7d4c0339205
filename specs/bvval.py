"""Contracts for bit-vector constants (C16).  VAL(a, k) is the value of the k lowest bits, P2(k) = 2^k; the facts about
them used below are instances of lemmas that the units named lemma_* prove by induction from the defining equations
VAL(a, 0) = 0, VAL(a, k+1) = VAL(a, k) + a[k] 2^k, P2(0) = 1, P2(k+1) = 2 P2(k)."""
from .common import *
from vc.containers import *
import vc.containers as K
from vc.containers import VAL, P2
DRIVER = 'bvval'; HARNESS = 'bvval'
UNITS = []
def unit(name, op=None, **kw):
    def d(run): UNITS.append(U('C16', 'bvval.' + name, run, op, **kw)); return run
    return d
def R(ex, root, *a): return ex.call_root(root, list(a))
I = z3.IntVal
def pbits(m, b):
    n = int(mval(m, b.n))
    if n > 300: raise ValueError('too long')
    return ''.join('1' if mval(m, z3.Select(b.a, i)) else '0' for i in range(n)) or '-'
PRINT['B'] = pbits
def BV(ex, name, n=None):
    b = fresh_bits(ex, name, n); ex.assume(b.n < 1 << 31); inp(ex, 'B', b)
    return ex.alloc(Rec('carl::BVValue', {'mValue': b}), name)
def bits(ex, x):
    if isinstance(x, Loc): x = ex.read(x)
    return x if isinstance(x, DBits) else x.f['mValue']
def mk(ex, b): return Rec('carl::BVValue', {'mValue': b})
def two(ex, pos=False):
    a = BV(ex, 'a'); b = BV(ex, 'b', bits(ex, a).n)
    if pos: ex.assume(bits(ex, a).n >= 1)
    return a, b
# ------------------------------------------------------------------ defining equations and lemmas
def p2def(k): return z3.And(P2(I(0)) == 1, z3.Implies(k >= 0, z3.And(P2(k + 1) == 2 * P2(k), P2(k) >= 1)))
def step(a, k): return z3.And(VAL(a, I(0)) == 0, z3.Implies(k >= 0, VAL(a, k + 1) == VAL(a, k) + z3.If(z3.Select(a, k), P2(k), I(0))), p2def(k))
def rng(a, k): return z3.Implies(k >= 0, z3.And(VAL(a, k) >= 0, VAL(a, k) < P2(k), P2(k) >= 1))                       # lemma_range
def at(ex, a, k):
    """definition at k and range at k, k+1"""
    k = znum(k); ex.assume(step(a, k)); ex.assume(rng(a, k)); ex.assume(rng(a, k + 1))
def frame(a, i, v, k): return z3.Implies(z3.And(k >= 0, i >= k), VAL(z3.Store(a, i, v), k) == VAL(a, k))               # lemma_frame
def setb(a, i, k): return z3.Implies(z3.And(i >= 0, i < k, z3.Not(z3.Select(a, i))), VAL(z3.Store(a, i, z3.BoolVal(True)), k) == VAL(a, k) + P2(i))   # lemma_set
def ext(a, b, k):                                                                                                  # lemma_ext
    j = z3.Int('j!e'); return z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Select(a, j) == z3.Select(b, j))), VAL(a, k) == VAL(b, k))
def zero(a, m, k):                                                                                                 # lemma_zero: no bits in [m, k)
    j = z3.Int('j!z'); return z3.Implies(z3.And(m >= 0, m <= k, z3.ForAll([j], z3.Implies(z3.And(j >= m, j < k), z3.Not(z3.Select(a, j))))), VAL(a, k) == VAL(a, m))
def comp(a, na, k): return z3.Implies(k >= 0, VAL(na, k) == P2(k) - 1 - VAL(a, k))                                    # lemma_complement, na the complement
def shl1(a, sa, k): return z3.Implies(k >= 0, VAL(sa, k + 1) == 2 * VAL(a, k))                                        # lemma_shl
def shr1(a, sa, k, n): return z3.Implies(z3.And(k >= 0, k + 1 <= n), 2 * VAL(sa, k) + z3.If(z3.Select(a, I(0)), 1, 0) == VAL(a, k + 1))   # lemma_shr
def hasbit(a, i, k): return z3.Implies(z3.And(i >= 0, i < k, z3.Select(a, i)), VAL(a, k) >= P2(i))                     # lemma_bit
def mono(i, k): return z3.Implies(z3.And(i >= 0, i <= k), P2(i) <= P2(k))                                             # lemma_mono
def nz(ex, a, k):
    """lemma_nonzero: a value other than zero has a set bit"""
    j = z3.Int('j!n'); return z3.Implies(z3.And(k >= 0, VAL(a, k) != 0), z3.Exists([j], z3.And(j >= 0, j < k, z3.Select(a, j))))
ARR = z3.ArraySort(z3.IntSort(), z3.BoolSort())
def lemma(name, stmt, needs=lambda *a: []):
    """induction over k: stmt(ex, k) returns (formula, extra facts) for the same arrays"""
    @unit('lemma_' + name)
    def _(ex):
        ex.ghost['lem'] = {}
        k = ex.fresh('k', 'int'); ex.assume(k >= 0)
        f, defs = stmt(ex)
        for d in defs(k): ex.assume(d)
        ex.prove(f'lemma {name}: base', f(I(0))); ex.prove(f'lemma {name}: step', z3.Implies(f(k), f(k + 1)))
def A(ex, n): return ex.ghost['lem'].setdefault(n, ex.fresh('A' + n, ARR))
def NN(ex, n):
    if n not in ex.ghost['lem']: v = ex.fresh(n, 'int'); ex.assume(v >= 0); ex.ghost['lem'][n] = v
    return ex.ghost['lem'][n]
lemma('range', lambda ex: (lambda k: rng(A(ex, 'a'), k), lambda k: [step(A(ex, 'a'), k), p2def(k)]))
def _l(ex):
    a = A(ex, 'a'); i = NN(ex, 'i'); v = ex.fresh('v', 'bool'); s = z3.Store(a, i, v)
    return lambda k: frame(a, i, v, k), lambda k: [step(a, k), step(s, k)]
lemma('frame', _l)
def _l(ex):
    a = A(ex, 'a'); i = NN(ex, 'i'); s = z3.Store(a, i, z3.BoolVal(True))
    return lambda k: setb(a, i, k), lambda k: [step(a, k), step(s, k), frame(a, i, z3.BoolVal(True), k)]
lemma('set', _l)
lemma('ext', lambda ex: (lambda k: ext(A(ex, 'a'), A(ex, 'b'), k), lambda k: [step(A(ex, 'a'), k), step(A(ex, 'b'), k)]))
def _l(ex):
    a = A(ex, 'a'); m = NN(ex, 'm'); return lambda k: zero(a, m, k), lambda k: [step(a, k)]
lemma('zero', _l)
def cmpl(a): return K.lam(lambda k: z3.Not(z3.Select(a, k)))
lemma('complement', lambda ex: (lambda k: comp(A(ex, 'a'), cmpl(A(ex, 'a')), k), lambda k: [step(A(ex, 'a'), k), step(cmpl(A(ex, 'a')), k)]))
def _l(ex):
    a = A(ex, 'a'); s = K.shl(DBits(NN(ex, 'n'), a), 1).a
    return lambda k: shl1(a, s, k), lambda k: [step(a, k), step(s, k), step(s, k + 1), step(s, I(0))]
lemma('shl', _l)
def _l(ex):
    n = NN(ex, 'n'); a = A(ex, 'a'); s = K.shr(DBits(n, a), 1).a
    return lambda k: shr1(a, s, k, n), lambda k: [step(a, k), step(a, k + 1), step(a, I(0)), step(s, k)]
lemma('shr', _l)
def _l(ex):
    a = A(ex, 'a'); i = NN(ex, 'i'); return lambda k: hasbit(a, i, k), lambda k: [step(a, k), step(a, i), rng(a, k), rng(a, i)]
lemma('bit', _l)
def _l(ex):
    i = NN(ex, 'i'); return lambda k: mono(i, k), lambda k: [p2def(k), p2def(i)]
lemma('mono', _l)
lemma('nonzero', lambda ex: (lambda k: nz(ex, A(ex, 'a'), k), lambda k: [step(A(ex, 'a'), k)]))
def V(ex, x, k=None):
    b = bits(ex, x); k = znum(b.n if k is None else k); ex.assume(rng(b.a, k)); return VAL(b.a, k)
def width_ok(ex, r, n): ex.prove('the result has the prescribed width', eq(bits(ex, r).n, n))

# ------------------------------------------------------------------ bitwise
def G(ex, n):
    g = ex.fresh('g', 'int'); ex.assume(AND(g >= 0, g < n)); ex.ghost.setdefault('ints', []).append(g); return g
def sel(ex, x, i): return z3.Select(bits(ex, x).a, znum(i))
for nm, fn in (('and', z3.And), ('or', z3.Or), ('xor', z3.Xor)):
    @unit('b_' + nm, 'c16.bitwise')
    def _(ex, nm=nm, fn=fn):
        a, b = two(ex); g = G(ex, bits(ex, a).n); r = R(ex, 'b_' + nm, a, b); width_ok(ex, r, bits(ex, a).n); ex.prove('the operation acts on every bit', sel(ex, r, g) == fn(sel(ex, a, g), sel(ex, b, g)))
@unit('b_not', 'c16.not')
def _(ex):
    a = BV(ex, 'a'); g = G(ex, bits(ex, a).n); r = R(ex, 'b_not', a); width_ok(ex, r, bits(ex, a).n); ex.prove('every bit is flipped', sel(ex, r, g) == z3.Not(sel(ex, a, g)))
@unit('b_eq', 'c16.cmp')
def _(ex):
    a = BV(ex, 'a'); b = BV(ex, 'b'); na = bits(ex, a).n; g = G(ex, na); r = zbool(R(ex, 'b_eq', a, b)); w = ex.ghost.get('wit', [I(0)])
    ex.prove('equal constants have equal width and bits', z3.Implies(r, z3.And(na == bits(ex, b).n, sel(ex, a, g) == sel(ex, b, g))))
    ex.prove('different constants differ in width or a bit', z3.Implies(z3.Not(r), z3.Or(na != bits(ex, b).n, *[z3.And(x >= 0, x < na, sel(ex, a, x) != sel(ex, b, x)) for x in w])))
@unit('b_lt', 'c16.cmp')
def _(ex):
    a, b = two(ex); ex.prove('the order is the order of the unsigned values', IFF(zbool(R(ex, 'b_lt', a, b)), V(ex, a) < V(ex, b)))
@unit('b_new', 'c16.new')
def _(ex):
    w = inp(ex, 'Z', ex.fresh('w', 'int')); v = inp(ex, 'Z', ex.fresh('v', 'int')); ex.assume(AND(w >= 0, w < 1 << 31, v >= 0, v < 1 << 64)); g = G(ex, w); r = R(ex, 'b_new', w, v); width_ok(ex, r, w)
    ex.prove('the bits are those of the number', sel(ex, r, g) == z3.And(g < 64, K.BITOF(v, g)))
@unit('b_zero', 'c16.new0')
def _(ex):
    w = inp(ex, 'Z', ex.fresh('w', 'int')); ex.assume(AND(w >= 0, w < 1 << 31)); g = G(ex, w); r = R(ex, 'b_zero', w); width_ok(ex, r, w); ex.prove('no bit is set', z3.Not(sel(ex, r, g)))
@unit('b_iszero', 'c16.zero')
def _(ex):
    a = BV(ex, 'a'); n = bits(ex, a).n; g = G(ex, n); r = zbool(R(ex, 'b_iszero', a)); ex.prove('zero has no set bit', z3.Implies(r, z3.Not(sel(ex, a, g)))); ex.prove('a non-zero constant has a set bit', z3.Implies(z3.Not(r), z3.Or(*[z3.And(w >= 0, w < n, sel(ex, a, w)) for w in ex.ghost.get('wit', [])])))
    ex.prove('width() is the number of bits', eq(R(ex, 'b_width', a), n)); ex.prove('indexing reads the bit', IFF(zbool(R(ex, 'b_at', a, g)), sel(ex, a, g)))
@unit('b_concat', 'c16.concat')
def _(ex):
    a = BV(ex, 'a'); b = BV(ex, 'b'); na, nb = bits(ex, a).n, bits(ex, b).n; g = G(ex, na + nb); r = R(ex, 'b_concat', a, b); width_ok(ex, r, na + nb)
    ex.prove('the second operand gives the low bits, the first the high bits', sel(ex, r, g) == z3.If(g < nb, sel(ex, b, g), sel(ex, a, g - nb)))
def ext_inv(s, L):
    b = bits(s, L.v('extraction')); i = znum(L.v('i')); g = s.ghost['ints'][0]; lo = znum(L.v('_lowest'))
    return [('position', AND(i >= 0, i <= znum(b.n))), ('width kept', eq(b.n, znum(L.v('_highest')) - lo + 1)), ('bits passed are copied', z3.Implies(z3.And(g >= 0, g < i), z3.Select(b.a, g) == z3.Select(bits(s, L.this).a, lo + g)))]
@unit('b_extract', 'c16.extract', loops={'extract': Loop(inv=ext_inv)}, weak_oracle=True)
def _(ex):
    a = BV(ex, 'a'); h = inp(ex, 'Z', ex.fresh('h', 'int')); l = inp(ex, 'Z', ex.fresh('l', 'int')); ex.assume(AND(l >= 0, l <= h, h < bits(ex, a).n)); g = G(ex, h - l + 1)
    r = R(ex, 'b_extract', a, h, l); width_ok(ex, r, h - l + 1); ex.prove('the result has exactly the bits from lowest to highest', sel(ex, r, g) == sel(ex, a, l + g))
for nm in ('extu', 'exts'):
    @unit('b_' + nm, 'c16.' + nm)
    def _(ex, nm=nm):
        a = BV(ex, 'a'); w = bits(ex, a).n; n = inp(ex, 'Z', ex.fresh('n', 'int')); ex.assume(AND(n >= 0, n < 1 << 31, w >= 1)); g = G(ex, w + n); r = R(ex, 'b_' + nm, a, n); width_ok(ex, r, w + n)
        ex.prove('the new high bits are zero' if nm == 'extu' else 'the new high bits repeat the sign', sel(ex, r, g) == z3.If(g < w, sel(ex, a, g), z3.BoolVal(False) if nm == 'extu' else sel(ex, a, w - 1)))
def rep_inv(s, L):
    b = bits(s, L.v('repeated')); i = znum(L.v('i')); g = s.ghost['ints'][0]; o = s.ghost['a']; w = znum(o.n); q, m = s.ghost['qm']
    return [('position', AND(i >= 0, i <= znum(b.n))), ('width kept', eq(b.n, s.ghost['total'])), ('bits passed are copies', z3.Implies(z3.And(g >= 0, g < i), z3.Select(b.a, g) == z3.Select(o.a, m)))]
@unit('b_repeat', 'c16.repeat', loops={'repeat': Loop(inv=rep_inv)}, weak_oracle=True)
def _(ex):
    a = BV(ex, 'a'); w = bits(ex, a).n; n = inp(ex, 'Z', ex.fresh('n', 'int')); ex.assume(AND(n >= 1, n < 1 << 31, w >= 1)); g = G(ex, n * w); q = ex.fresh('q', 'int'); m = ex.fresh('m', 'int'); ex.assume(AND(g == q * w + m, m >= 0, m < w)); ex.assume(g % w == m)
    ex.ghost['a'] = bits(ex, a); ex.ghost['qm'] = (q, m); ex.ghost['total'] = n * w
    r = R(ex, 'b_repeat', a, n); width_ok(ex, r, n * w); ex.prove('bit g of the result is bit g modulo the width', sel(ex, r, g) == sel(ex, a, m))
for nm in ('rotl', 'rotr'):
    @unit('b_' + nm, 'c16.' + nm)
    def _(ex, nm=nm):
        a = BV(ex, 'a'); w = bits(ex, a).n; n = inp(ex, 'Z', ex.fresh('n', 'int')); q = ex.fresh('q', 'int'); m = ex.fresh('m', 'int'); ex.assume(AND(n >= 0, n < 1 << 31, w >= 1, n == q * w + m, m >= 0, m < w, n % w == m)); ex.assume(AND((w - m) % w == z3.If(m == 0, 0, w - m)))
        g = G(ex, w); r = R(ex, 'b_' + nm, a, n); width_ok(ex, r, w)
        # bit g moves to g+n (left) or g-n (right) modulo the width
        t = z3.If(g + m < w, g + m, g + m - w) if nm == 'rotl' else z3.If(g >= m, g - m, g - m + w)
        ex.prove('every bit moves by the given number of places around the width', sel(ex, r, t) == sel(ex, a, g))
# ------------------------------------------------------------------ shifts
def sh_while(s, L):
    f = znum(L.v('firstSize')); h = znum(L.v('highestRelevantPos')); w = znum(s.ghost['w']); s.assume(p2def(h)); s.assume(p2def(h + 1))
    return [('position', h >= 0), ('leading power', AND(f >= 0, f * P2(h) <= w - 1, w - 1 < (f + 1) * P2(h)))]
def sh_zero(s, L):
    i = znum(L.v('i')); h = znum(L.v('highestRelevantPos')); o = bits(s, L.v('_other')); j = z3.Int('j!s')
    s.assume(hasbit(o.a, i, znum(o.n))); s.assume(mono(h + 1, i)); s.assume(p2def(h)); s.assume(rng(o.a, znum(o.n)))
    return [('position', AND(i >= h + 1)), ('higher bits passed are zero', z3.ForAll([j], z3.Implies(z3.And(j >= h + 1, j < i), z3.Not(z3.Select(o.a, j))), patterns=[z3.Select(o.a, j)]))]
def sh_main(s, L):
    i = znum(L.v('i')); h = znum(L.v('highestRelevantPos')); o = bits(s, L.v('_other')); sh = L.v('shifted'); w = znum(s.ghost['w']); src = L.old('shifted').a; S = VAL(o.a, i); g = z3.Int('g!s'); left = s.ghost['left']
    s.assume(step(o.a, i)); s.assume(rng(o.a, i)); s.assume(rng(o.a, i + 1))
    for m in (i, h + 1): s.assume(zero(o.a, m, znum(o.n)))
    want = z3.And(g >= S, z3.Select(src, g - S)) if left else z3.And(g + S < w, z3.Select(src, g + S))
    return [('position', AND(i >= 0, i <= h + 1, le(i, z3.If(h + 1 < znum(o.n), h + 1, znum(o.n))))), ('width kept', eq(sh.n, w)), ('shift amount is the power', eq(L.v('shiftBy'), P2(i))),
            ('shifted so far', z3.ForAll([g], z3.Implies(z3.And(g >= 0, g < w), z3.Select(sh.a, g) == want), patterns=[z3.Select(sh.a, g)] if z3.is_const(sh.a) else []))]
for nm, left, ar in (('shl', True, False), ('shr', False, False), ('sar', False, True)):
    @unit('b_' + nm, 'c16.' + nm, loops={'shift#0': Loop(inv=sh_while), 'shift#1': Loop(inv=sh_zero), 'shift#2': Loop(inv=sh_main)}, weak_oracle=True)
    def _(ex, nm=nm, left=left, ar=ar):
        a = BV(ex, 'a'); b = BV(ex, 'b'); w = bits(ex, a).n; ex.assume(w >= 1); ex.ghost['w'] = w; ex.ghost['left'] = left; g = G(ex, w); r = R(ex, 'b_' + nm, a, b); width_ok(ex, r, w); S = V(ex, b)
        fill = sel(ex, a, w - 1) if ar else z3.BoolVal(False)
        ex.prove('every bit moves by the value of the second operand', sel(ex, r, g) == (z3.And(g >= S, sel(ex, a, g - S)) if left else z3.If(g + S < w, sel(ex, a, g + S), fill)))
# ------------------------------------------------------------------ arithmetic: value contracts
def fresh_val(ex, n, name):
    b = fresh_bits(ex, name, n); ex.assume(rng(b.a, znum(n))); return b
def K_plus(ex, f, this, args, node):
    if f['sn'] != 'carl::operator+' or len(args) != 2: return NotImplemented
    a, b = bits(ex, args[0]), bits(ex, args[1]); n = znum(a.n)
    ex.prove(f'{ex.unit["name"]}: summands of equal width', eq(a.n, b.n), kind='precondition'); ex.assume(eq(a.n, b.n))
    r = fresh_val(ex, a.n, 'sum'); ex.assume(z3.And(rng(a.a, n), rng(b.a, n))); s = VAL(a.a, n) + VAL(b.a, n); ex.assume(VAL(r.a, n) == z3.If(s < P2(n), s, s - P2(n)))
    return mk(ex, r)
def K_neg(ex, f, this, args, node):
    if len(args) != 1: return NotImplemented
    a = bits(ex, args[0]); n = znum(a.n); r = fresh_val(ex, a.n, 'neg'); ex.assume(rng(a.a, n)); v = VAL(a.a, n); ex.assume(VAL(r.a, n) == z3.If(v == 0, 0, P2(n) - v)); return mk(ex, r)
def K_div(ex, f, this, args, node):
    a, b = bits(ex, this), bits(ex, args[0]); n = znum(a.n); ex.assume(z3.And(rng(a.a, n), rng(b.a, n)))
    ex.prove(f'{ex.unit["name"]}: division of equal widths by a non-zero divisor', AND(eq(a.n, b.n), VAL(b.a, n) != 0, n >= 1), kind='precondition')
    q = fresh_val(ex, a.n, 'quo'); r = fresh_val(ex, a.n, 'rem'); ex.ghost.setdefault('div', []).append((VAL(q.a, n), VAL(r.a, n)))
    ex.assume(z3.And(VAL(a.a, n) == VAL(q.a, n) * VAL(b.a, n) + VAL(r.a, n), VAL(r.a, n) < VAL(b.a, n)))
    flag = ex.val(args[1])
    if isz(flag): raise Unsupported('symbolic remainder flag')
    return mk(ex, r if flag else q)
def plus_inv(s, L):
    b = L.v('sum'); i = znum(L.v('i')); l, r = bits(s, L.v('lhs')), bits(s, L.v('rhs')); c = z3.If(zbool(L.v('carry')), P2(i), I(0))
    for x in (l.a, r.a): at(s, x, i)
    at(s, b.a, i)
    if z3.is_store(b.a): A0, i0, v = b.a.children(); at(s, A0, i0); at(s, b.a, i0); s.assume(frame(A0, i0, v, i0))
    return [('position', AND(i >= 0, i <= znum(l.n))), ('width kept', eq(b.n, l.n)), ('low bits and carry are the sum of the low bits', VAL(b.a, i) + c == VAL(l.a, i) + VAL(r.a, i))]
def base(ex, *xs):
    for x in xs:
        b = bits(ex, x); ex.assume(step(b.a, I(0))); ex.assume(rng(b.a, znum(b.n)))
@unit('b_add', 'c16.add', loops={'operator+': Loop(inv=plus_inv)}, weak_oracle=True)
def _(ex):
    a, b = two(ex); n = znum(bits(ex, a).n); base(ex, a, b); r = R(ex, 'b_add', a, b); width_ok(ex, r, n); s = V(ex, a) + V(ex, b); ex.prove('the value is the sum modulo 2^width', V(ex, r) == z3.If(s < P2(n), s, s - P2(n)))
KA = {'carl::operator+': K_plus}
def one_facts(ex, n):
    """value of the constant 1 of width n, as built by the constructor"""
@unit('one', 'c16.new')
def _(ex):
    w = inp(ex, 'Z', ex.fresh('w', 'int')); ex.assume(AND(w >= 1, w < 1 << 31)); inp(ex, 'Z', 1); r = R(ex, 'b_new', w, 1); a = bits(ex, r).a
    ex.assume(z3.And(step(a, I(0)), zero(a, I(1), w))); ex.prove('the constant 1 has value 1', VAL(a, znum(bits(ex, r).n)) == 1)
def K_ctor1(ex, f, this, args, node): return NotImplemented
@unit('b_neg', 'c16.neg', contracts=dict(KA), weak_oracle=True)
def _(ex):
    a = BV(ex, 'a'); b = bits(ex, a); n = znum(b.n); ex.assume(n >= 1); ex.assume(comp(b.a, cmpl(b.a), n)); one = ex.val(R(ex, 'b_new', n, 1)); o = bits(ex, one).a; ex.assume(z3.And(step(o, I(0)), zero(o, I(1), n)))
    r = R(ex, 'b_neg', a); width_ok(ex, r, n); v = V(ex, a); ex.prove('the value is the negation modulo 2^width', V(ex, r) == z3.If(v == 0, 0, P2(n) - v))
KN = dict(KA, **{'carl::operator-': K_neg})
@unit('b_sub', 'c16.sub', contracts=KN, weak_oracle=True)
def _(ex):
    a, b = two(ex); n = znum(bits(ex, a).n); r = R(ex, 'b_sub', a, b); width_ok(ex, r, n); d = V(ex, a) - V(ex, b); ex.prove('the value is the difference modulo 2^width', V(ex, r) == z3.If(d >= 0, d, d + P2(n)))
# multiplication: product = L * (low bits of rhs) - qp 2^n, summand = L 2^i - qs 2^n with integers qp, qs
def mul_begin(s, L): L.ghost['qp'] = I(0); L.ghost['qs'] = I(0)
def mul_havoc(s, L): L.ghost['qp'] = s.fresh('qp', 'int'); L.ghost['qs'] = s.fresh('qs', 'int')
def mul_end(s, L):
    # the quotients after the step are determined by the values; pick the candidates by what the step did
    g = L.ghost; n = znum(s.ghost['n']); Lv = s.ghost['L']; i = znum(L.v('i'))
    p = bits(s, L.v('product')); sm = L.v('summand'); old = g['old']
    sa = old['s'].a; s.assume(z3.And(shl1(sa, sm.a, n - 1), step(sm.a, I(0)))); at(s, sa, n - 1); at(s, sm.a, n - 1); s.assume(rng(sm.a, n))
    top = z3.If(z3.Select(sa, n - 1), I(1), I(0))
    g['qs'] = 2 * g['qs'] + top
    rb = z3.Select(s.ghost['r'].a, i - 1); tot = VAL(bits(s, old['p']).a, n) + VAL(sa, n)
    g['qp'] = g['qp'] + z3.If(rb, g['qs0'] + z3.If(tot < P2(n), I(0), I(1)), I(0))
def mul_inv(s, L):
    i = znum(L.v('i')); n = znum(s.ghost['n']); p = bits(s, L.v('product')); sm = L.v('summand'); r = s.ghost['r']; Lv = s.ghost['L']; g = L.ghost
    at(s, r.a, i); s.assume(rng(p.a, n)); s.assume(rng(sm.a, n))
    s.assume(Lv * (VAL(r.a, i) + P2(i)) == Lv * VAL(r.a, i) + Lv * P2(i))
    g['old'] = {'s': sm, 'p': p}; g['qs0'] = g['qs']
    return [('position', AND(i >= 0, i <= n)), ('widths kept', AND(eq(p.n, n), eq(sm.n, n))),
            ('product so far', VAL(p.a, n) == Lv * VAL(r.a, i) - g['qp'] * P2(n)), ('summand', VAL(sm.a, n) == Lv * P2(i) - g['qs'] * P2(n))]
@unit('b_mul', 'c16.mul', contracts=dict(KA), loops={'operator*': Loop(inv=mul_inv, begin=mul_begin, havoc=mul_havoc, end=mul_end)}, weak_oracle=True)
def _(ex):
    a, b = two(ex); n = znum(bits(ex, a).n); ex.ghost['n'] = n; ex.ghost['r'] = bits(ex, b); base(ex, a, b); ex.ghost['L'] = V(ex, a); ex.assume(zero(K.FALSEA, I(0), n)); ex.assume(step(K.FALSEA, I(0)))
    z = bits(ex, ex.val(R(ex, 'b_zero', n))).a; ex.assume(z3.And(zero(z, I(0), n), step(z, I(0)), p2def(I(0))))
    r = R(ex, 'b_mul', a, b); width_ok(ex, r, n); q = ex.ghost.get('qp')
    k = z3.Int('q!m'); ex.prove('the value is the product modulo 2^width', z3.Exists([k], V(ex, r) == V(ex, a) * V(ex, b) - k * P2(n)))

# ------------------------------------------------------------------ division: remainder + quotient * divisor = dividend
DP = z3.Function('scaled_pow2', z3.IntSort(), z3.IntSort())       # DP(k) = D 2^k for the divisor D
MD = z3.Function('times_divisor', z3.IntSort(), z3.IntSort())      # MD(x) = x D
def dp(k): return z3.Implies(k >= 0, z3.And(DP(k + 1) == 2 * DP(k), DP(k) >= 1))              # lemma_scale, for D >= 1
def md(x, k): return z3.Implies(k >= 0, MD(x + P2(k)) == MD(x) + DP(k))
@unit('lemma_scale')
def _(ex):
    D = ex.fresh('D', 'int'); k = ex.fresh('k', 'int'); x = ex.fresh('x', 'int'); ex.assume(z3.And(D >= 1, k >= 0, p2def(k))); P = P2(k)
    ex.prove('lemma scale: doubling', D * (2 * P) == 2 * (D * P)); ex.prove('lemma scale: positive', D * P >= 1); ex.prove('lemma scale: start', D * P2(I(0)) == D); ex.prove('lemma scale: distribution', (x + P) * D == x * D + D * P)
    y = ex.fresh('y', 'int'); ex.prove('lemma scale: larger power', z3.Implies(P >= y, D * P >= y))
def d_first(s, L):
    """doubling: the shifted divisor is d 2^index and does not lose its top bit"""
    i = znum(L.v('quotientIndex')); d = L.v('divisor'); n = znum(s.ghost['n'])
    at(s, d.a, n - 1); s.assume(p2def(i)); s.assume(rng(d.a, n)); s.assume(dp(i)); s.assume(z3.Implies(i >= 0, DP(i) >= P2(i))); s.assume(mono(n, i))
    return [('index', AND(i >= 0)), ('width kept', eq(d.n, n)), ('divisor is shifted by the index', VAL(d.a, n) == DP(i))]
def d_main(s, L):
    i = znum(L.v('quotientIndex')); d = L.v('divisor'); q = L.v('quotient'); r = L.v('remainder'); n = znum(s.ghost['n']); N = s.ghost['N']; j = z3.Int('j!d'); g = L.ghost
    for a in (d.a, q.a, r.a): s.assume(rng(a, n))
    s.assume(z3.And(dp(i), dp(i - 1), setb(q.a, i, n), nz(s, d.a, n), md(VAL(q.a, n), i)))
    at(s, d.a, n - 1); s.assume(p2def(i)); s.assume(z3.Implies(i >= 0, DP(i) >= P2(i))); s.assume(mono(n, i)); s.ghost['qs'] = [VAL(q.a, n), VAL(z3.Store(q.a, i, z3.BoolVal(True)), n)]
    low = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= i), z3.Not(z3.Select(q.a, j))), patterns=[z3.Select(q.a, j)] if z3.is_const(q.a) else [])
    return [('index', AND(i >= 0, i < n)), ('widths kept', AND(eq(d.n, n), eq(q.n, n), eq(r.n, n))), ('divisor is shifted by the index', VAL(d.a, n) == DP(i)),
            ('quotient bits up to the index are zero', low), ('dividend = quotient * divisor + remainder', N == MD(VAL(q.a, n)) + VAL(r.a, n)), ('remainder below twice the shifted divisor', VAL(r.a, n) < 2 * VAL(d.a, n))]
def d_keep(s, L): L.ghost['d_prev'] = L.v('divisor').a; L.ghost['q_prev'] = L.v('quotient').a
def d_first_end(s, L):
    a = L.ghost['d_prev']; n = znum(s.ghost['n']); s.assume(shl1(a, L.v('divisor').a, n - 1)); at(s, a, n - 1)
def d_main_end(s, L):
    a, d, n, D, i = L.ghost['d_prev'], L.v('divisor'), znum(s.ghost['n']), s.ghost['D'], znum(L.v('quotientIndex'))
    s.assume(z3.And(shr1(a, d.a, n - 1, n), step(a, I(0)), step(d.a, n - 1), step(a, n - 1), rng(d.a, n - 1), p2def(I(0)), odd(a, n)))
def odd(a, n):
    """lemma_parity: the lowest bit is the parity of the value"""
    return z3.Implies(n >= 1, (VAL(a, n) % 2 == 1) == z3.Select(a, 0))
def _l(ex):
    a = A(ex, 'a'); h = NN(ex, 'h')
    return lambda k: z3.Implies(k >= 1, odd(a, k)), lambda k: [step(a, k), step(a, I(0)), p2def(k), p2def(k - 1), p2def(I(0))]
lemma('parity', _l)
def d_sub(s, L):
    i = znum(L.v('i')); n = znum(s.ghost['n']); d = L.v('divisor'); r = L.v('remainder'); o = L.old('remainder').a; c = z3.If(zbool(L.v('carry')), P2(i), I(0)); j = z3.Int('j!u')
    for a in (d.a, r.a, o): at(s, a, i); s.assume(rng(a, n)); s.assume(step(a, I(0)))
    if z3.is_store(r.a): A0, i0, v = r.a.children(); at(s, A0, i0); at(s, r.a, i0); s.assume(frame(A0, i0, v, i0))
    s.assume(zero(d.a, I(0), i))
    return [('position', AND(i >= 0, i <= n)), ('width kept', eq(r.n, n)), ('low bits and borrow are the difference of the low bits', VAL(r.a, i) == VAL(o, i) - VAL(d.a, i) + c),
            ('high bits are untouched', z3.ForAll([j], z3.Implies(z3.And(j >= i, j < n), z3.Select(r.a, j) == z3.Select(o, j)), patterns=[z3.Select(r.a, j)] if z3.is_const(r.a) else []))]
DL = {'divideUnsigned#0': Loop(inv=d_first, havoc=d_keep, end=d_first_end, variant=lambda s, L: znum(s.ghost['n']) - znum(L.v('quotientIndex'))), 'divideUnsigned#1': Loop(inv=d_main, havoc=d_keep, end=d_main_end, variant=lambda s, L: L.v('quotientIndex')), 'divideUnsigned#2': Loop(inv=d_sub)}
for nm, flag in (('div', False), ('rem', True)):
    @unit('b_' + nm, 'c16.' + nm, loops=DL, weak_oracle=True)
    def _(ex, nm=nm, flag=flag):
        a, b = two(ex, True); n = znum(bits(ex, a).n); base(ex, a, b); ex.ghost['n'] = n; ex.ghost['N'] = N = V(ex, a); ex.ghost['D'] = D = V(ex, b); ex.assume(D != 0); ex.assume(nz(ex, bits(ex, b).a, n)); ex.assume(z3.And(p2def(n), p2def(n - 1), p2def(I(0))))
        ex.assume(z3.And(step(K.FALSEA, I(0)), zero(K.FALSEA, I(0), n)))
        ex.assume(z3.And(DP(I(0)) == D, MD(I(0)) == 0, dp(I(0))))
        r = R(ex, 'b_' + nm, a, b); width_ok(ex, r, n); v = V(ex, r)
        if flag: ex.prove('the remainder is below the divisor and differs from the dividend by a multiple of it', z3.And(v >= 0, v < D, z3.Or(*[N == MD(q) + v for q in ex.ghost['qs']])))
        else: ex.prove('the quotient is the integer quotient', z3.And(MD(v) <= N, N < MD(v) + D))
# ------------------------------------------------------------------ signed division, by the contracts of the unsigned operations
KS = dict(KN, **{'carl::BVValue::divideUnsigned': K_div})
def sval(ex, x, n): v = V(ex, x); return z3.If(2 * v >= P2(n), v - P2(n), v)
def signed(ex, nm):
    a, b = two(ex, True); n = znum(bits(ex, a).n); ex.assume(z3.And(p2def(n - 1), p2def(n))); 
    for x in (a, b): at(ex, bits(ex, x).a, n - 1)
    ex.assume(V(ex, b) != 0); s, t = sval(ex, a, n), sval(ex, b, n); ex.ghost['isz'] = (n,)
    r = R(ex, 'b_' + nm, a, b); width_ok(ex, r, n); return a, b, n, s, t, r
def zabs(x): return z3.If(x >= 0, x, -x)
@unit('b_sdiv', 'c16.sdiv', contracts=KS, weak_oracle=True)
def _(ex):
    a, b, n, s, t, r = signed(ex, 'sdiv'); v = V(ex, r); q = ex.ghost['div'][0][0]; w = z3.If((s >= 0) == (t >= 0), q, -q)
    ex.prove('the quotient is the integer quotient of the absolute values', z3.And(q * zabs(t) <= zabs(s), zabs(s) < q * zabs(t) + zabs(t))); ex.prove('the value is the signed quotient rounded toward zero, modulo 2^width', v == z3.If(w >= 0, z3.If(w < P2(n), w, w - P2(n)), w + P2(n)))
@unit('b_srem', 'c16.srem', contracts=KS, weak_oracle=True)
def _(ex):
    a, b, n, s, t, r = signed(ex, 'srem'); q, m = ex.ghost['div'][0]; v = sval(ex, r, n)
    ex.prove('the division law holds for the absolute values', z3.And(zabs(s) == q * zabs(t) + m, m >= 0, m < zabs(t))); ex.prove('the remainder has the sign of the dividend', v == z3.If(s >= 0, m, -m))
def K_zero(ex, f, this, args, node):
    b = bits(ex, this); n = znum(b.n); ex.assume(rng(b.a, n)); return VAL(b.a, n) == 0
@unit('b_smod', 'c16.smod', contracts=dict(KS, **{'carl::BVValue::isZero': K_zero}), weak_oracle=True)
def _(ex):
    a, b, n, s, t, r = signed(ex, 'smod'); q, m = ex.ghost['div'][0]; v = sval(ex, r, n)
    ex.prove('the division law holds for the absolute values', z3.And(zabs(s) == q * zabs(t) + m, m >= 0, m < zabs(t)))
    u = z3.If(s >= 0, m, -m); ex.prove('the modulus has the sign of the divisor', v == z3.If(m == 0, 0, z3.If((s >= 0) == (t >= 0), u, u + t)))
@unit('zero_contract', 'c16.zero')
def _(ex):
    a = BV(ex, 'a'); b = bits(ex, a); n = znum(b.n); ex.assume(z3.And(zero(b.a, I(0), n), step(b.a, I(0)), nz(ex, b.a, n))); r = zbool(R(ex, 'b_iszero', a)); ex.assume(p2def(ex.ghost['wit'][0])); ex.assume(hasbit(b.a, ex.ghost['wit'][0], n)); ex.prove('isZero() is the test for value zero', IFF(r, VAL(b.a, n) == 0))

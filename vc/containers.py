"""Assumed contracts of std:: sequence containers, iterators and boost::dynamic_bitset.

A sequence is either a Vec (concrete length) or an SVec (symbolic length n, one z3 array per scalar component).
Every access generates the obligation that the index is within bounds."""
import z3
from fractions import Fraction
from .engine import *
from .engine import builtin, BUILTINS, is_gl
from . import loops

# ------------------------------------------------------------------ element shapes
class ScalarShape:
    def __init__(self, sort): self.sort = sort
    def sorts(self): return [self.sort]
    def build(self, comps): return comps[0]
    def split(self, ex, v):
        if isinstance(v, Loc): v = ex.read(v)
        if isinstance(v, str): v = strcode(v)
        if self.sort == z3.BoolSort(): return [zbool(v)]
        if self.sort == z3.RealSort(): return [zreal(v)]
        if z3.is_bv_sort(self.sort): return [v if isz(v) and z3.is_bv(v) else z3.BitVecVal(int(v), self.sort.size()) if not isz(v) else z3.Int2BV(v, self.sort.size())]
        if isinstance(self.sort, z3.ArithSortRef):
            if v is NULL: return [z3.IntVal(0)]
            if not isscalar(v): raise Unsupported(f'element {type(v).__name__} for scalar column')
            return [znum(v)]
        return [v]
class RecShape:
    def __init__(self, q, fields): self.q = q; self.fields = fields     # [(name, shape)]
    def sorts(self): return [x for _, s in self.fields for x in s.sorts()]
    def build(self, comps):
        d = {}; k = 0
        for n, s in self.fields:
            m = len(s.sorts()); d[n] = s.build(comps[k:k + m]); k += m
        return Rec(self.q, d)
    def split(self, ex, v):
        if isinstance(v, Loc): v = ex.read(v)
        return [x for n, s in self.fields for x in s.split(ex, v.f[n])]
class TupShape:
    def __init__(self, items): self.items = items
    def sorts(self): return [x for s in self.items for x in s.sorts()]
    def build(self, comps):
        r = []; k = 0
        for s in self.items:
            m = len(s.sorts()); r.append(s.build(comps[k:k + m])); k += m
        return Tup(r)
    def split(self, ex, v):
        if isinstance(v, Loc): v = ex.read(v)
        return [x for s, y in zip(self.items, v.items) for x in s.split(ex, y)]
class VecShape:
    """vector of vectors"""
    def __init__(self, inner): self.inner = inner
    def sorts(self): return [z3.IntSort()] + [z3.ArraySort(z3.IntSort(), x) for x in self.inner.sorts()]
    def build(self, comps): return SVec(comps[0], comps[1:], self.inner)
    def split(self, ex, v):
        if isinstance(v, Loc): v = ex.read(v)
        v = as_svec(ex, v, self.inner)
        return [znum(v.n)] + list(v.cols)
INT = ScalarShape(z3.IntSort()); REAL = ScalarShape(z3.RealSort()); BOOL = ScalarShape(z3.BoolSort())

SEQ = {'std::vector', 'std::list', 'std::deque', 'std::array', 'std::initializer_list', 'std::forward_list'}
def shape_of(ex, ty):
    p = ex.p
    while ty['k'] == 'ref': ty = p.types[ty['p']]
    h = ex.unit.get('shapes', {}).get(ty.get('sq'))
    if h: return h(ex, ty) if callable(h) else h
    g = p.gmp(ty)
    if g: return INT if g == 'Z' else REAL
    if ty['k'] == 'bool': return BOOL
    if ty['k'] in ('int', 'enum'):
        if ex.unit.get('bv') and ty['k'] == 'int' and ty['w'] in ex.unit['bv']: return ScalarShape(z3.BitVecSort(ty['w']))
        return INT
    if ty['k'] == 'float': return REAL
    if ty['k'] == 'rec':
        if ty['sq'] in ('std::basic_string', 'std::__cxx11::basic_string'): return INT
        if ty['sq'] in ('std::pair', 'std::tuple'): return TupShape([shape_of(ex, p.types[a]) for a in ty['a']])
        if ty['sq'] in SEQ: return VecShape(shape_of(ex, p.types[ty['a'][0]]))
        r = p.recs.get(ty.get('d'))
        if r is not None:
            fs = []
            def bases(r):
                for b in r['b']:
                    br = p.recs.get(p.types[b].get('d'))
                    if br: bases(br)
                for f in r['f']: fs.append((f['n'], shape_of(ex, p.types[f['t']])))
            bases(r)
            return RecShape(ty['sq'], fs)
    raise Unsupported('no element shape for ' + ty.get('s', '?'))
def elem_type(ex, ty):
    while ty['k'] == 'ref': ty = ex.p.types[ty['p']]
    return ex.p.types[ty['a'][0]]
def fresh_svec(ex, name, shape, n=None):
    if n is None:
        n = ex.fresh(name + '_n', 'int'); ex.assume(n >= 0)
    return SVec(n, [ex.fresh(f'{name}_c{i}' if len(shape.sorts()) > 1 else f'{name}_c', z3.ArraySort(z3.IntSort(), s)) for i, s in enumerate(shape.sorts())], shape)
def as_svec(ex, v, shape):
    if isinstance(v, SVec): return v
    r = fresh_svec(ex, 'vec', shape, 0)
    for x in v.items: r = push(ex, r, x)
    return r
def empty_seq(ex, ty):
    if ex.unit.get('svec'):
        return fresh_svec(ex, 'vec', shape_of(ex, elem_type(ex, ty)), 0)
    return Vec([])
def size(v):
    if isinstance(v, Vec): return len(v.items)
    if isinstance(v, SVec): return v.n
    raise Unsupported('size of ' + type(v).__name__)
def push(ex, v, x):
    if isinstance(x, Loc): x = ex.read(x)
    if isinstance(v, Vec): return Vec(v.items + (x,))
    comps = v.shape.split(ex, x)
    return SVec(simp(add(v.n, 1)) if not isz(v.n) else v.n + 1, [z3.Store(c, znum(v.n), k) for c, k in zip(v.cols, comps)], v.shape)
def at(v, i):
    if isinstance(v, Vec): return v.items[i]
    return v.shape.build([z3.Select(c, znum(i)) for c in v.cols])
def bounds(ex, v, i, what='index within bounds'):
    n = size(v)
    c = AND(le(0, i), lt(i, n))
    if c is True: return
    if c is False: raise OutOfBounds(f'index {i} of {n}')
    if ex.unit.get('check_bounds', True): ex.prove(f'{ex.unit["name"]}: {what}', c, kind='safety')
    ex.assume(c)
Ex_bounds = bounds

def coerce_elem(ex, ty, v):
    """element value from an argument, converted to the element type"""
    if isinstance(v, Loc) and ty['k'] != 'ptr': v = ex.read(v)
    g = ex.p.gmp(ty)
    if g and isscalar(v): return ex.to_gmp(g, v)
    return v

# ------------------------------------------------------------------ construction
def seq_ctor(s, f, this, args, node):
    ty = s.p.types[f['cls']]
    if not args: return empty_seq(s, ty)
    vals = [s.val(a) for a in args]
    if isinstance(vals[0], (Vec, SVec)): return vals[0]
    et = elem_type(s, ty)
    if isinstance(vals[0], It) and len(vals) >= 2 and isinstance(vals[1], It):
        return copy_range(s, vals[0], vals[1], ty)
    if isscalar(vals[0]):
        n = vals[0]
        pt = s.p.deref_t(f['p'][0]['t'])
        if pt['k'] == 'int' or True:
            fill = coerce_elem(s, et, args[1]) if len(f['p']) >= 2 and len(args) >= 2 and not is_alloc(s, f, 1) else zero_of(s, et)
            return filled(s, n, fill, et)
    return NotImplemented
def is_alloc(s, f, i):
    return s.p.deref_t(f['p'][i]['t']).get('sq') in ('std::allocator', 'std::vector::allocator_type')
def zero_of(s, et):
    if et['k'] == 'bool': return False
    if et['k'] in ('int', 'enum'): return 0
    if et['k'] == 'float': return Fraction(0)
    if et['k'] == 'ptr': return NULL
    return s.default_of(et)
def filled(s, n, fill, et):
    n = simp(n) if isz(n) else n
    if not isz(n) and not s.unit.get('svec'): return Vec([fill] * int(n))
    sh = shape_of(s, et)
    return SVec(n, [z3.K(z3.IntSort(), c) for c in sh.split(s, fill)], sh)
def copy_range(s, b, e, ty):
    src = s.read(b.c)
    n = sub(e.i, b.i)
    n = simp(n) if isz(n) else n
    if not isz(n) and isinstance(src, Vec) and not isz(b.i):
        return Vec(src.items[b.i:b.i + n])
    sh = shape_of(s, elem_type(s, ty))
    src = as_svec(s, src, sh)
    if not isz(b.i) and b.i == 0 and not b.rev: return SVec(n, src.cols, sh)
    r = fresh_svec(s, 'copy', sh, n)
    k = z3.Int('k!copy')
    if b.rev: f_ = lambda i: sub(sub(size(src), 1), add(b.i, i))
    else: f_ = lambda i: add(b.i, i)
    return SVec(n, [z3.Lambda([k], z3.Select(c, znum(f_(k)))) for c in src.cols], sh)
for c in SEQ:
    BUILTINS[c + '::' + c.split('::')[1]] = seq_ctor
    BUILTINS['default:' + c] = empty_seq
def array_default(s, ty):
    n = s.p.types[ty['a'][1]]['i'] if isinstance(ty['a'][1], int) else ty['a'][1]['i']
    return Vec([UNDEF] * n)

def seqm(*names):
    def deco(fn):
        for c in SEQ:
            for n in names: BUILTINS[f'{c}::{n}'] = fn
        return fn
    return deco
def rd(s, this):
    v = s.read(this)
    if not isinstance(v, (Vec, SVec)): raise Unsupported('sequence op on ' + type(v).__name__)
    return v
@seqm('size')
def _(s, f, this, args, node): return size(rd(s, this))
@seqm('empty')
def _(s, f, this, args, node): return eq(size(rd(s, this)), 0)
@seqm('capacity', 'max_size')
def _(s, f, this, args, node): return size(rd(s, this))
@seqm('reserve', 'shrink_to_fit')
def _(s, f, this, args, node): return VOID
@seqm('clear')
def _(s, f, this, args, node):
    v = rd(s, this)
    s.write(this, SVec(0, v.cols, v.shape) if isinstance(v, SVec) else Vec([])); return VOID
@seqm('operator[]', 'at')
def _(s, f, this, args, node):
    i = s.val(args[0]); v = rd(s, this)
    i = simp(i) if isz(i) else i
    bounds(s, v, i)
    return this.sub(('[]', i))
@seqm('front')
def _(s, f, this, args, node):
    bounds(s, rd(s, this), 0, 'front() of a non-empty sequence'); return this.sub(('[]', 0))
@seqm('back')
def _(s, f, this, args, node):
    n = sub(size(rd(s, this)), 1); n = simp(n) if isz(n) else n
    bounds(s, rd(s, this), n, 'back() of a non-empty sequence'); return this.sub(('[]', n))
@seqm('data')
def _(s, f, this, args, node): return It(this, 0)
@seqm('push_back')
def _(s, f, this, args, node):
    s.write(this, push(s, rd(s, this), coerce_elem(s, elem_type(s, s.p.types[f['cls']]), args[0]))); return VOID
def build_elem(s, et, args, ats=None):
    """element constructed in place; ats: declared types of the arguments, used to choose the constructor"""
    g = s.p.gmp(et)
    vals = [s.val(a) for a in args]
    if g: return s.gmp_construct(g, vals)
    if et['k'] != 'rec': return vals[0] if vals else zero_of(s, et)
    if et['sq'] in ('std::pair', 'std::tuple'):
        if len(vals) == len(et['a']): return Tup([coerce_elem(s, s.p.types[t], v) for t, v in zip(et['a'], vals)])
        if len(vals) == 1: return vals[0]
    if len(vals) == 1 and isinstance(vals[0], Rec) and vals[0].q == et['sq']: return vals[0]
    if len(vals) == 1 and isinstance(vals[0], (Vec, SVec)): return vals[0]
    h = s.unit.get('emplace', {}).get(et['sq'])
    if h: return h(s, et, args)
    if et['sq'] in SEQ and vals and isscalar(vals[0]):
        it = elem_type(s, et)
        return filled(s, vals[0], coerce_elem(s, it, vals[1]) if len(vals) > 1 else zero_of(s, it), it)
    # constructor of the class with that many arguments among the extracted ones
    nm = et['sq'].split('::')[-1]
    cands = [(i, f) for i, f in s.p.funcs.items() if f.get('ctor') and f['sn'] == f'{et["sq"]}::{nm}' and len(f['p']) == len(args) and not f.get('cc') and not f.get('mc')]
    ok = []
    for i, f in cands:
        good = True
        for p_, v in zip(f['p'], vals):
            t = s.p.deref_t(p_['t']); gg = s.p.gmp(t)
            if gg and not isscalar(v): good = False
            if t['k'] == 'rec' and not gg and isscalar(v) and not t.get('sq') in s.unit.get('scalar_recs', ()): good = False
            if t['k'] == 'rec' and isinstance(v, Rec) and v.q != t.get('sq'): good = False
            if t['k'] in ('int', 'bool', 'enum') and not isscalar(v): good = False
        if good: ok.append((i, f))
    if len(ok) > 1 and ats is not None:
        def kind(t): t = s.p.deref_t(t); return s.p.gmp(t) or (t['k'], t.get('sq'))
        ex_ = [(i, f) for i, f in ok if all(kind(p_['t']) == kind(a) for p_, a in zip(f['p'], ats))]
        ok = ex_ or ok
    if len(ok) >= 1:
        i, f = ok[0]
        return s.construct_args(f, i, et, args, None)
    raise Unsupported('emplace of ' + et['s'])
@seqm('emplace_back')
def _(s, f, this, args, node):
    et = elem_type(s, s.p.types[f['cls']])
    s.write(this, push(s, rd(s, this), build_elem(s, et, args, [p['t'] for p in f['p']])))
    n = sub(size(rd(s, this)), 1)
    return this.sub(('[]', simp(n) if isz(n) else n))
@seqm('pop_back')
def _(s, f, this, args, node):
    v = rd(s, this); n = size(v)
    bounds(s, v, sub(n, 1) if isz(n) else n - 1, 'pop_back() of a non-empty sequence')
    s.write(this, Vec(v.items[:-1]) if isinstance(v, Vec) else SVec(simp(sub(n, 1)), v.cols, v.shape)); return VOID
@seqm('pop_front')
def _(s, f, this, args, node):
    v = rd(s, this)
    if isinstance(v, Vec): s.write(this, Vec(v.items[1:])); return VOID
    k = z3.Int('k!pf')
    s.write(this, SVec(sub(v.n, 1), [z3.Lambda([k], z3.Select(c, k + 1)) for c in v.cols], v.shape)); return VOID
@seqm('resize')
def _(s, f, this, args, node):
    v = rd(s, this); n = s.val(args[0]); et = elem_type(s, s.p.types[f['cls']])
    fill = coerce_elem(s, et, args[1]) if len(args) > 1 else zero_of(s, et)
    n = simp(n) if isz(n) else n
    if isinstance(v, Vec) and not isz(n):
        s.write(this, Vec(list(v.items[:n]) + [fill] * (n - len(v.items)))); return VOID
    sh = v.shape if isinstance(v, SVec) else shape_of(s, et)
    v = as_svec(s, v, sh)
    if s.known(le(n, v.n)): s.write(this, SVec(n, v.cols, sh)); return VOID
    k = z3.Int('k!rs')
    s.write(this, SVec(n, [z3.Lambda([k], z3.If(k < znum(v.n), z3.Select(c, k), x)) for c, x in zip(v.cols, sh.split(s, fill))], sh)); return VOID
@seqm('fill')
def _(s, f, this, args, node):
    v = rd(s, this); x = coerce_elem(s, elem_type(s, s.p.types[f['cls']]), args[0])
    if not isinstance(v, Vec): return NotImplemented
    s.write(this, Vec([x] * len(v.items))); return VOID
@seqm('assign')
def _(s, f, this, args, node):
    et = elem_type(s, s.p.types[f['cls']])
    a = s.val(args[0])
    if isscalar(a): s.write(this, filled(s, a, coerce_elem(s, et, args[1]), et)); return VOID
    if isinstance(a, It): s.write(this, copy_range(s, a, s.val(args[1]), s.p.types[f['cls']])); return VOID
    return NotImplemented
@seqm('swap')
def _(s, f, this, args, node):
    a, b = s.read(this), s.read(args[0]); s.write(this, b); s.write(args[0], a); return VOID
@seqm('operator=')
def _(s, f, this, args, node):
    s.write(this, s.val(args[0])); return this
@seqm('insert')
def _(s, f, this, args, node):
    v = rd(s, this); it = s.val(args[0]); et = elem_type(s, s.p.types[f['cls']])
    a = s.val(args[1])
    if len(args) == 2:
        x = coerce_elem(s, et, args[1])
        if isinstance(v, Vec) and not isz(it.i):
            s.write(this, Vec(v.items[:it.i] + (x,) + v.items[it.i:])); return It(this, it.i)
        if s.known(eq(it.i, size(v))):
            s.write(this, push(s, v, x)); return It(this, it.i)
        v = as_svec(s, v, shape_of(s, et))
        k = z3.Int('k!ins')
        s.write(this, SVec(add(v.n, 1), [z3.Lambda([k], z3.If(k < znum(it.i), z3.Select(c, k), z3.If(k == znum(it.i), y, z3.Select(c, k - 1)))) for c, y in zip(v.cols, v.shape.split(s, x))], v.shape))
        return It(this, it.i)
    b = s.val(args[2]) if len(args) == 3 else None
    if isinstance(a, It) and isinstance(b, It):
        src = s.read(a.c); n = sub(b.i, a.i); n = simp(n) if isz(n) else n
        if isinstance(v, Vec) and isinstance(src, Vec) and not isz(n) and not isz(it.i):
            s.write(this, Vec(v.items[:it.i] + src.items[a.i:a.i + n] + v.items[it.i:])); return It(this, it.i)
        v = as_svec(s, v, shape_of(s, et)); src = as_svec(s, src, v.shape)
        k = z3.Int('k!ins')
        s.write(this, SVec(add(v.n, n), [z3.Lambda([k], z3.If(k < znum(it.i), z3.Select(c, k), z3.If(k < znum(add(it.i, n)), z3.Select(d, znum(add(sub(k, it.i), a.i))), z3.Select(c, k - znum(n))))) for c, d in zip(v.cols, src.cols)], v.shape))
        return It(this, it.i)
    if isscalar(a) and b is not None:       # n copies
        n = a; x = coerce_elem(s, et, args[2]); v = as_svec(s, v, shape_of(s, et))
        k = z3.Int('k!ins')
        s.write(this, SVec(add(v.n, n), [z3.Lambda([k], z3.If(k < znum(it.i), z3.Select(c, k), z3.If(k < znum(add(it.i, n)), y, z3.Select(c, k - znum(n))))) for c, y in zip(v.cols, v.shape.split(s, x))], v.shape))
        return It(this, it.i)
    return NotImplemented
@seqm('erase')
def _(s, f, this, args, node):
    v = rd(s, this); it = s.val(args[0])
    n = 1; 
    if len(args) == 2: n = sub(s.val(args[1]).i, it.i); n = simp(n) if isz(n) else n
    if isinstance(v, Vec) and not isz(it.i) and not isz(n):
        s.write(this, Vec(v.items[:it.i] + v.items[it.i + n:])); return It(this, it.i)
    if isinstance(v, Vec): raise Unsupported('erase at a symbolic position')
    if len(args) == 1: bounds(s, v, it.i, 'erase() of an element')
    k = z3.Int('k!er')
    s.write(this, SVec(sub(v.n, n), [z3.Lambda([k], z3.If(k < znum(it.i), z3.Select(c, k), z3.Select(c, k + znum(n)))) for c in v.cols], v.shape))
    return It(this, it.i)
@seqm('begin', 'cbegin')
def _(s, f, this, args, node): return It(this, 0)
@seqm('end', 'cend')
def _(s, f, this, args, node): return It(this, size(rd(s, this)))
@seqm('rbegin', 'crbegin')
def _(s, f, this, args, node): return It(this, 0, True)
@seqm('rend', 'crend')
def _(s, f, this, args, node): return It(this, size(rd(s, this)), True)
@builtin('std::begin', 'std::cbegin')
def _(s, f, this, args, node): return It(args[0], 0)
@builtin('std::end', 'std::cend')
def _(s, f, this, args, node): return It(args[0], size(s.read(args[0])))
@builtin('std::rbegin')
def _(s, f, this, args, node): return It(args[0], 0, True)
@builtin('std::rend')
def _(s, f, this, args, node): return It(args[0], size(s.read(args[0])), True)

# ------------------------------------------------------------------ iterators
ITC = ['std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', '__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::reverse_iterator', 'std::move_iterator', 'std::_Deque_iterator', 'std::_Bit_iterator', 'std::_Bit_const_iterator']
def itm(*names):
    def deco(fn):
        for c in ITC:
            for n in names: BUILTINS[f'{c}::{n}'] = fn
        return fn
    return deco
def deref(s, it):
    v = s.read(it.c)
    i = it.i
    if it.rev: i = sub(sub(size(v), 1), i)
    i = simp(i) if isz(i) else i
    bounds(s, v, i, 'dereferenced iterator within bounds')
    return it.c.sub(('[]', i))
@itm('operator*', 'operator->')
def _(s, f, this, args, node): return deref(s, s.read(this))
@itm('operator[]')
def _(s, f, this, args, node):
    it = s.read(this); return deref(s, It(it.c, add(it.i, s.val(args[0])), it.rev))
def stepper(d):
    def h(s, f, this, args, node):
        v = s.read(this); nv = It(v.c, simp(add(v.i, d)), v.rev); s.write(this, nv)
        return v if args else this
    return h
itm('operator++')(stepper(1)); itm('operator--')(stepper(-1))
@itm('operator+')
def _(s, f, this, args, node): v = s.read(this); return It(v.c, simp(add(v.i, s.val(args[0]))), v.rev)
@itm('operator-')
def _(s, f, this, args, node):
    v = s.read(this); b = s.val(args[0])
    if isinstance(b, It): return sub(v.i, b.i)
    return It(v.c, simp(sub(v.i, b)), v.rev)
@builtin('__gnu_cxx::operator-')
def _(s, f, this, args, node):
    a, b = s.val(args[0]), s.val(args[1])
    return sub(a.i, b.i) if isinstance(a, It) and isinstance(b, It) and a.c == b.c else NotImplemented
@itm('operator+=')
def _(s, f, this, args, node): v = s.read(this); s.write(this, It(v.c, simp(add(v.i, s.val(args[0]))), v.rev)); return this
@itm('operator-=')
def _(s, f, this, args, node): v = s.read(this); s.write(this, It(v.c, simp(sub(v.i, s.val(args[0]))), v.rev)); return this
@itm('operator=')
def _(s, f, this, args, node): s.write(this, s.val(args[0])); return this
@itm('base')
def _(s, f, this, args, node):
    v = s.read(this)
    return It(v.c, simp(sub(size(s.read(v.c)), v.i)), False) if v.rev else v
def it_ctor(s, f, this, args, node):
    if not args: return UNDEF
    v = s.val(args[0])
    if isinstance(v, It):
        if f['sn'].startswith('std::reverse_iterator') and not v.rev: return It(v.c, simp(sub(size(s.read(v.c)), v.i)), True)
        return v
    return NotImplemented
for c in ITC: BUILTINS[c + '::' + c.split('::')[-1]] = it_ctor
def itcmp(op, old):
    def h(s, f, this, args, node):
        a = s.val(this) if this is not None else s.val(args[0]); b = s.val(args[-1])
        if isinstance(a, It) and isinstance(b, It):
            if not a.c == b.c:
                if op in ('==', '!='): raise Unsupported('iterators of different containers compared')
            return cmp_(op, a.i, b.i)
        if isinstance(a, (Vec, SVec)) and isinstance(b, (Vec, SVec)) and op in ('==', '!='):
            r = seq_eq(s, a, b); return r if op == '==' else NOT(r)
        return old(s, f, this, args, node) if old else NotImplemented
    return h
for o in ('==', '!=', '<', '<=', '>', '>='):
    BUILTINS['__gnu_cxx::operator' + o] = itcmp(o, None)
    BUILTINS['std::operator' + o] = itcmp(o, BUILTINS.get('std::operator' + o))
    for c in ITC: BUILTINS[f'{c}::operator{o}'] = itcmp(o, None)
def seq_eq(s, a, b):
    """equality of sequences"""
    from .models import val_eq
    if isinstance(a, Vec) and isinstance(b, Vec): return val_eq(s, a, b)
    sh = a.shape if isinstance(a, SVec) else b.shape
    a = as_svec(s, a, sh); b = as_svec(s, b, sh)
    h = s.unit.get('seq_eq')
    if h:
        r = h(s, a, b)
        if r is not NotImplemented: return r
    # r <-> equal length and equal elements; a difference is witnessed by an index
    r = s.fresh('seqeq', 'bool'); j = z3.Int('j!eq'); w = s.fresh('diff', 'int')
    same = lambda i: z3.And(*[z3.Select(c, i) == z3.Select(d, i) for c, d in zip(a.cols, b.cols)])
    s.assume(z3.Implies(r, z3.And(znum(a.n) == znum(b.n), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < znum(a.n)), same(j))))))
    s.assume(z3.Implies(z3.Not(r), z3.Or(z3.Not(znum(a.n) == znum(b.n)), z3.And(w >= 0, w < znum(a.n), z3.Not(same(w))))))
    return r
@builtin('std::next')
def _(s, f, this, args, node):
    v = s.val(args[0]); d = s.val(args[1]) if len(args) > 1 else 1
    return It(v.c, simp(add(v.i, d)), v.rev)
@builtin('std::prev')
def _(s, f, this, args, node):
    v = s.val(args[0]); d = s.val(args[1]) if len(args) > 1 else 1
    return It(v.c, simp(sub(v.i, d)), v.rev)
@builtin('std::distance')
def _(s, f, this, args, node): return sub(s.val(args[1]).i, s.val(args[0]).i)
@builtin('std::advance')
def _(s, f, this, args, node):
    v = s.val(args[0]); s.write(args[0], It(v.c, simp(add(v.i, s.val(args[1]))), v.rev)); return VOID
@builtin('std::make_move_iterator')
def _(s, f, this, args, node): return s.val(args[0])
@builtin('std::reverse')
def _(s, f, this, args, node):
    b, e = s.val(args[0]), s.val(args[1]); v = s.read(b.c)
    if isinstance(v, Vec) and b.i == 0 and e.i == len(v.items): s.write(b.c, Vec(v.items[::-1])); return VOID
    if isinstance(v, SVec):
        k = z3.Int('k!rv')
        s.write(b.c, SVec(v.n, [z3.Lambda([k], z3.If(z3.And(k >= znum(b.i), k < znum(e.i)), z3.Select(c, znum(e.i) - 1 + znum(b.i) - k), z3.Select(c, k))) for c in v.cols], v.shape)); return VOID
    return NotImplemented
def hunt(kind):
    """std::any_of / all_of / none_of / find_if on concrete ranges; symbolic ones by witness"""
    def h(s, f, this, args, node):
        b, e = s.val(args[0]), s.val(args[1]); fn = args[2]
        v = s.read(b.c)
        n = sub(e.i, b.i); n = simp(n) if isz(n) else n
        if isz(n) or isz(b.i):
            # symbolic range: the predicate is evaluated once at an arbitrary position and quantified over
            if not isinstance(v, SVec) or b.rev: return NotImplemented
            j = s.fresh('pos', 'int'); npc, nf, mem = len(s.pc), len(s.facts), dict(s.mem)
            c = s.condval(s.val(s.call_closure(s.val(fn), [b.c.sub(('[]', j))], node)))
            if len(s.pc) != npc or len(s.facts) != nf or any(s.mem.get(a) is not x for a, x in mem.items()): return NotImplemented
            c = zbool(c) if kind != 'findnot' else z3.Not(zbool(c)); at = lambda t: z3.substitute(c, (j, znum(t)))
            q = z3.Int('j!q'); lo, hi = znum(b.i), znum(e.i)
            r = s.fresh('found', 'int')
            if kind in ('find', 'findnot'):
                s.assume(z3.And(lo <= r, r <= hi, z3.Implies(r < hi, at(r)), z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < r), z3.Not(at(q))))))
                s.ghost['found'] = r
                return It(b.c, r, b.rev)
            t = s.fresh('holds', 'bool')
            some = at if kind in ('any', 'none') else lambda x: z3.Not(at(x))
            yes = t if kind == 'any' else z3.Not(t)
            s.assume(z3.Implies(yes, z3.And(lo <= r, r < hi, some(r)))); s.assume(z3.Implies(z3.Not(yes), z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi), z3.Not(some(q))))))
            s.ghost['found'] = r
            return t
        for i in range(b.i, b.i + n):
            c = s.condval(s.val(s.call_closure(s.val(fn), [deref(s, It(b.c, i, b.rev))], node)))
            t = s.branch(c)
            if kind == 'any' and t: return True
            if kind == 'all' and not t: return False
            if kind == 'none' and t: return False
            if kind == 'find' and t: return It(b.c, i, b.rev)
            if kind == 'findnot' and not t: return It(b.c, i, b.rev)
        return {'any': False, 'all': True, 'none': True}.get(kind, e)
    return h
for n, k in (('any_of', 'any'), ('all_of', 'all'), ('none_of', 'none'), ('find_if', 'find'), ('find_if_not', 'findnot')): BUILTINS['std::' + n] = hunt(k)

# ------------------------------------------------------------------ boost::dynamic_bitset
class DBits:
    """n bits, a: Array(Int, Bool)"""
    __slots__ = ('n', 'a')
    def __init__(self, n, a): self.n = n; self.a = a
    def __repr__(self): return f'DBits({self.n})'
    def havoc(self, s, name):
        n = s.fresh(name + '.n', 'int'); s.assume(n >= 0)
        return DBits(n, s.fresh(name + '.a', z3.ArraySort(z3.IntSort(), z3.BoolSort())))
FALSEA = z3.K(z3.IntSort(), z3.BoolVal(False))
def fresh_bits(ex, name, n=None):
    if n is None: n = ex.fresh(name + '_n', 'int'); ex.assume(n >= 0)
    return DBits(n, ex.fresh(name + '_a', z3.ArraySort(z3.IntSort(), z3.BoolSort())))
def lam(fn):
    k = z3.Int('k!b')
    return z3.Lambda([k], zbool(fn(k)))
DB = 'boost::dynamic_bitset'
def dbm(*names):
    def deco(fn):
        for n in names: BUILTINS[f'{DB}::{n}'] = fn
        return fn
    return deco
def bit(b, i): return z3.Select(b.a, znum(i))
BUILTINS['default:' + DB] = lambda s, ty: DBits(0, FALSEA)
@builtin(DB + '::dynamic_bitset')
def _(s, f, this, args, node):
    if not args: return DBits(0, FALSEA)
    vals = [s.val(a) for a in args]
    if isinstance(vals[0], DBits): return vals[0]
    if isinstance(vals[0], It) and len(vals) >= 2:
        v = s.read(vals[0].c)
        if isinstance(v, Vec) and len(v.items) == 1:       # one block
            return from_block(s, v.items[0], block_bits(s, f))
        return NotImplemented
    if isscalar(vals[0]):
        n = vals[0]
        if len(vals) > 1 and isscalar(vals[1]) and not (not isz(vals[1]) and vals[1] == 0):
            return NotImplemented
        return DBits(n, FALSEA)
    return NotImplemented
BITOF = z3.Function('bitof', z3.IntSort(), z3.IntSort(), z3.BoolSort())
def block_bits(s, f):
    a = s.p.types[f['cls']].get('a') or []
    t = s.p.types[a[0]] if a and isinstance(a[0], int) else {}
    return t['w'] if t.get('k') == 'int' else 64
def from_block(s, x, w=64):
    if not isz(x): return DBits(w, lam(lambda k: OR(*[k == i for i in range(w) if x >> i & 1])) if x else FALSEA)
    return DBits(w, lam(lambda k: z3.And(k < w, BITOF(x, k))))
# value of the lowest k bits; facts about it are added by the contracts that use it (lemmas proved in specs/bvval.py)
P2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
VAL = z3.Function('bitsval', z3.ArraySort(z3.IntSort(), z3.BoolSort()), z3.IntSort(), z3.IntSort())
def db_cmp(op):
    def h(s, f, this, args, node):
        a, b = s.val(args[0]), s.val(args[1])
        if not isinstance(a, DBits) or not isinstance(b, DBits): return NotImplemented
        s.prove(f'{s.unit["name"]}: compared bit sets of equal size', eq(a.n, b.n), kind='safety'); s.assume(eq(a.n, b.n))
        s.stats.assumptions.add('boost::dynamic_bitset order on equal sizes is the order of the unsigned values')
        return cmp_(op, VAL(a.a, znum(a.n)), VAL(b.a, znum(b.n)))
    return h
for o in ('<', '<=', '>', '>='): BUILTINS['boost::operator' + o] = db_cmp(o)
@dbm('size')
def _(s, f, this, args, node): return s.read(this).n
@dbm('empty')
def _(s, f, this, args, node): return eq(s.read(this).n, 0)
@dbm('num_blocks')
def _(s, f, this, args, node): return simp((znum(s.read(this).n) + 63) / 64)
def db_resize(s, b, n, fill):
    return DBits(n, lam(lambda k: z3.If(k < znum(b.n), z3.Select(b.a, k), zbool(fill))))
@dbm('resize')
def _(s, f, this, args, node):
    b = s.read(this); n = s.val(args[0]); fill = s.val(args[1]) if len(args) > 1 else False
    s.write(this, db_resize(s, b, n, fill)); return VOID
@dbm('clear')
def _(s, f, this, args, node): s.write(this, DBits(0, FALSEA)); return VOID
@dbm('set')
def _(s, f, this, args, node):
    b = s.read(this)
    if not args: s.write(this, DBits(b.n, z3.K(z3.IntSort(), z3.BoolVal(True)))); return this
    i = s.val(args[0]); v = s.val(args[1]) if len(args) > 1 else True
    if len(args) > 2: return NotImplemented
    dbb(s, b, i); s.write(this, DBits(b.n, z3.Store(b.a, znum(i), zbool(v)))); return this
def dbb(s, b, i):
    c = AND(le(0, i), lt(i, b.n))
    if c is True: return
    s.prove(f'{s.unit["name"]}: bit index within bounds', c, kind='safety'); s.assume(c)
@dbm('reset')
def _(s, f, this, args, node):
    b = s.read(this)
    if not args: s.write(this, DBits(b.n, FALSEA)); return this
    i = s.val(args[0]); dbb(s, b, i); s.write(this, DBits(b.n, z3.Store(b.a, znum(i), z3.BoolVal(False)))); return this
@dbm('flip')
def _(s, f, this, args, node):
    b = s.read(this)
    if not args: s.write(this, DBits(b.n, lam(lambda k: z3.Not(z3.Select(b.a, k))))); return this
    i = s.val(args[0]); dbb(s, b, i); s.write(this, DBits(b.n, z3.Store(b.a, znum(i), z3.Not(bit(b, i))))); return this
@dbm('test')
def _(s, f, this, args, node):
    b = s.read(this); i = s.val(args[0]); dbb(s, b, i); return bit(b, i)
class BitRef:
    __slots__ = ('loc', 'i')
    def __init__(self, loc, i): self.loc = loc; self.i = i
@dbm('operator[]')
def _(s, f, this, args, node):
    b = s.read(this); i = s.val(args[0]); i = simp(i) if isz(i) else i; dbb(s, b, i)
    if s.p.types[f['rt']]['k'] == 'bool': return bit(b, i)
    return BitRef(this, i)
@builtin(DB + '::reference::operator bool')
def _(s, f, this, args, node):
    r = s.read(this); return bit(s.read(r.loc), r.i)
@builtin(DB + '::reference::operator=')
def _(s, f, this, args, node):
    r = s.read(this); v = s.val(args[0])
    if isinstance(v, BitRef): v = bit(s.read(v.loc), v.i)
    b = s.read(r.loc); s.write(r.loc, DBits(b.n, z3.Store(b.a, znum(r.i), zbool(v)))); return this
@builtin(DB + '::reference::reference')
def _(s, f, this, args, node): return s.val(args[0])
def exists_bit(s, b, name):
    """(r, w): r <-> some bit below n is set; w a witness"""
    r = s.fresh(name, 'bool'); w = s.fresh(name + '_w', 'int'); j = z3.Int('j!x')
    s.ghost.setdefault('wit', []).append(w)
    s.assume(z3.Implies(r, z3.And(w >= 0, w < znum(b.n), z3.Select(b.a, w))))
    s.assume(z3.Implies(z3.Not(r), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < znum(b.n)), z3.Not(z3.Select(b.a, j))))))
    for g in s.ghost.get('ints', []): s.assume(z3.Implies(z3.And(z3.Not(r), g >= 0, g < znum(b.n)), z3.Not(z3.Select(b.a, g))))
    return r
@dbm('any')
def _(s, f, this, args, node): return exists_bit(s, s.read(this), 'any')
@dbm('none')
def _(s, f, this, args, node): return z3.Not(exists_bit(s, s.read(this), 'any'))
NPOS = (1 << 64) - 1
def first_from(s, b, start):
    """smallest set index >= start, npos if none"""
    w = s.fresh('ff', 'int'); j = z3.Int('j!ff')
    none = z3.ForAll([j], z3.Implies(z3.And(j >= znum(start), j < znum(b.n)), z3.Not(z3.Select(b.a, j))))
    found = z3.And(w >= znum(start), w < znum(b.n), z3.Select(b.a, w), z3.ForAll([j], z3.Implies(z3.And(j >= znum(start), j < w), z3.Not(z3.Select(b.a, j)))))
    s.assume(z3.Or(z3.And(w == NPOS, none), found)); s.assume(znum(b.n) < NPOS)
    for g in s.ghost.get('ints', []):
        s.assume(z3.Implies(z3.And(g >= znum(start), g < znum(b.n), g < w), z3.Not(z3.Select(b.a, g))))
    s.stats.assumptions.add('bit sets and containers have fewer than 2^64-1 elements')
    return w
@dbm('find_first')
def _(s, f, this, args, node): return first_from(s, s.read(this), 0)
@dbm('find_next')
def _(s, f, this, args, node):
    p = s.val(args[0])
    b = s.read(this)
    # find_next(npos) is npos
    w = first_from(s, b, add(p, 1)); return w
@dbm('is_subset_of')
def _(s, f, this, args, node):
    a = s.read(this); b = s.val(args[0])
    s.prove(f'{s.unit["name"]}: operands of equal size', eq(a.n, b.n), kind='safety')
    d = DBits(a.n, lam(lambda k: z3.And(z3.Select(a.a, k), z3.Not(z3.Select(b.a, k)))))
    return z3.Not(exists_bit(s, d, 'notsub'))
CNT = z3.Function('bitcount', z3.ArraySort(z3.IntSort(), z3.BoolSort()), z3.IntSort(), z3.IntSort())
@dbm('count')
def _(s, f, this, args, node): b = s.read(this); return CNT(b.a, znum(b.n))
def db_op(fn):
    def h(s, f, this, args, node):
        if this is not None: a = s.read(this); b = s.val(args[0])
        else: a = s.val(args[0]); b = s.val(args[1])
        if not isinstance(a, DBits) or not isinstance(b, DBits): return NotImplemented
        s.prove(f'{s.unit["name"]}: operands of equal size', eq(a.n, b.n), kind='safety'); s.assume(eq(a.n, b.n))
        r = DBits(a.n, lam(lambda k: fn(z3.Select(a.a, k), z3.Select(b.a, k))))
        if this is not None: s.write(this, r); return this
        return r
    return h
for o, fn in (('&', z3.And), ('|', z3.Or), ('^', z3.Xor), ('-', lambda x, y: z3.And(x, z3.Not(y)))):
    BUILTINS[f'{DB}::operator{o}='] = db_op(fn); BUILTINS['boost::operator' + o] = db_op(fn)
@dbm('operator~')
def _(s, f, this, args, node):
    b = s.read(this); return DBits(b.n, lam(lambda k: z3.Not(z3.Select(b.a, k))))
def shl(b, n): return DBits(b.n, lam(lambda k: z3.And(k >= znum(n), z3.Select(b.a, k - znum(n)))))
def shr(b, n): return DBits(b.n, lam(lambda k: z3.And(k + znum(n) < znum(b.n), z3.Select(b.a, k + znum(n)))))
@dbm('operator<<=')
def _(s, f, this, args, node): s.write(this, shl(s.read(this), s.val(args[0]))); return this
@dbm('operator>>=')
def _(s, f, this, args, node): s.write(this, shr(s.read(this), s.val(args[0]))); return this
@dbm('operator<<')
def _(s, f, this, args, node): return shl(s.read(this), s.val(args[0]))
@dbm('operator>>')
def _(s, f, this, args, node): return shr(s.read(this), s.val(args[0]))
@dbm('operator=')
def _(s, f, this, args, node): s.write(this, s.val(args[0])); return this
@builtin('boost::operator==')
def _(s, f, this, args, node):
    a, b = s.val(args[0]), s.val(args[1])
    if not isinstance(a, DBits): return NotImplemented
    d = DBits(a.n, lam(lambda k: z3.Xor(z3.Select(a.a, k), z3.Select(b.a, k))))
    return AND(eq(a.n, b.n), z3.Not(exists_bit(s, d, 'bitsdiffer')))
@builtin('boost::operator!=')
def _(s, f, this, args, node):
    r = BUILTINS['boost::operator=='](s, f, this, args, node)
    return r if r is NotImplemented else NOT(r)

# ------------------------------------------------------------------ std::priority_queue of integers (multiset with maximum)
class PQ:
    __slots__ = ('c',)
    def __init__(self, c): self.c = c           # multiplicity of every integer
    def havoc(self, s, name):
        r = PQ(s.fresh(name + '.c', z3.ArraySort(z3.IntSort(), z3.IntSort()))); return r
PQN = 'std::priority_queue'
NOINTS = z3.K(z3.IntSort(), z3.IntVal(0))
BUILTINS['default:' + PQN] = lambda s, ty: PQ(NOINTS)
@builtin(PQN + '::priority_queue')
def _(s, f, this, args, node):
    vals = [s.val(a) for a in args]
    if vals and isinstance(vals[0], PQ): return vals[0]
    return PQ(NOINTS)
@builtin(PQN + '::operator=')
def _(s, f, this, args, node): s.write(this, s.val(args[0])); return this
@builtin(PQN + '::empty')
def _(s, f, this, args, node):
    q = s.read(this); r = s.fresh('pqe', 'bool'); w = s.fresh('pqw', 'int'); j = z3.Int('j!pq')
    s.assume(z3.Implies(r, z3.ForAll([j], q.c[j] == 0, patterns=[q.c[j]]) if not q.c.eq(NOINTS) else z3.BoolVal(True)))
    s.assume(z3.Implies(z3.Not(r), q.c[w] > 0)); s.ghost.setdefault('wit', []).append(w)
    return r
def pq_top(s, q):
    t = s.fresh('top', 'int'); j = z3.Int('j!pq'); e = s.fresh('pqw', 'int')
    s.prove(f'{s.unit["name"]}: top()/pop() of a non-empty queue', z3.Exists([j], q.c[j] > 0), kind='safety')
    s.assume(z3.And(q.c[t] > 0, z3.ForAll([j], z3.Implies(q.c[j] > 0, j <= t), patterns=[q.c[j]])))
    return t
@builtin(PQN + '::top')
def _(s, f, this, args, node): return pq_top(s, s.read(this))
@builtin(PQN + '::pop')
def _(s, f, this, args, node):
    q = s.read(this); t = pq_top(s, q); s.write(this, PQ(z3.Store(q.c, t, q.c[t] - 1))); return VOID
@builtin(PQN + '::push', PQN + '::emplace')
def _(s, f, this, args, node):
    q = s.read(this); x = znum(s.val(args[0])); s.write(this, PQ(z3.Store(q.c, x, q.c[x] + 1))); return VOID

# ------------------------------------------------------------------ std::string: an injective integer code per string
STRCODE = {'': 0}
def strcode(t): return STRCODE.setdefault(t, len(STRCODE))
SN = 'std::basic_string'
def is_str(s, t):
    t = s.p.deref_t(t); return t.get('sq') in (SN, 'std::__cxx11::basic_string')
STRLEN = z3.Function('strlen', z3.IntSort(), z3.IntSort())
def str_val(s, v):
    v = s.val(v)
    if isinstance(v, str): return strcode(v)
    if isscalar(v): return v
    raise Unsupported('string value ' + type(v).__name__)
def strm(*names):
    def deco(fn):
        for c in (SN, 'std::__cxx11::basic_string'):
            for n in names: BUILTINS[f'{c}::{n}'] = fn
        return fn
    return deco
for c in (SN, 'std::__cxx11::basic_string'): BUILTINS['default:' + c] = lambda s, ty: 0
@strm('basic_string')
def _(s, f, this, args, node):
    if not args: return 0
    return str_val(s, args[0])
@strm('operator=')
def _(s, f, this, args, node): s.write(this, str_val(s, args[0])); return this
@strm('empty')
def _(s, f, this, args, node): return eq(s.read(this), 0)
@strm('size', 'length')
def _(s, f, this, args, node):
    x = znum(s.read(this)); s.assume(z3.And(STRLEN(x) >= 0, (STRLEN(x) == 0) == (x == 0))); return STRLEN(x)
@strm('substr')
def _(s, f, this, args, node): return s.fresh('substr', 'int')
@builtin('std::to_string')
def _(s, f, this, args, node): return s.fresh('to_string', 'int')
def strop(o, old):
    def h(s, f, this, args, node):
        if f.get('p') and len(args) == 2 and any(is_str(s, p['t']) for p in f['p']):
            if o == '+': return s.fresh('strcat', 'int')
            a, b = str_val(s, args[0]), str_val(s, args[1])
            return eq(a, b) if o == '==' else ne(a, b)
        return old(s, f, this, args, node) if old else NotImplemented
    return h
for o in ('==', '!=', '+'): BUILTINS['std::operator' + o] = strop(o, BUILTINS.get('std::operator' + o))

# ------------------------------------------------------------------ std::map / std::unordered_map: pairs with distinct keys, order not modelled
MAPS = ('std::map', 'std::unordered_map')
def map_shape(s, ty): return TupShape([shape_of(s, s.p.types[ty['a'][0]]), shape_of(s, s.p.types[ty['a'][1]])])
def map_distinct(m):
    nk = len(m.shape.items[0].sorts()) if hasattr(m.shape, 'items') else len(m.shape.shapes[0].sorts())
    i, j = z3.Ints('i!md j!md'); same = z3.And(*[c[i] == c[j] for c in m.cols[:nk]])
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, i < znum(m.n), j < znum(m.n), same), i == j), patterns=[z3.MultiPattern(m.cols[0][i], m.cols[0][j])])
def fresh_map(s, name, shape):
    m = fresh_svec(s, name, shape); s.assume(map_distinct(m)); return m
def map_find(s, m, key):
    ks = shape_items(m.shape)[0]; kc = ks.split(s, key); nk = len(kc)
    i = s.fresh('mapit', 'int'); j = z3.Int('j!mf')
    same = lambda t: z3.And(*[c[t] == k for c, k in zip(m.cols[:nk], kc)])
    if not isz(m.n) and m.n == 0: return 0
    s.assume(z3.And(i >= 0, i <= znum(m.n), z3.Implies(i < znum(m.n), same(i)), z3.Implies(i == znum(m.n), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < znum(m.n)), z3.Not(same(j))), patterns=[m.cols[0][j]] if True else []))))
    return i
def shape_items(sh): return sh.items if hasattr(sh, 'items') else sh.shapes
def mapm(*names):
    def deco(fn):
        for c in MAPS:
            for n in names: BUILTINS[f'{c}::{n}'] = fn
        return fn
    return deco
for c in MAPS:
    BUILTINS['default:' + c] = lambda s, ty: fresh_svec(s, 'map', map_shape(s, ty), 0)
    def map_ctor(s, f, this, args, node):
        if not args: return fresh_svec(s, 'map', map_shape(s, s.p.types[f['cls']]), 0)
        v = s.val(args[0])
        return v if isinstance(v, SVec) else NotImplemented
    BUILTINS[c + '::' + c.split('::')[1]] = map_ctor
@mapm('size')
def _(s, f, this, args, node): return s.read(this).n
@mapm('empty')
def _(s, f, this, args, node): return eq(s.read(this).n, 0)
@mapm('clear')
def _(s, f, this, args, node):
    m = s.read(this); s.write(this, SVec(0, m.cols, m.shape)); return VOID
@mapm('begin', 'cbegin')
def _(s, f, this, args, node): return It(this, 0)
@mapm('rbegin', 'crbegin')
def _(s, f, this, args, node): return It(this, 0, True)
@mapm('rend', 'crend')
def _(s, f, this, args, node): return It(this, s.read(this).n, True)
@mapm('end', 'cend')
def _(s, f, this, args, node): return It(this, s.read(this).n)
@mapm('find')
def _(s, f, this, args, node): return It(this, map_find(s, s.read(this), s.val(args[0])))
@mapm('count')
def _(s, f, this, args, node):
    m = s.read(this); i = map_find(s, m, s.val(args[0])); return ITE(lt(i, m.n), 1, 0)
@mapm('at')
def _(s, f, this, args, node):
    m = s.read(this); i = map_find(s, m, s.val(args[0])); bounds(s, m, i, 'key present'); return this.sub(('[]', i)).sub('second')
@mapm('operator[]')
def _(s, f, this, args, node):
    m = s.read(this); k = s.val(args[0]); i = map_find(s, m, k)
    if s.branch(eq(i, m.n)):
        vt = s.p.types[s.p.types[f['cls']]['a'][1]]
        s.write(this, push(s, m, Tup([k, zero_of(s, vt)])))
    return this.sub(('[]', i)).sub('second')
@mapm('emplace', 'insert', 'try_emplace')
def _(s, f, this, args, node):
    m = s.read(this)
    if len(args) == 1: t = s.val(args[0]); k, v = t.items
    elif len(args) == 2: k, v = s.val(args[0]), s.val(args[1])
    else: return NotImplemented
    i = map_find(s, m, k)
    if s.branch(eq(i, m.n)):
        s.write(this, push(s, m, Tup([k, v]))); return Tup([It(this, i), True])
    return Tup([It(this, i), False])
@mapm('operator=')
def _(s, f, this, args, node): s.write(this, s.val(args[0])); return this

# havoc of concrete vectors whose length changes in a loop
_old = loops.havoc_val
def havoc_val(s, v, ty, name):
    if isinstance(v, Vec) and ty is not None and ty['k'] == 'rec' and ty.get('sq') in SEQ and ty['sq'] != 'std::array':
        return fresh_svec(s, name, shape_of(s, elem_type(s, ty)))
    return _old(s, v, ty, name)
loops.havoc_val = havoc_val

# ------------------------------------------------------------------ std::shared_ptr: the location it points to, or NULL
from .engine import NULL
def ptr_of(s, x):
    """the pointer value behind an expression of shared_ptr type (a glvalue is the location holding the pointer)"""
    if x is None or x is NULL: return NULL
    if isinstance(x, Loc):
        v = s.read(x)
        if isinstance(v, Loc) or v is NULL: return v
        if v is UNDEF: raise Unsupported('use of an indeterminate shared_ptr')
    return x
SP = ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access')
@builtin(*[c + '::operator bool' for c in SP])
def _(s, f, this, args, node): return ptr_of(s, this) is not NULL
@builtin(*[c + '::' + m for c in SP for m in ('get', 'operator->', 'operator*', '_M_get')])
def _(s, f, this, args, node): return ptr_of(s, this)
@builtin('std::shared_ptr::shared_ptr', 'std::__shared_ptr::__shared_ptr')
def _(s, f, this, args, node):
    r = NULL if not args else ptr_of(s, args[0])
    return r
BUILTINS['default:std::shared_ptr'] = lambda s, ty: NULL
@builtin('std::shared_ptr::operator=')
def _(s, f, this, args, node): s.write(this, ptr_of(s, args[0])); return this
@builtin('std::shared_ptr::reset', 'std::__shared_ptr::reset')
def _(s, f, this, args, node): s.write(this, ptr_of(s, args[0]) if args else NULL); return VOID
@builtin('std::shared_ptr::~shared_ptr')
def _(s, f, this, args, node): return VOID
def sp_cmp(op, old):
    def h(s, f, this, args, node):
        if any('std::shared_ptr<' in s.p.types[p['t']]['s'] for p in f['p']):
            same = ptr_of(s, args[0]) == ptr_of(s, args[1])
            return same if op == '==' else not same
        return old(s, f, this, args, node)
    return h
for o in ('==', '!='): BUILTINS['std::operator' + o] = sp_cmp(o, BUILTINS['std::operator' + o])

"""Symbolic executor / verification-condition generator over the extracted clang ASTs.

One `Unit` = one driver function of a translation unit + a contract (inputs with preconditions, postconditions).
Paths are enumerated by re-execution with a decision list; every contract clause met on a path becomes an
obligation that is handed to the solver together with the path condition."""
import json, time, itertools
from fractions import Fraction
import z3

# ---------------------------------------------------------------- exceptions
class Unsupported(Exception): pass
class PathEnd(Exception): pass          # path finished early (assumption false, loop cut)
class MergeFail(Exception): pass
class TooManyPaths(Exception): pass
class Restart(Exception): pass
class CppThrow(Exception):
    def __init__(self, what): self.what = what
class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass

# ---------------------------------------------------------------- values
class Loc:
    __slots__ = ('addr', 'path')
    def __init__(self, addr, path=()): self.addr = addr; self.path = path
    def __eq__(self, o): return isinstance(o, Loc) and self.addr == o.addr and same_path(self.path, o.path)
    def __hash__(self): return hash(self.addr)
    def __repr__(self): return f'Loc({self.addr}{"".join("."+str(p) for p in self.path)})'
    def sub(self, p): return Loc(self.addr, self.path + (p,))

def same_path(a, b):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x[0] != y[0]: return False
            if not same_scalar(x[1], y[1]): return False
        elif isinstance(x, tuple) or isinstance(y, tuple): return False
        elif x != y: return False
    return True
def same_scalar(x, y):
    if isz(x) and isz(y): return x.eq(y)
    if isz(x) or isz(y): return False
    return x == y

class _Null:
    def __repr__(self): return 'NULL'
NULL = _Null()
class _Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = _Undef()
class _Void:
    def __repr__(self): return 'VOID'
VOID = _Void()

class Rec:
    __slots__ = ('q', 'f')
    def __init__(self, q, f): self.q = q; self.f = f
    def upd(self, k, v):
        d = dict(self.f); d[k] = v
        return Rec(self.q, d)
    def __repr__(self): return f'{self.q}{self.f}'

class Tup:
    """std::pair / std::tuple: values (or Locs when the component is a reference)"""
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)
    def __repr__(self): return f'Tup{self.items}'

class Vec:
    """vector/array/list with concrete length"""
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)
    def __repr__(self): return f'Vec{self.items}'

class SVec:
    """vector with symbolic length; cols: tuple of z3 arrays (Int -> sort), shape: rebuilds an element"""
    __slots__ = ('n', 'cols', 'shape')
    def __init__(self, n, cols, shape): self.n = n; self.cols = tuple(cols); self.shape = shape
    def __repr__(self): return f'SVec(n={self.n})'

class It:
    """iterator: container lvalue and index"""
    __slots__ = ('c', 'i', 'rev')
    def __init__(self, c, i, rev=False): self.c = c; self.i = i; self.rev = rev
    def __repr__(self): return f'It({self.c},{self.i})'

class Closure:
    __slots__ = ('cls', 'caps', 'this')
    def __init__(self, cls, caps, this): self.cls = cls; self.caps = caps; self.this = this

class FnRef:
    __slots__ = ('fid',)
    def __init__(self, fid): self.fid = fid

class Opt:
    __slots__ = ('has', 'v')
    def __init__(self, has, v): self.has = has; self.v = v

def isz(v): return isinstance(v, z3.ExprRef)
def isscalar(v): return isz(v) or isinstance(v, (bool, int, Fraction))

def zbool(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.BoolVal(v != 0)
    if z3.is_bool(v): return v
    if z3.is_bv(v): return v != 0
    return v != 0
def znum(v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v
def zreal(v):
    v = znum(v)
    if v.is_int(): 
        if z3.is_int_value(v): return z3.RealVal(v.as_long())
        return z3.ToReal(v)
    return v

def AND(*xs):
    r = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        if isz(x):
            if z3.is_true(x): continue
            if z3.is_false(x): return False
        r.append(x)
    if not r: return True
    if len(r) == 1: return r[0]
    return z3.And(*r)
def OR(*xs):
    r = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        if isz(x):
            if z3.is_false(x): continue
            if z3.is_true(x): return True
        r.append(x)
    if not r: return False
    if len(r) == 1: return r[0]
    return z3.Or(*r)
def NOT(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def IMP(a, b): return OR(NOT(a), b)
def IFF(a, b):
    if isinstance(a, bool): return b if a else NOT(b)
    if isinstance(b, bool): return a if b else NOT(a)
    return a == b
def ITE(c, a, b):
    if isinstance(c, bool): return a if c else b
    if same_scalar(a, b): return a
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
        if not (isz(a) and not z3.is_bool(a)) and not (isz(b) and not z3.is_bool(b)) and not (type(a) is int) and not (type(b) is int):
            return z3.If(c, zbool(a), zbool(b))
    a, b = coerce2(a, b)
    return z3.If(c, znum(a) if not isz(a) else a, znum(b) if not isz(b) else b)
def coerce2(a, b):
    """make numeric sorts agree"""
    if isz(a) and z3.is_bv(a) or isz(b) and z3.is_bv(b):
        if not (isz(a) and z3.is_bv(a)): a = z3.BitVecVal(int(a), b.size())
        if not (isz(b) and z3.is_bv(b)): b = z3.BitVecVal(int(b), a.size())
        return a, b
    if not isz(a) and not isz(b): return a, b
    if isz(a) and not (z3.is_arith(a) or z3.is_bool(a)): return a, b
    a = znum(a); b = znum(b)
    if a.is_real() != b.is_real(): a = zreal(a); b = zreal(b)
    return a, b

def const(v):
    """python constant of a scalar if it is one"""
    if not isz(v): return v
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return v

def simp(v):
    if not isz(v): return v
    return const(z3.simplify(v))

# scalar arithmetic used by models and specs --------------------------------
def add(a, b):
    if not isz(a) and not isz(b): return a + b
    if isz(a) and z3.is_bv(a) or isz(b) and z3.is_bv(b):
        a, b = coerce2(a, b); return a + b
    if not isz(a) and a == 0 and z3.is_arith(b): return b
    if not isz(b) and b == 0 and z3.is_arith(a): return a
    a, b = coerce2(a, b); return a + b
def sub(a, b):
    if not isz(a) and not isz(b): return a - b
    if not isz(b) and b == 0 and z3.is_arith(a): return a
    a, b = coerce2(a, b); return a - b
def mul(a, b):
    if not isz(a) and not isz(b): return a * b
    if not isz(a) and a == 1 and z3.is_arith(b): return b
    if not isz(b) and b == 1 and z3.is_arith(a): return a
    a, b = coerce2(a, b); return a * b
def neg(a): return -a if isz(a) or not isinstance(a, bool) else -int(a)
def rdiv(a, b):
    if not isz(a) and not isz(b): return Fraction(a) / Fraction(b)
    return zreal(a) / zreal(b)
def cmp_(op, a, b):
    if not isz(a) and not isz(b):
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)) or isinstance(a, bool) or isinstance(b, bool):
        if op in ('==', '!=') and (isinstance(a, bool) or (isz(a) and z3.is_bool(a))) and (isinstance(b, bool) or (isz(b) and z3.is_bool(b))):
            r = IFF(a, b)
            return r if op == '==' else NOT(r)
        a = znum(a) if isinstance(a, bool) or isz(a) and z3.is_bool(a) else a
        b = znum(b) if isinstance(b, bool) or isz(b) and z3.is_bool(b) else b
    a, b = coerce2(a, b)
    if not isz(a): a = znum(a)
    if not isz(b): b = znum(b)
    if op == '==': return a == b
    if op == '!=': return z3.Not(a == b)
    return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
def eq(a, b): return cmp_('==', a, b)
def ne(a, b): return cmp_('!=', a, b)
def lt(a, b): return cmp_('<', a, b)
def le(a, b): return cmp_('<=', a, b)
def gt(a, b): return cmp_('>', a, b)
def ge(a, b): return cmp_('>=', a, b)

NUM = z3.Function('num', z3.RealSort(), z3.IntSort())
DEN = z3.Function('den', z3.RealSort(), z3.IntSort())

# ---------------------------------------------------------------- program
def strip_targs(s):
    """remove template argument lists from a qualified name"""
    out = []; i = 0; n = len(s)
    depth = 0
    while i < n:
        if depth == 0 and s.startswith('operator', i) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_')):
            j = i + 8
            k = j
            while k < n and s[k] in '<>=!+-*/%&|^~()[],': k += 1
            if k > j:
                out.append(s[i:k]); i = k
                continue
        c = s[i]
        if c == '<': depth += 1
        elif c == '>' : depth -= 1
        elif depth == 0: out.append(c)
        i += 1
    r = ''.join(out)
    return r

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']; self.funcs = {int(k): v for k, v in d['funcs'].items()}
        self.recs = {int(k): v for k, v in d['recs'].items()}
        self.vars = {int(k): v for k, v in d['vars'].items()}
        self.roots = {}
        for f in self.funcs.values(): f['sn'] = strip_targs(f['n'])
        for r in d['roots']: self.roots[self.funcs[r]['n'].split('::')[-1]] = r
        for t in self.types:
            if 'q' in t: t['sq'] = strip_targs(t['q'])
    def deref_t(self, t):
        ty = self.types[t]
        while ty['k'] == 'ref': ty = self.types[ty['p']]
        return ty
    def gmp(self, ty):
        if ty['k'] == 'ref': ty = self.types[ty['p']]
        if ty['k'] == 'rec' and ty.get('sq') == '__gmp_expr':
            return 'Q' if ty['s'].replace('const ', '').startswith('__gmp_expr<__mpq_struct') else 'Z'
        return None

class Frame:
    __slots__ = ('vars', 'this', 'fid', 'lambda_caps', 'site', 'rett', 'nm')
    def __init__(self, fid, this, site): self.vars = {}; self.this = this; self.fid = fid; self.lambda_caps = None; self.site = site; self.rett = None; self.nm = {}

BUILTINS = {}
def builtin(*names):
    def deco(f):
        for n in names: BUILTINS[n] = f
        return f
    return deco

class Stats:
    def __init__(self):
        self.obl = []       # dicts
        self.solver_s = 0.0
        self.paths = 0
        self.funcs = set()
        self.external = {}
        self.assumptions = set()
        self.covered = False
        self.loops = set()

# ---------------------------------------------------------------- executor
_HQ = {}
def has_quant(c):
    k = c.get_id(); r = _HQ.get(k)
    if r is None or not r[1].eq(c):
        r = (z3.is_quantifier(c) and not c.is_lambda() or any(has_quant(x) for x in c.children()), c); _HQ[k] = r
    return r[0]
_NL = {}
def is_nl(c):
    """does the formula contain a product of two non-constant factors?"""
    k = c.get_id(); r = _NL.get(k)
    if r is not None and r[0].eq(c): return r[1]
    v = False
    if z3.is_quantifier(c): v = is_nl(c.body())
    elif z3.is_app(c):
        if c.decl().kind() == z3.Z3_OP_MUL and sum(1 for a in c.children() if not (z3.is_int_value(a) or z3.is_rational_value(a))) > 1: v = True
        else: v = any(is_nl(a) for a in c.children())
    _NL[k] = (c, v)
    return v
class Ex:
    def __init__(self, prog, unit, decisions, stats, loops):
        self.p = prog; self.unit = unit; self.stats = stats
        self.mem = {}; self.names = {}; self.next = 1
        self.frames = []
        self.pc = []            # branch conditions
        self.facts = []         # assumptions
        self.decs = list(decisions); self.pos = 0; self.pending = []
        self.fresh_n = {}
        self.depth = 0
        self.loops = loops      # persistent loop information (havoc sets)
        self.loopstack = []
        self.globals = {}
        self.rl = unit.get('rlimit', 4000000)
        self.merge_depth = 0
        self.steps = 0
        self.ghost = {}
        self.wlog = []
        self.witness = {}
        self.lemma_seen = set()
        self.nl = {}
        self.atypes = {}

    # ---- fresh / facts
    def fresh(self, base, sort):
        n = self.fresh_n.get(base, 0); self.fresh_n[base] = n + 1
        name = f'{base}!{n}' if n else base
        if not isinstance(sort, str): return z3.Const(name, sort)
        if sort == 'int': return z3.Int(name)
        if sort == 'real': return z3.Real(name)
        if sort == 'bool': return z3.Bool(name)
        return z3.Const(name, sort)
    def assume(self, c):
        if c is True: return
        if c is False: raise PathEnd()
        self.facts.append(zbool(c))
    def assume_nl(self, c):
        """nonlinear fact: obligations are first tried without it"""
        self.facts.append(c); self.nl[c.get_id()] = c
    def context(self): return self.pc + self.facts

    # ---- solver
    def check(self, extra, rlimit=None, want_model=False, linear=False, timeout=20000):
        t = time.time()
        s = z3.Solver()
        s.set('rlimit', rlimit or self.rl)
        s.set('timeout', timeout if not linear else 3000)
        qf = linear and self.unit.get('qf_branch')
        for c in self.context():
            if not linear or not (c.get_id() in self.nl or is_nl(c) or qf and has_quant(c)): s.add(c)
        for c in extra: s.add(zbool(c))
        r = s.check()
        self.stats.solver_s += time.time() - t
        if want_model: return r, (s.model() if r == z3.sat else None)
        return r
    def known(self, c):
        """True if c follows from the path condition (cheap)"""
        c = simp(c) if isz(c) else c
        if isinstance(c, bool): return c
        return self.check([NOT(c)], 300000, linear=bool(self.nl)) == z3.unsat
    def feasible(self, c=True):
        return self.check([c], 400000, linear=bool(self.nl)) != z3.unsat

    def branch(self, c):
        if not isz(c): return bool(c)
        c = simp(zbool(c))
        if isinstance(c, bool): return c
        if self.pos < len(self.decs):
            d = self.decs[self.pos]; self.pos += 1
            if d[1]: self.pc.append(c if d[0] else z3.Not(c))
            return d[0]
        t = self.feasible(c); f = self.feasible(z3.Not(c))
        if not t and not f: raise PathEnd()
        if t and f:
            self.pending.append(self.decs[:self.pos] + [(False, True)])
            self.decs.append((True, True)); self.pos += 1
            self.pc.append(c)
            return True
        self.decs.append((t, False)); self.pos += 1
        # the other side is infeasible: remember the implied fact (helps later simplification)
        self.facts.append(c if t else z3.Not(c))
        return t
    def choose(self, n, label=''):
        """nondeterministic choice among n alternatives (all explored)"""
        for i in range(n - 1):
            b = self.fresh(f'choice_{label}{i}', 'bool')
            if self.pos < len(self.decs):
                d = self.decs[self.pos]; self.pos += 1
                if d[0]: return i
            else:
                self.pending.append(self.decs[:self.pos] + [(False, True)])
                self.decs.append((True, True)); self.pos += 1
                return i
        return n - 1

    # ---- obligations
    def prove(self, name, goal, hints=(), kind='post'):
        g = simp(goal) if isz(goal) else goal
        o = {'name': name, 'kind': kind, 'unit': self.unit['name']}
        if g is True:
            o['status'] = 'proved'; o['by'] = 'simplifier'; o['t'] = 0.0
            self.stats.obl.append(o); return True
        t = time.time()
        ctx = self.context()
        vg = self.unit.get('value_goal'); vg = vg and vg(zbool(g))
        if self.nl and not vg:
            s2 = z3.Solver(); s2.set('rlimit', self.rl); s2.set('timeout', 10000)
            s2.add(*[c for c in ctx if c.get_id() not in self.nl]); s2.add(NOT(zbool(g)))
            if s2.check() == z3.unsat:
                o['status'] = 'proved'; o['by'] = 'z3'; o['t'] = round(time.time() - t, 3); self.stats.solver_s += o['t']
                self.stats.obl.append(o); return True
        if self.unit.get('qf_first') or vg:
            # fewer hypotheses first: what follows without the quantified ones holds
            s2 = z3.Solver(); s2.set('rlimit', self.rl); s2.set('timeout', 4000)
            s2.add(*[c for c in ctx if not has_quant(c)]); s2.add(NOT(zbool(g)))
            if not has_quant(zbool(g)) and s2.check() == z3.unsat:
                o['status'] = 'proved'; o['by'] = 'z3'; o['t'] = round(time.time() - t, 3); self.stats.solver_s += o['t']
                self.stats.obl.append(o); return True
        st, by, model = discharge(ctx, zbool(g), self.rl, hints, self.unit)
        o['status'] = st; o['by'] = by; o['t'] = round(time.time() - t, 3)
        self.stats.solver_s += o['t']
        if st == 'refuted':
            o['model'] = model
            o['inputs'] = self.describe_inputs(model)
        if st == 'unknown' and self.unit.get('describe'):
            # candidate input (model of the quantifier-free hypotheses): only ever used by replaying it
            s2 = z3.Solver(); s2.set('rlimit', self.rl); s2.set('timeout', 8000)
            s2.add(*[c for c in ctx if not has_quant(c)]); s2.add(NOT(zbool(g)))
            if s2.check() == z3.sat: o['inputs'] = self.describe_inputs(s2.model())
        if st != 'proved':
            o['goal'] = str(g)[:600]
            o['line'] = getattr(self, 'cur_line', None)
        self.stats.obl.append(o)
        return st == 'proved'
    def describe_inputs(self, model):
        d = self.unit.get('describe')
        if not d or model is None: return None
        try: return d(self, model)
        except Exception as e: return None

    # ---- memory
    def alloc(self, v, name=None, t=None):
        a = self.next; self.next += 1
        self.mem[a] = v
        if t is not None: self.atypes[a] = t
        self.names[a] = name if name is not None else f'tmp{a}'
        return Loc(a)
    def read(self, loc):
        if not isinstance(loc, Loc): raise Unsupported(f'read of {loc!r}')
        v = self.mem.get(loc.addr, None)
        if v is None: raise Unsupported(f'dangling {loc}')
        for p in loc.path: v = self.get(v, p)
        if v is UNDEF and False: raise Unsupported('read of uninitialised')
        return v
    def get(self, v, p):
        if isinstance(v, Rec):
            if p in v.f: return v.f[p]
            raise Unsupported(f'field {p} of {v.q}')
        if isinstance(p, tuple) and p[0] == '[]':
            i = p[1]
            if isinstance(v, Vec):
                if isz(i): i = simp(i)
                if isz(i):
                    if not v.items: raise Unsupported('index into empty vec')
                    r = v.items[-1]
                    for k in range(len(v.items) - 2, -1, -1): r = self.merge_val(eq(i, k), v.items[k], r)
                    return r
                if not (0 <= i < len(v.items)):
                    raise OutOfBounds(f'index {i} of {len(v.items)}')
                return v.items[i]
            if isinstance(v, SVec):
                return v.shape.build([z3.Select(c, znum(i)) for c in v.cols])
            if isinstance(v, Tup): return v.items[i]
        if isinstance(v, Tup):
            if p == 'first': return v.items[0]
            if p == 'second': return v.items[1]
        if isinstance(v, Opt) and p == '*': return v.v
        if isscalar(v) and p == '_mp_num': return self.num(v)
        if isscalar(v) and p == '_mp_den': return self.den(v)
        if isscalar(v) and p == '_mp_size': return v      # only its sign is meaningful: that of the number
        h = self.unit.get('getters', {}).get(p if not isinstance(p, tuple) else p[0])
        if h: return h(self, v, p)
        raise Unsupported(f'get {p} of {type(v).__name__} {str(v)[:80]}')
    def write(self, loc, val):
        if not isinstance(loc, Loc): raise Unsupported(f'write to {loc!r}')
        if loc.addr not in self.mem: raise Unsupported('dangling write')
        if self.loopstack: self.note_write(loc)
        old = self.mem[loc.addr]
        self.mem[loc.addr] = self.put(old, loc.path, val)
    def put(self, v, path, val):
        if not path: return val
        p = path[0]
        if isinstance(v, Rec): return v.upd(p, self.put(v.f.get(p, UNDEF), path[1:], val))
        if isinstance(p, tuple) and p[0] == '[]':
            i = p[1]
            if isz(i): i = simp(i)
            if isinstance(v, Vec):
                if isz(i):
                    its = [self.merge_val(eq(i, k), self.put(x, path[1:], val), x) for k, x in enumerate(v.items)]
                    return Vec(its)
                if not (0 <= i < len(v.items)): raise OutOfBounds(f'index {i} of {len(v.items)}')
                its = list(v.items); its[i] = self.put(its[i], path[1:], val)
                return Vec(its)
            if isinstance(v, SVec):
                e = self.put(self.get(v, p), path[1:], val) if len(path) > 1 else val
                comps = v.shape.split(self, e)
                return SVec(v.n, [z3.Store(c, znum(i), x) for c, x in zip(v.cols, comps)], v.shape)
            if isinstance(v, Tup):
                its = list(v.items); its[i] = self.put(its[i], path[1:], val); return Tup(its)
        if isinstance(v, Tup):
            i = 0 if p == 'first' else 1
            its = list(v.items); its[i] = self.put(its[i], path[1:], val); return Tup(its)
        if isinstance(v, Opt) and p == '*': return Opt(v.has, self.put(v.v, path[1:], val))
        h = self.unit.get('putters', {}).get(p if not isinstance(p, tuple) else p[0])
        if h: return h(self, v, p, path[1:], val)
        raise Unsupported(f'put {p} into {type(v).__name__}')
    def num(self, x):
        if not isz(x): return Fraction(x).numerator
        if x.is_int(): return x
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL): return x.arg(0)
        self._rat_axioms(x)
        return NUM(x)
    def den(self, x):
        if not isz(x): return Fraction(x).denominator
        if x.is_int() or z3.is_app_of(x, z3.Z3_OP_TO_REAL): return 1
        self._rat_axioms(x)
        return DEN(x)
    def _rat_axioms(self, x):
        k = ('rat', x.get_id())
        if k in self.lemma_seen: return
        self.lemma_seen.add(k)
        self._keep = getattr(self, '_keep', []); self._keep.append(x)
        self.facts.append(z3.And(DEN(x) >= 1, (DEN(x) == 1) == z3.IsInt(x)))
        self.assume_nl(z3.ToReal(NUM(x)) == x * z3.ToReal(DEN(x)))
        self.stats.assumptions.add('GMP rationals are canonical: numerator/denominator of a value are the reduced ones with positive denominator')
        # consequences that nonlinear solving does not find by itself
        self.facts.append(z3.And((NUM(x) == 0) == (x == 0), (NUM(x) > 0) == (x > 0)))

    # ---- merging
    def merge_val(self, c, a, b):
        if a is b: return a
        if isscalar(a) and isscalar(b): return ITE(c, a, b)
        if isinstance(a, Rec) and isinstance(b, Rec) and a.f.keys() == b.f.keys():
            return Rec(a.q, {k: self.merge_val(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Vec) and isinstance(b, Vec) and len(a.items) == len(b.items):
            return Vec([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, SVec) and isinstance(b, SVec):
            return SVec(ITE(c, a.n, b.n), [z3.If(c, x, y) for x, y in zip(a.cols, b.cols)], a.shape)
        if isinstance(a, Loc) and a == b: return a
        if isinstance(a, It) and isinstance(b, It) and a.c == b.c: return It(a.c, ITE(c, a.i, b.i), a.rev)
        if isinstance(a, Opt) and isinstance(b, Opt): return Opt(ITE(c, a.has, b.has), self.merge_val(c, a.v, b.v) if a.v is not UNDEF and b.v is not UNDEF else (b.v if a.v is UNDEF else a.v))
        if a is UNDEF and b is UNDEF: return a
        if isz(a) and isz(b) and a.sort() == b.sort(): return z3.If(c, a, b)
        raise MergeFail()
    def merged(self, thunk, maxpaths=40):
        """run thunk on all its paths and merge the results with if-then-else; falls back to forking"""
        if self.loopstack and self.loopstack[-1].get('nomerge'): return thunk()
        save = (self.mem, self.pc, self.facts, self.decs, self.pos, self.pending, self.next, dict(self.fresh_n), list(self.frames), len(self.stats.obl), list(self.loopstack), dict(self.globals), set(self.lemma_seen))
        base_mem = self.mem; npc = len(self.pc); nf = len(self.facts)
        results = []; stack = [[]]
        facts_out = []
        try:
            self.merge_depth += 1
            while stack:
                pre = stack.pop()
                self.mem = dict(base_mem); self.pc = list(save[1]); self.facts = list(save[2])
                self.decs = list(pre); self.pos = 0; self.pending = []
                self.frames = list(save[8]); self.globals = dict(save[11]); self.lemma_seen = set(save[12])
                try:
                    v = thunk()
                except PathEnd:
                    stack.extend(self.pending); continue
                except (CppThrow, BreakEx, ContinueEx):
                    raise MergeFail()
                stack.extend(self.pending)
                bc = AND(*self.pc[npc:])
                nfacts = self.facts[nf:]
                results.append((bc, v, self.mem, nfacts))
                if len(results) > maxpaths: raise MergeFail()
            if not results:
                self.merge_depth -= 1
                self._restore(save); self.merge_depth += 1
                raise PathEnd()
            v = results[-1][1]; m = results[-1][2]
            for bc, v2, m2, _ in reversed(results[:-1]):
                v = self.merge_val(bc, v2, v) if v is not v2 else v
                if m is not m2:
                    mm = dict(m)
                    for a, x in m2.items():
                        if a in base_mem:
                            if m.get(a) is not x: mm[a] = self.merge_val(bc, x, m[a])
                        elif a not in mm: mm[a] = x
                        elif mm[a] is not x:
                            try: mm[a] = self.merge_val(bc, x, mm[a])
                            except MergeFail: 
                                if loc_uses(v, a): raise
                    m = mm
            if isinstance(v, Loc) and v.addr not in m: raise MergeFail()
        except (MergeFail,) as e:
            self._restore(save)
            self.merge_depth -= 1
            return thunk()
        except BaseException:
            self.merge_depth -= 1
            raise
        self.merge_depth -= 1
        nx = self.next; fn = self.fresh_n
        obl = self.stats.obl
        self.mem = m; self.pc = save[1]; self.decs = save[3]; self.pos = save[4]; self.pending = save[5]
        self.facts = save[2]
        for bc, _, _, nfacts in results:
            for f in nfacts:
                g = IMP(bc, f)
                if g is not True: self.facts.append(zbool(g))
        if len(results) >= 1:
            d = OR(*[r[0] for r in results])
            if d is not True: self.facts.append(zbool(d))
        self.frames = save[8]; self.globals = save[11]; self.lemma_seen = save[12]
        return v
    def _restore(self, s):
        self.mem, self.pc, self.facts, self.decs, self.pos, self.pending, self.next = s[:7]
        self.fresh_n = s[7]; self.frames = s[8]
        del self.stats.obl[s[9]:]
        self.loopstack = s[10]; self.globals = s[11]; self.lemma_seen = s[12]

    # ---- functions
    def call_root(self, name, args):
        fid = self.p.roots[name]
        return self.call(fid, None, args, None)
    def call(self, fid, this, args, node):
        f = self.p.funcs[fid]
        sn = f['sn']
        c = self.unit.get('contracts', {}).get(sn)
        if c is not None:
            r = c(self, f, this, args, node)
            if r is not NotImplemented: return r
        b = BUILTINS.get(sn)
        if b is not None:
            r = b(self, f, this, args, node)
            if r is not NotImplemented:
                return r
        if f.get('df') and (f.get('ca') or f.get('ma')):
            src = args[0]
            self.write(this, self.read(src) if isinstance(src, Loc) else src)
            return this
        if 'body' in f:
            small = self.unit.get('merge', True) and self.mergeable(f)
            if small: return self.merged(lambda: self.inline(fid, this, args, node))
            return self.inline(fid, this, args, node)
        self.stats.external[sn] = self.stats.external.get(sn, 0) + 1
        raise Unsupported(f'no model for {f["n"]} ({f.get("file","?")}:{f.get("line")})')
    def mergeable(self, f):
        m = f.get('_mg')
        if m is None:
            rt = self.p.types[f['rt']]
            ok = rt['k'] in ('bool', 'enum', 'int') or (rt['k'] == 'rec' and self.p.gmp(rt) is not None)
            if rt['k'] == 'ref': ok = False
            if ok and has_loop(f['body']): ok = False
            if ok and sum(1 for p in f['p'] if self.nonconst_ref(p['t'])) > 0: ok = False
            if f.get('m') and not f.get('cm') and not f.get('st'): ok = False
            m = f['_mg'] = ok
        return m
    def nonconst_ref(self, t):
        ty = self.p.types[t]
        if ty['k'] == 'ref':
            pt = self.p.types[ty['p']]
            return not pt.get('const') and not ty.get('rv')
        return False
    def inline(self, fid, this, args, node):
        f = self.p.funcs[fid]
        self.depth += 1
        if self.depth > 60: raise Unsupported('call depth (recursion) ' + f['n'])
        if f.get('file'): self.stats.funcs.add((f['sn'], f['file'], f.get('line')))
        if len(self.frames) > 40 and sum(1 for x in self.frames if x.fid == fid) > 8: raise Unsupported('recursion ' + f['sn'])
        fr = Frame(fid, this, (self.frames[-1].site if self.frames else '') + f'/{f["sn"].split("::")[-1]}@{(node or {}).get("l", 0)}')
        fr.rett = f['rt']
        if len(args) < len(f['p']): raise Unsupported('missing args ' + f['n'])
        for p, a in zip(f['p'], args):
            fr.vars[p['id']] = self.bind(p, a, fr)
        self.frames.append(fr)
        line = getattr(self, 'cur_line', None)
        try:
            if f.get('ctor'):
                self.run_inits(f, this)
            try:
                self.st(f['body'])
            except ReturnEx as r:
                v = r.v
            else:
                v = VOID
            if f.get('ctor'): return VOID
            return v
        finally:
            self.frames.pop(); self.depth -= 1
            self.cur_line = line
    def bind(self, p, a, fr):
        ty = self.p.types[p['t']]
        name = f'{fr.site}:{p["n"]}#{p["id"]}'
        if p.get('n'): fr.nm[p['n']] = p['id']
        if ty['k'] == 'ref':
            if isinstance(a, Loc): return a
            return self.alloc(a, name, p['t'])
        if isinstance(a, Loc) and ty['k'] not in ('ptr',) and not self.is_ptr_rec(ty): a = self.read(a)
        return self.alloc(a, name, p['t'])
    def is_ptr_rec(self, ty): return False
    def run_inits(self, f, this):
        for i in f.get('inits', []):
            if 'f' in i:
                fld = self.field_type(f['cls'], i['f'])
                v = self.ev(i['e'])
                if i['e'] is not None and is_gl(i['e']) and not (fld and self.p.types[fld]['k'] == 'ref'): v = self.read(v)
                self.write(this.sub(i['f']), v)
            else:
                e = i['e']
                # base or delegating constructor: run on the same object
                while e['k'] in ('ImplicitCastExpr',): e = e['e']
                if e['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    self.construct_at(e, this, 'b' in i)
                elif e['k'] == 'CXXInheritedCtorInitExpr':
                    raise Unsupported('inherited ctor')
                else:
                    v = self.ev(e)
                    self.assign_fields(this, v)
    def assign_fields(self, this, v):
        cur = self.read(this)
        if isinstance(v, Rec) and isinstance(cur, Rec):
            d = dict(cur.f); d.update(v.f)
            self.write(this, Rec(cur.q, d))
        else: self.write(this, v)
    def field_type(self, cls, name):
        ty = self.p.types[cls]
        r = self.p.recs.get(ty.get('d'))
        if not r: return None
        for f in r['f']:
            if f['n'] == name: return f['t']
        return None
    def construct_at(self, e, this, base):
        fid = e['r']; f = self.p.funcs[fid]
        if f.get('df') and (f.get('cc') or f.get('mc')) or (f.get('cc') and 'body' not in f):
            v = self.ev(e['a'][0])
            if isinstance(v, Loc): v = self.read(v)
            self.assign_fields(this, v); return
        args = [self.ev(a) for a in e['a']]
        c = self.unit.get('contracts', {}).get(f['sn']) or BUILTINS.get(f['sn'])
        if c is not None:
            v = c(self, f, None, args, e)
            if v is not NotImplemented:
                self.assign_fields(this, v); return
        if 'body' not in f:
            if f.get('df') and f.get('dc'): return
            raise Unsupported('ctor ' + f['n'])
        self.inline(fid, this, args, e)
    def default_rec(self, ty):
        """uninitialised object of record type"""
        r = self.p.recs.get(ty.get('d'))
        if r is None: return Rec(ty.get('sq'), {})
        d = {}
        for b in r['b']:
            bt = self.p.types[b]
            bv = self.default_rec(bt)
            d.update(bv.f)
        for f in r['f']: d[f['n']] = UNDEF
        return Rec(ty.get('sq'), d)
    def construct(self, e):
        """CXXConstructExpr -> value"""
        fid = e['r']; f = self.p.funcs[fid]
        ty = self.p.types[e['t']]
        if ty['k'] == 'arr':
            return Vec([self.construct_one(e, f, fid, self.p.types[ty['e']]) for _ in range(ty['n'])])
        return self.construct_one(e, f, fid, ty)
    def construct_one(self, e, f, fid, ty):
        args = [self.ev(a) for a in e['a']]
        return self.construct_args(f, fid, ty, args, e)
    def construct_args(self, f, fid, ty, args, e):
        c = self.unit.get('contracts', {}).get(f['sn'])
        if c is not None:
            v = c(self, f, None, args, e)
            if v is not NotImplemented: return v
        g = self.p.gmp(ty)
        if g:
            return self.gmp_construct(g, args)
        b = BUILTINS.get(f['sn'])
        if b is not None:
            v = b(self, f, None, args, e)
            if v is not NotImplemented: return v
        if f.get('cc') or f.get('mc'):
            if f.get('df') or 'body' not in f:
                return self.read(args[0]) if isinstance(args[0], Loc) else args[0]
        if 'body' in f:
            t = self.alloc(self.default_rec(ty), f'obj:{f["sn"]}')
            self.inline(fid, t, args, e)
            return self.mem[t.addr]
        if f.get('dc') or not args:
            return self.default_init(ty)
        raise Unsupported('construct ' + f['n'])
    def default_init(self, ty):
        v = self.default_rec(ty)
        r = self.p.recs.get(ty.get('d'))
        if r is None and not (ty['k'] == 'rec'): raise Unsupported('default init ' + ty['s'])
        if r:
            t = self.alloc(v)
            for f in r['f']:
                if 'i' in f:
                    self.frames.append(Frame(None, t, 'init'))
                    try: x = self.ev(f['i'])
                    finally: self.frames.pop()
                    if isinstance(x, Loc) and is_gl(f['i']): x = self.read(x)
                    self.write(t.sub(f['n']), x)
                else:
                    fty = self.p.types[f['t']]
                    if fty['k'] == 'rec':
                        self.write(t.sub(f['n']), self.default_of(fty))
            return self.mem[t.addr]
        return v
    def default_of(self, ty):
        g = self.p.gmp(ty)
        if g: return 0 if g == 'Z' else Fraction(0)
        if ty['k'] == 'rec':
            b = BUILTINS.get('default:' + ty['sq'])
            if b: return b(self, ty)
            return self.default_init(ty)
        return UNDEF
    def gmp_construct(self, g, args):
        if not args: return 0 if g == 'Z' else Fraction(0)
        a = args[0]
        if isinstance(a, Loc): a = self.read(a)
        if len(args) == 2 and g == 'Q':
            b = args[1]
            if isinstance(b, Loc): b = self.read(b)
            if isscalar(a) and isscalar(b): return rdiv(a, b)   # num/den (canonical value assumed)
        return self.to_gmp(g, a)
    def to_gmp(self, g, a):
        if not isscalar(a):
            raise Unsupported(f'gmp from {type(a).__name__} {str(a)[:60]}')
        if isinstance(a, bool): a = int(a)
        if g == 'Z':
            if isinstance(a, Fraction): return a.numerator // a.denominator if a >= 0 or a.denominator == 1 else -((-a.numerator) // a.denominator)
            if isz(a):
                if z3.is_bv(a): raise Unsupported('bv to gmp')
                if z3.is_bool(a): return znum(a)
                if a.is_real():
                    # mpz from mpq truncates
                    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
            return a
        if isinstance(a, int): return Fraction(a)
        if isz(a):
            if z3.is_bool(a): a = znum(a)
            if z3.is_bv(a): raise Unsupported('bv to gmp')
            if a.is_int(): return z3.ToReal(a)
        return a

    # ---- variables
    def lookup(self, id, node):
        fr = self.frames[-1]
        l = fr.vars.get(id)
        if l is not None: return l
        if fr.lambda_caps is not None and id in fr.lambda_caps: return fr.lambda_caps[id]
        if id in self.globals: return self.globals[id]
        if id in self.p.vars:
            v = self.p.vars[id]
            h = self.unit.get('globals', {}).get(strip_targs(v['n']))
            if h is not None:
                hv = h(self, v)
                l = hv if isinstance(hv, Loc) else self.alloc(hv, 'global:' + v['n'])
            elif 'i' in v:
                self.frames.append(Frame(None, None, 'global'))
                try: x = self.ev(v['i'])
                finally: self.frames.pop()
                if isinstance(x, Loc) and self.p.types[v['t']]['k'] == 'ref': l = x
                else:
                    if isinstance(x, Loc) and is_gl(v['i']): x = self.read(x)
                    l = self.alloc(x, 'global:' + v['n'])
            else:
                raise Unsupported('global ' + v['n'])
            self.globals[id] = l
            return l
        raise Unsupported(f'variable {node.get("n")} not bound')

    # ---- expressions
    def ev(self, n):
        self.steps += 1
        if self.steps > 2000000: raise Unsupported('step limit')
        if n is None: return None
        k = n['k']
        m = EV.get(k)
        if m is None: raise Unsupported(f'expression {k} at line {n.get("l")}')
        return m(self, n)
    def rv(self, n):
        """value of an expression, reading through glvalues"""
        v = self.ev(n)
        if is_gl(n) and isinstance(v, Loc): return self.read(v)
        return v
    def val(self, v):
        """argument value (reads a Loc)"""
        return self.read(v) if isinstance(v, Loc) else v

    # ---- statements
    def st(self, n):
        if n is None: return
        self.cur_line = n.get('l')
        m = ST.get(n['k'])
        if m is None:
            self.ev(n); return
        m(self, n)
    def declare(self, d):
        fr = self.frames[-1]
        ty = self.p.types[d['t']]
        name = f'{fr.site}:{d["n"]}#{d["id"]}'
        if d.get('n'): fr.nm[d['n']] = d['id']
        if d.get('sl') and d['id'] in self.globals:
            fr.vars[d['id']] = self.globals[d['id']]; return
        h = self.unit.get('statics', {}).get(d['n']) if d.get('sl') else None
        if h is not None:
            l = self.alloc(h(self, d), 'static:' + d['n'])
            self.globals[d['id']] = l; fr.vars[d['id']] = l; return
        if 'i' not in d:
            if ty['k'] == 'rec': v = self.default_of(ty)
            elif ty['k'] == 'arr': v = Vec([UNDEF] * ty['n'])
            else: v = UNDEF
            fr.vars[d['id']] = self.alloc(v, name, d['t'])
        else:
            v = self.ev(d['i'])
            if ty['k'] == 'ref':
                if not isinstance(v, Loc): v = self.alloc(v, name, d['t'])
                fr.vars[d['id']] = v
            else:
                if is_gl(d['i']) and isinstance(v, Loc): v = self.read(v)
                fr.vars[d['id']] = self.alloc(v, name, d['t'])
        if d.get('sl'): self.globals[d['id']] = fr.vars[d['id']]
        if 'bind' in d:
            base = fr.vars[d['id']]
            for i, b in enumerate(d['bind']):
                if b.get('n'): fr.nm[b['n']] = b['id']
                v = self.read(base)
                if isinstance(v, Tup):
                    it = v.items[i]
                    fr.vars[b['id']] = it if isinstance(it, Loc) else base.sub('first' if i == 0 else 'second') if len(v.items) == 2 else base.sub(('[]', i))
                elif 'e' in b:
                    # binding expression refers to the decomposed variable's member
                    e = b['e']
                    fr.vars[b['id']] = base.sub(e['n'])
                else: raise Unsupported('structured binding')

class OutOfBounds(Exception): pass

def loc_uses(v, a):
    if isinstance(v, Loc): return v.addr == a
    return False

def is_gl(n): return n is not None and ('lv' in n or 'xv' in n)

def has_loop(n):
    if isinstance(n, dict):
        if n.get('k') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'): return True
        return any(has_loop(v) for v in n.values() if isinstance(v, (dict, list)))
    if isinstance(n, list): return any(has_loop(v) for v in n)
    return False

# ---------------------------------------------------------------- expression handlers
EV = {}; ST = {}
def EVH(*ks):
    def d(f):
        for k in ks: EV[k] = f
        return f
    return d
def STH(*ks):
    def d(f):
        for k in ks: ST[k] = f
        return f
    return d

@EVH('IntegerLiteral')
def _(s, n): return int(n['v'])
@EVH('CXXBoolLiteralExpr')
def _(s, n): return bool(n['v'])
@EVH('CharacterLiteral')
def _(s, n): return int(n['v'])
@EVH('FloatingLiteral')
def _(s, n): return Fraction(n['v'])
@EVH('StringLiteral')
def _(s, n): return s.alloc(n['v'])
@EVH('CXXNullPtrLiteralExpr', 'GNUNullExpr')
def _(s, n): return NULL
@EVH('CXXThisExpr')
def _(s, n):
    fr = s.frames[-1]
    if fr.this is None: raise Unsupported('this outside method')
    return fr.this
@EVH('UnaryExprOrTypeTraitExpr', 'TypeTraitExpr', 'SizeOfPackExpr', 'CXXNoexceptExpr')
def _(s, n):
    if 'cv' in n: return cvval(s, n)
    raise Unsupported(n['k'])
@EVH('CXXScalarValueInitExpr', 'ImplicitValueInitExpr')
def _(s, n):
    ty = s.p.types[n['t']]
    if ty['k'] == 'bool': return False
    if ty['k'] in ('int', 'enum'): return 0
    if ty['k'] == 'float': return Fraction(0)
    if ty['k'] in ('ptr', 'nullptr'): return NULL
    if ty['k'] == 'rec': return s.default_of(ty)
    if ty['k'] == 'void': return VOID
    raise Unsupported('value init ' + ty['s'])
def cvval(s, n):
    ty = s.p.types[n['t']]
    return bool(n['cv']) if ty['k'] == 'bool' else int(n['cv'])
@EVH('DeclRefExpr')
def _(s, n):
    rk = n.get('rk')
    if rk == 'enum': return int(n['v'])
    if rk == 'fn': return FnRef(n['r'])
    if rk in ('var', 'bind', 'other'):
        if not is_gl(n) and 'cv' in n: return cvval(s, n)
        return s.lookup(n['r'], n)
    raise Unsupported('declref ' + str(n.get('n')))
@EVH('MemberExpr')
def _(s, n):
    if n.get('rk') == 'var': return s.lookup(n['r'], n)
    if n.get('rk') == 'fn': return (FnRef(n['r']), s.ev(n['b']))
    b = s.ev(n['b'])
    if n['arrow']:
        if b is NULL: raise Unsupported('null dereference')
        if not isinstance(b, Loc): raise Unsupported('arrow on ' + type(b).__name__)
        return s.member(b, n)
    if isinstance(b, Loc): return s.member(b, n)
    return s.get(b, n['n']) if not is_gl(n) else s.member(s.alloc(b), n)
def ex_member(s, b, n):
    l = b.sub(n['n'])
    v = s.mem.get(b.addr)
    if isinstance(v, Rec) and s.p.types[n['t']]['k'] != 'ptr':
        # reference member: the field holds the location it is bound to
        try: x = s.read(l)
        except Unsupported: return l
        if isinstance(x, Loc) and not (s.p.types[n['t']]['k'] == 'rec' and s.p.types[n['t']].get('sq') in PTRLIKE): return x
    return l
Ex.member = ex_member
@EVH('MaterializeTemporaryExpr')
def _(s, n):
    v = s.ev(n['e'])
    if isinstance(v, Loc) and s.p.types[n['t']]['k'] != 'ptr' and is_gl(n['e']): return v
    return s.alloc(v)
@EVH('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'BuiltinBitCastExpr')
def _(s, n):
    ck = n['ck']; e = n['e']
    if ck == 'LValueToRValue':
        if 'cv' in n and e['k'] == 'DeclRefExpr' and e.get('gl'): return cvval(s, n)
        l = s.ev(e)
        if not isinstance(l, Loc): return l
        v = s.read(l)
        if v is UNDEF: raise Unsupported(f'read of uninitialised value at line {n.get("l")}')
        return v
    if ck in ('NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BuiltinFnToFnPtr', 'BitCast', 'BaseToDerived', 'LValueBitCast'):
        v = s.ev(e)
        if not is_gl(n) and is_gl(e) and ck == 'NoOp' and isinstance(v, Loc): return s.read(v)
        return v
    ty = s.p.types[n['t']]
    if ck == 'ToVoid': s.ev(e); return VOID
    if ck in ('NullToPointer',): return NULL
    if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral', 'FloatingCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
        if 'cv' in n: return cvval(s, n)
        v = s.rv(e)
        st_ = s.p.types[e['t']]
        return s.cast(v, st_, ty, ck)
    raise Unsupported('cast ' + ck)

def ex_cast(self, v, st, ty, ck):
    if ck == 'PointerToBoolean':
        if v is NULL: return False
        if isinstance(v, (Loc, FnRef, Closure)): return True
        raise Unsupported('ptr->bool')
    if ty['k'] == 'bool':
        if isinstance(v, bool): return v
        if not isz(v): return v != 0
        return v if z3.is_bool(v) else v != 0
    if ty['k'] in ('int', 'enum'):
        w = ty.get('w', 32); sg = ty.get('sg', 1)
        if isinstance(v, bool): v = int(v)
        if isinstance(v, Fraction):
            v = int(v)
        if isinstance(v, int):
            if st['k'] == 'float' : return v
            v &= (1 << w) - 1
            if sg and v >> (w - 1): v -= 1 << w
            return v
        if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bv(v):
            ow = v.size()
            if ow == w: return v
            if ow > w: return z3.Extract(w - 1, 0, v)
            return z3.SignExt(w - ow, v) if st.get('sg', 0) else z3.ZeroExt(w - ow, v)
        if v.is_real():
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        # narrowing conversions drop the upper bits
        if st['k'] == 'int' and ty['k'] == 'int' and st.get('w', 64) > w:
            lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if sg else (0, 1 << w)
            if not self.known(z3.And(v >= lo, v < hi)): return (v - lo) % (1 << w) + lo if sg else v % (1 << w)
            return v
        # mathematical integers: signed -> unsigned conversion of negative values wraps
        if st['k'] == 'int' and st.get('sg') and not sg:
            if not self.known(v >= 0): return z3.If(v >= 0, v, v + (1 << w))
        if st['k'] == 'int' and not st.get('sg') and sg and st.get('w', 64) >= w:
            # unsigned -> signed: wraps at 2^(w-1)
            if self.unit.get('u2s_wrap', True) and not self.known(v < (1 << (w - 1))):
                if self.unit.get('assume_small', True):
                    self.stats.assumptions.add('unsigned machine integers converted to signed ones are below 2^(width-1)')
                    return v
                return z3.If(v < (1 << (w - 1)), v, v - (1 << w))
        return v
    if ty['k'] == 'float':
        if isinstance(v, int): return Fraction(v)
        if isz(v) and v.is_int(): return z3.ToReal(v)
        return v
    raise Unsupported('cast to ' + ty['s'])
Ex.cast = ex_cast

@EVH('CXXConstructExpr', 'CXXTemporaryObjectExpr')
def _(s, n): return s.construct(n)
@EVH('CXXStdInitializerListExpr')
def _(s, n):
    v = s.rv(n['e'])
    return v
@EVH('InitListExpr')
def _(s, n):
    ty = s.p.types[n['t']]
    if ty['k'] in ('int', 'bool', 'enum', 'float', 'ptr'):
        if not n['a']: return EV['ImplicitValueInitExpr'](s, n)
        return s.rv(n['a'][0])
    vals = [s.ev(a) if False else s.rv(a) for a in n['a']]
    if ty['k'] == 'arr':
        while len(vals) < ty['n']: vals.append(s.default_of(s.p.types[ty['e']]))
        return Vec(vals)
    if ty['k'] == 'rec':
        if ty['sq'] == 'std::array': return vals[0] if vals else Vec([])
        g = s.p.gmp(ty)
        if g: return vals[0]
        r = s.p.recs.get(ty['d'])
        if r is None: raise Unsupported('init list for ' + ty['s'])
        v = s.default_rec(ty)
        nb = len(r['b'])
        for i in range(nb):
            if isinstance(vals[i], Rec): v.f.update(vals[i].f)
        for f, x, a in zip(r['f'], vals[nb:], n['a'][nb:]):
            if s.p.types[f['t']]['k'] == 'ref': x = s.ev(a)
            v.f[f['n']] = x
        return v
    raise Unsupported('init list ' + ty['s'])
@EVH('LambdaExpr')
def _(s, n):
    caps = {}
    this = None
    for c in n['caps']:
        if c.get('this'): this = s.frames[-1].this
        elif 'id' in c:
            if c['ref']:
                l = s.ev(c['i'])
                caps[c['id']] = l
            else:
                v = s.rv(c['i'])
                caps[c['id']] = s.alloc(v, 'cap')
    return Closure(n['cls'], caps, this)
@EVH('ConditionalOperator')
def _(s, n):
    if n['cond'].get('cv') is not None and 'cv' in n['cond']:
        return s.ev(n['a'] if n['cond']['cv'] else n['b'])
    c = s.rv(n['cond'])
    c = simp(zbool(c)) if isz(c) else bool(c)
    if isinstance(c, bool): return s.ev(n['a'] if c else n['b'])
    def th():
        if s.branch(c): return s.ev(n['a'])
        return s.ev(n['b'])
    if is_gl(n): return th()
    return s.merged(th)
@EVH('UnaryOperator')
def _(s, n):
    op = n['op']
    if op in ('++', '--'):
        l = s.ev(n['e'])
        v = s.read(l)
        d = 1 if op == '++' else -1
        if isinstance(v, It): nv = It(v.c, add(v.i, d), v.rev)
        else:
            ty = s.p.deref_t(n['e']['t'])
            nv = s.arith('+' if d == 1 else '-', v, 1, ty)
        s.write(l, nv)
        return v if n['post'] else l
    if op == '*':
        v = s.rv(n['e'])
        if isinstance(v, FnRef): return v
        if v is NULL: raise Unsupported('null deref')
        if isinstance(v, It):
            from .containers import deref
            return deref(s, v)
        if isinstance(v, Rec) and s.unit.get('deref'): return s.unit['deref'](s, v)
        return v
    if op == '&':
        return s.ev(n['e'])
    if 'cv' in n: return cvval(s, n)
    v = s.rv(n['e'])
    if op == '!':
        return NOT(zbool(v)) if isz(v) else (not v)
    if op == '-':
        ty = s.p.types[n['t']]
        return s.arith('neg', v, None, ty)
    if op == '+': return v
    if op == '~':
        ty = s.p.types[n['t']]
        w = ty['w']
        if isz(v) and z3.is_bv(v): return ~v
        if isinstance(v, bool): v = int(v)
        r = sub(-1, v)
        return add(r, 1 << w) if not ty['sg'] else r
    raise Unsupported('unary ' + op)

def tdiv(s, a, b):
    """truncated division on integers"""
    if not isz(a) and not isz(b):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    a = znum(a); b = znum(b)
    if s.known(z3.And(a >= 0, b > 0)): return a / b
    return z3.If(a >= 0, z3.If(b >= 0, a / b, -(a / (-b))), z3.If(b >= 0, -((-a) / b), (-a) / (-b)))
def tmod(s, a, b):
    if not isz(a) and not isz(b):
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    a = znum(a); b = znum(b)
    if s.known(z3.And(a >= 0, b > 0)): return a % b
    ab = z3.If(b >= 0, b, -b)
    return z3.If(a >= 0, a % ab, -((-a) % ab))

def ex_arith(self, op, a, b, ty):
    if a is UNDEF or b is UNDEF: raise Unsupported('arithmetic on uninitialised value')
    if op == 'neg':
        if isz(a) and z3.is_bv(a): return -a
        r = neg(a) if not (isz(a) and z3.is_bool(a)) else -znum(a)
        if ty['k'] == 'int' and not ty['sg']:
            if not isz(r): return r % (1 << ty['w'])
            return z3.If(r >= 0, r, r + (1 << ty['w']))
        return r
    if isinstance(a, bool) : a = int(a)
    if isinstance(b, bool) : b = int(b)
    if isz(a) and z3.is_bool(a): a = znum(a)
    if isz(b) and z3.is_bool(b): b = znum(b)
    if not isscalar(a) or not isscalar(b):
        raise Unsupported(f'arith {op} on {type(a).__name__},{type(b).__name__}')
    isbv = (isz(a) and z3.is_bv(a)) or (isz(b) and z3.is_bv(b))
    if op in ('<<', '>>') and isz(b) and not z3.is_bv(b) and ty['k'] == 'int' and not ty['sg'] and ty['w'] in self.unit.get('bv', ()) and (not isz(a) or z3.is_bv(a)):
        # word shifted by an integer amount: chain of constant shifts; the amount must be below the width
        w = ty['w']; self.prove(f'{self.unit["name"]}: shift amount below the word size', AND(ge(b, 0), lt(b, w)), kind='safety'); self.assume(AND(ge(b, 0), lt(b, w)))
        a = a if isz(a) else z3.BitVecVal(a, w)
        sh = lambda i: a << i if op == '<<' else z3.LShR(a, i)
        r = sh(w - 1)
        for i in range(w - 2, -1, -1): r = z3.If(b == i, sh(i), r)
        return r
    if isbv:
        if op in ('<<', '>>'):
            if not (isz(a) and z3.is_bv(a)): a = z3.BitVecVal(a, ty['w'])
            if not (isz(b) and z3.is_bv(b)): b = z3.BitVecVal(b, a.size())
            elif b.size() < a.size(): b = z3.ZeroExt(a.size() - b.size(), b)
            elif b.size() > a.size(): b = z3.Extract(a.size() - 1, 0, b)
            return a << b if op == '<<' else (a >> b if ty['sg'] else z3.LShR(a, b))
        a, b = coerce2(a, b)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        if op == '/': return a / b if ty['sg'] else z3.UDiv(a, b)
        if op == '%': return z3.SRem(a, b) if ty['sg'] else z3.URem(a, b)
        raise Unsupported('bv op ' + op)
    if ty['k'] == 'float':
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/': return rdiv(a, b)
    uns = ty['k'] == 'int' and not ty['sg']
    w = ty.get('w', 32)
    if op == '+':
        r = add(a, b)
        if uns and not isz(r): r %= (1 << w)
        elif uns and ((not isz(b) and b < 0) or (not isz(a) and a < 0)): r = z3.If(r >= 0, r, r + (1 << w))
        return r
    if op == '-':
        r = sub(a, b)
        if uns:
            if not isz(r): return r % (1 << w)
            if self.known(r >= 0): return r
            return z3.If(r >= 0, r, r + (1 << w))
        return r
    if op == '*':
        r = mul(a, b)
        if uns and not isz(r): r %= (1 << w)
        return r
    if op == '/': return tdiv(self, a, b)
    if op == '%': return tmod(self, a, b)
    if op == '<<':
        if not isz(a) and not isz(b): return (a << b) % (1 << w) if uns else a << b
        if not isz(b): return mul(a, 1 << b)
        return mul(a, self.pow2(b))
    if op == '>>':
        if not isz(a) and not isz(b): return a >> b
        if not isz(b): return znum(a) / z3.IntVal(1 << b)
        return znum(a) / self.pow2(b)
    if not isz(a) and not isz(b):
        return {'&': a & b, '|': a | b, '^': a ^ b}[op]
    if op == '&':
        for x, y in ((a, b), (b, a)):
            if not isz(x) and x >= 0 and (x & (x + 1)) == 0: return znum(y) % (x + 1)
    if op == '&':
        # a single bit of a non-negative number
        for x, y in ((a, b), (b, a)):
            if not isz(x) and isinstance(x, int) and x > 0 and x & (x - 1) == 0 and isz(y) and self.known(y >= 0): return (y / x) % 2 * x
    raise Unsupported('int op ' + op)
Ex.arith = ex_arith
POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
def ex_pow2(self, k):
    if not isz(k): return 1 << k
    self.facts.append(z3.And(POW2(k) >= 1, z3.Implies(k >= 1, POW2(k) == 2 * POW2(k - 1)), POW2(0) == 1, z3.Implies(k >= 0, POW2(k + 1) == 2 * POW2(k))))
    return POW2(k)
Ex.pow2 = ex_pow2

@EVH('BinaryOperator')
def _(s, n):
    op = n['op']
    if op == ',':
        s.ev(n['a']); return s.ev(n['b'])
    if op == '=':
        v = s.rv(n['b'])
        l = s.ev(n['a'])
        s.write(l, v); return l
    if 'cv' in n: return cvval(s, n)
    if op in ('&&', '||'):
        a = s.rv(n['a'])
        a = simp(zbool(a)) if isz(a) else bool(a)
        if isinstance(a, bool):
            if op == '&&' and not a: return False
            if op == '||' and a: return True
            b = s.rv(n['b'])
            return zbool(b) if isz(b) else bool(b)
        def th():
            if op == '&&':
                if not s.branch(a): return False
            else:
                if s.branch(a): return True
            b = s.rv(n['b'])
            return zbool(b) if isz(b) else bool(b)
        return s.merged(th)
    a = s.rv(n['a']); b = s.rv(n['b'])
    return s.binop(op, a, b, n)
def ex_binop(s, op, a, b, n):
    if op in ('==', '!=', '<', '<=', '>', '>='):
        if isscalar(a) and isscalar(b):
            if (isz(a) and z3.is_bv(a)) or (isz(b) and z3.is_bv(b)):
                a, b = coerce2(a, b)
                sg = s.p.deref_t(n['a']['t']).get('sg', 0)
                if op in ('==', '!='): return (a == b) if op == '==' else a != b
                if sg: return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
                return {'<': z3.ULT(a, b), '<=': z3.ULE(a, b), '>': z3.UGT(a, b), '>=': z3.UGE(a, b)}[op]
            return cmp_(op, a, b)
        if op in ('==', '!='):
            r = s.ptr_eq(a, b)
            return r if op == '==' else NOT(r)
        if isinstance(a, Loc) and isinstance(b, Loc) and op == '<':
            raise Unsupported('pointer order')
        raise Unsupported(f'compare {type(a).__name__} {op} {type(b).__name__}')
    ty = s.p.types[n['t']]
    if isinstance(a, It):
        if op == '+': return It(a.c, add(a.i, b), a.rev)
        if op == '-' and isinstance(b, It): return sub(a.i, b.i)
        if op == '-': return It(a.c, sub(a.i, b), a.rev)
    return s.arith(op, a, b, ty)
Ex.binop = ex_binop
def ex_ptr_eq(s, a, b):
    if a is NULL and b is NULL: return True
    h = s.unit.get('null_eq')
    if h and (a is NULL or b is NULL) and not (isinstance(a, Loc) or isinstance(b, Loc)): return h(s, b if a is NULL else a)
    if a is NULL or b is NULL: return False
    if isinstance(a, Loc) and isinstance(b, Loc):
        if a == b: return True
        if a.addr != b.addr: return False
        if len(a.path) != len(b.path): return False
        raise Unsupported('pointer equality')
    h = s.unit.get('ptr_eq')
    if h: return h(s, a, b)
    raise Unsupported(f'pointer equality {type(a).__name__} {type(b).__name__}')
Ex.ptr_eq = ex_ptr_eq
@EVH('CompoundAssignOperator')
def _(s, n):
    b = s.rv(n['b'])
    l = s.ev(n['a'])
    a = s.read(l)
    op = n['op'][:-1]
    ct = s.p.types[n['ct']]; lt_ = s.p.deref_t(n['a']['t'])
    if isscalar(a):
        if isinstance(a, bool): a = int(a)
        if op in ('|', '&', '^') and (lt_['k'] == 'bool'):
            bb = b if isinstance(b, bool) or (isz(b) and z3.is_bool(b)) else ne(b, 0)
            aa = a if isz(a) else bool(a)
            r = OR(aa, bb) if op == '|' else AND(aa, bb) if op == '&' else NOT(IFF(aa, bb))
        else:
            r = s.arith(op, a, b, ct)
            if lt_['k'] in ('int', 'enum') and ct['s'] != lt_['s']: r = s.cast(r, ct, lt_, 'IntegralCast')
    else:
        r = s.binop(op, a, b, n)
    s.write(l, r)
    return l
@EVH('ArraySubscriptExpr')
def _(s, n):
    a = s.ev(n['a']); i = s.rv(n['b'])
    if isinstance(a, Loc): return a.sub(('[]', i))
    raise Unsupported('subscript')
@EVH('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr')
def _(s, n):
    if 'cv' in n: return cvval(s, n)
    f = n['f']
    while f['k'] == 'ImplicitCastExpr': f = f['e']
    args = None
    if f['k'] == 'MemberExpr' and f.get('rk') == 'fn':
        b = s.ev(f['b'])
        if not isinstance(b, Loc) and b is not NULL:
            b = s.alloc(b)   # method on a prvalue / smart pointer value
        args = [s.ev(a) for a in n['a']]
        s.cur_line = n.get('l')
        fn = s.p.funcs[f['r']]
        if fn.get('st'): return s.call(f['r'], None, args, n)
        return s.ret(s.call(f['r'], b, args, n), n)
    if f['k'] == 'DeclRefExpr' and f.get('rk') == 'fn':
        fn = s.p.funcs[f['r']]
        args = [s.ev(a) for a in n['a']]
        s.cur_line = n.get('l')
        if fn.get('m') and not fn.get('st') and n['k'] == 'CXXOperatorCallExpr':
            this = args[0]
            if isinstance(this, Closure): return s.ret(s.call_closure(this, args[1:], n), n)
            if not isinstance(this, Loc): this = s.alloc(this)
            tv = s.mem.get(this.addr) if not this.path else None
            if isinstance(tv, Closure): return s.ret(s.call_closure(tv, args[1:], n), n)
            return s.ret(s.call(f['r'], this, args[1:], n), n)
        return s.ret(s.call(f['r'], None, args, n), n)
    v = s.ev(f)
    if isinstance(v, Loc): v = s.read(v)
    args = [s.ev(a) for a in n['a']]
    if isinstance(v, Closure): return s.ret(s.call_closure(v, args, n), n)
    if isinstance(v, FnRef): return s.ret(s.call(v.fid, None, args, n), n)
    raise Unsupported('call of ' + f['k'])
def ex_ret(s, v, n):
    if is_gl(n):
        if not isinstance(v, Loc): return s.alloc(v)
        return v
    if isinstance(v, Loc) and s.p.types[n['t']]['k'] not in ('ptr',): 
        # value-returning builtin gave a reference
        if s.p.types[n['t']]['k'] == 'rec' and s.p.types[n['t']].get('sq') in PTRLIKE: return v
        return s.read(v)
    return v
Ex.ret = ex_ret
PTRLIKE = {'std::shared_ptr', 'std::unique_ptr', 'std::reference_wrapper', 'std::__shared_ptr_access', 'std::weak_ptr'}
def ex_call_closure(s, c, args, n=None, nargs=None):
    if isinstance(c, FnRef): return s.call(c.fid, None, args, n)
    if isinstance(c, Loc): c = s.read(c)
    if isinstance(c, FnRef): return s.call(c.fid, None, args, n)
    if isinstance(c, Rec):
        # functor object: operator() among the extracted functions of that class
        cands = [i for i, f in s.p.funcs.items() if f['sn'] == c.q + '::operator()' and 'body' in f]
        if len(cands) == 1: return s.call(cands[0], s.alloc(c), args, n)
        raise Unsupported('functor ' + c.q)
    if not isinstance(c, Closure): raise Unsupported('call of non-closure ' + type(c).__name__)
    r = s.p.recs[c.cls]
    ops = r.get('ops', [])
    if not ops: raise Unsupported('lambda without body')
    if len(ops) > 1:
        ops = [o for o in ops if len(s.p.funcs[o]['p']) == len(args)] or ops
    fid = ops[0]
    f = s.p.funcs[fid]
    s.depth += 1
    if s.depth > 60: raise Unsupported('depth')
    fr = Frame(fid, c.this, (s.frames[-1].site if s.frames else '') + f'/lambda@{f.get("line")}')
    fr.lambda_caps = c.caps
    fr.rett = f['rt']
    def run():
        fr.vars = {}
        for p, a in zip(f['p'], args): fr.vars[p['id']] = s.bind(p, a, fr)
        s.frames.append(fr)
        try:
            try: s.st(f['body'])
            except ReturnEx as r_: return r_.v
            return VOID
        finally:
            s.frames.pop()
    try:
        if s.mergeable_lambda(f): return s.merged(run)
        return run()
    finally:
        s.depth -= 1
Ex.call_closure = ex_call_closure
def ex_ml(s, f):
    rt = s.p.types[f['rt']]
    return rt['k'] in ('bool', 'enum', 'int') and not has_loop(f['body']) and s.unit.get('merge', True)
Ex.mergeable_lambda = ex_ml
@EVH('CXXThrowExpr')
def _(s, n): raise CppThrow('throw')
@EVH('CXXNewExpr')
def _(s, n):
    if n.get('arr'): raise Unsupported('new[]')
    v = s.ev(n['i']) if n.get('i') else s.default_of(s.p.types[n['at']])
    if isinstance(v, Loc): v = s.read(v)
    return s.alloc(v, 'new')
@EVH('CXXDeleteExpr')
def _(s, n): return VOID
@EVH('PredefinedExpr')
def _(s, n): return s.alloc('')
@EVH('SourceLocExpr')
def _(s, n): return 0

# ---------------------------------------------------------------- statements
@STH('CompoundStmt')
def _(s, n):
    for c in n['c']: s.st(c)
@STH('NullStmt')
def _(s, n): pass
@STH('DeclStmt')
def _(s, n):
    for d in n['d']: s.declare(d)
@STH('ReturnStmt')
def _(s, n):
    e = n['e']
    if e is None: raise ReturnEx(VOID)
    fr = s.frames[-1]
    v = s.ev(e)
    rt = s.p.types[fr.rett] if fr.rett is not None else None
    if rt is not None and rt['k'] == 'ref':
        if not isinstance(v, Loc): v = s.alloc(v)
    elif is_gl(e) and isinstance(v, Loc): v = s.read(v)
    raise ReturnEx(v)
@STH('IfStmt')
def _(s, n):
    if n.get('init'): s.st(n['init'])
    if n.get('cv'): s.st(n['cv'])
    c = n['cond']
    if n.get('cx') and 'cv' in c: b = bool(c['cv'])
    else: b = s.branch(s.condval(s.rv(c)))
    if b: s.st(n['then'])
    elif n['else']: s.st(n['else'])
def ex_condval(s, v):
    if isz(v): return zbool(v)
    if isinstance(v, (bool, int, Fraction)): return bool(v)
    if v is NULL: return False
    if isinstance(v, Loc): return True
    raise Unsupported('condition ' + type(v).__name__)
Ex.condval = ex_condval
@STH('BreakStmt')
def _(s, n): raise BreakEx()
@STH('ContinueStmt')
def _(s, n): raise ContinueEx()
@STH('SwitchStmt')
def _(s, n):
    if n.get('init'): s.st(n['init'])
    v = s.rv(n['cond'])
    stmts = []     # flattened (labels, stmt)
    def flat(st):
        labs = []
        while st is not None and st['k'] in ('CaseStmt', 'DefaultStmt'):
            labs.append('default' if st['k'] == 'DefaultStmt' else s.rv(st['lhs']))
            st = st['sub']
        return labs, st
    body = n['body']
    kids = body['c'] if body['k'] == 'CompoundStmt' else [body]
    for c in kids: stmts.append(flat(c))
    start = None; dflt = None
    for i, (labs, st) in enumerate(stmts):
        for lb in labs:
            if lb == 'default' and isinstance(lb, str): dflt = i; continue
            if start is None and s.branch(cmp_('==', v, lb)): start = i
        if start is not None: break
    if start is None:
        # a default label may come before later cases
        if dflt is None:
            for i, (labs, st) in enumerate(stmts):
                if 'default' in [l for l in labs if isinstance(l, str)]: dflt = i
        start = dflt
    if start is None: return
    try:
        for labs, st in stmts[start:]:
            if st is not None: s.st(st)
    except BreakEx: pass
@STH('CXXTryStmt')
def _(s, n): s.st(n['c'][0])

# ---------------------------------------------------------------- discharge
CVC5 = None
def discharge(ctx, goal, rlimit, hints=(), unit=None):
    """-> (status, backend, model)"""
    fs = list(ctx) + [z3.Not(goal)] + [zbool(h) for h in hints]
    s = z3.Solver(); s.set('rlimit', rlimit); s.set('timeout', 60000)
    s.add(*fs)
    r = s.check()
    if r == z3.unsat: return 'proved', 'z3', None
    if r == z3.sat: return 'refuted', 'z3', s.model()
    try:
        g = z3.Goal(); g.add(*fs)
        t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'solve-eqs', 'qfnra-nlsat')
        s = t.solver(); s.set('rlimit', rlimit); s.set('timeout', 60000); s.add(*fs)
        r = s.check()
        if r == z3.unsat: return 'proved', 'z3-nlsat', None
        if r == z3.sat: return 'refuted', 'z3-nlsat', s.model()
    except z3.Z3Exception: pass
    r = cvc5_check(fs)
    if r == 'unsat': return 'proved', 'cvc5', None
    return 'unknown', 'none', None
def cvc5_check(fs, tlimit=30000):
    import subprocess, tempfile, os
    s = z3.Solver(); s.add(*fs)
    txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt); p = f.name
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={tlimit}', p], capture_output=True, text=True, timeout=tlimit / 1000 + 10)
        return r.stdout.strip().split('\n')[0] if r.stdout else 'error'
    except Exception: return 'error'
    finally: os.unlink(p)

# ---------------------------------------------------------------- exploration of one unit
def run_unit(prog, unit):
    """unit: dict(name, run=callable(ex)); returns Stats + outcome"""
    st = Stats()
    loops = {}
    t0 = time.time()
    maxp = unit.get('maxpaths', 3000)
    tlimit = unit.get('tlimit', 300)
    out = {'name': unit['name'], 'status': 'proved', 'reason': ''}
    while True:
        st.obl = []; st.paths = 0
        stack = [[]]
        try:
            while stack:
                pre = stack.pop()
                ex = Ex(prog, unit, pre, st, loops)
                try:
                    unit['run'](ex)
                    if not st.covered: st.covered = ex.check([], timeout=4000) != z3.unsat   # the contract's assumptions are reachable
                except PathEnd: pass
                stack.extend(ex.pending)
                st.paths += 1
                if st.paths > maxp: raise TooManyPaths(str(maxp))
                if time.time() - t0 > tlimit: raise TooManyPaths('time')
            break
        except Restart:
            continue
        except (Unsupported, TooManyPaths, OutOfBounds, CppThrow, MergeFail, BreakEx, ContinueEx, ReturnEx) as e:
            out['status'] = 'undecided'; out['reason'] = f'{type(e).__name__}: {e} (line {getattr(ex, "cur_line", None)})'
            break
        except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
            import traceback
            out['status'] = 'undecided'; out['reason'] = f'engine {type(e).__name__}: {e} (line {getattr(ex, "cur_line", None)})'
            out['trace'] = traceback.format_exc()[-1500:]
            break
    out['stats'] = st; out['t'] = time.time() - t0
    ref = [o for o in st.obl if o['status'] == 'refuted']
    unk = [o for o in st.obl if o['status'] == 'unknown']
    if ref: out['status'] = 'refuted'
    elif out['status'] == 'proved' and unk: out['status'] = 'undecided'; out['reason'] = f'{len(unk)} obligations unknown'
    elif out['status'] == 'proved' and (not st.obl or not st.covered): out['status'] = 'undecided'; out['reason'] = 'vacuous: no obligation reached'
    return out

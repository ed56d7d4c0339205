"""Loop rule.  A loop with a contract (invariant) is cut: the invariant is proved on entry, the locations the body writes
are havocked (set found by logging writes; the unit is restarted whenever the set grows), the invariant is assumed, and
one arbitrary iteration is shown to re-establish it.  A loop without contract is unrolled; if its condition does not
become decided within the cap the unit is undecided (never 'proved')."""
from .engine import *
from .engine import STH, is_gl
import z3

class Loop:
    """contract of one loop.  inv(s, L) yields (name, formula); L.k is the ghost number of completed iterations"""
    def __init__(self, inv=None, assume=None, havoc=None, variant=None, begin=None, end=None, breaks=None):
        self.inv = inv; self.assume = assume; self.havoc = havoc; self.variant = variant; self.begin = begin; self.end = end

class LCtx:
    def __init__(self, s, k, pre): self.s = s; self._k = k; self.pre = pre; self.ghost = {}; self.n = None; self.frame = s.frames[-1]; self.uses_k = False
    @property
    def k(self): self.uses_k = True; return self._k
    def loc(self, name):
        for fr in reversed(self.s.frames):
            i = fr.nm.get(name)
            if i is not None and i in fr.vars: return fr.vars[i]
        raise Unsupported(f'loop contract: no variable {name}')
    def v(self, name): return self.s.read(self.loc(name))
    def has(self, name):
        try: self.loc(name); return True
        except Unsupported: return False
    def at_entry(self, loc):
        v = self.pre.get(loc.addr)
        if v is None: raise Unsupported('loop contract: variable not live at entry')
        for p in loc.path: v = self.s.get(v, p)
        return v
    def old(self, name): return self.at_entry(self.loc(name))
    @property
    def this(self): return self.s.read(self.frame.this)
    @property
    def old_this(self): return self.at_entry(self.frame.this)

def loop_ids(f):
    m = f.get('_lid')
    if m is None:
        m = {}; c = [0]
        def walk(n):
            if isinstance(n, dict):
                if n.get('k') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'): m[id(n)] = c[0]; c[0] += 1
                for v in n.values():
                    if isinstance(v, (dict, list)): walk(v)
            elif isinstance(n, list):
                for v in n: walk(v)
        walk(f.get('body')); f['_lid'] = m
    return m

def counter(n):
    """the variable of a for loop that is incremented by one per iteration and only read otherwise"""
    i = n.get('inc') if n.get('k') == 'ForStmt' else None
    if not i or i.get('k') != 'UnaryOperator' or i.get('op') != '++' or i['e'].get('k') != 'DeclRefExpr': return None
    r = i['e']['r']
    def reads(x):
        if isinstance(x, list): return all(reads(y) for y in x)
        if not isinstance(x, dict): return True
        if x.get('k') == 'ImplicitCastExpr' and x.get('ck') == 'LValueToRValue' and isinstance(x.get('e'), dict) and x['e'].get('k') == 'DeclRefExpr': return True
        if x.get('rk') == 'var' and x.get('r') == r: return False
        if x.get('k') == 'LambdaExpr': return False
        return all(reads(y) for y in x.values())
    return r if reads(n.get('body')) and reads(n.get('cond')) else None

def norm_path(path):
    r = []
    for p in path:
        if isinstance(p, tuple): r.append('[]'); break
        r.append(p)
    return tuple(r)

def note_write(s, loc):
    nm = s.names.get(loc.addr); p = norm_path(loc.path)
    for e in s.loopstack:
        if e.get('havocking'): continue
        if loc.addr >= e['next0']: continue
        if any(h[0] == nm and p[:len(h[1])] == h[1] for h in e['set']): continue
        e['set'].add((nm, p))
        raise Restart()
Ex.note_write = note_write

def havoc_val(s, v, ty, name):
    p = s.p
    if ty is not None and ty['k'] == 'ref': ty = p.types[ty['p']]
    if (v is NULL or isinstance(v, Loc)) and ty is not None and ty['k'] == 'rec' and ty.get('sq') == 'std::shared_ptr': return UNDEF     # reading it again is unsupported
    if v is UNDEF:
        if ty is None: return UNDEF
        g = p.gmp(ty)
        if g: return s.fresh(name, 'int' if g == 'Z' else 'real')
        if ty['k'] in ('int', 'enum'): v = 0
        elif ty['k'] == 'bool': v = False
        elif ty['k'] == 'float': v = Fraction(0)
        else: return UNDEF
    if isinstance(v, bool): return s.fresh(name, 'bool')
    if isinstance(v, int) and ty is not None and ty['k'] == 'int' and ty['w'] in (s.unit.get('bv') or ()): return s.fresh(name, z3.BitVecSort(ty['w']))
    if isinstance(v, int) or (isz(v) and v.sort() == z3.IntSort()):
        x = s.fresh(name, 'int')
        if ty is not None and ty['k'] == 'int' and not ty.get('sg'): s.assume(z3.And(x >= 0, x < (1 << ty['w'])))
        return x
    if isinstance(v, Fraction): return s.fresh(name, 'real')
    if isz(v): return s.fresh(name, v.sort())
    if isinstance(v, It): return It(v.c, s.fresh(name + '.i', 'int'), v.rev)
    if isinstance(v, Rec):
        r = p.recs.get(ty.get('d')) if ty is not None and ty['k'] == 'rec' else None
        ft = {f['n']: p.types[f['t']] for f in r['f']} if r else {}
        return Rec(v.q, {k: havoc_val(s, x, ft.get(k), f'{name}.{k}') for k, x in v.f.items()})
    if isinstance(v, Tup): return Tup([havoc_val(s, x, None, f'{name}.{i}') for i, x in enumerate(v.items)])
    if isinstance(v, Vec): return Vec([havoc_val(s, x, None, f'{name}[{i}]') for i, x in enumerate(v.items)])
    if isinstance(v, SVec):
        n = s.fresh(name + '.n', 'int'); s.assume(n >= 0)
        return SVec(n, [s.fresh(name + '.c', c.sort()) for c in v.cols], v.shape)
    if isinstance(v, Opt): return Opt(s.fresh(name + '.has', 'bool'), havoc_val(s, v.v, None, name + '.v'))
    h = getattr(v, 'havoc', None)
    if h: return h(s, name)
    if v is NULL or isinstance(v, (Loc, Closure, FnRef)): raise Unsupported(f'loop changes pointer {name}')
    raise Unsupported(f'havoc of {type(v).__name__}')

def do_havoc(s, e):
    for nm, path in sorted(e['set'], key=str):
        for a in [a for a in s.mem if s.names.get(a) == nm and a < e['next0']]:
            loc = Loc(a, path)
            short = nm.split(':')[-1].split('#')[0] + ''.join('.' + str(x) for x in path)
            elem = path and path[-1] == '[]'
            base = Loc(a, path[:-1]) if elem else loc
            try: cur = s.read(base)
            except Unsupported: cur = None
            if cur is None: raise Unsupported('havoc of unknown location')
            if elem:
                if isinstance(cur, SVec): nv = SVec(cur.n, [s.fresh(short + '.c', c.sort()) for c in cur.cols], cur.shape)
                elif isinstance(cur, Vec):
                    bt = s.ltype(base); et = s.p.types[bt['a'][0]] if bt is not None and bt.get('sq') in ('std::array', 'std::vector') and isinstance(bt['a'][0], int) else None
                    nv = Vec([havoc_val(s, x, et, short) for x in cur.items])
                elif isinstance(cur, Tup): nv = Tup([havoc_val(s, x, None, short) for x in cur.items])
                else:
                    h = getattr(cur, 'havoc', None)
                    if not h: raise Unsupported('havoc elem of ' + type(cur).__name__)
                    nv = h(s, short)
            else: nv = havoc_val(s, cur, s.ltype(loc), short)
            s.write(base, nv)

def ltype(s, loc):
    t = s.atypes.get(loc.addr)
    if t is None: return None
    ty = s.p.types[t]
    if ty['k'] == 'ref': ty = s.p.types[ty['p']]
    for p in loc.path:
        if isinstance(p, tuple) or p == '[]': return None
        r = s.p.recs.get(ty.get('d')) if ty['k'] == 'rec' else None
        nx = None
        while r is not None:
            for f in r['f']:
                if f['n'] == p: nx = s.p.types[f['t']]
            break
        if nx is None: return None
        ty = nx
        if ty['k'] == 'ref': ty = s.p.types[ty['p']]
    return ty
Ex.ltype = ltype

def loop_key(s, n):
    fr = s.frames[-1]
    f = s.p.funcs[fr.fid] if fr.fid is not None else None
    if f is None: return None, None
    nm = f['sn'].split('::')[-1]
    if nm == 'operator()' and fr.lambda_caps is not None:
        for o in reversed(s.frames[:-1]):
            if o.fid is not None and o.lambda_caps is None: nm = s.p.funcs[o.fid]['sn'].split('::')[-1] + '/lambda'; break
    return nm, loop_ids(f).get(id(n), 0)

def find_spec(s, n):
    ls = s.unit.get('loops')
    nm, o = loop_key(s, n)
    if not ls or nm is None: return None, nm, o
    for k in (f'{nm}#{o}', nm, '*'):
        if k in ls:
            sp = ls[k]
            if callable(sp) and not isinstance(sp, Loop): sp = sp(s, n)
            return sp, nm, o
    return None, nm, o

def run_loop(s, n, cond, body, inc, first_body=False, ranged=None):
    """cond/body/inc: thunks; ranged: (container loc, size, thunk binding index) for range-for over a modelled sequence"""
    spec, nm, o = find_spec(s, n)
    if spec is None:
        cap = s.unit.get('unroll', 40); it = 0
        if ranged is not None:
            size, bind = ranged
            size = simp(size) if isz(size) else size
            if isz(size) and s.unit.get('unroll_sym') is None: raise Unsupported(f'loop {nm}#{o} over a symbolic sequence has no contract')
            i = 0
            while (i < size) if not isz(size) else s.branch(lt(i, size)):
                if it > s.unit.get('unroll_conc', 400): raise Unsupported(f'loop {nm}#{o} too long')
                it += 1
                bind(i); i += 1
                try: body()
                except BreakEx: return
                except ContinueEx: pass
            return
        first = first_body; conc = 0
        while True:
            if not first:
                c = s.condval(cond())
                sym = isz(c) and isz(simp(c))
                if not s.branch(c): return
                if sym: it += 1
                else: conc += 1
            first = False
            if it > cap or conc > s.unit.get('unroll_conc', 400): raise Unsupported(f'loop {nm}#{o} has no contract and is not bounded by {cap} iterations')
            try: body()
            except BreakEx: return
            except ContinueEx: pass
            inc()
    # --- contract
    fr = s.frames[-1]
    key = (fr.site, nm, o)
    hs = s.loops.setdefault(key, set())
    e = {'set': hs, 'next0': s.next, 'name': nm}
    pre = dict(s.mem)
    nmn = f'{nm}#{o}'
    s.stats.loops.add(nmn)
    ghost = {}
    def ctx(k):
        L = LCtx(s, k, pre); L.ghost = ghost
        if ranged is not None: L.n = ranged[0]
        return L
    def prove_inv(k, when):
        L = ctx(k)
        if spec.inv:
            for name, fml in spec.inv(s, L): s.prove(f'loop {nmn}: {name} ({when})', fml, kind='invariant')
        return L.uses_k
    def assume_inv(k):
        L = ctx(k)
        if spec.inv:
            for name, fml in spec.inv(s, L): s.assume(fml)
        if spec.assume:
            for fml in spec.assume(s, L): s.assume(fml)
    if spec.begin: spec.begin(s, ctx(0))
    cl = c0 = None
    if prove_inv(0, 'holds on entry'):
        # the invariant speaks of the number of iterations: relate it to the counter of the loop
        r = counter(n)
        if r is not None and r in fr.vars:
            cl = fr.vars[r]; c0 = s.read(cl)
            if isinstance(c0, bool) or not (isinstance(c0, int) or (isz(c0) and z3.is_int(c0))): cl = None
    # nested loops note the havoc of inner locations for the outer ones through write()
    do_havoc(s, e)
    k = s.fresh('k_' + nmn, 'int'); s.assume(k >= 0)
    if ranged is not None: s.assume(le(k, ranged[0]))
    if spec.havoc: spec.havoc(s, ctx(k))
    if cl is not None: s.assume(eq(s.read(cl), add(c0, k)))
    assume_inv(k)
    if s.choose(2, nmn) == 0:
        # one arbitrary iteration
        s.loopstack.append(e)
        try:
            if ranged is not None:
                s.assume(lt(k, ranged[0])); ranged[1](k)
            elif not first_body:
                if not s.branch(s.condval(cond())): raise PathEnd()
            if spec.begin and False: pass
            brk = False
            v0 = spec.variant(s, ctx(k)) if spec.variant else None
            try: body()
            except BreakEx: brk = True
            except ContinueEx: pass
            if not brk:
                inc()
                if cl is not None: s.prove(f'loop {nmn}: the counter is the number of iterations (is preserved)', eq(s.read(cl), add(c0, add(k, 1))), kind='invariant')
                if spec.end: spec.end(s, ctx(add(k, 1)))
                if first_body:
                    if not s.branch(s.condval(cond())): s.loopstack.pop(); return
                prove_inv(add(k, 1), 'is preserved')
                if spec.variant:
                    v1 = spec.variant(s, ctx(add(k, 1)))
                    s.prove(f'loop {nmn}: terminates (variant decreases and is bounded)', AND(ge(v0, 0), lt(v1, v0)), kind='variant')
                raise PathEnd()
        finally:
            if s.loopstack and s.loopstack[-1] is e: s.loopstack.pop()
        return
    if ranged is not None: s.assume(eq(k, ranged[0])); s.last_k = k; return
    if first_body: raise PathEnd()
    if s.branch(s.condval(cond())): raise PathEnd()
    s.last_k = k

@STH('WhileStmt')
def _(s, n):
    def cond():
        if n.get('cv'): s.st(n['cv'])
        return s.rv(n['cond'])
    run_loop(s, n, cond, lambda: s.st(n['body']), lambda: None)
@STH('DoStmt')
def _(s, n): run_loop(s, n, lambda: s.rv(n['cond']), lambda: s.st(n['body']), lambda: None, first_body=True)
@STH('ForStmt')
def _(s, n):
    if n.get('init'): s.st(n['init'])
    run_loop(s, n, lambda: True if n.get('cond') is None else s.rv(n['cond']), lambda: s.st(n['body']), lambda: s.ev(n['inc']) if n.get('inc') else None)
@STH('CXXForRangeStmt')
def _(s, n):
    if n.get('init'): s.st(n['init'])
    s.st(n['range']); s.st(n['begin']); s.st(n['end'])
    fr = s.frames[-1]
    bl = None
    for st_ in (n['begin'],):
        for d in st_['d']: bl = fr.vars[d['id']]
    for d in n['end']['d']: el = fr.vars[d['id']]
    b = s.read(bl); e = s.read(el)
    if isinstance(b, It) and isinstance(e, It) and b.c == e.c and not isz(b.i) and b.i == 0:
        size = e.i
        def bind(i):
            s.mem[bl.addr] = It(b.c, i, b.rev)
        def body():
            s.st(n['lv']); s.st(n['body'])
        return run_loop(s, n, None, body, lambda: None, ranged=(size, bind))
    def body():
        s.st(n['lv']); s.st(n['body'])
    run_loop(s, n, lambda: s.rv(n['cond']), body, lambda: s.ev(n['inc']))

"""Shared helpers for the contract files: symbolic inputs that can be printed back as harness arguments."""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc.engine import *
import vc.models as M
from vc.models import *
from vc.loops import Loop
ST, WK, INF = 0, 1, 2

def mval(model, v):
    """python value of a scalar under a model"""
    if not isz(v): return v
    r = model.eval(v, model_completion=True)
    if z3.is_algebraic_value(r): r = r.approx(12)
    c = const(r)
    if isz(c):
        c = const(z3.simplify(c))
        if isz(c) and z3.is_bv_value(c): return c.as_long()
        if isz(c): raise ValueError('no value')
    return c
def qstr(x):
    x = Fraction(x)
    return str(x.numerator) if x.denominator == 1 else f'{x.numerator}/{x.denominator}'
PRINT = {
    'Q': lambda m, v: qstr(mval(m, v)),
    'Z': lambda m, v: str(int(mval(m, v))),
    'int': lambda m, v: str(int(mval(m, v))),
    'bool': lambda m, v: '1' if mval(m, v) else '0',
    'str': lambda m, v: v,
}
def inp(ex, kind, v):
    """remember an input so that a counter-model can be printed as a harness call"""
    ex.witness.setdefault('args', []).append((kind, v))
    return v
def describe(ex, model):
    return [PRINT[k](model, v) for k, v in ex.witness.get('args', [])]
def U(prop, name, run, op=None, **kw):
    d = dict(prop=prop, name=name, run=run, op=op, describe=describe)
    d.update(kw)
    return d

# contracts of carl::floor / carl::ceil on rationals (proved against their bodies by the units of C07), used by their callers
def K_round(up):
    def k(ex, f, this, args, node):
        if len(args) != 1 or ex.p.gmp(ex.p.deref_t(f['p'][0]['t'])) != 'Q': return NotImplemented
        x = ex.val(args[0])
        if not isz(x): return NotImplemented
        x = zreal(x); r = -z3.ToInt(-x) if up else z3.ToInt(x)
        # characterisation of floor/ceil at the ghost integers of the contract: k <= x iff k <= floor(x), k >= x iff k >= ceil(x)
        for k in ex.ghost.get('ints', []):
            ex.assume(IFF(zreal(k) >= x, k >= r) if up else IFF(zreal(k) <= x, k <= r))
        return ex.to_gmp(ex.p.gmp(ex.p.types[f['rt']]), r)
    return k
KFC = {'carl::floor': K_round(False), 'carl::ceil': K_round(True)}

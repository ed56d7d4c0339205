"""Contracts for quantities and durations with unit suffixes (C23).
The suffix tables are built by the code itself while it is executed; the parser (boost::spirit) is an assumed contract: a text is accepted iff it is a number followed by an entry
of the table handed to it (or by nothing, where the code makes the suffix optional) and the end of the text, with the number and the entry's factor as attributes."""
from .common import *
from vc.containers import *
from vc.engine import CppThrow
DRIVER = 'settings'; HARNESS = 'settings'
UNITS = []
NS = 'carl::settings'
Iv = z3.IntVal
def R(ex, root, *a): return ex.call_root(root, list(a))
def rd(ex, x):
    while isinstance(x, Loc): x = ex.read(x)
    return x
STR = lambda c: {v: k for k, v in STRCODE.items()}[c]
K, KI = 1000, 1024
UB = {'': 1, 'K': KI, 'Ki': KI, 'M': KI**2, 'Mi': KI**2, 'G': KI**3, 'Gi': KI**3, 'T': KI**4, 'Ti': KI**4, 'P': KI**5, 'Pi': KI**5, 'E': KI**6, 'Ei': KI**6}
UM = {'': 1, 'K': K, 'M': K**2, 'G': K**3, 'T': K**4, 'P': K**5, 'E': K**6}
UD = {'ns': 1, 'µs': K, 'us': K, 'ms': K**2, 's': K**3, 'm': 60 * K**3, 'h': 3600 * K**3}
# ------------------------------------------------------------------ std::chrono: durations as nanoseconds
import re
def period(name):
    m = re.search(r'std::chrono::duration<[^<]*std::ratio<(\d+), (\d+)>>', name); return Fraction(int(m.group(1)) * 10**9, int(m.group(2)))
def k_dur(ex, f, this, args, node):
    n = f['n']; i = n.rfind('>::duration'); p = period(n[:i + 1])
    if not args: r = ex.fresh('ns', 'int')            # not initialised
    else:
        a = rd(ex, args[0])
        if isinstance(a, Rec) and a.q == 'DUR': r = a.f['ns']
        elif isinstance(a, Rec) and f'{NS}::duration' == a.q: r = base(ex, a)
        else: assert p.denominator == 1; r = znum(ex.val(args[0])) * int(p)
    return Rec('DUR', {'ns': r})
def base(ex, a):
    if 'ns' in a.f: return a.f['ns']
    for v in a.f.values():
        v = rd(ex, v)
        if isinstance(v, Rec) and v.q == 'DUR': return v.f['ns']
    raise Unsupported('duration')
def k_times(ex, f, this, args, node):
    a, b = rd(ex, args[0]), rd(ex, args[1])
    if isinstance(b, Rec): a, b = b, a
    return Rec('DUR', {'ns': znum(a.f['ns']) * znum(b)})
def k_count(ex, f, this, args, node):
    a = rd(ex, this); return a.f['ns'] if a.q == 'DUR' else base(ex, a)
CH = {'std::chrono::duration::duration': k_dur, 'std::chrono::operator*': k_times, 'std::chrono::duration::count': k_count}
# ------------------------------------------------------------------ printing
def k_out(ex, f, this, args, node):
    os = this if this is not None else args[0]; x = rd(ex, args[-1])
    if isinstance(rd(ex, os), Rec) and rd(ex, os).q == 'OS' and (isscalar(x) or isinstance(x, str)): ex.write(os, Rec('OS', {'t': rd(ex, os).f['t'] + [x]})); return os
    return NotImplemented
OC = {**CH, 'std::basic_ostream::operator<<': k_out, 'std::operator<<': k_out}
def unit(name, op=None, contracts=None, **kw):
    def deco(fn): UNITS.append(U('C23', name, fn, op, assume_small=False, contracts={**OC, **(contracts or {})}, globals={'boost::spirit::' + n: (lambda ex, v, n=n: Rec('RULE', {'n': n})) for n in ('long_', 'ulong_long', 'eoi', 'qi::long_', 'qi::ulong_long', 'qi::eoi')}, **kw)); return fn
    return deco
def text(c):
    c = c if isinstance(c, str) else STR(c if isinstance(c, int) else int(str(z3.simplify(znum(c))))); return c.replace('\\302\\265', 'µ').replace('\xc2\xb5', 'µ')
def tdiv(a, b): return z3.If(a >= 0, a / b, -((-a) / b))
def quantity(ex, q, n): return ex.alloc(Rec(f'{NS}::{q}', {'mN': n}), 'q')
MAXU, MAXI = 2**64 - 1, 2**63 - 1
def size(ex, name='n'): n = ex.fresh(name, 'int'); ex.assume(z3.And(n >= 0, n <= MAXU)); return n
def printing(name, root, units, mk, lo, hi):
    @unit(f'print[{name}]', f'c23.print_{name[0]}', merge=False)
    def _(ex):
        n = inp(ex, 'int', ex.fresh('n', 'int')); ex.assume(z3.And(n >= lo, n <= hi)); os = ex.alloc(Rec('OS', {'t': []}), 'os'); R(ex, root, os, mk(ex, n)); t = rd(ex, os).f['t']
        ex.prove('a number and a suffix are printed', z3.BoolVal(len(t) == 2))
        if len(t) != 2: return
        s = text(t[1]); ex.prove('the suffix is one of the documented ones', z3.BoolVal(s in units))
        if s not in units: return
        u = units[s]; ex.prove('the number is the value divided by the unit', znum(t[0]) == tdiv(n, Iv(u)))
        ex.prove('the printed number is zero only for zero', z3.Implies(n != 0, z3.Or(znum(t[0]) != 0, z3.BoolVal(u == min(units.values())))))
        for v in sorted(set(units.values())):
            if v > u: ex.prove('the value is zero in every larger unit', z3.And(n < v, n > -v))
printing('binary', 'b_print', UB, lambda ex, n: quantity(ex, 'binary_quantity', n), 0, MAXU)
printing('metric', 'm_print', UM, lambda ex, n: quantity(ex, 'metric_quantity', n), 0, MAXU)
def mkdur(ex, n):
    d = Rec(f'{NS}::duration', {}); t = ex.p.recs if hasattr(ex.p, 'recs') else None; d.f[('base', 0)] = Rec('DUR', {'ns': n}); return ex.alloc(d, 'd')
printing('duration', 'd_print', UD, mkdur, -MAXI, MAXI)
# ------------------------------------------------------------------ scaled accessors and comparison
for _q, _t, _fs in (('binary_quantity', 'b', [('n', 1)] + [(p + 'bi', KI**(i + 1)) for i, p in enumerate(('ki', 'me', 'gi', 'te', 'pe', 'ex'))]), ('metric_quantity', 'm', [('n', 1)] + [(p, K**(i + 1)) for i, p in enumerate(('kilo', 'mega', 'giga', 'tera', 'peta', 'exa'))])):
    for _f, _u in _fs:
        @unit(f'{_t}_{_f}', f'c23.scaled_{_t}')
        def _(ex, q=_q, t=_t, fn=_f, u=_u): n = inp(ex, 'int', size(ex)); ex.prove('integer quotient by the unit', znum(R(ex, f'{t}_{fn}', quantity(ex, q, n))) == n / u)
    @unit(f'{_t}_compare', f'c23.compare_{_t}')
    def _(ex, q=_q, t=_t):
        a, b = inp(ex, 'int', size(ex)), inp(ex, 'int', size(ex, 'm')); ex.prove('equality', zbool(R(ex, f'{t}_eq', Rec(f'{NS}::{q}', {'mN': a}), Rec(f'{NS}::{q}', {'mN': b}))) == (a == b)); ex.prove('order', zbool(R(ex, f'{t}_less', Rec(f'{NS}::{q}', {'mN': a}), Rec(f'{NS}::{q}', {'mN': b}))) == (a < b))
# ------------------------------------------------------------------ reading
def k_symbols(ex, f, this, args, node): return Rec('SYM', {'add': ('table', ex.alloc([], 'table'))})
def reading(name, root, units, optional, result, signed):
    @unit(f'read[{name}]', f'c23.read_{name[0]}', merge=False, describe=lambda ex, m: [])
    def _(ex):
        table = {}; st = {}
        def entry(ex, f, this, args, node):
            s = text(rd(ex, args[0])); v = rd(ex, args[1]); table[s] = v; return this
        def seq(ex, f, this, args, node):
            o = ([this] if this is not None else []) + list(args); parts = []
            for a in o:
                x = rd(ex, a) if isinstance(a, Loc) else a
                parts += x.f['p'] if isinstance(x, Rec) and x.q == 'SEQ' else [x]
            return Rec('SEQ', {'p': parts})
        def opt(ex, f, this, args, node): return Rec('SEQ', {'p': ['optional']})
        def parse(ex, f, this, args, node):
            st['optional'] = 'optional' in rd(ex, args[2]).f['p']; st['parts'] = len(rd(ex, args[2]).f['p'])
            n = ex.fresh('number', 'int'); ex.assume(z3.And(n >= (-MAXI - 1 if signed else 0), n <= (MAXI if signed else MAXU))); keys = sorted(table) + ([None] if st['optional'] else []); c = ex.choose(len(keys) + 1, 'text')
            if c == len(keys): st['ok'] = False; return False
            st.update(ok=True, n=n, key=keys[c]); ex.write(args[3], n)
            if keys[c] is not None: ex.write(args[4], table[keys[c]])
            return True
        def store(ex, f, this, args, node): st['v'] = rd(ex, args[0]); return this
        cs = {'boost::program_options::validators::get_single_string': lambda *a: 1, 'boost::spirit::qi::symbols::symbols': lambda ex, f, this, args, node: Rec('SYM', {'add': Rec('ADD', {})}), 'boost::spirit::qi::symbols::adder::operator()': entry, 'boost::proto::exprns_::operator>>': seq, 'boost::proto::exprns_::operator-': opt,
              'boost::spirit::qi::parse': parse, 'boost::any::operator=': store, 'boost::program_options::invalid_option_value::invalid_option_value': lambda *a: Rec('ERR', {}), 'std::basic_string::begin': lambda *a: Rec('IT', {}), 'std::basic_string::end': lambda *a: Rec('IT', {})}
        ex.unit['contracts'].update(cs)
        try: R(ex, root, ex.alloc(Rec('ANY', {}), 'v'), ex.alloc(Rec('TEXT', {}), 's')); thrown = False
        except CppThrow: thrown = True
        ex.prove('a text is parsed', z3.BoolVal('ok' in st)); ex.prove('number, suffix and end of the text', z3.BoolVal(st.get('parts') == 3))
        if 'ok' not in st: return
        ex.prove('the suffix may be left out exactly where documented', z3.BoolVal(st['optional'] == optional)); ex.prove('the accepted suffixes are the documented ones', z3.BoolVal(set(table) | ({''} if st['optional'] else set()) == set(units)))
        ex.prove('other texts are rejected', z3.BoolVal(thrown == (not st['ok'])))
        if not st['ok']: ex.prove('nothing is stored for a rejected text', z3.BoolVal('v' not in st)); return
        ex.prove('a value is stored', z3.BoolVal('v' in st))
        if 'v' in st: u = units.get(st['key'] or '', 0); ex.prove('the value is the number times the unit', znum(result(ex, st['v'])) == st['n'] * u)
reading('binary', 'b_read', UB, True, lambda ex, v: v.f['mN'], False)
reading('metric', 'm_read', UM, True, lambda ex, v: v.f['mN'], False)
reading('duration', 'd_read', UD, False, lambda ex, v: v.f['ns'] if v.q == 'DUR' else base(ex, v), True)

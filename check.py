#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]  --  decides one property on /repo's current working tree.

1. mirrors the sources, extracts the functions under contract with clang and builds the oracle binaries
2. generates the verification conditions of every unit of the property and discharges them (z3, nlsat, cvc5)
3. runs the bounded run-time oracles of the property on the compiled code
4. replays counterexamples; prints VIOLATION lines; rewrites evidence/<id>.json"""
import fcntl, importlib, json, multiprocessing as mp, os, re, shutil, subprocess, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF); sys.path.insert(0, os.path.join(VERIF, 'tools'))
sys.setrecursionlimit(20000)
import build
from specs import SPECS

def load(prop):
    """spec modules that contain units or oracles of the property"""
    r = []
    for name, props in SPECS.items():
        if prop in props: r.append(importlib.import_module('specs.' + name))
    return r

PROG = {}; JOBS = []
def work(i):
    from vc.engine import run_unit
    mod, u = JOBS[i]
    try: o = run_unit(PROG[mod.DRIVER], u)
    except BaseException as e:
        return {'name': u['name'], 'status': 'undecided', 'reason': f'engine {type(e).__name__}: {e}', 'obl': [], 'paths': 0, 't': 0, 'solver': 0, 'funcs': [], 'assume': [], 'loops': [], 'ext': []}
    st = o['stats']
    return {'name': o['name'], 'status': o['status'], 'reason': o['reason'], 't': o['t'], 'paths': st.paths, 'solver': st.solver_s,
            'obl': [{k: b.get(k) for k in ('name', 'kind', 'status', 'by', 't', 'inputs', 'goal', 'line')} | {'modeltxt': str(b['model'])[:3000] if b.get('model') is not None else None} for b in st.obl],
            'funcs': sorted(st.funcs), 'assume': sorted(st.assumptions), 'loops': sorted(st.loops), 'ext': sorted(st.external)}

def run_units(mods, prop, tier, deadline):
    from vc.engine import Program
    for m in mods:
        p = os.path.join(build.WORK, 'x', m.DRIVER + '.json')
        if m.DRIVER in PROG or not os.path.exists(p): continue
        try: PROG[m.DRIVER] = Program(p)
        except Exception as e: print(f'note: extraction of {m.DRIVER} unusable: {e}')
    missing = []
    for m in mods:
        for u in m.UNITS:
            if u['prop'] != prop: continue
            if u.get('thorough') and tier != 'thorough': continue
            if m.DRIVER in PROG: JOBS.append((m, u))
            else: missing.append(u['name'])
    order = sorted(range(len(JOBS)), key=lambda i: -JOBS[i][1].get('cost', 0))
    res = []
    if order:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(min(8, len(order)), maxtasksperchild=200)
        it = pool.imap_unordered(work, order)
        try:
            for _ in order:
                left = deadline - time.time()
                if left <= 0: raise mp.TimeoutError()
                res.append(it.next(timeout=left))
        except mp.TimeoutError: pass
        pool.terminate(); pool.join()
    seen = {r['name'] for r in res}
    for m, u in JOBS:
        if u['name'] not in seen: missing.append(u['name'])
    for n in missing:
        res.append({'name': n, 'status': 'undecided', 'reason': 'not reached (extraction failed or time limit)', 'obl': [], 'paths': 0, 't': 0, 'solver': 0, 'funcs': [], 'assume': [], 'loops': [], 'ext': []})
    return res

def hbin(m): return os.path.join(build.WORK, 'h', m.HARNESS)
def run_harness(mods, prop, seed, tier, deadline):
    """all oracles of the property; returns [(binary, op, ok, text)]"""
    out = []; procs = []
    scale = '1' if tier == 'quick' else '10'; per = '25' if tier == 'quick' else '300'
    for b in sorted({hbin(m) for m in mods if m.HARNESS}):
        if not os.path.exists(b): continue
        for sh in range(8):
            procs.append((b, subprocess.Popen([b, 'run', str(seed), scale, prop.lower() + '.*', per, str(sh), '8'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    for b, p in procs:
        try: txt, _ = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); txt, _ = p.communicate()
        for l in (txt or '').splitlines():
            m = re.match(r'(OK|FAIL) (\S+)(.*)', l)
            if m: out.append((b, m.group(2), m.group(1) == 'OK', m.group(3).strip()))
    return out

def replay(b, op, args):
    try:
        r = subprocess.run([b, 'case', op] + [str(a) for a in args], capture_output=True, text=True, timeout=30)
    except subprocess.TimeoutExpired: return True, 'no answer within 30 s'
    if r.returncode in (0, 2) and not r.stdout.startswith('FAIL'): return False, r.stdout
    return True, (r.stdout + r.stderr)[-2000:] or f'terminated with status {r.returncode}'

def known(prop):
    k = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: k.append((re.compile(m.group(2)), m.group(3)))
    return k

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); limit = 780 if tier == 'quick' else 6 * 3600
    os.makedirs(build.WORK, exist_ok=True)
    lock = open(os.path.join(build.WORK, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    mods = load(prop)
    build.prepare()
    targets = sorted({os.path.join(build.WORK, 'x', m.DRIVER + '.json') for m in mods if m.DRIVER} | {hbin(m) for m in mods if m.HARNESS})
    for t in targets:
        # nothing stale may be checked
        if t.endswith('.json') and os.path.exists(t): os.unlink(t)
    ok, log = build.ninja(targets, timeout=limit * 0.6)
    fresh = True
    if not ok:
        print('note: build of the checking artefacts reported:\n' + log[-1500:])
        for t in targets:
            if not t.endswith('.json'):
                o, l = build.ninja([t], timeout=300)
                if not o and os.path.exists(t): os.unlink(t)
    tb = time.time() - t0
    res = run_units(mods, prop, tier, t0 + limit * 0.62)
    tu = time.time() - t0 - tb
    hres = run_harness(mods, prop, seed, tier, t0 + limit)
    th = time.time() - t0 - tb - tu
    units = {u['name']: (m, u) for m in mods for u in m.UNITS if u['prop'] == prop}
    rdir = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'): os.unlink(os.path.join(rdir, f))
    viol = []; knownhits = []; kn = known(prop); undecided = []; imprecise = []
    def report(kind, ident, text, nofail=False):
        for rx, what in kn:
            if rx.search(ident): knownhits.append(what); return
        viol.append((kind, ident, text, nofail))
    hfail = [h for h in hres if not h[2]]
    for b, op, _, txt in hfail:
        args = txt.lstrip('| ').split(' :: ')[0]
        report('oracle', f'{op} {args}', f'oracle {op} (bounded run-time check of the compiled code) failed\ninput: {args}\nreason: {txt}\nreplay: {b} case {op} {args}\n')
    failed_ops = {h[1] for h in hfail}
    nrefuted = 0
    for r in res:
        if r['status'] == 'undecided':
            undecided.append(f'{r["name"]}: {r["reason"]}')
            m, u = units[r['name']]
            for o in [o for o in r['obl'] if o['status'] == 'unknown' and o.get('inputs')][:4]:
                if not (u.get('op') and m.HARNESS and os.path.exists(hbin(m))): break
                f, txt = replay(hbin(m), u['op'], o['inputs'])
                if f: report('obligation', f'{r["name"]} {o["name"]}', f'unit: {r["name"]}\nundischarged obligation: {o["name"]} (line {o["line"]})\ncandidate input of the verifier: {" ".join(o["inputs"])}\nreplayed on the compiled code: {txt}\nreplay: {hbin(m)} case {u["op"]} {" ".join(o["inputs"])}\n'); break
            continue
        if r['status'] != 'refuted': continue
        nrefuted += 1
        m, u = units[r['name']]
        bad = [o for o in r['obl'] if o['status'] == 'refuted']
        hit = None; tried = []
        if u.get('op') and m.HARNESS and os.path.exists(hbin(m)):
            for o in bad[:12]:
                if not o.get('inputs'): continue
                f, txt = replay(hbin(m), u['op'], o['inputs']); tried.append((o['inputs'], txt.strip()))
                if f: hit = (o, txt); break
        head = f'unit: {r["name"]}\nfailed obligations:\n' + ''.join(f'  {o["name"]} (line {o["line"]}, refuted by {o["by"]})\n' for o in bad[:20])
        if hit:
            o, txt = hit
            report('obligation', f'{r["name"]} {o["name"]}', head + f'counterexample of the verifier: {" ".join(o["inputs"])}\nreplayed on the compiled code: {txt}\nreplay: {hbin(m)} case {u["op"]} {" ".join(o["inputs"])}\n')
        elif u.get('op') in failed_ops:
            report('obligation', f'{r["name"]} {bad[0]["name"]}', head + f'verifier output:\n{bad[0]["goal"]}\nmodel: {bad[0]["modeltxt"]}\nfailing input of the same function: see the oracle report for {u["op"]}\n')
        elif tried and not r['loops'] and not u.get('contracts') and not u.get('weak_oracle'):
            # loop-free, call-free counterexample that the compiled code does not show: over-approximation of the model
            imprecise.append(f'{r["name"]}: countermodel not confirmed by the compiled code')
        else:
            report('obligation', f'{r["name"]} {bad[0]["name"]}', head + f'verifier output (negated goal satisfiable):\n{bad[0]["goal"]}\nmodel: {bad[0]["modeltxt"]}\nno failing input found: the counterexample concerns an intermediate state or did not reproduce\n{tried}\n', True)
    obl = [o for r in res for o in r['obl']]
    disch = [o for o in obl if o['status'] == 'proved']
    by = {}
    for o in disch: by[o['by']] = by.get(o['by'], 0) + 1
    funcs = sorted({(f[0], (f[1] or '').split('/.work/src/')[-1], f[2]) for r in res for f in r['funcs']})
    bounded = {op: txt for _, op, ok_, txt in hres if ok_}
    cases = sum(int(m.group(1)) for t in bounded.values() for m in [re.search(r'cases=(\d+)', t)] if m)
    first = [h for h in viol if not h[3]] + [h for h in viol if h[3]]
    lines = []
    for i, (kind, ident, text, nofail) in enumerate(first[:25]):
        p = os.path.join(rdir, f'{prop}-{i}.txt')
        open(p, 'w').write(f'property: {prop}\n{text}')
        lines.append(f'VIOLATION property={prop} replay={p}' + (' no-failing-input-found' if nofail else ''))
    from specs import NOTES
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': len(obl), 'discharged': len(disch), 'checker_cmd': f'python3-vt check.py {prop} {tier}',
              'trusted_base': ['clang 18 front end and the AST extractor tools/extract', 'VC generator vc/ (own)', 'z3 4.x, cvc5', 'contracts of external functions in vc/models.py, vc/containers.py'],
              'units': len(res), 'units_proved': sum(r['status'] == 'proved' for r in res), 'units_refuted': nrefuted, 'units_undecided': undecided[:200], 'unconfirmed_countermodels': imprecise[:50],
              'discharged_by': by, 'solver_s': round(sum(r['solver'] for r in res), 2), 'paths': sum(r['paths'] for r in res),
              'invariant_obligations': sum(o['kind'] == 'invariant' for o in obl), 'loops_with_invariant': sorted({l for r in res for l in r['loops']}),
              'functions_under_contract': [f'{a} ({b}:{c})' for a, b, c in funcs if not b.startswith('/usr') and 'drivers/' not in b][:400],
              'callees_by_contract': sorted({k for _, (m, u) in units.items() for k in (u.get('contracts') or {})}),
              'bounded_oracles': bounded, 'bounded_cases': cases, 'bounded_note': 'bounded run-time oracles are a stand-in for code outside the verifier and a replay target; they are not counted as proved',
              'build_s': round(tb, 1), 'verify_s': round(tu, 1), 'oracle_s': round(th, 1)},
          'assumptions': sorted({a for r in res for a in r['assume']} | set(NOTES.get(prop, [])) | {'termination is not proved (partial correctness)', 'machine integers are treated as mathematical integers except where wrap-around is modelled explicitly'}),
          'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print(f'{prop} {tier}: {len(disch)}/{len(obl)} obligations discharged in {len(res)} units ({len(undecided)} undecided, {nrefuted} refuted, {len(imprecise)} unconfirmed); {len(bounded)} bounded oracles, {cases} cases; {ev["wall_s"]} s')
    for u in undecided[:15]: print('  undecided:', u[:300])
    for u in imprecise[:5]: print('  unconfirmed:', u[:300])
    for w in sorted(set(knownhits)): print(f'KNOWN-FINDING: property={prop} {w}')
    for l in lines: print(l)
    if viol: return 1
    if not disch and not bounded:
        print('error: nothing could be checked'); return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())

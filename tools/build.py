"""Builds everything a check needs from /repo's current working tree into /verif/.work (ninja, incremental)."""
import os, sys, shutil, subprocess, re, filecmp
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
SRC = os.path.join(WORK, 'src')
CLANG_RES = '/usr/lib/llvm-18/lib/clang/18'
MIRROR = ['carl', 'carl-logging', 'carl-covering', 'carl-settings', 'carl-statistics', 'carl-extpolys']
DEFS = {'LOGGING': 0, 'CARL_BUILD_DEBUG': 1, 'CARL_DEVOPTION_Symlinks': 0, 'USE_BLISS': 1, 'PRUNE_MONOMIAL_POOL': 1, 'RAN_USE_INTERVAL': 1}

def copy_if_changed(a, b):
    if os.path.exists(b) and filecmp.cmp(a, b, shallow=False): return
    os.makedirs(os.path.dirname(b), exist_ok=True)
    shutil.copyfile(a, b)

def write_if_changed(p, txt):
    if os.path.exists(p) and open(p).read() == txt: return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(txt)

def gen_config(infile):
    """fallback generation of a config.h from its .in (same options as the project build)"""
    out = []
    for l in open(infile, encoding='utf-8'):
        m = re.match(r'\s*#\s*cmakedefine\s+(\w+)(.*)', l)
        if m:
            n = m.group(1)
            out.append(f'#define {n}{m.group(2)}\n' if DEFS.get(n) else f'/* #undef {n} */\n')
        else:
            l = re.sub(r'(CARL_BUILD_)(@\w+@|\$\{\w+\})', r'\1DEBUG', l)
            out.append(re.sub(r'@\w+@|\$\{\w+\}', '0', l))
    return ''.join(out)

def mirror():
    seen = set()
    for top in MIRROR:
        base = os.path.join(REPO, 'src', top)
        if not os.path.isdir(base): continue
        for d, _, fs in os.walk(base):
            for f in fs:
                if not f.endswith(('.h', '.tpp', '.cpp', '.in', '.hpp')): continue
                a = os.path.join(d, f)
                rel = os.path.relpath(a, os.path.join(REPO, 'src'))
                if f.endswith('.in'):
                    tgt = a[:-3]
                    if not os.path.exists(tgt):
                        r2 = rel[:-3]
                        seen.add(r2)
                        write_if_changed(os.path.join(SRC, r2), gen_config(a))
                    continue
                seen.add(rel)
                copy_if_changed(a, os.path.join(SRC, rel))
    for d, _, fs in os.walk(SRC):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, SRC) not in seen: os.unlink(p)

CXX = 'g++ -std=c++17 -w -O1 -pthread -fno-var-tracking'
LIBDIRS = ['carl/core', 'carl/util', 'carl/formula', 'carl/numbers/adaption_gmpxx', 'carl-covering', 'carl-settings', 'carl-logging']
SKIPCPP = ('CheckpointVerifier.cpp', 'debug.cpp', 'SettingsParser.cpp')
def libcpp():
    r = []
    for d0 in LIBDIRS:
        for d, _, fs in os.walk(os.path.join(SRC, d0)):
            for f in fs:
                if f.endswith('.cpp') and f not in SKIPCPP: r.append(os.path.relpath(os.path.join(d, f), SRC))
    return sorted(r)

def ninja_file():
    o = []
    inc = f'-I{SRC} -isystem /usr/include/eigen3'
    o.append(f'rule cxx\n command = {CXX} {inc} $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n')
    o.append('rule link\n command = g++ -pthread $in -o $out $libs\n')
    o.append(f'rule xt\n command = {WORK}/extract $out $in {SRC}/,{VERIF}/drivers/,boost/numeric/interval -- -resource-dir {CLANG_RES} -w -std=c++17 -DNDEBUG -DVP_EXTRACT -I{SRC} -isystem /usr/include/eigen3 > $out.log 2>&1\n')
    o.append('rule xtool\n command = g++ -O1 -std=c++17 -fno-rtti -DNDEBUG -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -w $in -o $out /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so.18.1\n')
    o.append(f'build {WORK}/extract: xtool {VERIF}/tools/extract/extract.cpp\n')
    libo = []
    for c in libcpp():
        ob = f'{WORK}/obj/{c}.o'
        o.append(f'build {ob}: cxx {SRC}/{c}\n')
        libo.append(ob)
    for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
        if f.endswith('.cpp'):
            n = f[:-4]
            txt = open(os.path.join(VERIF, 'harness', f)).read()
            m = re.search(r'//\s*links:(.*)', txt)
            need = m.group(1).split() if m else []
            objs = libo if need == ['ALL'] else [f'{WORK}/obj/{c}.o' for c in need if os.path.exists(os.path.join(SRC, c))]
            m = re.search(r'//\s*libs:(.*)', txt)
            libs = (m.group(1).strip() if m else '') + ' -lgmpxx -lgmp'
            o.append(f'build {WORK}/h/{n}.o: cxx {VERIF}/harness/{f}\n flags = -I{VERIF}/harness\n')
            o.append(f'build {WORK}/h/{n}: link {WORK}/h/{n}.o {" ".join(objs)}\n libs = {libs}\n')
    for f in sorted(os.listdir(os.path.join(VERIF, 'drivers'))):
        if f.endswith('.cpp'):
            n = f[:-4]
            # always re-extracted: the source text is mirrored only when it changed, dependencies are the whole mirror
            o.append(f'build {WORK}/x/{n}.json: xt {VERIF}/drivers/{f} | {WORK}/extract always\n')
    o.append('rule touch\n command = true\nbuild always: touch\n')
    write_if_changed(os.path.join(WORK, 'build.ninja'), '\n'.join(o))

def prepare():
    os.makedirs(WORK, exist_ok=True)
    mirror(); ninja_file()

def ninja(targets, timeout=800):
    r = subprocess.run(['ninja', '-C', WORK, '-k', '0', '-j', '8'] + targets, capture_output=True, text=True, timeout=timeout)
    return r.returncode == 0, r.stdout[-6000:] + r.stderr[-2000:]

if __name__ == '__main__':
    import fcntl
    prepare()
    t = [os.path.join(WORK, x) for x in sys.argv[1:]]
    ok, out = ninja(t)
    if not ok: print(out)
    sys.exit(0 if ok else 1)

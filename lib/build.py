#!/usr/bin/env python3
"""Compile /repo's current sources + a harness to LLVM bitcode (symbolic) or a native replay binary."""
import os, re, sys, subprocess, hashlib, glob, shutil, concurrent.futures as cf, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.environ.get('VT_BUILD', os.path.join(V, 'build'))
LLVM = '/usr/lib/llvm-18/bin'
CLANG = LLVM + '/clang++' if os.path.exists(LLVM + '/clang++') else 'clang++-18'
DEFS = ['-DHXHIM_HAVE_LEVELDB=1', '-DHXHIM_HAVE_ROCKSDB=1', '-DSYSTEM_BIG_ENDIAN=0', '-DDEBUG']
MPI = ['-DOMPI_SKIP_MPICXX=1', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
OPT = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-fno-discard-value-names', '-fno-strict-aliasing', '-fwrapv', '-fno-pie']
SYM = ['-std=c++17', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVT_SYMBOLIC=1', '-U_FORTIFY_SOURCE', '-fno-threadsafe-statics']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sources():
    r = []
    for f in sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True)):
        rel = os.path.relpath(f, REPO)
        if 'Thallium' in rel or rel == 'src/transport/Options.cpp':
            continue
        r.append(f)
    return r

def tree_hash():
    h = hashlib.sha256()
    for d in ('include', 'src'):
        for root, _, files in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    for d in ('shim', 'runtime', 'models', 'harness'):
        for root, _, files in sorted(os.walk(os.path.join(V, d))):
            for f in sorted(files):
                p = os.path.join(root, f)
                if f.endswith(('.h', '.hpp')) or d == 'shim':
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def overlay(work):
    """clang rejects default template arguments that are repeated on a definition (the project is built with g++-11):
       provide the affected headers with the repeated defaults dropped."""
    od = os.path.join(work, 'overlay')
    for rel in ('datastore/transform.tpp',):
        p = os.path.join(REPO, 'include', rel)
        if not os.path.exists(p):
            continue
        t = open(p).read()
        t2 = re.sub(r'(template\s*<\s*typename\s+T\s*,\s*typename)\s*=\s*[^\n]*>[ \t]*\n', r'\1>\n', t)
        q = os.path.join(od, rel)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        new = '#line 1 "%s"\n%s' % (p, t2)
        if not os.path.exists(q) or open(q).read() != new:
            open(q, 'w').write(new)
    # transform.hpp includes "datastore/transform.tpp": found next to the includer only via -I, so the overlay comes first
    return od

def engine():
    r = sh(['make', '-s', '-j8', '-C', os.path.join(V, 'engine'), 'B=' + BUILD])
    if r.returncode:
        sys.stderr.write(r.stdout); raise SystemExit(2)
    return os.path.join(BUILD, 'symex')

_th = None
def compile_bc(srcs, work, extra=()):
    """srcs: list of absolute paths. Returns list of .bc"""
    global _th
    if _th is None:
        _th = tree_hash()
    od = overlay(work)
    cache = os.path.join(BUILD, 'cache'); os.makedirs(cache, exist_ok=True)
    def one(s):
        inrt = s.startswith(V)
        flags = SYM + OPT + list(extra) + DEFS + ['-I' + V + '/shim', '-I' + od, '-I' + V + '/runtime', '-I' + V + '/models', '-I' + V + '/harness', '-I' + REPO + '/include', '-I' + REPO + '/src'] + MPI + ['-include', 'cstdint', '-include', 'cstring', '-include', 'cstdlib']
        if s.startswith(V + '/runtime'):
            flags += ['-fno-builtin']
        key = hashlib.sha256((_th + s + ' '.join(flags)).encode() + open(s, 'rb').read()).hexdigest()[:24]
        o = os.path.join(cache, os.path.basename(s) + '.' + key + '.bc')
        if not os.path.exists(o):
            t = o + '.%d.tmp' % os.getpid()
            r = sh([CLANG] + flags + ['-emit-llvm', '-c', s, '-o', t])
            if r.returncode:
                return None, '%s:\n%s' % (s, '\n'.join([l for l in r.stdout.splitlines() if 'error' in l][:12]))
            os.rename(t, o)
        return o, ''
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    bad = [e for o, e in res if o is None]
    if bad:
        sys.stderr.write('COMPILE ERROR\n' + '\n'.join(bad)); raise SystemExit(2)
    return [o for o, _ in res]

def link(bcs, out, entries):
    t = out + '.tmp.bc'
    r = sh([LLVM + '/llvm-link', '-o', t] + bcs)
    if r.returncode:
        sys.stderr.write(r.stdout); raise SystemExit(2)
    keep = ','.join(entries)
    r = sh([LLVM + '/opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + keep, t, '-o', out])
    os.unlink(t)
    if r.returncode:
        sys.stderr.write(r.stdout); raise SystemExit(2)
    return out


def support():
    return sorted(glob.glob(V + '/runtime/*.cpp') + glob.glob(V + '/models/*.cpp'))

def symbolic(harnesses, work):
    """bitcode of /repo + models + each harness -> {harness: linked file}"""
    sup = [s for s in support() if 'native' not in os.path.basename(s)]
    hs = [V + '/harness/' + h + '.cpp' for h in harnesses]
    bcs = compile_bc(hs + sources() + sup, work)
    common = bcs[len(hs):]
    def one(i):
        out = os.path.join(work, harnesses[i] + '.bc')
        ents = sorted(set(re.findall(r'\bh_\w+', open(hs[i]).read())))
        # entries generated by token pasting are found in the compiled module
        r = sh([LLVM + '/llvm-nm', '--defined-only', bcs[i]])
        ents = [l.split()[-1] for l in r.stdout.splitlines() if re.match(r'h_\w+$', l.split()[-1])]
        return link([bcs[i]] + common, out, ents)
    with cf.ThreadPoolExecutor(4) as ex:
        return dict(zip(harnesses, ex.map(one, range(len(harnesses)))))

# ------------------------------------------------------------------ native replay builds
NATIVE_FLAGS = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize=vptr,nonnull-attribute,pointer-overflow,alignment,shift,signed-integer-overflow', '-O0', '-g1'],
    'plain': ['-O0', '-g1'],
    'tsan': ['-fsanitize=thread', '-O1', '-g1'],
}
_nat_lock = __import__('threading').Lock()
def native(kind, harness, work):
    """Native executable of the harness + /repo's sources, with the project's compiler and flags.  LevelDB and RocksDB are
    the installed libraries unless the harness starts with a line '// native-kv: model'; MPI is always the model."""
    od = os.path.join(work, 'native-' + kind)
    os.makedirs(od, exist_ok=True)
    hp = V + '/harness/' + harness + '.cpp'
    kvmodel = '// native-kv: model' in open(hp).read()
    models = [m for m in sorted(glob.glob(V + '/models/*.cpp')) if 'mpi' in m or 'vt_kv' in m or (kvmodel and 'leveldb' in m)]
    srcs = sources() + [V + '/runtime/native_vt.cpp', hp] + models + ([REPO + '/src/utils/mlog2.c'] if os.path.exists(REPO + '/src/utils/mlog2.c') else [])
    flags = ['-std=c++17', '-w', '-fno-strict-aliasing'] + NATIVE_FLAGS[kind] + DEFS + ['-I' + V + '/runtime', '-I' + V + '/models', '-I' + V + '/harness', '-I' + REPO + '/include', '-I' + REPO + '/src'] + MPI
    cxx = 'g++-11' if shutil.which('g++-11') else 'g++'
    def one(s):
        o = os.path.join(od, re.sub(r'[^A-Za-z0-9]', '_', s) + '.o')
        if not os.path.exists(o):
            f = [x for x in flags if x != '-std=c++17'] if s.endswith('.c') else flags
            r = sh([('gcc-11' if cxx == 'g++-11' else 'gcc') if s.endswith('.c') else cxx] + f + ['-c', s, '-o', o])
            if r.returncode:
                return None, s + '\n' + '\n'.join([l for l in r.stdout.splitlines() if 'error' in l][:6])
        return o, ''
    with _nat_lock:
        exe = os.path.join(od, harness)
        if os.path.exists(exe):
            return exe
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, srcs))
        bad = [e for o, e in res if o is None]
        if bad:
            sys.stderr.write('NATIVE COMPILE ERROR\n' + '\n'.join(bad[:5]) + '\n'); return None
        r = sh([cxx] + NATIVE_FLAGS[kind] + [o for o, _ in res] + ['-o', exe, '-rdynamic', '-lleveldb', '-lrocksdb', '-ldl', '-lpthread', '-lm'])
        if r.returncode:
            sys.stderr.write('NATIVE LINK ERROR\n' + r.stdout[-1500:] + '\n'); return None
    return exe

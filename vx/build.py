"""Compile /repo's current sources (+ a harness) to one LLVM bitcode module, or natively for replay."""
import os, re, subprocess, hashlib, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
DEV = os.environ.get('VX_CACHE')       # development only: content-addressed cache of bitcode

def flags():
    inc = [f'-I{VERIF}/harness', f'-I{REPO}/include', f'-I{REPO}/lib', f'-I{VERIF}/config', '-I/usr/include/eigen3']
    for d in ('/usr/lib/x86_64-linux-gnu/lorene/C++/Include', '/usr/lib/x86_64-linux-gnu/openmpi/include', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi'):
        if os.path.isdir(d): inc.append('-I' + d)
    return ['-std=c++17', '-DHAVE_CONFIG_H', '-DGYOTO_NO_DEPRECATED', '-w'] + inc

SYM = ['-O1', '-emit-llvm', '-c', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-fno-math-errno', '-fno-access-control',
       '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-unroll-loops', '-fno-builtin-printf', '-g0', '-fno-discard-value-names', '-mllvm', '-enable-gvn-hoist=0']

class BuildError(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode: raise BuildError(' '.join(cmd)[-400:] + '\n' + p.stderr[-3000:])
    return p.stdout

def src(tu):
    if os.path.isabs(tu): return tu
    if tu.endswith('.cpp'): return f'{VERIF}/harness/{tu}'
    return f'{REPO}/lib/{tu}'

_CON = re.compile(r'(?:tail |musttail |notail )?call \w+ @llvm\.experimental\.constrained\.(\w+)\.f64(?:\.\w+)?\((.*)\)(?: #\d+)?$')
def plainfp(bc):
    """FENV_ACCESS makes clang emit constrained floating point intrinsics: write them as the plain operations"""
    if b'llvm.experimental.constrained' not in open(bc, 'rb').read(): return
    def f(m):
        op = m.group(1); a = [x.strip() for x in m.group(2).split(', ')]
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): return f"{op} {a[0]}, {a[1].split(' ', 1)[1]}"
        if op in ('fcmp', 'fcmps'): return f"fcmp {a[2].split(chr(34))[1]} {a[0]}, {a[1].split(' ', 1)[1]}"
        if op in ('sitofp', 'uitofp'): return f"{op} {a[0]} to double"
        return m.group(0)
    t = sh([LLVM + 'llvm-dis', '-o', '-', bc])
    t = '\n'.join(_CON.sub(f, l) if 'constrained' in l and not l.startswith('declare') else l for l in t.split('\n'))
    subprocess.run([LLVM + 'llvm-as', '-o', bc, '-'], input=t, text=True, check=True)

def compile_bc(tu, out, defs=()):
    s = src(tu)
    cmd = ['clang++', '-x', 'c++'] + SYM + flags() + list(defs)
    if DEV:
        pre = subprocess.run(['clang++', '-x', 'c++', '-E', '-P'] + flags() + ['-D_GLIBCXX_EXTERN_TEMPLATE=0'] + list(defs) + [s], capture_output=True)
        if pre.returncode == 0:
            h = hashlib.sha256(pre.stdout + repr(cmd).encode()).hexdigest()
            os.makedirs(DEV, exist_ok=True)
            c = f'{DEV}/{h}.bc'
            if not os.path.exists(c):
                sh(cmd + [s, '-o', c + f'.{os.getpid()}']); os.rename(c + f'.{os.getpid()}', c)
            shutil.copy(c, out); plainfp(out); return out
    sh(cmd + [s, '-o', out])
    plainfp(out)
    return out

def bitcode(tus, work, name, defs=()):
    """compile tus and link into work/name.bc"""
    tus = list(tus) + ['vstd.cpp'] + (['vunits.cpp'] if 'Converters.C' in tus else [])
    os.makedirs(work, exist_ok=True)
    def one(t):
        o = f'{work}/{os.path.basename(t).replace(".", "_")}.bc'
        if not os.path.exists(o): compile_bc(t, o, defs)
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, tus))
    out = f'{work}/{name}.bc'
    sh([LLVM + 'llvm-link', '-o', out] + objs)
    return out

def native(tus, work, name, defs=(), san=False):
    """native replay binary from the same sources"""
    os.makedirs(work, exist_ok=True)
    tus = list(tus) + ['vnative.cpp']
    opt = ['-O1', '-g', '-ffp-contract=off', '-fno-access-control', '-fPIC'] + (['-fsanitize=address', '-fno-omit-frame-pointer'] if san else [])
    def one(t):
        o = f'{work}/{os.path.basename(t).replace(".", "_")}{"_s" if san else ""}.o'
        if not os.path.exists(o):
            sh(['clang++', '-x', 'c++', '-c'] + opt + flags() + list(defs) + [src(t), '-o', o])
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, tus))
    out = f'{work}/{name}{"_s" if san else ""}.exe'
    # type information of classes whose sources are not part of the unit: give the loader something to bind to
    und, dfn = set(), set()
    for l in subprocess.run(['nm', '-A'] + objs, capture_output=True, text=True).stdout.splitlines():
        f = l.split()
        if len(f) < 2: continue
        (und if f[-2] in 'Uvw' else dfn).add(f[-1])
    miss = sorted(x for x in und - dfn if re.match(r'_ZT[IVTS]N?K?.*5Gyoto', x))
    if miss:
        a = f'{work}/{name}_miss.s'
        with open(a, 'w') as fh:
            fh.write('.data\n.p2align 4\n' + ''.join(f'.globl {x}\n{x}: .zero 512\n' for x in miss) + '.section .note.GNU-stack,"",@progbits\n')
        sh(['clang++', '-c', a, '-o', a[:-2] + '.o']); objs = objs + [a[:-2] + '.o']
    sh(['clang++'] + (['-fsanitize=address'] if san else []) + objs + ['-o', out, '-rdynamic', '-no-pie', '-Wl,--unresolved-symbols=ignore-all', '-lpthread', '-ldl', '-lm'] + LIBS())
    return out

def LIBS():
    out = []
    for l in ('xerces-c', 'cfitsio', 'udunits2', 'boost_mpi', 'boost_serialization', 'mpi', 'mpi_cxx'):
        for d in ('/usr/lib/x86_64-linux-gnu', '/usr/lib', '/usr/local/lib'):
            if os.path.exists(f'{d}/lib{l}.so'): out.append('-l' + l); break
    return out

"""Models of everything outside the encoded code: libc, libm, libstdc++ runtime,
pthread, logging.  Each is listed in the evidence as part of the claim."""
import math, time
from fractions import Fraction as Q
import z3
import real as RL
from real import R
from llvm import UNDEF, Undef, Agg
import llvm
from engine import Engine, Ptr, FnP, Obj, PathEnd, Inconclusive, Violation, CxxThrow, ExitCall, sym, sgn, M64


class _T:
    def __init__(self, k, w, size): self.k = k; self.w = w; self.size = size; self.elts = None; self.offs = None; self.n = 0
T8 = _T('int', 8, 1); T32 = _T('int', 32, 4); T64 = _T('int', 64, 8); TP = _T('ptr', 0, 8); TD = _T('double', 0, 8)
Engine.T8 = T8; Engine.T32 = T32; Engine.T64 = T64; Engine.TP = TP; Engine.TD = TD

S = {}
PAT = []

def stub(*names):
    def d(f):
        for n in names: S[n] = f
        return f
    return d

def pattern(pred, wants_name=False):
    def d(f):
        f.wants_name = wants_name
        PAT.append((pred, f)); return f
    return d

# ------------------------------------------------------------------ harness intrinsics
def cname(e, p): return e.rdstr(p).decode()

@stub('v_real')
def v_real(e, a):
    n = cname(e, a[0]); r = RL.var(n); e.inputs.append((n, 'real', r)); [s.draw_real(n) for s in e.samples]; return r

@stub('v_real_i')
def v_real_i(e, a):
    n = f"{cname(e, a[0])}_{sgn(e.concretize(a[1]),32)}"; r = RL.var(n); e.inputs.append((n, 'real', r)); [s.draw_real(n) for s in e.samples]; return r

@stub('v_int')
def v_int(e, a):
    n = cname(e, a[0]); lo, hi = sgn(a[1], 32), sgn(a[2], 32)
    b = z3.BitVec(n, 32); e.inputs.append((n, 'i32', b)); [s.draw_int(n, lo, hi) for s in e.samples]; [s.env.__setitem__(n, s.env[n] & 0xffffffff) for s in e.samples]
    e.add_pc(z3.And(b >= lo, b <= hi)); return b

@stub('v_size')
def v_size(e, a):
    n = cname(e, a[0]); lo, hi = a[1], a[2]
    b = z3.BitVec(n, 64); e.inputs.append((n, 'i64', b)); [s.draw_int(n, lo, min(hi, lo + 1000)) for s in e.samples]
    e.add_pc(z3.And(z3.UGE(b, lo), z3.ULE(b, hi))); return b

@stub('v_choose')
def v_choose(e, a):
    """concrete enumeration of a small range (a stated bound, one path each)"""
    n = cname(e, a[0]); lo, hi = sgn(a[1], 32), sgn(a[2], 32)
    b = z3.BitVec(n, 32); [s.env.__setitem__(n, s.draw_int(n, lo, hi) & 0xffffffff) for s in e.samples]
    e.add_pc(z3.And(b >= lo, b <= hi))
    v = e.concretize(b, n)
    e.inputs.append((n, 'i32', b)); return v

@stub('v_bool')
def v_bool(e, a):
    n = cname(e, a[0]); b = z3.Bool(n); e.inputs.append((n, 'bool', b)); [s.env.__setitem__(n, bool(s.draw_int(n, 0, 1))) for s in e.samples]; return b

@stub('v_assume')
def v_assume(e, a):
    c = a[0]
    if isinstance(c, int):
        if not c & 1 and c == 0: raise PathEnd()
        return None
    if isinstance(c, Undef): raise Inconclusive("assume on undef")
    e.add_pc(e.zbool(c))
    if e.dec_i >= len(e.prefix):
        if not e.samples:
            r, mod = e.check(z3.BoolVal(True), e.o['feas_timeout'], full=True, model=True)
            if r == 'unsat': raise PathEnd()
            if r == 'sat': e.resample(mod)
    return None

def poles(e):
    return [RL.toz3(d) != 0 for d in e.nz]

@stub('v_assert')
def v_assert(e, a):
    c = a[0]; label = cname(e, a[1])
    st = e.labels.setdefault(label, dict(n=0, unsat=0, sat=0, unknown=0))
    st['n'] += 1; e.stats['asserts'] += 1
    if isinstance(c, Undef):
        e.memfail(f"assertion on uninitialised value: {label}", None)
    if isinstance(c, int):
        if c: st['unsat'] += 1; e.stats['trivially'] += 1; return None
        r, mod = e.check(z3.BoolVal(True), full=True, model=True, extra=poles(e))
        if r == 'unsat': raise PathEnd()
        st['sat'] += 1
        if r == 'unknown': r, mod = pinned(e, z3.BoolVal(True))
        e.fail('assert', label, mod); raise Violation(label)
    z = e.zbool(c)
    r, mod = e.check(z3.Not(z), 4000, full=False, model=False, extra=poles(e)), None
    if r == 'unknown' and e.nfcheck(z3.simplify(z3.Not(z)), 4000) == 'unsat': r = 'unsat'
    if r == 'unknown':
        e.refill()
        for s in e.samples[:12]:
            if s.holds(z3.Not(z)) and all(abs(s.fev(d)) > 1e-6 for d in e.nz): r, mod = 'found', s; break
    if r == 'unknown': r = e.check(z3.Not(z), full=False, model=False, extra=poles(e))
    if r == 'unsat':
        st['unsat'] += 1
        return None
    if r == 'found': r = 'sat'
    elif r == 'sat':
        r, mod = e.check(z3.Not(z), full=True, model=True, extra=poles(e))
        if r == 'unsat': st['unsat'] += 1; return None
    if r == 'unknown' and e.nfcheck(z3.simplify(z3.Not(z))) == 'unsat': st['unsat'] += 1; return None
    if r != 'sat':
        r, mod = pinned(e, z3.Not(z))
    if r == 'sat':
        st['sat'] += 1; e.fail('assert', label, mod)
        e.add_pc(z)
        if e.check(z3.BoolVal(True), full=True) == 'unsat': raise PathEnd()
        return None
    st['unknown'] += 1
    e.inconclusive.append(f"solver unknown on '{label}'")
    e.add_pc(z)
    return None

PINS = [Q(3, 10), Q(7, 10), Q(13, 10), Q(29, 10), Q(-4, 10), Q(53, 10), Q(1, 10), Q(92, 10), Q(-17, 10), Q(23, 100), Q(41, 10), Q(61, 100), Q(-9, 10), Q(17, 10)]
TRIPLES = [(Q(3, 5), Q(4, 5)), (Q(5, 13), Q(12, 13)), (Q(8, 17), Q(-15, 17)), (Q(20, 29), Q(21, 29)), (Q(-7, 25), Q(24, 25))]

def pinned(e, cond, tries=4):
    """help the solver find a model: bind the real inputs to generic rational points (and circles to pythagorean points)"""
    reals = [(n, v) for n, k, v in e.inputs if k == 'real' and isinstance(v, R)]
    for t in range(tries):
        pins = []
        base = {1: [1, 10, 1], 2: [3]}.get(t, [1])
        for i, (n, v) in enumerate(reals):
            val = PINS[(i * (t + 1) + 3 * t) % len(PINS)]
            if t == 1: val = abs(val) * 3
            if t == 3: val = abs(val)
            s = RL._tab.get(('sin', v.id)); c = RL._tab.get(('cos', v.id))
            if s is not None and c is not None and (s.z is not None or c.z is not None):
                sv, cv = TRIPLES[(i + t) % len(TRIPLES)]
                pins += [RL.toz3(s) == RL.zq(sv), RL.toz3(c) == RL.zq(cv)]
            else: pins.append(RL.toz3(v) == RL.zq(val))
        # greedily keep pins consistent with the path condition
        keep = []
        for p in pins:
            if e.check(z3.And(*(keep + [p])), 1500, full=True) == 'sat': keep.append(p)
        r, mod = e.check(z3.And(cond, *keep), e.o['q_timeout'], full=True, model=True, extra=poles(e))
        if r == 'sat': return r, mod
    return 'unknown', None

NFZERO = set()
def sampled_nonzero(e, d, tol):
    """a kept sample point of this path at which d is clearly not zero (a candidate counterexample, replayed natively later)"""
    if not e.samples and tol < 1e-5: e.refill()
    for s in e.samples[:12]:
        try:
            v = s.fev(d)
            if v != v or abs(v) == math.inf: continue
            sc = max(abs(s.fev(x)) for x in (d.args if d.op == '+' else [d]) if isinstance(x, R))
            if abs(v) > tol * sc + 1e-7 and all(abs(s.fev(dd)) > 1e-6 for dd in e.nz): return s
        except (OverflowError, ValueError): pass
    return None
def iszero(e, d, label, st):
    """decide d == 0 for all values under pc; returns 'unsat' (proved), 'sat' (+model) or 'unknown'"""
    if isinstance(d, float):
        return 'sat', None
    if isinstance(d, Q):
        if d == 0: return 'unsat', None
        r, mod = e.check(z3.BoolVal(True), full=True, model=True)
        return ('unsat' if r == 'unsat' else 'sat'), mod
    t0 = time.time()
    m = sampled_nonzero(e, d, 1e-4)
    if m is not None: return 'sat', m
    if d.id in NFZERO:      # the same expression was already shown to be identically zero
        return e.check(RL.zq(Q(0)) != 0, 5000), None
    # first with quotients, roots and functions as opaque atoms (an identity there is one everywhere)
    if d.op == '+':
        try:
            N = RL.Norm(deadline=time.time() + 3, shallow=True)
            f = N.nf(d)
            if not f[0]:
                return e.check(N.polyz3(f[0]) != 0, 5000), None
        except RL.Unsup: pass
    N = RL.Norm(deadline=time.time() + e.o.get('nf_timeout', 60))
    residual = None
    try:
        f = N.reduce(N.nf(d))
        residual = N.polyz3(f[0])
        e.stats['nf_s'] = e.stats.get('nf_s', 0) + time.time() - t0
        e.stats['nf_max'] = max(e.stats.get('nf_max', 0), time.time() - t0)
        if not f[0]:
            # denominators cleared, relations eliminated: residual polynomial is 0 -> hand it to the solver
            r = e.check(residual != 0, 5000)
            if r == 'unsat': NFZERO.add(d.id)
            return r, None
    except RL.Unsup as ex:
        e.stats['nf_fail'] = e.stats.get('nf_fail', 0) + 1
    target = residual if residual is not None else RL.toz3(d)
    if not e.samples:
        r, mod = e.check(target != 0, 1500, full=True, model=True, extra=poles(e))
        if r != 'unknown': return r, mod
    m = sampled_nonzero(e, d, 1e-6)
    if m is not None: return 'sat', m
    # cheap refutation first: pinned rational points
    r, mod = pinned(e, target != 0, tries=2)
    if r == 'sat': return r, mod
    r, mod = e.check(target != 0, full=True, model=True, extra=poles(e))
    if r == 'sat': return r, mod
    if r == 'unsat': return 'unsat', None
    r, mod = e.check(RL.toz3(d) != 0, full=True, model=True, extra=poles(e))
    if r == 'unsat': return 'unsat', None
    if r == 'sat': return 'sat', mod
    return pinned(e, target != 0)

@stub('v_eq')
def v_eq(e, a):
    x, y = e.unabs(a[0]), e.unabs(a[1]); label = cname(e, a[2])
    st = e.labels.setdefault(label, dict(n=0, unsat=0, sat=0, unknown=0))
    st['n'] += 1; e.stats['asserts'] += 1
    if isinstance(x, Undef) or isinstance(y, Undef): e.memfail(f"uninitialised value in '{label}'", None)
    if isinstance(x, float) or isinstance(y, float):
        same = isinstance(x, float) and isinstance(y, float) and (x == y or x != x and y != y)
        if same: st['unsat'] += 1; return None
        r, mod = e.check(z3.BoolVal(True), full=True, model=True)
        if r == 'unsat': raise PathEnd()
        st['sat'] += 1; e.fail('assert', label, mod, f"{RL.show(x)} vs {RL.show(y)}"); return None
    d = RL.sub(x, y)
    t0 = time.time()
    r, mod = iszero(e, d, label, st)
    if e.o.get('trace') and time.time() - t0 > e.o['trace']: print('v_eq %.2fs %s %s' % (time.time() - t0, label, r), RL.show(d)[:200])
    if r == 'unsat': st['unsat'] += 1; return None
    if r == 'sat':
        st['sat'] += 1; e.fail('assert', label, mod, f"{RL.show(x)[:250]} vs {RL.show(y)[:250]}"); return None
    st['unknown'] += 1
    e.inconclusive.append(f"solver unknown on '{label}'")
    return None

@stub('v_reach')
def v_reach(e, a):
    """vacuity witness: the negated claim 'false' must be satisfiable here"""
    label = cname(e, a[0])
    cur = e.stats['reach'].get(label)
    if cur == 'sat': return None
    if any(all(abs(s.fev(d)) > 1e-9 for d in e.nz) and all(s.holds(c) for c in e.pc) for s in e.samples):
        e.stats['reach'][label] = 'sat'; return None
    r = e.check(z3.BoolVal(True), full=True, extra=poles(e), timeout=8000)
    if r == 'unknown': r, _ = pinned(e, z3.BoolVal(True))
    if r == 'sat' or cur is None: e.stats['reach'][label] = r
    return None

@stub('v_deriv')
def v_deriv(e, a):
    a = [e.unabs(a[0]), a[1]]
    return RL.deriv(a[0], a[1]) if isinstance(a[0], R) else Q(0)

@stub('v_symbolic')
def v_symbolic(e, a): return 1

@stub('v_opt')
def v_opt(e, a):
    k = cname(e, a[0]); v = cname(e, a[1]); e.o[k] = v if not v.lstrip('-').isdigit() else int(v); return None

@stub('v_print')
def v_print(e, a):
    if e.o.get('verbose'): print(cname(e, a[0]), a[1]); return None

@stub('v_live')
def v_live(e, a):
    """number of live heap objects"""
    return sum(1 for o in e.heap.values() if o.kind == 'heap' and not o.dead)

@stub('v_opaque')
def v_opaque(e, a):
    """uninterpreted function of a name and n reals: equal arguments give the same value"""
    n = cname(e, a[0]); k = e.concretize(a[2])
    args = [e.load(e.padd(a[1], 8 * i), TD) for i in range(k)]
    return RL.node('uf_' + n, *args)

@stub('v_fresh')
def v_fresh(e, a):
    """fresh unconstrained real (environment value)"""
    n = cname(e, a[0]); c = e.userdata.get(('fresh', n), 0); e.userdata[('fresh', n)] = c + 1
    r = RL.var(f"{n}#{c}"); e.inputs.append((f"{n}#{c}", 'real', r)); return r

# ------------------------------------------------------------------ memory management
def _new(e, a, kind='heap'):
    n = e.concretize(a[0], 'allocation size')
    return e.alloc(n, f"heap[{n}]", kind)
for n in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t'): S[n] = _new
S['_ZnwmRKSt9nothrow_t'] = S['_ZnamRKSt9nothrow_t'] = _new

@stub('calloc')
def calloc(e, a):
    n = e.concretize(a[0]) * e.concretize(a[1]); return e.alloc(n, f"heap[{n}]", 'heap', zero=True)

@stub('posix_memalign')
def pmal(e, a):
    e.store(a[0], _new(e, [a[2]]), TP); return 0

@stub('aligned_alloc')
def aal(e, a): return _new(e, [a[1]])

@stub('realloc')
def realloc(e, a):
    if isinstance(a[0], int) and a[0] == 0: return _new(e, [a[1]])
    n = e.concretize(a[1]); p = e.alloc(n, f"heap[{n}]", 'heap')
    e.memcpy(p, a[0], min(n, e.heap[a[0].o].size)); _del(e, [a[0]]); return p

def _del(e, a):
    p = a[0]
    if isinstance(p, int):
        if p == 0: return None
        e.memfail("free of invalid pointer", None)
    if isinstance(p, Undef): e.memfail("free of uninitialised pointer", None)
    o = e.heap[p.o]
    if not isinstance(p.off, int) or p.off != 0: e.memfail(f"free of interior pointer into {o.name}", None)
    if o.dead: e.memfail(f"double free of {o.name}", None)
    if o.kind != 'heap': e.memfail(f"free of non-heap object {o.name}", None)
    o.dead = True
    return None
for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdlPvmSt11align_val_t'): S[n] = _del

@stub('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove', 'llvm.memcpy.inline.p0.p0.i64', 'llvm.memmove.p0.p0.i32')
def memcpy(e, a): e.memcpy(a[0], a[1], a[2]); return a[0]

@stub('llvm.memset.p0.i64', 'memset', 'llvm.memset.p0.i32')
def memset(e, a): e.memset(a[0], a[1], a[2]); return a[0]

@stub('strlen')
def strlen(e, a): return len(e.rdstr(a[0]))

@stub('strcmp')
def strcmp(e, a):
    x, y = e.rdstr(a[0]), e.rdstr(a[1]); return 0 if x == y else 1 if x > y else (1 << 32) - 1

@stub('strncmp')
def strncmp(e, a):
    n = e.concretize(a[2]); x, y = e.rdstr(a[0])[:n], e.rdstr(a[1])[:n]; return 0 if x == y else 1 if x > y else (1 << 32) - 1

@stub('memcmp', 'bcmp')
def memcmp(e, a):
    n = e.concretize(a[2]); x, y = e.rdbytes(a[0], n), e.rdbytes(a[1], n); return 0 if x == y else 1 if x > y else (1 << 32) - 1

@stub('memchr')
def memchr(e, a):
    n = e.concretize(a[2]); x = e.rdbytes(a[0], n); i = x.find(bytes([a[1] & 255])); return 0 if i < 0 else e.padd(a[0], i)

@stub('strchr')
def strchr(e, a):
    x = e.rdstr(a[0]) + b'\0'; i = x.find(bytes([a[1] & 255])); return 0 if i < 0 else e.padd(a[0], i)

@stub('strcpy')
def strcpy(e, a):
    x = e.rdstr(a[1]); e.memcpy(a[0], a[1], len(x) + 1); return a[0]

@stub('strdup')
def strdup(e, a):
    x = e.rdstr(a[0]); p = e.alloc(len(x) + 1, 'strdup', 'heap'); e.memcpy(p, a[0], len(x) + 1); return p

@stub('strtok')
def strtok(e, a):
    s, sep = a[0], e.rdstr(a[1])
    if isinstance(s, int) and s == 0: s = e.userdata.get('strtok', 0)
    if isinstance(s, int) and s == 0: return 0
    raw = e.rdstr(s); i = 0
    while i < len(raw) and raw[i] in sep: i += 1
    if i == len(raw): e.userdata['strtok'] = 0; return 0
    j = i
    while j < len(raw) and raw[j] not in sep: j += 1
    if j < len(raw):
        e.store(e.padd(s, j), 0, T8); e.userdata['strtok'] = e.padd(s, j + 1)
    else: e.userdata['strtok'] = 0
    return e.padd(s, i)

@stub('atoi', 'atol')
def atoi(e, a):
    import re
    m = re.match(rb'\s*[-+]?\d+', e.rdstr(a[0])); return (int(m.group()) if m else 0) & 0xffffffff

@stub('strtod', 'atof')
def strtod(e, a):
    import re
    s = e.rdstr(a[0])
    m = re.match(rb'\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|inf|nan)', s)
    if len(a) > 1 and not (isinstance(a[1], int) and a[1] == 0): e.store(a[1], e.padd(a[0], m.end() if m else 0), TP)
    if not m: return Q(0)
    return RL.fconst(float(m.group()))

# ------------------------------------------------------------------ C++ runtime
@stub('__cxa_allocate_exception')
def exalloc(e, a): return e.alloc(e.concretize(a[0]), 'exception', 'exc')
@stub('__cxa_free_exception')
def exfree(e, a): return None
@stub('__cxa_throw')
def exthrow(e, a):
    raise CxxThrow(a[0], a[1])
@stub('__cxa_begin_catch')
def begc(e, a):
    e.exc.append(e.excmap[a[0].o]); return a[0]
@stub('__cxa_end_catch')
def endc(e, a):
    if e.exc: e.exc.pop()
    return None
@stub('__cxa_rethrow')
def reth(e, a): raise e.exc[-1]
@stub('__cxa_get_exception_ptr')
def getexp(e, a): return a[0]
@stub('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def tid(e, a): return e.typeid(a[0])
@stub('__dynamic_cast')
def dync(e, a): return e.dyncast(a[0], a[1], a[2])
@stub('__cxa_bad_cast')
def badc(e, a): raise CxxThrow(e.alloc(8, 'bad_cast', 'exc'), e.alloc(8, '_ZTISt8bad_cast', 'exc'))
@stub('__cxa_atexit', '__cxa_thread_atexit')
def atexit(e, a): return 0
@stub('__cxa_guard_acquire')
def ga(e, a):
    v = e.load(a[0], T8)
    return 0 if v == 1 else 1
@stub('__cxa_guard_release')
def gr(e, a): e.store(a[0], 1, T8); return None
@stub('__cxa_guard_abort')
def gab(e, a): return None
@stub('__cxa_pure_virtual')
def pv(e, a): e.memfail("pure virtual call", None)
@stub('_ZSt9terminatev', '__clang_call_terminate', 'abort')
def term(e, a): e.memfail("std::terminate / abort", None)
@stub('exit', '_exit')
def exit_(e, a): raise ExitCall()
@stub('__stack_chk_fail')
def scf(e, a): e.memfail("stack smash", None)

def _thr(tn):
    def f(e, a):
        raise CxxThrow(e.alloc(16, 'exc', 'exc'), e.alloc(24, tn, 'exc'))
    return f
for nm, tn in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
               ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'), ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
               ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'), ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'),
               ('__cxa_throw_bad_array_new_length', '_ZTISt20bad_array_new_length'), ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
               ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'), ('_ZSt20__throw_system_errori', '_ZTISt12system_error')): S[nm] = _thr(tn)

def ret0(e, a): return 0
def retv(e, a): return None
def ret_first(e, a): return a[0]
for n in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_trylock', 'usleep', 'sleep'): S[n] = ret0
S['pthread_self'] = lambda e, a: e.curthread + 1
S['pthread_equal'] = lambda e, a: int(a[0] == a[1])
for n in ('llvm.stackrestore.p0', 'llvm.donothing', 'llvm.va_start', 'llvm.va_end', 'llvm.prefetch.p0', 'llvm.stackrestore'): S[n] = retv
S['llvm.stacksave.p0'] = S['llvm.stacksave'] = ret0
S['llvm.trap'] = lambda e, a: e.memfail("llvm.trap", None)
S['__errno_location'] = lambda e, a: e.userdata.setdefault('errno', None) or e.userdata.__setitem__('errno', e.alloc(4, 'errno', 'global', True)) or e.userdata['errno']
S['printf'] = S['puts'] = S['putchar'] = S['fprintf'] = S['fflush'] = S['perror'] = S['fputs'] = S['fwrite'] = S['fputc'] = ret0
S['getenv'] = ret0
S['llvm.expect.i64'] = S['llvm.expect.i1'] = S['llvm.expect.i32'] = lambda e, a: a[0]
S['llvm.is.constant.i64'] = S['llvm.is.constant.i32'] = S['llvm.is.constant.i1'] = ret0
S['llvm.objectsize.i64.p0'] = lambda e, a: M64
S['llvm.launder.invariant.group.p0'] = S['llvm.strip.invariant.group.p0'] = ret_first
S['llvm.ptr.annotation.p0'] = ret_first
S['llvm.threadlocal.address.p0'] = ret_first

def _minmax(op, signed, width=None):
    def f(e, a):
        t = e.argtys[0]; w = t.w
        c = e.icmp({('max', True): 38, ('max', False): 34, ('min', True): 40, ('min', False): 36}[(op, signed)], t, a[0], a[1])
        return e.sel(c, a[0], a[1], t)
    return f
for w in (8, 16, 32, 64):
    S[f'llvm.smax.i{w}'] = _minmax('max', True); S[f'llvm.smin.i{w}'] = _minmax('min', True)
    S[f'llvm.umax.i{w}'] = _minmax('max', False); S[f'llvm.umin.i{w}'] = _minmax('min', False)
    def _abs(e, a, w=w):
        t = e.argtys[0]
        c = e.icmp(40, t, a[0], 0); return e.sel(c, e.ibin('sub', 0, a[0], w), a[0], t)
    S[f'llvm.abs.i{w}'] = _abs
    def _ovf(op, signed, w=w):
        def f(e, a):
            x, y = a[0], a[1]
            r = e.ibin(op, x, y, w)
            if isinstance(x, int) and isinstance(y, int):
                if signed:
                    v = {'add': sgn(x, w) + sgn(y, w), 'sub': sgn(x, w) - sgn(y, w), 'mul': sgn(x, w) * sgn(y, w)}[op]
                    o = int(not -(1 << (w - 1)) <= v < 1 << (w - 1))
                else:
                    v = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]; o = int(not 0 <= v < 1 << w)
            else:
                X, Y = e.bv(x, w), e.bv(y, w)
                ex = z3.SignExt if signed else z3.ZeroExt
                A, B = ex(w, X), ex(w, Y); v = {'add': A + B, 'sub': A - B, 'mul': A * B}[op]
                o = e.zb(v != ex(w, e.bv(r, w)))
            return Agg([r, o])
        return f
    for op in ('add', 'sub', 'mul'):
        S[f'llvm.u{op}.with.overflow.i{w}'] = _ovf(op, False); S[f'llvm.s{op}.with.overflow.i{w}'] = _ovf(op, True)
    def _usubsat(e, a, w=w):
        c = e.icmp(34, e.argtys[0], a[0], a[1]); return e.sel(c, e.ibin('sub', a[0], a[1], w), 0, e.argtys[0])
    S[f'llvm.usub.sat.i{w}'] = _usubsat
    def _ctpop(e, a, w=w):
        if isinstance(a[0], int): return bin(a[0]).count('1')
        x = a[0]; return z3.simplify(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)]) if w > 1 else x)
    S[f'llvm.ctpop.i{w}'] = _ctpop
    def _ctlz(e, a, w=w):
        v = e.concretize(a[0]); return w - v.bit_length()
    S[f'llvm.ctlz.i{w}'] = _ctlz
    def _cttz(e, a, w=w):
        v = e.concretize(a[0]); return (v & -v).bit_length() - 1 if v else w
    S[f'llvm.cttz.i{w}'] = _cttz
    def _bswap(e, a, w=w):
        v = e.concretize(a[0]); return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
    S[f'llvm.bswap.i{w}'] = _bswap
    def _fsh(e, a, w=w):
        x, y, s = (e.concretize(t) for t in a); s %= w
        return ((x << s) | (y >> (w - s))) & ((1 << w) - 1) if s else x
    S[f'llvm.fshl.i{w}'] = _fsh

# ------------------------------------------------------------------ libm over exact reals
def U(f):
    def g(e, a):
        for x in a:
            if isinstance(x, Undef): return UNDEF
        a = [e.conv(x, TD) if isinstance(x, int) else x for x in a]
        if f is not fabs_: a = [e.unabs(x) for x in a]
        return f(e, *a)
    return g
S['sin'] = S['llvm.sin.f64'] = U(lambda e, x: RL.sin(x))
S['cos'] = S['llvm.cos.f64'] = U(lambda e, x: RL.cos(x))
S['tan'] = U(lambda e, x: e.fdiv(RL.sin(x), RL.cos(x)))
@stub('sincos')
def sincos(e, a):
    s, c = RL.sincos(a[0]) if not isinstance(a[0], Undef) else (UNDEF, UNDEF); e.store(a[1], s, TD); e.store(a[2], c, TD); return None
S['sqrt'] = S['llvm.sqrt.f64'] = U(lambda e, x: e.sqrt(x))
def fabs_(e, x):
    if isinstance(x, float): return abs(x)
    if isinstance(x, Q): return abs(x)
    if x.op == 'abs' or x.op == 'root': return x
    return RL.node('abs', x)
S['fabs'] = S['llvm.fabs.f64'] = S['llvm.fabs.f32'] = S['fabsf'] = U(fabs_)
def cbrt(e, x):
    if isinstance(x, R) and e.branch(e.fcmpv('lt', x, Q(0))): return RL.neg(RL.root(RL.neg(x), 3))
    if isinstance(x, Q) and x < 0: return RL.neg(RL.root(-x, 3))
    return RL.root(x, 3)
S['cbrt'] = U(cbrt)
def pow_(e, x, y):
    return RL.power(x, y)
S['pow'] = S['llvm.pow.f64'] = U(pow_)
S['_ZSt3powIdiEN9__gnu_cxx11__promote_2IT_T0_NS0_10__promoteIS2_Xsr3std12__is_integerIS2_EE7__valueEE6__typeENS4_IS3_Xsr3std12__is_integerIS3_EE7__valueEE6__typeEE6__typeES2_S3_'] = None
del S['_ZSt3powIdiEN9__gnu_cxx11__promote_2IT_T0_NS0_10__promoteIS2_Xsr3std12__is_integerIS2_EE7__valueEE6__typeENS4_IS3_Xsr3std12__is_integerIS3_EE7__valueEE6__typeEE6__typeES2_S3_']
S['llvm.powi.f64.i32'] = U(lambda e, x, n: RL.ipow(x, sgn(e.concretize(n), 32)))
S['ldexp'] = U(lambda e, x, n: RL.mul(x, Q(2) ** sgn(e.concretize(n), 32)))
def _powi(e, a):
    return RL.ipow(a[0], sgn(e.concretize(a[1]), 32))
S['llvm.powi.f64.i32'] = _powi
S['ldexp'] = lambda e, a: RL.mul(a[0], Q(2) ** sgn(e.concretize(a[1]), 32))
for nm in ('exp', 'log', 'acos', 'asin', 'atan', 'sinh', 'cosh', 'tanh', 'acosh', 'asinh', 'atanh', 'erf', 'tgamma', 'expm1', 'log1p'):
    S[nm] = U(lambda e, x, nm=nm: RL.fn(nm, x))
S['llvm.exp.f64'] = S['exp']; S['llvm.log.f64'] = S['log']
S['log10'] = S['llvm.log10.f64'] = U(lambda e, x: RL.fn('log10', x) if not (isinstance(x, Q) and x == 1) else Q(0))
S['log2'] = U(lambda e, x: RL.fn('log2', x))
S['exp2'] = U(lambda e, x: RL.fn('exp2', x))
S['atan2'] = U(lambda e, y, x: RL.fn('atan2', y, x))
S['hypot'] = U(lambda e, x, y: RL.sqrt(RL.add(RL.mul(x, x), RL.mul(y, y))))
def floor_(e, x):
    if isinstance(x, Q): return Q(math.floor(x))
    if isinstance(x, float): return x
    if e.o.get('f2i') == 'enum': return Q(e.enumint(x, 'floor'))
    return RL.fn('floor', x)
def ceil_(e, x):
    if isinstance(x, Q): return Q(math.ceil(x))
    if isinstance(x, float): return x
    if e.o.get('f2i') == 'enum': return Q(e.enumint(x, 'ceil'))
    return RL.fn('ceil', x)
S['floor'] = S['llvm.floor.f64'] = U(floor_)
S['ceil'] = S['llvm.ceil.f64'] = U(ceil_)
def trunc_(e, x):
    if isinstance(x, R): return ceil_(e, x) if e.branch(e.fcmpv('lt', x, Q(0))) else floor_(e, x)
    return Q(int(x)) if isinstance(x, Q) else x
S['trunc'] = S['llvm.trunc.f64'] = U(trunc_)
def round_(e, x):
    if isinstance(x, float): return x
    if e.branch(e.fcmpv('lt', x, Q(0))): return RL.neg(floor_(e, RL.add(RL.neg(x), Q(1, 2))))
    return floor_(e, RL.add(x, Q(1, 2)))
S['round'] = S['llvm.round.f64'] = S['nearbyint'] = S['rint'] = U(round_)
S['fmod'] = U(lambda e, x, y: e.fmod(x, y))
def fmin_(e, x, y): return x if e.branch(e.fcmp(4, x, y)) else y
def fmax_(e, x, y): return x if e.branch(e.fcmp(2, x, y)) else y
def _mm(f):
    def g(e, x, y):
        if isinstance(x, float) and x != x: return y
        if isinstance(y, float) and y != y: return x
        return f(e, x, y)
    return g
S['fmin'] = S['llvm.minnum.f64'] = U(_mm(fmin_)); S['fmax'] = S['llvm.maxnum.f64'] = U(_mm(fmax_))
def copysign_(e, x, y):
    ax = e.unabs(fabs_(e, x))
    if isinstance(y, float): return -ax if math.copysign(1, y) < 0 else ax
    return RL.neg(ax) if e.branch(e.fcmpv('lt', y, Q(0))) else ax
S['copysign'] = S['llvm.copysign.f64'] = U(copysign_)
S['llvm.fmuladd.f64'] = S['llvm.fma.f64'] = S['fma'] = U(lambda e, x, y, z: RL.add(RL.mul(x, y), z))
@stub('modf')
def modf(e, a):
    t = trunc_(e, a[0]); e.store(a[1], t, TD); return RL.sub(a[0], t)
@stub('llvm.is.fpclass.f64')
def fpclass(e, a):
    x, m = a
    if isinstance(x, float):
        if x != x: return int(m & 3 != 0)
        return int(m & (512 if x > 0 else 4) != 0)
    if m & 3 == m: return 0              # nan tests
    if m & 0x204 == m: return 0          # inf tests
    if m & 0x1f8 == 0x1f8: return 1      # finite
    raise Inconclusive(f"is.fpclass {m}")
S['__isnan'] = S['isnan'] = lambda e, a: int(isinstance(a[0], float) and a[0] != a[0])
S['__isinf'] = S['isinf'] = lambda e, a: int(isinstance(a[0], float) and a[0] in (math.inf, -math.inf))
S['__finite'] = S['finite'] = lambda e, a: int(not isinstance(a[0], float))

# ------------------------------------------------------------------ libstdc++ red-black tree (order kept, no rebalancing)
# node layout: 0 color, 8 parent, 16 left, 24 right ; header: same layout
@stub('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def rbins(e, a):
    left, x, p, h = a
    e.store(e.padd(x, 8), p, TP); e.store(e.padd(x, 16), 0, TP); e.store(e.padd(x, 24), 0, TP); e.store(x, 0, T32)
    if left:
        e.store(e.padd(p, 16), x, TP)
        if p == h: e.store(e.padd(h, 8), x, TP); e.store(e.padd(h, 24), x, TP)
        elif p == e.load(e.padd(h, 16), TP): e.store(e.padd(h, 16), x, TP)
    else:
        e.store(e.padd(p, 24), x, TP)
        if p == e.load(e.padd(h, 24), TP): e.store(e.padd(h, 24), x, TP)
    return None
def _inc(e, x):
    r = e.load(e.padd(x, 24), TP)
    if r != 0:
        x = r
        while True:
            l = e.load(e.padd(x, 16), TP)
            if l == 0: return x
            x = l
    y = e.load(e.padd(x, 8), TP)
    while x == e.load(e.padd(y, 24), TP):
        x = y; y = e.load(e.padd(y, 8), TP)
    if e.load(e.padd(x, 24), TP) != y: x = y
    return x
def _dec(e, x):
    # header: color red(0) and parent's parent == x
    col = e.load(x, T32)
    par = e.load(e.padd(x, 8), TP)
    if e.userdata.get(('hdr', x)) or (par != 0 and e.load(e.padd(par, 8), TP) == x and e.load(e.padd(x, 24), TP) != 0 and _ishdr(e, x)):
        return e.load(e.padd(x, 24), TP)
    l = e.load(e.padd(x, 16), TP)
    if l != 0:
        y = l
        while True:
            r = e.load(e.padd(y, 24), TP)
            if r == 0: return y
            y = r
    y = e.load(e.padd(x, 8), TP)
    while x == e.load(e.padd(y, 16), TP):
        x = y; y = e.load(e.padd(y, 8), TP)
    return y
def _ishdr(e, x):
    par = e.load(e.padd(x, 8), TP)
    # root's parent is header; a root node's parent's parent is itself as well, so tell by leftmost/rightmost links
    l = e.load(e.padd(x, 16), TP); r = e.load(e.padd(x, 24), TP)
    y = par
    while True:
        n = e.load(e.padd(y, 16), TP)
        if n == 0: break
        y = n
    return y == l and (e.load(e.padd(par, 8), TP) == x) and l != 0 and e.load(e.padd(l, 8), TP) is not None and (par == l or e.load(e.padd(l, 8), TP) != x)
for n in ('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base'): S[n] = lambda e, a: _inc(e, a[0])
for n in ('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base'): S[n] = lambda e, a: _dec(e, a[0])
# std::list hooks
@stub('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def lhook(e, a):
    x, p = a
    prev = e.load(e.padd(p, 8), TP)
    e.store(x, p, TP); e.store(e.padd(x, 8), prev, TP); e.store(prev, x, TP); e.store(e.padd(p, 8), x, TP); return None
@stub('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def lunhook(e, a):
    n = e.load(a[0], TP); p = e.load(e.padd(a[0], 8), TP)
    e.store(p, n, TP); e.store(e.padd(n, 8), p, TP); return None

# ------------------------------------------------------------------ logging / streams: empty bodies
S['_ZN5Gyoto5debugEv'] = ret0
S['_ZN5Gyoto7verboseEv'] = ret0

def mkstring(e, p, b):
    """construct a std::string at p"""
    if len(b) < 16: buf = e.padd(p, 16)
    else:
        buf = e.alloc(len(b) + 1, 'string', 'heap'); e.store(e.padd(p, 16), len(b), T64)
    e.store(p, buf, TP); e.store(e.padd(p, 8), len(b), T64)
    for i, c in enumerate(b + b'\0'): e.store(e.padd(buf, i), c, T8)

def rdstring(e, p):
    b = e.load(p, TP); n = e.concretize(e.load(e.padd(p, 8), T64))
    return e.rdbytes(b, n)

import re
_stream = re.compile(r'basic_[io]+stream|basic_[io]*stringstream|basic_[io]*fstream|basic_ios|ios_base|8ios_base|basic_stringbuf|basic_streambuf|basic_filebuf|St7codecvt|_ZNSo|_ZNKSo|_ZNSi|_ZNSd|_ZStlsI|_ZStrsI|_ZSt4endl|_ZSt5flush|_ZSt16__ostream|St6locale|_ZStls|_ZSt4ends|_Setprec|_Setw|_Setfill|_ZNKSt5ctype|use_facet')
def _isstream(n):
    if not _stream.search(n): return False
    # functions of ours taking a stream are still executed
    if n.startswith('_ZN5Gyoto') or n.startswith('_ZNK5Gyoto'): return False
    return True
@pattern(_isstream, wants_name=True)
def streamop(e, a, name):
    if re.search(r'(stream|basic_ios)I.*C[12]E', name):
        z = e.alloc(128, 'stream vtable', 'extern', zero=True); e.store(a[0], e.padd(z, 64), TP)
        if 'fstream' in name:        # std::endl looks at the character facet of the stream
            c = e.alloc(1024, 'ctype', 'extern', zero=True); e.store(e.padd(c, 56), 1, T8); e.store(e.padd(a[0], 240), c, TP)
    if name.endswith(('C1Ev', 'C2Ev', 'C1ESt13_Ios_Openmode', 'C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode')) and 'stringstream' in name:
        off = 96 if 'basic_stringstream' in name else 80 if 'ostringstream' in name else 88
        p = e.padd(a[0], off); e.store(p, e.padd(p, 16), TP); e.store(e.padd(p, 8), 0, T64); e.store(e.padd(p, 16), 0, T8)
        for k in range(6): e.store(e.padd(a[0], off - 64 + 8 * k), 0, TP)
        return None
    if name.endswith('3strEv'):      # ostringstream::str() sret
        mkstring(e, a[0], b'?'); return None
    if name.endswith('4goodEv'): return 1
    if name.endswith(('4failEv', '3badEv', '3eofEv', 'ntEv')): return 0
    return a[0] if a else None
S['_ZNSt8ios_base4InitC1Ev'] = retv
S['_ZNSt8ios_base4InitD1Ev'] = retv

@pattern(lambda n: n.startswith('llvm.dbg') or n.startswith('llvm.lifetime') or n.startswith('llvm.invariant') or n.startswith('llvm.experimental'))
def noop(e, a): return None

# std::to_string etc. are header-only; std::string(char const*) etc. come from the IR (extern templates disabled)
@stub('snprintf', 'sprintf', 'vsnprintf')
def snp(e, a):
    p = a[0]; e.store(p, ord('?'), T8); e.store(e.padd(p, 1), 0, T8); return 1

@stub('feholdexcept', 'feclearexcept', 'fesetenv', 'fegetenv', 'feenableexcept', 'fedisableexcept', 'fetestexcept', 'feraiseexcept')
def fenvop(e, a): return 0

def setup(eng):
    eng.stubs = dict(S)
    eng.patterns = list(PAT)
    eng.pcache = {}
    return eng

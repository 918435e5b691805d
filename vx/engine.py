"""Symbolic executor for LLVM IR (bounded, path-enumerating, z3-decided)."""
import math, time, sys, struct, random
from fractions import Fraction as Q
import z3
import real as RL
from real import R, Unsup
from sample import Sample
from llvm import Module, SymRef, UNDEF, Agg, Undef

sys.setrecursionlimit(200000)
M64 = (1 << 64) - 1


class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o = o; self.off = off
    def __repr__(self): return f"&{self.o}+{self.off}"
    def __eq__(self, other): return isinstance(other, Ptr) and self.o == other.o and isinstance(self.off, int) and isinstance(other.off, int) and self.off == other.off
    def __hash__(self): return hash((self.o, self.off if isinstance(self.off, int) else 0))


class FnP:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return f"fn:{self.name}"
    def __eq__(self, o): return isinstance(o, FnP) and o.name == self.name
    def __hash__(self): return hash(self.name)


class Obj:
    __slots__ = ('size', 'd', 'name', 'kind', 'dead', 'zero', 'starts', 'ro')
    def __init__(self, size, name, kind, zero=False):
        self.size = size; self.d = {}; self.name = name; self.kind = kind; self.dead = False; self.zero = zero; self.ro = False
    def copy(self):
        o = Obj(self.size, self.name, self.kind, self.zero); o.d = dict(self.d); o.dead = self.dead
        return o


class PathEnd(Exception): pass            # assumption false / infeasible
class Inconclusive(Exception): pass
class ExitCall(Exception): pass
class Violation(Exception): pass          # path stops after a definite failure


class CxxThrow(Exception):
    def __init__(self, obj, ti): self.obj = obj; self.ti = ti


def sym(x): return isinstance(x, z3.ExprRef)
def sgn(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x


class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        o = dict(max_paths=4000, max_steps=20000000, q_timeout=20000, feas_timeout=3000, enum_limit=64, div='assume', sqrt='assume', time_limit=600)
        o.update(opts or {})
        self.o = o
        self.stubs = {}
        self.patterns = []
        self.stats = dict(paths=0, steps=0, queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0, asserts=0, reach={}, infeasible=0, trivially=0)
        self.fns = set(); self.stubs_used = set()
        self.failures = []     # dicts
        self.inconclusive = []
        self.assumed = set()
        self.labels = {}
        self.snapshot = None

    # ------------------------------------------------------------ state
    def newstate(self):
        self.heap = {}; self.nobj = [0]; self.globs = {}
        self.pc = []; self.nz = []; self.dec_i = 0; self.pcids = {}
        self.samples = [Sample(i) for i in range(self.o.get('nsamples', 160))]
        self.inputs = []          # (name, kind, value)
        self.exc = []; self.excmap = {}
        self.depth = 0
        self.ehtypes = {}
        self.fresh = {}
        self.curthread = 0
        self.userdata = {}
        self.obs = []
        self.cmpsrc = {}; self.nfN = None; self.nfc = {}; self.nfsign = {}

    # ---- second opinion on nonlinear conditions: compare normal forms (common denominators, cancelled factors) instead of raw quotients
    def nfsgn(self, k):
        """+1/-1 if the factor has that sign everywhere on the path, else 0"""
        r = self.nfsign.get(k)
        if r is None:
            z = self.nfN.polyz3(self.nfN.factors[k])
            if self.sampled(z > 0): r = 1 if self.check(z <= 0, 1000) == 'unsat' else 0
            else: r = -1 if self.check(z >= 0, 1000) == 'unsat' else 0
            self.nfsign[k] = r
        return r

    def nfatom(self, c, a, b):
        N = self.nfN
        n, d = N.reduce(N.nf(RL.sub(a, b)))
        if not n: return z3.BoolVal(c in ('eq', 'ge', 'le'))
        sg = 1; keep = []
        for k, v in d.items():
            if v % 2:
                q = self.nfsgn(k)
                if q == 0: keep.append(k)
                else: sg *= q
        for k in range(len(N.factors)):      # factors of the numerator with a known sign
            f = N.factors[k]
            if len(f) > len(n): continue
            while len(n) > 1 or len(f) == 1:
                q = N.pdiv(n, f)
                if q is None: break
                q2 = self.nfsgn(k)
                if q2 == 0: break
                n = q; sg *= q2
                if len(n) == 1 and 0 in n: break
        cont, n = N.prim(n)
        if cont < 0: sg = -sg
        z = N.polyz3(n)
        for k in keep: z = z * N.polyz3(N.factors[k])
        if sg < 0: c = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(c, c)
        return {'eq': z == 0, 'ne': z != 0, 'gt': z > 0, 'ge': z >= 0, 'lt': z < 0, 'le': z <= 0}[c]

    def nfcond(self, c):
        k = c.get_id()
        r = self.nfc.get(k)
        if r is not None and r[0].eq(c): return r[1]
        src = self.cmpsrc.get(k)
        if src is not None and src[0].eq(c): out = self.nfatom(*src[1:])
        elif z3.is_not(c): out = z3.Not(self.nfcond(c.arg(0)))
        elif z3.is_and(c): out = z3.And(*[self.nfcond(x) for x in c.children()])
        elif z3.is_or(c): out = z3.Or(*[self.nfcond(x) for x in c.children()])
        else: out = c
        self.nfc[k] = (c, out)
        return out

    def nfcheck(self, cond, timeout=None):
        """like check, on normal forms; only 'unsat' answers are used"""
        try:
            if self.nfN is None: self.nfN = RL.Norm()
            self.nfN.deadline = time.time() + self.o.get('nfc_timeout', 10)
            self.nfN.maxterms = 3000
            z = z3.simplify(self.nfcond(cond))
            if z3.is_false(z): return 'unsat'
            if z3.is_true(z): return 'unknown'
            save = self.pc
            pcs = []
            for x in save:
                try: pcs.append(self.nfcond(x))
                except RL.Unsup: pass
            self.pc = pcs
            try: return self.check(z, timeout)
            finally: self.pc = save
        except RL.Unsup: return 'unknown'

    def regcmp(self, e, c, a, b):
        if isinstance(e, int): return e
        inv = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}
        x = e
        while z3.is_not(x): x = x.arg(0); c = inv[c]
        self.cmpsrc[x.get_id()] = (x, c, a, b)
        return e

    def alloc(self, size, name, kind, zero=False):
        self.nobj[0] += 1
        i = self.nobj[0]
        self.heap[i] = Obj(size, name, kind, zero)
        return Ptr(i, 0)

    def glob(self, name):
        p = self.globs.get(name)
        if p is not None: return p
        import llvm
        g = self.m.globs.get(name)
        if g is None:
            if name in self.m.aliases:
                r = self.m.const(llvm.AliasGet(self.m.aliases[name])); return self.resolve(r)
            raise Inconclusive("no global " + name)
        t = self.m.ty(llvm.GlobTy(g))
        init = llvm.GetInit(g)
        if not init:
            p = self.alloc(max(t.size, 4096), name, 'extern', zero=True)
            self.globs[name] = p
            if name.startswith('_ZTT'):      # tables of library stream classes: zero-filled vtables
                z = self.alloc(4096, name + ' vtables', 'extern', zero=True)
                for i in range(0, 256, 8): self.heap[p.o].d[i] = (8, Ptr(z.o, 2048))
            return p
        p = self.alloc(t.size, name, 'global', zero=True)
        self.globs[name] = p
        c = self.m.const(init)
        self.store_const(p, t, c)
        return p

    def store_const(self, p, t, c):
        if isinstance(c, Agg):
            if t.k == 'struct':
                for e, o, v in zip(t.elts, t.offs, c.v): self.store_const(Ptr(p.o, p.off + o), e, v)
            else:
                e = t.elts[0]
                if e.k == 'int' and e.w == 8:
                    d = self.heap[p.o].d
                    for i, v in enumerate(c.v):
                        if v: d[p.off + i] = (1, v)
                    return
                for i, v in enumerate(c.v):
                    if v.__class__ is int and v == 0: continue
                    self.store_const(Ptr(p.o, p.off + i * e.size), e, v)
            return
        if isinstance(c, Undef): return
        self.store(p, self.cval(c), t)

    def resolve(self, c):
        """SymRef -> Ptr/FnP"""
        n = c.name
        if n in self.m.funcs: return FnP(n)
        if n in self.m.aliases:
            import llvm
            r = self.resolve(self.m.const(llvm.AliasGet(self.m.aliases[n])))
            return r if c.off == 0 else Ptr(r.o, r.off + c.off)
        p = self.glob(n)
        return p if c.off == 0 else Ptr(p.o, p.off + c.off)

    def cval(self, c):
        if isinstance(c, float): return RL.fconst(c)
        if isinstance(c, SymRef): return self.resolve(c)
        if isinstance(c, tuple):
            if c[0] == 'cexpr':
                _, op, ops, ti = c
                if op == 'gepoff':
                    b = self.cval(ops[0]); return self.padd(b, ops[1])
                vals = [self.cval(x) for x in ops]
                if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'): return vals[0]
                if op == 'icmp': return self.icmp(ti[2], ti[1][0], vals[0], vals[1])
                if op in ('sub', 'add', 'and', 'or', 'xor', 'mul', 'shl', 'lshr', 'ashr'): return self.ibin(op, vals[0], vals[1], ti[0].w)
                if op == 'trunc': return self.trunc(vals[0], ti[0].w)
            raise Inconclusive("const expr " + str(c))
        if isinstance(c, Agg): return Agg([self.cval(x) for x in c.v])
        return c

    # ------------------------------------------------------------ solver
    def axioms_for(self, exprs):
        """collect atom axioms transitively"""
        names = set(); out = []; seen = set()
        work = list(exprs)
        while work:
            e = work.pop()
            for v in self.zvars(e):
                if v in seen: continue
                seen.add(v)
                for ax in RL.ATOMAX.get(v, ()):
                    out.append(ax); work.append(ax)
        return out, seen

    zvcache = {}
    def zvars(self, e):
        k = e.get_id()
        r = Engine.zvcache.get(k)
        if r is not None and r[0].eq(e): return r[1]
        acc = set(); seen = set(); st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
            else: st.extend(x.children())
        Engine.zvcache[k] = (e, acc)
        return acc

    def slice(self, cond, pcs):
        """constraint independence: keep those sharing variables (transitively)"""
        ax, vs = self.axioms_for([cond])
        vs = set(vs) | set(self.zvars(cond))
        rest = [(c, self.closure_vars(c)) for c in pcs]
        keep = []; ch = True
        while ch:
            ch = False; nr = []
            for c, cv in rest:
                if cv & vs: keep.append(c); vs |= cv; ch = True
                else: nr.append((c, cv))
            rest = nr
        ax, _ = self.axioms_for([cond] + keep)
        return keep, ax

    def closure_vars(self, c):
        vs = set(self.zvars(c)); work = list(vs)
        while work:
            v = work.pop()
            for ax in RL.ATOMAX.get(v, ()):
                for w in self.zvars(ax):
                    if w not in vs: vs.add(w); work.append(w)
        return vs

    def check(self, cond, timeout=None, full=False, extra=(), model=False):
        """sat/unsat/unknown of pc & cond"""
        t = time.time()
        pcs = list(self.pc) + list(extra)
        if full:
            keep = pcs; ax, _ = self.axioms_for(pcs + [cond])
        else:
            keep, ax = self.slice(cond, pcs)
        s = z3.Solver()
        s.set('timeout', int(timeout or self.o['q_timeout']))
        for c in keep: s.add(c)
        seen = set()
        for a in ax:
            if a.get_id() not in seen: seen.add(a.get_id()); s.add(a)
        s.add(cond)
        try: r = s.check()
        except z3.Z3Exception as e: r = z3.unknown
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        rs = str(r); self.stats[rs] = self.stats.get(rs, 0) + 1
        if model: return rs, (s.model() if rs == 'sat' else None)
        return rs

    def add_pc(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd()
        self.push(c)

    def push(self, c):
        """append to the path condition; keep only samples that satisfy it"""
        self.pc.append(c)
        self.pcids[c.get_id()] = c
        if z3.is_and(c):
            for x in c.children(): self.pcids[x.get_id()] = x
        if self.samples: self.samples = [s for s in self.samples if s.holds(c)]

    def known(self, c):
        k = self.pcids.get(c.get_id())
        return k is not None and k.eq(c)

    def sampled(self, c):
        """does a kept sample satisfy c?"""
        if len(self.samples) > 24 and self.dec_i > 4: self.samples = self.samples[:24]
        for s in self.samples:
            if s.holds(c): return True
        return False

    def resample(self, mod):
        """new samples from a solver model of the path condition"""
        if mod is None: return
        inp = self.model_inputs(mod)
        new = []
        for j in range(6):
            fixed = {}
            for n, k, v in self.inputs:
                x = inp.get(n)
                if x is None: continue
                if k == 'real':
                    if j: x = x + (random.Random(f"{j}/{n}").uniform(-1, 1)) * (1e-3 if j < 3 else 0.05) * (1 + abs(x))
                elif k in ('i32', 'i64'): x = x & ((1 << (32 if k == 'i32' else 64)) - 1)
                else: x = bool(x)
                fixed[n] = x
            s = Sample(1000 + j, fixed)
            for n, k, v in self.inputs:
                if n in fixed: s.env[n] = fixed[n]
            if all(s.holds(c) for c in self.pc): new.append(s)
        self.samples = new

    def refill(self, secs=4.0, want=6, tries=20000):
        """look for fresh sample points of the current path (only candidates for counterexamples / witnesses)"""
        if self.samples or self.userdata.get('refill') == len(self.pc): return
        self.userdata['refill'] = len(self.pc)
        end = time.time() + secs; new = []; base = 0
        for j in range(tries):
            if time.time() > end or len(new) >= want: break
            s = Sample(100000 + j)
            for n, k, v in self.inputs:
                if k == 'real': s.draw_real(n)
                elif k == 'bool': s.env[n] = bool(s.draw_int(n, 0, 1))
                else: s.draw_int(n, 0, 6)
            if all(s.holds(c) for c in self.pc): new.append(s)
        self.samples = new

    # ------------------------------------------------------------ decisions
    def decide(self, options):
        """k-ary decision; options: list of (value, constraint or None). Feasibility already established for all."""
        i = self.dec_i; self.dec_i += 1
        if i < len(self.prefix):
            v = self.prefix[i]
            for val, c in options:
                if val == v: return val, c
            raise Inconclusive("non-deterministic re-execution")
        self.prefix.append(options[0][0])
        base = self.prefix[:-1]
        for val, c in options[1:]: self.work.append(base + [val])
        return options[0]

    def branch(self, c):
        """c: int or z3 Bool -> python bool, forking"""
        if isinstance(c, int): return bool(c)
        if isinstance(c, Undef): self.uninit('branch on an uninitialised value')
        if z3.is_bv(c): c = (c == 1)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = self.dec_i
        if i < len(self.prefix):
            self.dec_i += 1
            v = self.prefix[i]
            if isinstance(v, tuple):      # forced (only one side feasible)
                v = v[0]
            self.push(c if v else z3.Not(c))
            return v
        nc = z3.simplify(z3.Not(c))
        if self.known(c): self.prefix.append((True,)); self.dec_i += 1; return True
        if self.known(nc): self.prefix.append((False,)); self.dec_i += 1; return False
        ft = self.o['feas_timeout']
        rt = 'sat' if self.sampled(c) else self.check(c, ft)
        if rt == 'unknown': rt = self.nfcheck(c, ft)
        if rt == 'unsat':
            self.prefix.append((False,)); self.dec_i += 1
            self.stats['infeasible'] += 1
            return False
        rf = 'sat' if self.sampled(nc) else self.check(nc, ft)
        if rf == 'unknown': rf = self.nfcheck(nc, ft)
        if rf == 'unsat':
            self.prefix.append((True,)); self.dec_i += 1
            self.stats['infeasible'] += 1
            return True
        self.dec_i += 1
        base = list(self.prefix)
        first = True
        if getattr(self, 'prefer_false', False): first = False
        self.prefix.append(first)
        self.work.append(base + [not first])
        self.push(c if first else nc)
        return first

    def findite(self, e):
        """condition of an if-then-else inside e, if any"""
        st = [e]; seen = set(); best = None
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                best = x.arg(0); st = list(x.children()[:1])    # innermost condition first
                continue
            st.extend(x.children())
        return best

    def concretize(self, e, why=''):
        """symbolic integer -> concrete python int, forking over all feasible values"""
        if isinstance(e, int): return e
        e = z3.simplify(e)
        while True:
            if z3.is_bv_value(e): return e.as_long()
            if z3.is_int_value(e): return e.as_long()
            c = self.findite(e)
            if c is None: break
            e = z3.simplify(z3.substitute(e, (c, z3.BoolVal(self.branch(c)))))
        i = self.dec_i
        if i < len(self.prefix):
            self.dec_i += 1
            v = self.prefix[i]
            if isinstance(v, tuple): v = v[1]
            self.push(e == v)
            return v
        vals = []
        extra = []
        while True:
            r, mod = self.check(z3.BoolVal(True) if not extra else z3.And(*extra), self.o['q_timeout'], full=True, model=True)
            if r == 'unsat': break
            if r != 'sat': raise Inconclusive("enumeration of index values: solver " + r + ' ' + why)
            v = mod.eval(e, model_completion=True)
            v = v.as_long()
            vals.append(v); extra.append(e != v)
            if len(vals) > self.o['enum_limit']: raise Inconclusive(f"more than {self.o['enum_limit']} values for symbolic index {why}: {str(e)[:120]}")
        if not vals: raise PathEnd()
        vals.sort()
        base = list(self.prefix)
        self.dec_i += 1
        self.prefix.append(('v', vals[0]) if len(vals) == 1 else vals[0])
        for v in reversed(vals[1:]): self.work.append(base + [v])
        self.push(e == vals[0])
        return vals[0]

    # ------------------------------------------------------------ failures
    def fail(self, kind, label, model, extra=''):
        loc = self.fstack[-6:] if hasattr(self, 'fstack') else []
        inp = self.model_inputs(model) if model is not None else None
        self.failures.append(dict(kind=kind, label=label, inputs=inp, extra=str(extra)[:600], where=list(loc), decisions=len(self.prefix)))
        if getattr(self, 'onfail', None): self.onfail(self)

    def model_inputs(self, model):
        """concrete values for the declared symbolic inputs"""
        if isinstance(model, Sample):
            return {n: (sgn(model.env[n], 32 if k == 'i32' else 64) if k in ('i32', 'i64') else int(model.env[n]) if k == 'bool' else model.env[n]) for n, k, v in self.inputs if n in model.env}
        out = {}
        def num(z):
            v = model.eval(z, model_completion=True)
            if z3.is_algebraic_value(v): v = v.approx(20)
            if z3.is_rational_value(v): return Q(v.numerator_as_long(), v.denominator_as_long())
            if z3.is_int_value(v) or z3.is_bv_value(v): return v.as_long()
            if z3.is_true(v): return 1
            if z3.is_false(v): return 0
            return None
        for name, kind, val in self.inputs:
            if kind == 'real':
                if not isinstance(val, R): out[name] = float(val) if isinstance(val, (Q, float)) else None; continue
                x = num(RL.toz3(val))
                out[name] = float(x) if x is not None else 0.0
            elif isinstance(val, int):
                out[name] = sgn(val, 64) if kind == 'i64' else val
            else:
                x = num(val)
                w = val.size() if z3.is_bv(val) else 0
                out[name] = sgn(x, w) if w else x
        # angles: if only sin/cos of an input constrained, derive the angle from them
        for name, kind, val in self.inputs:
            if kind != 'real' or not isinstance(val, R): continue
            for half in (1, 2):
                base = val if half == 1 else RL.mul(Q(1, 2), val)
                s = RL._tab.get(('sin', base.id)); c = RL._tab.get(('cos', base.id))
                if s is not None and c is not None and s.z is not None and c.z is not None:
                    sv, cv = num(s.z), num(c.z)
                    if sv is not None and cv is not None:
                        a = math.atan2(float(sv), float(cv)) * half
                        cur = out.get(name)
                        # keep winding of the model's angle value when compatible
                        if cur is not None and abs(math.sin(cur) - math.sin(a)) + abs(math.cos(cur) - math.cos(a)) < 1e-9: pass
                        else: out[name] = a
                    break
        return out

    # ------------------------------------------------------------ memory
    def padd(self, p, off):
        if isinstance(p, Ptr):
            if isinstance(off, int) and isinstance(p.off, int): return Ptr(p.o, p.off + off)
            return Ptr(p.o, self.oadd(p.off, off))
        if isinstance(p, int):
            if isinstance(off, int): return (p + off) & M64
            raise Inconclusive("symbolic offset on integer pointer")
        if isinstance(p, FnP) and isinstance(off, int):
            if off == 0: return p
        if isinstance(p, Undef): return p
        raise Inconclusive(f"pointer arithmetic on {p} {off}")

    def oadd(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a + b
        if isinstance(a, int) and a == 0: return b
        if isinstance(b, int) and b == 0: return a
        s = a if sym(a) else b
        if z3.is_bv(s):
            if isinstance(a, int): a = z3.BitVecVal(a & M64, 64)
            if isinstance(b, int): b = z3.BitVecVal(b & M64, 64)
            if not z3.is_bv(a): a = z3.Int2BV(a, 64)
            if not z3.is_bv(b): b = z3.Int2BV(b, 64)
        return a + b

    def deref(self, p, size, what):
        """returns (obj, concrete offset); checks validity"""
        if isinstance(p, int):
            self.memfail(f"{what} through {'null' if p == 0 else hex(p)} pointer", None)
        if isinstance(p, FnP): raise Inconclusive("data access to function")
        if isinstance(p, Undef): self.memfail(f"{what} through uninitialised pointer", None)
        if not isinstance(p, Ptr):
            p = self.ptr_from_int(p)
        o = self.heap[p.o]
        if o.dead: self.memfail(f"{what} after free/out of scope ({o.name})", None)
        off = p.off
        if not isinstance(off, int):
            off = z3.simplify(off)
            if z3.is_bv_value(off): off = sgn(off.as_long(), 64)
            elif z3.is_int_value(off): off = off.as_long()
        if not isinstance(off, int):
            bad = z3.Or(off < 0, off > o.size - size)
            r, mod = self.check(bad, model=True, full=True)
            if r == 'sat':
                self.fail('memory', f"{what} of {size} bytes out of bounds of {o.name} ({o.size} bytes)", mod, str(off))
                self.add_pc(z3.Not(bad))
                if self.check(z3.BoolVal(True), full=True) == 'unsat': raise PathEnd()
            elif r == 'unknown':
                raise Inconclusive("bounds query unknown")
            v = self.concretize(off, f"{what} {o.name}")
            off = sgn(v, 64) if z3.is_bv(off) else v
        if off < 0 or off + size > o.size:
            self.memfail(f"{what} of {size} bytes at offset {off} out of bounds of {o.name} ({o.size} bytes)", None)
        return o, off

    def uninit(self, msg):
        r, mod = self.check(z3.BoolVal(True), full=True, model=True)
        if r == 'unsat': raise PathEnd()
        self.fail('uninit', msg, mod)
        raise PathEnd()

    def memfail(self, msg, mod):
        if mod is None:
            r, mod = self.check(z3.BoolVal(True), full=True, model=True)
            if r == 'unsat': raise PathEnd()
        self.fail('memory', msg, mod)
        raise Violation(msg)

    def ptr_from_int(self, x):
        raise Inconclusive("pointer from symbolic integer " + str(x)[:80])

    def load(self, p, t):
        if t.k in ('struct', 'array', 'vector'):
            if t.k == 'struct': return Agg([self.load(self.padd(p, o), e) for e, o in zip(t.elts, t.offs)])
            e = t.elts[0]; return Agg([self.load(self.padd(p, i * e.size), e) for i in range(t.n)])
        o, off = self.deref(p, t.size, 'load')
        if self.watch is not None: self.watch('r', p.o, off, t.size)
        c = o.d.get(off)
        if c is not None and c[0] == t.size: return self.conv(c[1], t)
        return self.load_slow(o, off, t)

    def conv(self, v, t):
        """reinterpret stored value for load type"""
        k = t.k
        if k == 'double':
            if isinstance(v, (R, Q, float, Undef)): return v
            if isinstance(v, int): return RL.fconst(struct.unpack('<d', struct.pack('<Q', v))[0])
            if sym(v) and z3.is_bv(v):
                s = z3.simplify(v)
                if z3.is_bv_value(s): return RL.fconst(struct.unpack('<d', struct.pack('<Q', s.as_long()))[0])
                raise Inconclusive("symbolic bits as double")
            return v
        if k == 'float':
            if isinstance(v, int): return RL.fconst(struct.unpack('<f', struct.pack('<I', v))[0])
            return v
        if k == 'int':
            if t.w == 1 and isinstance(v, int): return v & 1
            if t.w == 1 and sym(v) and z3.is_bv(v): return z3.Extract(0, 0, v) == 1
            return v      # doubles stay opaque
        if k == 'ptr':
            return v
        return v

    def load_slow(self, o, off, t):
        size = t.size
        # collect bytes
        cells = []
        if size == 16 and t.k == 'x86_fp80':
            c = o.d.get(off)
            if c: return c[1]
        i = off
        parts = []     # list of (nbytes, value)
        while i < off + size:
            c = o.d.get(i)
            if c is not None and i + c[0] <= off + size:
                parts.append((c[0], c[1])); i += c[0]; continue
            # inside an earlier bigger cell?
            found = None
            for back in range(1, 64):
                c2 = o.d.get(i - back)
                if c2 is not None:
                    if c2[0] > back: found = (i - back, c2)
                    break
            if c is not None and found is None: found = (i, c)
            if found is not None:
                b, (cs, cv) = found
                n = min(b + cs, off + size) - i
                parts.append((n, self.subbytes(cv, i - b, n, cs))); i += n; continue
            if o.zero: parts.append((1, 0)); i += 1; continue
            parts.append((1, UNDEF)); i += 1
        if len(parts) == 1: return self.conv(parts[0][1], t)
        if any(isinstance(v, Undef) for _, v in parts): return UNDEF
        if all(isinstance(v, int) for _, v in parts):
            r = 0; sh = 0
            for n, v in parts: r |= v << sh; sh += 8 * n
            return self.conv(r, t)
        try: parts = [(n, self.tobits(v, n)) for n, v in parts]
        except Inconclusive: raise
        r = z3.Concat(*[v if sym(v) else z3.BitVecVal(v, 8 * n) for n, v in reversed(parts)])
        return self.conv(z3.simplify(r), t)

    def tobits(self, v, n):
        if isinstance(v, int): return v
        if isinstance(v, Q) and n == 8: return struct.unpack('<Q', struct.pack('<d', float(v)))[0]
        if isinstance(v, float) and n == 8: return struct.unpack('<Q', struct.pack('<d', v))[0]
        if sym(v):
            if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
            if z3.is_bv(v):
                if v.size() < 8 * n: return z3.ZeroExt(8 * n - v.size(), v)
                return v
            if z3.is_int(v): return z3.Int2BV(v, 8 * n)
        raise Inconclusive(f"bits of {v}")

    def subbytes(self, v, a, n, total):
        if isinstance(v, Undef): return v
        b = self.tobits(v, total)
        if isinstance(b, int): return (b >> (8 * a)) & ((1 << (8 * n)) - 1)
        return z3.simplify(z3.Extract(8 * (a + n) - 1, 8 * a, b))

    def store(self, p, v, t):
        if t.k in ('struct', 'array', 'vector'):
            if isinstance(v, Undef): return
            if t.k == 'struct':
                for e, o, x in zip(t.elts, t.offs, v.v): self.store(self.padd(p, o), x, e)
            else:
                e = t.elts[0]
                for i, x in enumerate(v.v): self.store(self.padd(p, i * e.size), x, e)
            return
        o, off = self.deref(p, t.size, 'store')
        if self.watch is not None: self.watch('w', p.o, off, t.size)
        self.put(o, off, t.size, v)

    def put(self, o, off, size, v):
        d = o.d
        c = d.get(off)
        if c is not None and c[0] == size:
            d[off] = (size, v); return
        self.clear(o, off, size)
        d[off] = (size, v)

    def clear(self, o, off, size):
        """remove cells overlapping [off, off+size), splitting partial ones"""
        d = o.d
        if not d: return
        if size > len(d) + 80: ks = [k for k in d if off - 64 < k < off + size]
        else: ks = [k for k in range(off - 63, off + size) if k in d]
        for k in ks:
            cs, cv = d[k]
            if k + cs <= off: continue
            if k >= off and k + cs <= off + size: del d[k]; continue
            del d[k]
            if k < off:
                for j in range(k, off): d[j] = (1, self.subbytes(cv, j - k, 1, cs))
            if k + cs > off + size:
                for j in range(off + size, k + cs): d[j] = (1, self.subbytes(cv, j - k, 1, cs))

    def memcpy(self, dst, src, n):
        n = self.concretize(n, 'memcpy size')
        if n == 0: return
        so, soff = self.deref(src, n, 'memcpy read'); do, doff = self.deref(dst, n, 'memcpy write')
        if self.watch is not None: self.watch('r', src.o, soff, n); self.watch('w', dst.o, doff, n)
        items = []
        if n > len(so.d): ks = sorted(k for k in so.d if soff - 64 < k < soff + n)
        else: ks = [k for k in range(soff - 63, soff + n) if k in so.d]
        for k in ks:
            cs, cv = so.d[k]
            if k >= soff and k + cs <= soff + n: items.append((k - soff, cs, cv))
            elif k + cs > soff and k < soff + n:
                a = max(k, soff); b = min(k + cs, soff + n)
                for j in range(a, b): items.append((j - soff, 1, self.subbytes(cv, j - k, 1, cs)))
        self.clear(do, doff, n)
        for r, cs, cv in items: do.d[doff + r] = (cs, cv)
        if so.zero and not do.zero:
            cov = set()
            for r, cs, _ in items: cov.update(range(r, r + cs))
            for j in range(n):
                if j not in cov: do.d[doff + j] = (1, 0)
        elif do.zero and not so.zero:
            cov = set()
            for r, cs, _ in items: cov.update(range(r, r + cs))
            for j in range(n):
                if j not in cov: do.d[doff + j] = (1, UNDEF)

    def memset(self, dst, val, n):
        n = self.concretize(n, 'memset size')
        if n == 0: return
        o, off = self.deref(dst, n, 'memset')
        if self.watch is not None: self.watch('w', dst.o, off, n)
        self.clear(o, off, n)
        if isinstance(val, int):
            if val == 0 and o.zero: return
            v8 = int.from_bytes(bytes([val & 255]) * 8, 'little')
            i = 0
            while i < n and (off + i) % 8: o.d[off + i] = (1, val & 255); i += 1
            while i + 8 <= n: o.d[off + i] = (8, v8); i += 8
            while i < n: o.d[off + i] = (1, val & 255); i += 1
        else:
            for i in range(n): o.d[off + i] = (1, val)

    def rdstr(self, p):
        out = []
        while True:
            o, off = self.deref(p, 1, 'string read')
            c = o.d.get(off)
            if c is not None and c[0] == 1: v = c[1]
            else: v = self.load(p, self.T8)
            if sym(v): v = self.concretize(v, 'char')
            if isinstance(v, Undef): self.memfail("uninitialised string", None)
            if v == 0: return bytes(out)
            out.append(v); p = Ptr(p.o, off + 1)

    def rdbytes(self, p, n):
        return bytes(self.concretize(self.load(self.padd(p, i), self.T8)) for i in range(n))

    # ------------------------------------------------------------ integer ops
    def bv(self, x, w):
        if isinstance(x, int): return z3.BitVecVal(x, w)
        if z3.is_bool(x): return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if z3.is_int(x): return z3.Int2BV(x, w)
        return x

    def ibin(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            mask = (1 << w) - 1
            if op == 'add': return (a + b) & mask
            if op == 'sub': return (a - b) & mask
            if op == 'mul': return (a * b) & mask
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & mask if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sgn(a, w) >> b) & mask
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.memfail("integer division by zero", None)
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            if op == 'sdiv': return q & mask
            return (x - q * y) & mask
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if isinstance(a, (Ptr, FnP)) or isinstance(b, (Ptr, FnP)): return self.ptrop(op, a, b)
        if isinstance(a, (Q, R, float)): a = self.tobits(a, w // 8)
        if isinstance(b, (Q, R, float)): b = self.tobits(b, w // 8)
        if isinstance(a, int) and isinstance(b, int): return self.ibin(op, a, b, w)
        if w == 1:
            A = a if not isinstance(a, int) else z3.BoolVal(bool(a)); B = b if not isinstance(b, int) else z3.BoolVal(bool(b))
            if op == 'and' or op == 'mul': r = z3.And(A, B)
            elif op == 'or': r = z3.Or(A, B)
            elif op in ('xor', 'add', 'sub'): r = z3.Xor(A, B)
            else: raise Inconclusive('i1 ' + op)
            r = z3.simplify(r)
            return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
        # Int-sorted (from fptosi): stay in Int for +,-,*,const; no wrap assumed
        ia = sym(a) and z3.is_int(a); ib = sym(b) and z3.is_int(b)
        if ia or ib:
            A = sgn(a, w) if isinstance(a, int) else a; B = sgn(b, w) if isinstance(b, int) else b
            if op in ('add', 'sub', 'mul') and not (sym(A) and z3.is_bv(A)) and not (sym(B) and z3.is_bv(B)):
                self.assumed.add("integers derived from floating point do not wrap")
                return z3.simplify(A + B if op == 'add' else A - B if op == 'sub' else A * B)
            if op == 'shl' and isinstance(B, int): return z3.simplify(A * (1 << B))
            if op == 'or' and isinstance(B, int) or op == 'and' and isinstance(B, int) and B == -1: pass
            if op in ('sdiv', 'srem') and isinstance(B, int) and B > 0:
                q = z3.If(A >= 0, A / B, -((-A) / B))
                return z3.simplify(q if op == 'sdiv' else A - q * B)
        A, B = self.bv(a, w), self.bv(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and not isinstance(b, int):
            r, mod = self.check(B == 0, model=True)
            if r == 'sat':
                self.fail('memory', 'integer division by zero', mod); self.add_pc(B != 0)
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul': r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op == 'shl': r = A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        elif op == 'udiv': r = z3.UDiv(A, B)
        elif op == 'urem': r = z3.URem(A, B)
        elif op == 'sdiv': r = A / B
        elif op == 'srem': r = z3.SRem(A, B)
        else: raise Inconclusive(op)
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def ptrop(self, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o:
                if isinstance(a.off, int) and isinstance(b.off, int): return (a.off - b.off) & M64
                A = self.bv(a.off if sym(a.off) else a.off & M64, 64); B = self.bv(b.off if sym(b.off) else b.off & M64, 64)
                return z3.simplify(A - B)
            # distinct objects: arbitrary but fixed, well separated addresses
            return (self.addr(a) - self.addr(b)) & M64
        if op == 'add':
            if isinstance(a, Ptr) and not isinstance(b, Ptr): return self.padd(a, sgn(b, 64) if isinstance(b, int) else b)
            if isinstance(b, Ptr): return self.padd(b, sgn(a, 64) if isinstance(a, int) else a)
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, int): return self.padd(a, -sgn(b, 64))
        if op == 'and' and isinstance(b, int):
            if isinstance(a, FnP): return 0 if b < 16 else a
            if isinstance(a, Ptr) and isinstance(a.off, int):
                if b < 16: return a.off & b
                if b >= M64 - 15: return Ptr(a.o, a.off & ~(M64 - b) if a.off >= 0 else a.off)
        if op == 'or' and isinstance(b, int) and b == 0: return a
        if op == 'xor' or op == 'mul' or op in ('lshr', 'urem', 'shl', 'sub', 'add', 'ashr'):
            A = self.addr(a) if isinstance(a, (Ptr, FnP)) else a
            B = self.addr(b) if isinstance(b, (Ptr, FnP)) else b
            return self.ibin(op, A, B, 64)
        raise Inconclusive(f"pointer op {op} {a} {b}")

    def addr(self, p):
        if isinstance(p, FnP): return 0x10000 + (hash(p.name) & 0xffffff) * 16
        if isinstance(p.off, int): return 0x100000000 + p.o * 0x1000000 + p.off
        return z3.BitVecVal(0x100000000 + p.o * 0x1000000, 64) + self.bv(p.off, 64)

    def trunc(self, v, w):
        if isinstance(v, int): return v & ((1 << w) - 1)
        if isinstance(v, Undef): return v
        if isinstance(v, (Ptr, FnP)):
            v = self.addr(v); return v & ((1 << w) - 1)
        if isinstance(v, (Q, R, float)): v = self.tobits(v, 8); return self.trunc(v, w)
        if z3.is_int(v):
            self.assumed.add("integers derived from floating point do not wrap")
            return v if w > 1 else (v % 2 == 1)
        if z3.is_bool(v): return v
        r = z3.simplify(z3.Extract(w - 1, 0, v))
        if w == 1: r = z3.simplify(r == 1); return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
        return r.as_long() if z3.is_bv_value(r) else r

    def ext(self, v, w0, w, signed):
        if isinstance(v, int): return (sgn(v, w0) & ((1 << w) - 1)) if signed else v
        if isinstance(v, (Undef, Ptr)): return v
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal((1 << w) - 1 if signed else 1, w), z3.BitVecVal(0, w))
        if z3.is_int(v):
            if not signed and not getattr(self, 'int_nonneg', False):
                # zext of a possibly negative int
                return z3.If(v >= 0, v, v + (1 << w0))
            return v
        return z3.simplify(z3.SignExt(w - w0, v) if signed else z3.ZeroExt(w - w0, v))

    IPRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}

    def icmp(self, pred, t, a, b):
        p = self.IPRED[pred]
        if isinstance(a, int) and isinstance(b, int):
            if p == 'eq': return int(a == b)
            if p == 'ne': return int(a != b)
            if p[0] == 's':
                w = t.w or 64; a, b = sgn(a, w), sgn(b, w)
            c = p[1:]
            return int(a > b if c == 'gt' else a >= b if c == 'ge' else a < b if c == 'lt' else a <= b)
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if isinstance(a, (Ptr, FnP)) or isinstance(b, (Ptr, FnP)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                x, y = a.off, b.off
                if isinstance(x, int) and isinstance(y, int):
                    return int({'eq': x == y, 'ne': x != y, 'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y, 'sgt': x > y, 'sge': x >= y, 'slt': x < y, 'sle': x <= y}[p])
                X = self.bv(x if sym(x) else x & M64, 64); Y = self.bv(y if sym(y) else y & M64, 64)
                return self.zb({'eq': X == Y, 'ne': X != Y, 'ugt': X > Y, 'uge': X >= Y, 'ult': X < Y, 'ule': X <= Y}[p])
            if p in ('eq', 'ne'):
                if isinstance(a, FnP) and isinstance(b, FnP): e = a.name == b.name
                else: e = False
                return int(e == (p == 'eq'))
            A = self.addr(a) if isinstance(a, (Ptr, FnP)) else a
            B = self.addr(b) if isinstance(b, (Ptr, FnP)) else b
            return self.icmp(pred, t, A, B)
        if isinstance(a, (Q, R, float)) or isinstance(b, (Q, R, float)):
            # integer comparison of double bits: support equality with the bits of a concrete value
            if p in ('eq', 'ne') and isinstance(a, (R, Q)) and isinstance(b, (R, Q)):
                r = self.fcmpv('eq', a, b); return r if p == 'eq' else self.bnot(r)
            a = self.tobits(a, t.size) if isinstance(a, (Q, R, float)) else a
            b = self.tobits(b, t.size) if isinstance(b, (Q, R, float)) else b
            return self.icmp(pred, t, a, b)
        w = t.w or 64
        if w == 1:
            A = a if not isinstance(a, int) else z3.BoolVal(bool(a)); B = b if not isinstance(b, int) else z3.BoolVal(bool(b))
            if p == 'eq': return self.zb(A == B)
            if p == 'ne': return self.zb(A != B)
            raise Inconclusive("i1 compare " + p)
        if (sym(a) and z3.is_int(a)) or (sym(b) and z3.is_int(b)):
            if (sym(a) and z3.is_bv(a)): a = z3.BV2Int(a, p[0] == 's' or p in ('eq', 'ne'))
            if (sym(b) and z3.is_bv(b)): b = z3.BV2Int(b, p[0] == 's' or p in ('eq', 'ne'))
            if p[0] == 'u':
                f = lambda x: (x if isinstance(x, int) else z3.If(x >= 0, x, x + (1 << w)))
                A, B = f(a), f(b)
            else:
                A = sgn(a, w) if isinstance(a, int) else a; B = sgn(b, w) if isinstance(b, int) else b
            return self.zb({'eq': lambda: A == B, 'ne': lambda: A != B, 'gt': lambda: A > B, 'ge': lambda: A >= B, 'lt': lambda: A < B, 'le': lambda: A <= B}[p if p in ('eq', 'ne') else p[1:]]())
        A, B = self.bv(a, w), self.bv(b, w)
        f = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'ult': lambda: z3.ULT(A, B),
             'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B, 'slt': lambda: A < B, 'sle': lambda: A <= B}[p]
        return self.zb(f())

    def zb(self, e):
        e = z3.simplify(e)
        return 1 if z3.is_true(e) else 0 if z3.is_false(e) else e

    def bnot(self, c):
        if isinstance(c, int): return 1 - c
        if isinstance(c, Undef): return c
        return z3.Not(c)

    def zbool(self, c):
        if isinstance(c, int): return z3.BoolVal(bool(c))
        if z3.is_bv(c): return c != 0
        return c

    # ------------------------------------------------------------ floating point compare
    FP = ['false', 'oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'true']
    def fcmp(self, pred, a, b):
        p = self.FP[pred]
        if p == 'false': return 0
        if p == 'true': return 1
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        nan = (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b)
        if p == 'ord': return int(not nan)
        if p == 'uno': return int(nan)
        if nan: return int(p[0] == 'u')
        return self.fcmpv(p[1:], a, b)

    def unabs(self, x):
        """|e| is kept lazy; used in arithmetic it is resolved by forking on the sign of e"""
        if isinstance(x, R) and x.op == 'abs':
            return RL.neg(x.args[0]) if self.branch(self.fcmpv('lt', x.args[0], Q(0))) else x.args[0]
        return x

    def abscmp(self, c, a, b):
        la = isinstance(a, R) and a.op == 'abs'; lb = isinstance(b, R) and b.op == 'abs'
        if lb and not la: return self.abscmp({'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(c, c), b, a)
        x = a.args[0]
        if a is b: return int(c in ('eq', 'ge', 'le'))
        if lb:
            y = b.args[0]; X, Y = RL.toz3(x), RL.toz3(y)
            if c in ('eq', 'ne'):
                e = z3.Or(X == Y, X == -Y)
                return self.zb(e if c == 'eq' else z3.Not(e))
            gt = z3.Or(z3.And(X > Y, X > -Y), z3.And(-X > Y, -X > -Y))
            lt = z3.Or(z3.And(Y > X, Y > -X), z3.And(-Y > X, -Y > -X))
            return self.zb({'gt': gt, 'lt': lt, 'ge': z3.Not(lt), 'le': z3.Not(gt)}[c])
        if isinstance(b, Q):
            X = RL.toz3(x); B = RL.zq(b)
            if b < 0: return int(c in ('gt', 'ge', 'ne'))
            if b == 0:
                if c == 'ge': return 1
                if c == 'lt': return 0
                return self.zb(X != 0 if c in ('gt', 'ne') else X == 0)
            if b > 0:
                try:
                    N = RL.Norm(); N.deadline = time.time() + 3; N.maxterms = 3000
                    if not N.reduce(N.nf(x))[0]: return int(c in ('lt', 'le', 'ne'))
                except RL.Unsup: pass
            e = {'gt': z3.Or(X > B, X < -B), 'ge': z3.Or(X >= B, X <= -B), 'lt': z3.And(X < B, X > -B), 'le': z3.And(X <= B, X >= -B), 'eq': z3.Or(X == B, X == -B), 'ne': z3.And(X != B, X != -B)}[c]
            return self.zb(e)
        return self.fcmpv(c, self.unabs(a), b)

    def fcmpv(self, c, a, b):
        if (isinstance(a, R) and a.op == 'abs' or isinstance(b, R) and b.op == 'abs') and not isinstance(a, float) and not isinstance(b, float): return self.abscmp(c, a, b)
        if isinstance(a, float) or isinstance(b, float):      # infinities
            x = a if isinstance(a, float) else 0.0; y = b if isinstance(b, float) else 0.0
            return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[c])
        if isinstance(a, Q) and isinstance(b, Q):
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[c])
        if a is b: return int(c in ('eq', 'ge', 'le'))
        A, B = RL.toz3(a), RL.toz3(b)
        return self.regcmp(self.zb({'eq': lambda: A == B, 'ne': lambda: A != B, 'gt': lambda: A > B, 'ge': lambda: A >= B, 'lt': lambda: A < B, 'le': lambda: A <= B}[c]()), c, a, b)

    def fdiv(self, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if isinstance(b, R):
            mode = self.o['div']
            if mode == 'fork':
                z = self.branch(self.fcmpv('eq', b, Q(0)))
                if z:
                    if self.branch(self.fcmpv('eq', a, Q(0))): return math.nan
                    return math.inf if self.branch(self.fcmpv('gt', a, Q(0))) else -math.inf
            elif mode == 'assert':
                z = self.fcmpv('eq', b, Q(0))
                if not (isinstance(z, int) and z == 0):
                    r, mod = self.check(self.zbool(z), model=True, full=True)
                    if r == 'sat': self.fail('div0', 'floating-point division by zero', mod, RL.show(b))
                    elif r == 'unknown': raise Inconclusive('div-by-zero query unknown')
                    self.nz.append(b)
            else:
                if b not in self.nz: self.nz.append(b)
        elif isinstance(b, Q) and b == 0 and isinstance(a, R):
            if self.branch(self.fcmpv('eq', a, Q(0))): return math.nan
            return math.inf if self.branch(self.fcmpv('gt', a, Q(0))) else -math.inf
        return RL.div(a, b)

    def sqrt(self, a):
        if isinstance(a, R) and self.o['sqrt'] == 'fork':
            if self.branch(self.fcmpv('lt', a, Q(0))): return math.nan
        elif isinstance(a, R):
            self.assumed.add("sqrt arguments are non-negative")
        if isinstance(a, R) and a.op == '*' and a.args[0] is a.args[1] and isinstance(a.args[0], R):
            x = a.args[0]      # sqrt(x*x) = |x|
            return x if x.op in ('root', 'abs') else RL.node('abs', x)
        return RL.sqrt(a)

    def f2i(self, v, w, signed):
        if isinstance(v, Q):
            n = int(v) if v >= 0 else -int(-v)
            return n & ((1 << w) - 1)
        if isinstance(v, Undef): return v
        if isinstance(v, float): return 1 << (w - 1)   # x86 indefinite integer
        if self.o.get('f2i') == 'enum':
            if v.op in ('floor', 'ceil') and isinstance(v.args[0], R): n = self.enumint(v.args[0], v.op)
            else: n = self.enumint(v, 'trunc')
            return n & ((1 << w) - 1)
        z = RL.toz3(v)
        if v.op in ('floor', 'ceil') and isinstance(v.args[0], R):
            x = RL.toz3(v.args[0])
            return z3.ToInt(x) if v.op == 'floor' else -z3.ToInt(-x)
        return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))

    def enumint(self, v, mode):
        """integer part of a real, one path per feasible value"""
        x = RL.toz3(v)
        def dom(n):
            if mode == 'floor' or (mode == 'trunc' and n > 0): return z3.And(x >= n, x < n + 1)
            if mode == 'ceil' or n < 0: return z3.And(x > n - 1, x <= n)
            return z3.And(x > -1, x < 1)
        i = self.dec_i
        if i < len(self.prefix):
            self.dec_i += 1
            n = self.prefix[i]
            if isinstance(n, tuple): n = n[1]
            self.push(dom(n)); return n
        vals = set(); tried = set()
        for s in self.samples[:24]:
            try: f = s.fev(v)
            except Exception: continue
            if f != f or abs(f) > 1e6: continue
            n = math.floor(f) if mode == 'floor' else math.ceil(f) if mode == 'ceil' else int(f)
            if n not in tried and s.holds(dom(n)): vals.add(n)
            tried.add(n)
        while True:
            r, mod = self.check(z3.And(*[z3.Not(dom(n)) for n in vals]) if vals else z3.BoolVal(True), self.o['q_timeout'], full=True, model=True)
            if r == 'unsat': break
            if r != 'sat': raise Inconclusive('enumeration of integer part: solver ' + r)
            q = mod.eval(x, model_completion=True)
            if z3.is_algebraic_value(q): q = q.approx(20)
            q = Q(q.numerator_as_long(), q.denominator_as_long())
            n = math.floor(q) if mode == 'floor' else math.ceil(q) if mode == 'ceil' else int(q)
            if n in vals: raise Inconclusive('enumeration of integer part: repeated value')
            vals.add(n)
            if len(vals) > self.o['enum_limit']: raise Inconclusive(f"more than {self.o['enum_limit']} integer parts of {RL.show(v)[:120]}")
        if not vals: raise PathEnd()
        vals = sorted(vals)
        base = list(self.prefix); self.dec_i += 1
        self.prefix.append(('v', vals[0]) if len(vals) == 1 else vals[0])
        for n in reversed(vals[1:]): self.work.append(base + [n])
        self.push(dom(vals[0])); return vals[0]

    def i2f(self, v, w, signed):
        if isinstance(v, int): return Q(sgn(v, w) if signed else v)
        if isinstance(v, Undef): return v
        if z3.is_bool(v):
            return Q(1 if not signed else -1) if self.branch(v) else Q(0)
        while True:            # values chosen by conditions: fork on the conditions
            c = self.findite(v)
            if c is None: break
            v = z3.simplify(z3.substitute(v, (c, z3.BoolVal(self.branch(c)))))
            if z3.is_bv_value(v): return Q(sgn(v.as_long(), w) if signed else v.as_long())
            if z3.is_int_value(v): return Q(v.as_long())
        # symbolic integer -> real var tied by constraint
        k = v.get_id()
        c = self.fresh.get(('i2f', k))
        if c is not None and c[0].eq(v): return c[1]
        iv = v if z3.is_int(v) else z3.BV2Int(v, signed)
        nm = f"i2f!{len(self.fresh)}"
        r = RL.var(nm)
        RL.toz3(r)
        self.fresh[('i2f', k)] = (v, r)
        self.pc.append(RL.toz3(r) == z3.ToReal(iv))
        return r

    # ------------------------------------------------------------ execution
    def run(self, fname, init=None):
        """explore all paths of fname()"""
        t0 = time.time()
        self.work = [[]]
        while self.work:
            if self.stats['paths'] >= self.o['max_paths']:
                self.inconclusive.append(f"path bound {self.o['max_paths']} reached"); break
            if time.time() - t0 > self.o['time_limit']:
                self.inconclusive.append(f"time limit {self.o['time_limit']} s reached"); break
            self.prefix = self.work.pop()
            self.newstate()
            self.steps = 0; self.fstack = []; self.watch = None
            self.stats['paths'] += 1
            try:
                if init: init(self)
                self.call(fname, [])
                self.leakcheck()
            except PathEnd: pass
            except Violation: pass
            except ExitCall: pass
            except CxxThrow as e:
                r, mod = self.check(z3.BoolVal(True), full=True, model=True)
                if r != 'unsat': self.fail('exception', 'uncaught exception ' + str(self.tiname(e.ti)), mod)
            except Inconclusive as e:
                self.inconclusive.append(str(e) + ' @ ' + ' < '.join(reversed(self.fstack[-4:])))
            except Unsup as e:
                self.inconclusive.append('unsupported real op: ' + str(e) + ' @ ' + ' < '.join(reversed(self.fstack[-4:])))
            except RecursionError:
                self.inconclusive.append('recursion bound')
            self.stats['steps'] += self.steps
            if len(self.inconclusive) > 20: break
            if len(self.failures) >= self.o.get('max_failures', 30): break
        return self

    def leakcheck(self):
        pass

    def tiname(self, ti):
        if isinstance(ti, Ptr): return self.heap[ti.o].name
        return ti

    def call(self, name, args):
        st = self.stubs.get(name)
        if st is not None:
            self.stubs_used.add(name); return st(self, args)
        F = self.m.dec.get(name)
        if F is None:
            pt = self.pcache.get(name)
            if pt is None:
                pt = False
                for pred, f in self.patterns:
                    if pred(name): pt = f; break
                self.pcache[name] = pt
            if pt: self.stubs_used.add(name)
            if pt: return pt(self, args, name) if getattr(pt, 'wants_name', False) else pt(self, args)
            F = self.m.func(name)
            if F is None: raise Inconclusive("unmodelled external " + name)
        self.fns.add(name)
        return self.exec(F, args)

    pcache = {}

    def exec(self, F, args):
        self.depth += 1
        if self.depth > self.o.get('max_depth', 400): raise Inconclusive("call depth bound")
        self.fstack.append(F.name)
        regs = [None] * F.nslots
        for s, a in zip(F.params, args): regs[s] = a
        blocks = F.blocks
        bb = 0; prev = -1
        frame = []
        cval = self.cval
        def val(o):
            if o[0]: return regs[o[1]]
            c = o[1]
            if c.__class__ is int: return c
            return cval(c)
        try:
            while True:
                phis, ins = blocks[bb]
                if phis:
                    tmp = [(d, val(inc[prev])) for d, inc in phis]
                    for d, v in tmp: regs[d] = v
                nxt = None
                self.steps += len(ins)
                if self.steps > self.o['max_steps']: raise Inconclusive("step bound")
                for I in ins:
                    op = I[0]
                    if op == 'load': regs[I[1]] = self.load(val(I[3]), I[2])
                    elif op == 'gep':
                        p = val(I[2]); off = I[3]
                        for o, sc, w in I[4]:
                            ix = val(o)
                            if ix.__class__ is int:
                                if ix >> (w - 1) & 1: ix -= 1 << w
                                off = self.oadd(off, ix * sc) if off.__class__ is not int else off + ix * sc
                            elif isinstance(ix, Undef): off = UNDEF; break
                            elif isinstance(ix, (Ptr, FnP)): raise Inconclusive("gep with pointer index")
                            else:
                                if z3.is_bool(ix): ix = z3.If(ix, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
                                if z3.is_bv(ix) and w < 64: ix = z3.SignExt(64 - w, ix)
                                off = self.oadd(off, ix * sc)
                        if isinstance(off, Undef): regs[I[1]] = UNDEF
                        else: regs[I[1]] = self.padd(p, off)
                    elif op == 'store': self.store(val(I[3]), val(I[1]), I[2])
                    elif op == 'fmul' or op == 'fadd' or op == 'fsub' or op == 'fdiv':
                        a = val(I[3][0]); b = val(I[3][1])
                        if I[2].k == 'vector':
                            regs[I[1]] = Agg([self.fbin(op, x, y) for x, y in zip(a.v, b.v)])
                        else: regs[I[1]] = self.fbin(op, a, b)
                    elif op == 'br':
                        c = val(I[1])
                        nxt = I[2] if (c if c.__class__ is int else self.branch(c)) else I[3]
                        break
                    elif op == 'jmp': nxt = I[1]; break
                    elif op == 'icmp':
                        if I[3].k == 'vector':
                            regs[I[1]] = Agg([self.icmp(I[2], I[3].elts[0], x, y) for x, y in zip(val(I[4]).v, val(I[5]).v)])
                        else: regs[I[1]] = self.icmp(I[2], I[3], val(I[4]), val(I[5]))
                    elif op == 'call':
                        r = self.docall(I, val)
                        if I[1] is not None: regs[I[1]] = r
                    elif op == 'fcmp':
                        if I[5].k == 'vector': regs[I[1]] = Agg([self.fcmp(I[2], x, y) for x, y in zip(val(I[3]).v, val(I[4]).v)])
                        else: regs[I[1]] = self.fcmp(I[2], val(I[3]), val(I[4]))
                    elif op == 'ret':
                        return val(I[1]) if I[1] is not None else None
                    elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
                        a = val(I[3][0]); b = val(I[3][1])
                        if I[2].k == 'vector':
                            w = I[2].elts[0].w
                            regs[I[1]] = Agg([self.ibin(op, x, y, w) for x, y in zip(a.v, b.v)])
                        else: regs[I[1]] = self.ibin(op, a, b, I[2].w)
                    elif op == 'alloca':
                        n = val(I[3])
                        n = self.concretize(n, 'alloca')
                        p = self.alloc(I[2].size * n, F.name + ':local', 'stack')
                        frame.append(p.o); regs[I[1]] = p
                    elif op == 'invoke':
                        try:
                            r = self.docall(I, val)
                            if I[1] is not None: regs[I[1]] = r
                            nxt = I[6]
                        except CxxThrow as e:
                            lp = None
                            for J in blocks[I[7]][1]:
                                if J[0] == 'landingpad': lp = J; break
                            sel = self.match(lp, e)
                            if sel is None: raise
                            # truncate fstack to this frame
                            self.cur_exc = e; self.cur_sel = sel
                            while self.fstack and len(self.fstack) > self.depth: self.fstack.pop()
                            nxt = I[7]
                        break
                    elif op == 'landingpad':
                        e = self.cur_exc
                        self.excmap[e.obj.o if isinstance(e.obj, Ptr) else e.obj] = e
                        regs[I[1]] = Agg([e.obj, self.cur_sel])
                    elif op == 'resume':
                        a = val(I[3][0])
                        ob = a.v[0]
                        raise self.excmap[ob.o]
                    elif op == 'select':
                        c = val(I[3][0]); a = val(I[3][1]); b = val(I[3][2])
                        if c.__class__ is int: regs[I[1]] = a if c else b
                        elif isinstance(c, Agg): regs[I[1]] = Agg([self.sel(x, y, z) for x, y, z in zip(c.v, a.v, b.v)])
                        else: regs[I[1]] = self.sel(c, a, b, I[2])
                    elif op == 'zext': regs[I[1]] = self.ext(val(I[3][0]), I[4][0].w, I[2].w, False)
                    elif op == 'sext': regs[I[1]] = self.ext(val(I[3][0]), I[4][0].w, I[2].w, True)
                    elif op == 'trunc': regs[I[1]] = self.trunc(val(I[3][0]), I[2].w)
                    elif op == 'sitofp' or op == 'uitofp':
                        v = val(I[3][0])
                        regs[I[1]] = self.i2f(v, I[4][0].w, op == 'sitofp') if I[2].k != 'vector' else Agg([self.i2f(x, I[4][0].elts[0].w, op == 'sitofp') for x in v.v])
                    elif op == 'fptosi' or op == 'fptoui': regs[I[1]] = self.f2i(val(I[3][0]), I[2].w, op == 'fptosi')
                    elif op == 'fneg':
                        v = val(I[3][0]); regs[I[1]] = Agg([RL.neg(x) for x in v.v]) if isinstance(v, Agg) else v if isinstance(v, Undef) else RL.neg(self.unabs(v))
                    elif op == 'switch':
                        v = val(I[1]); nxt = self.doswitch(v, I); break
                    elif op == 'extractvalue':
                        v = val(I[2])
                        for i in I[3]: v = v.v[i] if not isinstance(v, Undef) else v
                        regs[I[1]] = v
                    elif op == 'insertvalue':
                        regs[I[1]] = self.insval(val(I[2]), val(I[3]), I[4])
                    elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze'):
                        v = val(I[3][0])
                        if op == 'bitcast' and I[2].k == 'double' : v = self.conv(v, I[2])
                        if op == 'bitcast' and I[2].k == 'vector' and not isinstance(v, Agg): raise Inconclusive("vector bitcast")
                        regs[I[1]] = v
                    elif op == 'fpext' or op == 'fptrunc':
                        if op == 'fptrunc': self.assumed.add("single precision treated as exact")
                        regs[I[1]] = val(I[3][0])
                    elif op == 'extractelement':
                        regs[I[1]] = val(I[3][0]).v[self.concretize(val(I[3][1]))]
                    elif op == 'insertelement':
                        v = list(val(I[3][0]).v); v[self.concretize(val(I[3][2]))] = val(I[3][1]); regs[I[1]] = Agg(v)
                    elif op == 'shufflevector':
                        a = val(I[2]); b = val(I[3]); L = a.v + (b.v if isinstance(b, Agg) else [UNDEF] * len(a.v))
                        regs[I[1]] = Agg([L[i] if i >= 0 else UNDEF for i in I[4]])
                    elif op == 'frem': regs[I[1]] = self.fmod(val(I[3][0]), val(I[3][1]))
                    elif op == 'atomicrmw':
                        p = val(I[4]); old = self.load(p, I[3]); x = val(I[5])
                        k = I[2]; w = I[3].w
                        new = {0: lambda: x, 1: lambda: self.ibin('add', old, x, w), 2: lambda: self.ibin('sub', old, x, w), 3: lambda: self.ibin('and', old, x, w),
                               5: lambda: self.ibin('or', old, x, w)}[k]()
                        self.store(p, new, I[3]); regs[I[1]] = old
                    elif op == 'cmpxchg':
                        p = val(I[3][0]); old = self.load(p, I[4][1])
                        eq = self.branch(self.icmp(32, I[4][1], old, val(I[3][1])))
                        if eq: self.store(p, val(I[3][2]), I[4][2])
                        regs[I[1]] = Agg([old, int(eq)])
                    elif op == 'fence': pass
                    elif op == 'unreachable':
                        raise Inconclusive("reached 'unreachable'")
                    else:
                        raise Inconclusive("opcode " + op)
                prev = bb; bb = nxt
        finally:
            self.depth -= 1
            if self.fstack and len(self.fstack) > self.depth: del self.fstack[self.depth:]
            for o in frame:
                self.heap[o].dead = True

    def insval(self, a, v, idx):
        if isinstance(a, Undef): raise Inconclusive("insertvalue into scalar undef")
        l = list(a.v)
        if len(idx) == 1: l[idx[0]] = v
        else: l[idx[0]] = self.insval(l[idx[0]], v, idx[1:])
        return Agg(l)

    def fbin(self, op, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if isinstance(a, int): a = self.conv(a, self.TD)
        if isinstance(b, int): b = self.conv(b, self.TD)
        if isinstance(a, R) and a.op == 'abs': a = self.unabs(a)
        if isinstance(b, R) and b.op == 'abs': b = self.unabs(b)
        if op == 'fadd': return RL.add(a, b)
        if op == 'fmul': return RL.mul(a, b)
        if op == 'fsub': return RL.sub(a, b)
        return self.fdiv(a, b)

    def fmod(self, a, b):
        if isinstance(a, Q) and isinstance(b, Q) and b != 0:
            q = abs(a) // abs(b); r = abs(a) - q * abs(b); return r if a >= 0 else -r
        return RL.fn('fmod', a, b)

    def sel(self, c, a, b, t=None):
        if isinstance(c, int): return a if c else b
        if isinstance(c, Undef): return UNDEF
        if a is b: return a
        if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)) and t is not None and t.k == 'int':
            if isinstance(a, int) and isinstance(b, int) and a == b: return a
            c = self.zbool(c)
            if t.w == 1:
                return self.zb(z3.If(c, self.zbool(a), self.zbool(b)))
            ia = sym(a) and z3.is_int(a); ib = sym(b) and z3.is_int(b)
            if ia or ib:
                A = z3.IntVal(sgn(a, t.w)) if isinstance(a, int) else a if ia else z3.BV2Int(a, True)
                B = z3.IntVal(sgn(b, t.w)) if isinstance(b, int) else b if ib else z3.BV2Int(b, True)
                return z3.simplify(z3.If(c, A, B))
            return z3.simplify(z3.If(c, self.bv(a, t.w), self.bv(b, t.w)))
        return a if self.branch(c) else b

    def doswitch(self, v, I):
        w = I[2].w
        if isinstance(v, int):
            for c, b in I[4]:
                if c == v: return b
            return I[3]
        if isinstance(v, Undef): self.uninit('switch on uninitialised value')
        for c, b in I[4]:
            if self.branch(self.icmp(32, I[2], v, c)): return b
        return I[3]

    def docall(self, I, val):
        cal = I[3]
        if not cal[0] and isinstance(cal[1], SymRef): name = cal[1].name
        else:
            f = val(cal)
            if isinstance(f, FnP): name = f.name
            elif isinstance(f, tuple): raise Inconclusive("inline asm")
            elif isinstance(f, int): self.memfail("call through null function pointer", None)
            else: raise Inconclusive(f"call through {f}")
        args = [val(a) for a in I[4]]
        self.argtys = I[5]
        return self.call(name, args)

    # ------------------------------------------------------------ exceptions / RTTI
    excmap = {}
    def match(self, lp, e):
        _, d, clauses, cleanup = lp
        for c in clauses:
            if isinstance(c, Agg):     # filter
                continue
            if c == 0: return 1 << 20   # catch-all
            ti = self.resolve(c)
            if self.derives(e.ti, ti): return self.typeid(ti)
        if cleanup: return 0
        return None

    def typeid(self, ti):
        n = self.heap[ti.o].name
        return self.ehtypes.setdefault(n, len(self.ehtypes) + 1)

    def tibases(self, name):
        """[(base name, offset, public)] from the type_info initializer"""
        import llvm
        g = self.m.globs.get(name)
        if g is None: return []
        init = llvm.GetInit(g)
        if not init: return []
        c = self.m.const(init)
        vt = c.v[0]
        out = []
        kind = vt.name if isinstance(vt, SymRef) else ''
        if '__si_class_type_info' in kind: out = [(c.v[2].name, 0)]
        elif '__vmi_class_type_info' in kind:
            n = c.v[3]
            for i in range(n):
                fl = c.v[5 + 2 * i]
                out.append((c.v[4 + 2 * i].name, sgn(fl, 64) >> 8 if not fl & 1 else None))
        return out

    def derives(self, ti, tj):
        a = self.heap[ti.o].name; b = self.heap[tj.o].name
        if a == b: return True
        st = [a]
        while st:
            x = st.pop()
            if x == b: return True
            st.extend(n for n, _ in self.tibases(x))
        return False

    def dyncast(self, p, src, dst):
        if isinstance(p, int): return 0
        vt = self.load(p, self.TP)
        ott = self.load(self.padd(vt, -16), self.T64)
        ti = self.load(self.padd(vt, -8), self.TP)
        whole = self.padd(p, sgn(ott, 64))
        target = self.heap[dst.o].name
        res = []
        def walk(n, ptr):
            if n == target: res.append(ptr); return
            for b, off in self.tibases(n):
                if off is None: raise Inconclusive("virtual base in dynamic_cast")
                walk(b, self.padd(ptr, off))
        walk(self.heap[ti.o].name, whole)
        return res[0] if res else 0

"""Concrete sample points kept along a path: they only save solver calls on the satisfiable side
(feasibility of a branch, witnesses, counterexample candidates); no 'holds' verdict ever rests on them."""
import math, random, z3
from fractions import Fraction as Q
import real as RL
from real import R

class Bad(Exception): pass

def sgn(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x

class Sample:
    __slots__ = ('seed', 'env', 'fm', 'zm', 'fixed')
    def __init__(self, seed, fixed=None):
        self.seed = seed; self.env = {}; self.fm = {}; self.zm = {}; self.fixed = fixed or {}
    def draw_real(self, name):
        if name in self.env: return self.env[name]
        if name in self.fixed: v = self.fixed[name]
        else:
            r = random.Random(f"{self.seed}/{name}")
            k = r.random()
            if k < 0.3: v = r.uniform(0.05, 0.95)
            elif k < 0.5: v = r.uniform(-0.95, -0.05)
            elif k < 0.8: v = r.uniform(1.0, 4.0)
            else: v = r.uniform(3.0, 15.0)
            if self.seed % 3 == 0: v = abs(v)
            if self.seed % 5 == 1: v = abs(v) + 2.2 if k > 0.5 else abs(v)
            v = round(v * 1024) / 1024
        self.env[name] = v; return v
    def draw_int(self, name, lo, hi):
        if name in self.env: return self.env[name]
        if name in self.fixed: v = int(self.fixed[name])
        else: v = random.Random(f"{self.seed}/{name}").randint(lo, hi)
        self.env[name] = v; return v
    def fev(self, n):
        return RL.feval(n, self.env, self.fm)
    def ev(self, e):
        k = e.get_id()
        r = self.zm.get(k)
        if r is not None and r[0].eq(e): return r[1]
        st = [e]; zm = self.zm
        while st:
            x = st[-1]; k = x.get_id()
            r = zm.get(k)
            if r is not None and r[0].eq(x): st.pop(); continue
            ch = x.children()
            todo = []
            for c in ch:
                r = zm.get(c.get_id())
                if r is None or not r[0].eq(c): todo.append(c)
            if todo: st.extend(todo); continue
            st.pop()
            zm[k] = (x, self.ev1(x, [zm[c.get_id()][1] for c in ch]))
        return zm[e.get_id()][1]
    def ev1(self, x, a):
        d = x.decl(); k = d.kind()
        if z3.is_rational_value(x): return x.numerator_as_long() / x.denominator_as_long()
        if z3.is_int_value(x): return x.as_long()
        if z3.is_bv_value(x): return x.as_long()
        if k == z3.Z3_OP_TRUE: return True
        if k == z3.Z3_OP_FALSE: return False
        if k == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            if n in self.env: return self.env[n]
            nd = RL.ATOMNODE.get(n)
            if nd is not None:
                v = self.fev(nd)
                if v != v: raise Bad()
                return v
            if n == RL.PI_NAME: return math.pi
            raise Bad()
        if k == z3.Z3_OP_ADD: return sum(a)
        if k == z3.Z3_OP_MUL:
            r = 1
            for y in a: r = r * y
            return r
        if k == z3.Z3_OP_SUB: return a[0] - sum(a[1:])
        if k == z3.Z3_OP_UMINUS: return -a[0]
        if k == z3.Z3_OP_DIV:
            if a[1] == 0: raise Bad()
            return a[0] / a[1]
        if k == z3.Z3_OP_POWER:
            try: return a[0] ** a[1]
            except Exception: raise Bad()
        if k == z3.Z3_OP_LE: return a[0] <= a[1]
        if k == z3.Z3_OP_LT: return a[0] < a[1]
        if k == z3.Z3_OP_GE: return a[0] >= a[1]
        if k == z3.Z3_OP_GT: return a[0] > a[1]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF): return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT: return len(set(a)) == len(a)
        if k == z3.Z3_OP_NOT: return not a[0]
        if k == z3.Z3_OP_AND: return all(a)
        if k == z3.Z3_OP_OR: return any(a)
        if k == z3.Z3_OP_IMPLIES: return (not a[0]) or a[1]
        if k == z3.Z3_OP_XOR: return a[0] != a[1]
        if k == z3.Z3_OP_ITE: return a[1] if a[0] else a[2]
        if k == z3.Z3_OP_TO_REAL: return a[0]
        if k == z3.Z3_OP_TO_INT: return math.floor(a[0])
        if z3.is_bv(x): w = x.size(); M = (1 << w) - 1
        elif x.num_args() and z3.is_bv(x.arg(0)): w = x.arg(0).size(); M = (1 << w) - 1
        else: raise Bad()
        if k == z3.Z3_OP_BADD: return sum(a) & M
        if k == z3.Z3_OP_BMUL:
            r = 1
            for y in a: r = r * y & M
            return r
        if k == z3.Z3_OP_BSUB: return (a[0] - sum(a[1:])) & M
        if k == z3.Z3_OP_BNEG: return -a[0] & M
        if k == z3.Z3_OP_BNOT: return ~a[0] & M
        if k == z3.Z3_OP_BAND:
            r = M
            for y in a: r &= y
            return r
        if k == z3.Z3_OP_BOR:
            r = 0
            for y in a: r |= y
            return r
        if k == z3.Z3_OP_BXOR:
            r = 0
            for y in a: r ^= y
            return r
        if k == z3.Z3_OP_ULEQ: return a[0] <= a[1]
        if k == z3.Z3_OP_ULT: return a[0] < a[1]
        if k == z3.Z3_OP_UGEQ: return a[0] >= a[1]
        if k == z3.Z3_OP_UGT: return a[0] > a[1]
        if k == z3.Z3_OP_SLEQ: return sgn(a[0], w) <= sgn(a[1], w)
        if k == z3.Z3_OP_SLT: return sgn(a[0], w) < sgn(a[1], w)
        if k == z3.Z3_OP_SGEQ: return sgn(a[0], w) >= sgn(a[1], w)
        if k == z3.Z3_OP_SGT: return sgn(a[0], w) > sgn(a[1], w)
        if k in (z3.Z3_OP_BUDIV, getattr(z3, 'Z3_OP_BUDIV_I', -1)):
            if a[1] == 0: raise Bad()
            return a[0] // a[1]
        if k in (z3.Z3_OP_BUREM, getattr(z3, 'Z3_OP_BUREM_I', -1)):
            if a[1] == 0: raise Bad()
            return a[0] % a[1]
        if k == z3.Z3_OP_CONCAT:
            r = 0
            for i, y in enumerate(a): r = (r << x.arg(i).size()) | y
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = x.params(); return (a[0] >> lo) & ((1 << (hi - lo + 1)) - 1)
        if k == z3.Z3_OP_ZERO_EXT: return a[0]
        if k == z3.Z3_OP_SIGN_EXT: return sgn(a[0], x.arg(0).size()) & ((1 << x.size()) - 1)
        if k == z3.Z3_OP_BSHL: return (a[0] << a[1]) & M if a[1] < w else 0
        if k == z3.Z3_OP_BLSHR: return a[0] >> a[1] if a[1] < w else 0
        if k == z3.Z3_OP_BV2INT: return a[0]
        if k == z3.Z3_OP_INT2BV: return a[0] & ((1 << x.size()) - 1)
        raise Bad()
    def holds(self, c):
        try: return bool(self.ev(c))
        except (Bad, ZeroDivisionError, OverflowError, ValueError, TypeError): return None

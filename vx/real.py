"""Exact-real terms built while executing the IR.

A value of LLVM type double is one of: Fraction (concrete), float nan/inf, or R,
a hash-consed DAG node.  Provides: derivatives, conversion to z3, and a rational
normal form over 'atoms' (variables and function applications) used to clear
denominators and eliminate sin^2 / root powers before the query goes to z3."""
import math
from fractions import Fraction as Q
import z3

_tab = {}
_n = [0]


class R:
    __slots__ = ('op', 'args', 'id', 'z', '_nf', 'dep')
    def __repr__(self): return show(self)


def reset():
    _tab.clear()
    Z.clear(); ATOMAX.clear(); NF.clear()


def node(op, *args):
    k = (op,) + tuple(a.id if isinstance(a, R) else ('k', a) for a in args)
    r = _tab.get(k)
    if r is None:
        r = R(); r.op = op; r.args = args; _n[0] += 1; r.id = _n[0]; r.z = None; r._nf = None; r.dep = None
        _tab[k] = r
    return r


def var(name): return node('v', name)
PI_NAME = 'PI'
def PI(): return node('v', PI_NAME)

_picache = {}
def fconst(f):
    """double literal -> value. Doubles that are (to 1 ulp) a small rational times pi (or 1/pi) become exact multiples of PI."""
    if f != f or f in (math.inf, -math.inf): return f
    r = _picache.get(f)
    if r is not None:
        return mul(Q(r[1]), PI()) if r[0] == 'p' else div(Q(r[1]), PI()) if r[0] == 'i' else r[1]
    k = _classify(f); _picache[f] = k
    return fconst(f)

def _classify(f):
    if f == 0 or f == int(f) and abs(f) < 2**53: return ('c', Q(f))
    if 1e-12 < abs(f) < 1e6:
        x = f / math.pi
        q = Q(x).limit_denominator(360)
        if q != 0 and abs(q.numerator) <= 1000 and abs(float(q) * math.pi - f) <= 2.3e-16 * abs(f): return ('p', q)
        n = math.pi / f
        if abs(n) < 1e9 and abs(n - round(n)) < 4e-16 * abs(n): return ('p', Q(1, round(n)))
        y = f * math.pi
        q = Q(y).limit_denominator(360)
        if q != 0 and abs(q.numerator) <= 1000 and abs(float(q) / math.pi - f) <= 2.3e-16 * abs(f): return ('i', q)
        n = y
        if abs(n) > 360 and abs(n) < 1e9 and abs(n - round(n)) < 4e-16 * abs(n): return ('i', Q(round(n)))
    # rationals p/3, p/6, p/7, p/9 ... written as decimal divisions in source
    q = Q(f).limit_denominator(64)
    if q != 0 and float(q) == f: return ('c', q)
    # decimal literals: 0.1, 1e-6, ... read as the decimal they were written as
    d = Q(repr(f))
    if len(repr(f)) <= 14: return ('c', d)
    # quotients of integers (Runge-Kutta coefficients ...)
    q = Q(f).limit_denominator(400000)
    if q != 0 and float(q) == f and abs(q) < 1000: return ('c', q)
    return ('c', Q(f))


def isn(x): return isinstance(x, float)   # nan / inf only

def add(a, b):
    if isinstance(a, Q) and isinstance(b, Q): return a + b
    if isn(a) or isn(b):
        return (a if isn(a) else 0.0) + (b if isn(b) else 0.0)
    if isinstance(a, Q):
        if a == 0: return b
        a, b = b, a
    elif isinstance(b, Q) and b == 0: return a
    if isinstance(b, Q):
        # (x + c) + d
        if a.op == '+' and isinstance(a.args[1], Q): return add(a.args[0], a.args[1] + b)
        return node('+', a, b)
    if a.id == b.id: return mul(Q(2), a)
    if b.op == '*' and isinstance(b.args[0], Q) and b.args[0] == -1 and b.args[1] is a: return Q(0)
    if a.op == '*' and isinstance(a.args[0], Q) and a.args[0] == -1 and a.args[1] is b: return Q(0)
    if a.id > b.id: a, b = b, a
    return node('+', a, b)

def neg(a):
    if isn(a): return -a
    return mul(Q(-1), a)
def sub(a, b): return add(a, neg(b))

def mul(a, b):
    if isinstance(a, Q) and isinstance(b, Q): return a * b
    if isn(a) or isn(b):
        x = a if isn(a) else (float(a) if isinstance(a, Q) else None)
        y = b if isn(b) else (float(b) if isinstance(b, Q) else None)
        if x is None or y is None: return math.nan if (x != x or y != y) else NonFinite()
        return x * y
    if isinstance(b, Q): a, b = b, a
    if isinstance(a, Q):
        if a == 0: return a
        if a == 1: return b
        if b.op == '*' and isinstance(b.args[0], Q): return mul(a * b.args[0], b.args[1])
        return node('*', a, b)
    ca = cb = Q(1)
    if a.op == '*' and isinstance(a.args[0], Q): ca, a = a.args
    if b.op == '*' and isinstance(b.args[0], Q): cb, b = b.args
    if a.id > b.id: a, b = b, a
    return mul(ca * cb, node('*', a, b)) if ca * cb != 1 else node('*', a, b)


def NonFinite():
    # an unknown number times infinity: infinite or undefined.  Undefined is taken; a violation found this way still has to
    # replay natively before it is reported
    return math.nan

class Unsup(Exception): pass

def div(a, b):
    if isn(a) or isn(b):
        if isn(b) and not isn(a) and b == b: return Q(0)
        if isn(a) and a != a or isn(b) and b != b: return math.nan
        if isinstance(b, Q): return a if b > 0 else -a
        raise Unsup("inf / symbolic")
    if isinstance(b, Q):
        if b == 0:
            if isinstance(a, Q): return math.nan if a == 0 else (math.inf if a > 0 else -math.inf)
            raise Unsup("symbolic / 0")
        return mul(1 / b, a)
    if isinstance(a, Q) and a == 0: return a
    if a is b: return Q(1)
    if b.op == '*' and isinstance(b.args[0], Q):
        return mul(1 / b.args[0], div(a, b.args[1]))
    if isinstance(a, R) and a.op == '*' and isinstance(a.args[0], Q):
        return mul(a.args[0], div(a.args[1], b))
    return node('/', a, b)

# ---------------------------------------------------------------- functions
def linparts(a):
    """split a as sum of coeff*node, constant under key None"""
    out = {}
    def go(x, c):
        if isinstance(x, Q): out[None] = out.get(None, Q(0)) + c * x; return
        if x.op == '+': go(x.args[0], c); go(x.args[1], c); return
        if x.op == '*' and isinstance(x.args[0], Q): go(x.args[1], c * x.args[0]); return
        out[x] = out.get(x, Q(0)) + c
    go(a, Q(1))
    return {k: v for k, v in out.items() if v != 0}

def rebuild(parts):
    r = Q(0)
    for k in sorted(parts, key=lambda n: -1 if n is None else n.id):
        r = add(r, parts[k] if k is None else mul(parts[k], k))
    return r

def ring(x):
    """normal form -> rebuilt canonical dag only for argument canonicalisation (linear level)"""
    return rebuild(linparts(x))

def sincos(a):
    """return (sin a, cos a) with angle addition expanded down to base angles"""
    if isn(a): return math.nan, math.nan
    if isinstance(a, Q):
        if a == 0: return Q(0), Q(1)
        if a < 0:
            s, c = sincos(-a); return neg(s), c
        return node('sin', a), node('cos', a)
    lp = linparts(a)
    pi = PI()
    rp = lp.pop(pi, Q(0))
    s, c = Q(0), Q(1)
    # pi part
    two = rp * 2
    if two.denominator == 1:
        k = int(two) % 4
        s, c = [(Q(0), Q(1)), (Q(1), Q(0)), (Q(0), Q(-1)), (Q(-1), Q(0))][k]
    else:
        # reduce into [0, 1/2)
        k = math.floor(two); fr = (two - k) / 2
        ang = mul(fr, pi); s0, c0 = node('sin', ang), node('cos', ang)
        k %= 4
        s, c = [(s0, c0), (c0, neg(s0)), (neg(s0), neg(c0)), (neg(c0), s0)][k]
    for k in sorted(lp, key=lambda n: -1 if n is None else n.id):
        cf = lp[k]
        if k is None:
            s1, c1 = sincos(cf); m = 1
        else:
            # base angle k/den, multiply by num
            den = cf.denominator; num = cf.numerator
            base = mul(Q(1, den), k) if den != 1 else k
            s1, c1 = base_sc(base)
            if num < 0: s1 = neg(s1); num = -num
            if num > 8:
                s1, c1 = node('sin', mul(Q(num), base)), node('cos', mul(Q(num), base))
            else:
                s2, c2 = s1, c1
                for _ in range(num - 1):
                    s2, c2 = add(mul(s2, c1), mul(c2, s1)), sub(mul(c2, c1), mul(s2, s1))
                s1, c1 = s2, c2
        s, c = add(mul(s, c1), mul(c, s1)), sub(mul(c, c1), mul(s, s1))
    return s, c

def base_sc(b):
    if isinstance(b, R):
        if b.op == 'acos': return sqrt(sub(Q(1), mul(b.args[0], b.args[0]))), b.args[0]
        if b.op == 'asin': return b.args[0], sqrt(sub(Q(1), mul(b.args[0], b.args[0])))
        if b.op == 'atan2':
            y, x = b.args; h = sqrt(add(mul(x, x), mul(y, y)))
            return div(y, h), div(x, h)
        if b.op == 'atan':
            y = b.args[0]; h = sqrt(add(Q(1), mul(y, y)))
            return div(y, h), div(Q(1), h)
    return node('sin', b), node('cos', b)

def sin(a): return sincos(a)[0]
def cos(a): return sincos(a)[1]
def tan(a):
    s, c = sincos(a); return div(s, c)

def iroot(n, q):
    if n < 0: return None
    r = round(n ** (1.0 / q)) if n < 1 << 1000 else 0
    for k in (r - 1, r, r + 1):
        if k >= 0 and k ** q == n: return k
    return None

def root(a, q):
    """a**(1/q), a>=0"""
    if isn(a): return a if a == math.inf else math.nan
    if isinstance(a, Q):
        if a < 0: return math.nan
        n, d = iroot(a.numerator, q), iroot(a.denominator, q)
        if n is not None and d is not None: return Q(n, d)
    return node('root', a, Q(q))

def sqrt(a): return root(a, 2)

def ipow(a, n):
    if n == 0: return Q(1)
    if n < 0: return div(Q(1), ipow(a, -n))
    r = None; b = a
    while n:
        if n & 1: r = b if r is None else mul(r, b)
        n >>= 1
        if n: b = mul(b, b)
    return r

def power(a, b):
    if isn(a) or isn(b):
        if isinstance(b, Q) and a == math.inf: return math.inf if b > 0 else Q(0)
        return math.nan
    if isinstance(b, Q):
        if b.denominator == 1 and abs(b) <= 64: return ipow(a, int(b))
        if b.denominator <= 12 and abs(b.numerator) <= 64:
            return ipow(root(a, b.denominator), b.numerator)
    if isinstance(a, Q) and isinstance(b, Q):
        try: return Q(float(a) ** float(b)) if a > 0 else node('pow', a, b)
        except Exception: pass
    return node('pow', a, b)

def fn(name, *args):
    for a in args:
        if isn(a): return math.nan
    if name == 'exp' and isinstance(args[0], Q) and args[0] == 0: return Q(1)
    if name == 'exp' and isinstance(args[0], R):
        a = args[0]
        if a.op == 'log': return a.args[0]
    if name == 'log' and isinstance(args[0], Q) and args[0] == 1: return Q(0)
    if name == 'log' and isinstance(args[0], R) and args[0].op == 'exp': return args[0].args[0]
    if name in ('asin', 'atan', 'sinh', 'tanh') and isinstance(args[0], Q) and args[0] == 0: return Q(0)
    if name == 'acos' and isinstance(args[0], Q):
        if args[0] == 1: return Q(0)
        if args[0] == 0: return mul(Q(1, 2), PI())
        if args[0] == -1: return PI()
    if name == 'asin' and isinstance(args[0], Q) and abs(args[0]) == 1: return mul(args[0] / 2, PI())
    if name == 'atan2' and isinstance(args[0], Q) and args[0] == 0 and isinstance(args[1], Q):
        return Q(0) if args[1] >= 0 else PI()
    if name == 'atan2' and isinstance(args[1], Q) and args[1] == 0 and isinstance(args[0], Q):
        return mul(Q(1, 2) if args[0] > 0 else Q(-1, 2), PI())
    return node(name, *args)

# ---------------------------------------------------------------- derivative
def deriv(e, x):
    memo = {}
    def d(n):
        if not isinstance(n, R): return Q(0)
        if n is x: return Q(1)
        r = memo.get(n.id)
        if r is not None: return r
        o = n.op; a = n.args
        if o == 'v': r = Q(0)
        elif o == '+': r = add(d(a[0]), d(a[1]))
        elif o == '*': r = add(mul(d(a[0]), a[1]), mul(a[0], d(a[1])))
        elif o == '/': r = div(sub(d(a[0]), mul(n, d(a[1]))), a[1])
        elif o in ('sin', 'cos'):
            da = d(a[0])
            r = Q(0) if da == 0 else (mul(da, node('cos', a[0])) if o == 'sin' else neg(mul(da, node('sin', a[0]))))
        elif o == 'root':
            da = d(a[0]); r = Q(0) if da == 0 else div(mul(da, n), mul(a[1], a[0]))
        elif o == 'pow':
            da, db = d(a[0]), d(a[1])
            r = Q(0)
            if da != 0: r = add(r, div(mul(mul(a[1], n), da), a[0]))
            if db != 0: r = add(r, mul(mul(n, fn('log', a[0])), db))
        elif o == 'exp': r = mul(d(a[0]), n)
        elif o == 'log': r = div(d(a[0]), a[0])
        elif o == 'atan': r = div(d(a[0]), add(Q(1), mul(a[0], a[0])))
        elif o == 'acos': r = neg(div(d(a[0]), sqrt(sub(Q(1), mul(a[0], a[0])))))
        elif o == 'asin': r = div(d(a[0]), sqrt(sub(Q(1), mul(a[0], a[0]))))
        elif o == 'atan2':
            h = add(mul(a[0], a[0]), mul(a[1], a[1]))
            r = div(sub(mul(a[1], d(a[0])), mul(a[0], d(a[1]))), h)
        else:
            for i in a:
                if d(i) != 0: raise Unsup("derivative of " + o)
            r = Q(0)
        memo[n.id] = r
        return r
    return d(e)

# ---------------------------------------------------------------- numeric eval
def ufval(name, xs):
    """the same generic function vnative.cpp uses for v_opaque"""
    h = 2166136261
    for c in name.encode(): h = ((h ^ c) * 16777619) & 0xffffffff
    s = 2.5 + (h % 1000) / 1000.
    for i, a in enumerate(xs): s += 0.7 * math.sin((1.3 + 0.37 * i + (h % 17) * 0.05) * a + 0.2 * i) / (1 + i)
    return s

def feval(e, env, memo=None):
    """float evaluation. env: var name -> float"""
    memo = {} if memo is None else memo
    def ev(n):
        if isinstance(n, Q): return float(n)
        if isinstance(n, float): return n
        r = memo.get(n.id)
        if r is not None: return r
        o = n.op; a = n.args
        if o == 'v': r = math.pi if a[0] == PI_NAME else env.get(a[0], 0.0)
        elif o == '+': r = ev(a[0]) + ev(a[1])
        elif o == '*': r = ev(a[0]) * ev(a[1])
        elif o == '/':
            x, y = ev(a[0]), ev(a[1]); r = x / y if y else math.nan
        elif o == 'root':
            x = ev(a[0]); r = x ** (1.0 / float(a[1])) if x >= 0 else math.nan
        else:
            xs = [ev(i) for i in a]
            if o.startswith('uf_'):
                r = ufval(o[3:], xs); memo[n.id] = r; return r
            try: r = {'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'log': math.log, 'acos': math.acos, 'asin': math.asin,
                      'atan': math.atan, 'atan2': math.atan2, 'pow': math.pow, 'floor': math.floor, 'ceil': math.ceil, 'sinh': math.sinh,
                      'cosh': math.cosh, 'tanh': math.tanh, 'erf': math.erf, 'tgamma': math.gamma, 'fmod': math.fmod, 'acosh': math.acosh, 'log10': math.log10, 'abs': abs, 'asinh': math.asinh, 'atanh': math.atanh, 'log2': math.log2, 'exp2': lambda x: 2.0 ** x}[o](*xs)
            except KeyError: r = math.nan
            except Exception: r = math.nan
        memo[n.id] = r
        return r
    return ev(e)

def variables(e, acc=None):
    acc = set() if acc is None else acc
    seen = set(); st = [e]
    while st:
        n = st.pop()
        if not isinstance(n, R) or n.id in seen: continue
        seen.add(n.id)
        if n.op == 'v': acc.add(n.args[0])
        else: st.extend(n.args)
    return acc

# ---------------------------------------------------------------- to z3
Z = {}
ATOMNODE = {}   # z3 atom name -> R node
ATOMAX = {}     # z3 atom name -> list of axioms (z3 bool)

def zq(q): return z3.RealVal(f"{q.numerator}/{q.denominator}") if q.denominator != 1 else z3.RealVal(q.numerator)

def toz3(e):
    if isinstance(e, Q): return zq(e)
    if isinstance(e, float): raise Unsup("non-finite to z3")
    if e.z is not None: return e.z
    # iterative post-order to avoid recursion depth
    st = [e]
    while st:
        n = st[-1]
        if n.z is not None: st.pop(); continue
        todo = [a for a in n.args if isinstance(a, R) and a.z is None]
        if n.op != 'v' and todo: st.extend(todo); continue
        st.pop()
        o = n.op
        if o == 'v':
            n.z = z3.Real(n.args[0])
            if n.args[0] == PI_NAME:
                ATOMAX[PI_NAME] = [n.z > zq(Q('3.14159265358979')), n.z < zq(Q('3.14159265358980'))]
            continue
        a = [x.z if isinstance(x, R) else zq(x) if isinstance(x, Q) else x for x in n.args]
        if o == '+': n.z = a[0] + a[1]
        elif o == '*': n.z = a[0] * a[1]
        elif o == '/': n.z = a[0] / a[1]
        else: n.z = atom(n, a)
    return e.z

def atom(n, a):
    o = n.op
    nm = f"{o}!{n.id}"
    ATOMNODE[nm] = n
    v = z3.Real(nm); ax = []
    if o in ('sin', 'cos'):
        other = node('cos' if o == 'sin' else 'sin', n.args[0])
        if other.z is None:
            other.z = z3.Real(f"{other.op}!{other.id}"); ATOMNODE[f"{other.op}!{other.id}"] = other
        s, c = (v, other.z) if o == 'sin' else (other.z, v)
        ax = [s * s + c * c == 1]
        if isinstance(n.args[0], R) and n.args[0].op == '*' and n.args[0].args[1] is PI():
            fr = n.args[0].args[0]   # constant angle: bracket numerically
            for z, f in ((s, math.sin), (c, math.cos)):
                x = f(math.pi * float(fr)); ax += [z > zq(Q(x) - Q(1, 10**12)), z < zq(Q(x) + Q(1, 10**12))]
        ATOMAX[f"{other.op}!{other.id}"] = ax
    elif o == 'root':
        q = int(n.args[1]); p = v
        for _ in range(q - 1): p = p * v
        ax = [v >= 0, p == a[0]]
    elif o == 'exp':
        ax = [v > 0, z3.Implies(a[0] > 0, v > 1), z3.Implies(a[0] < 0, v < 1), z3.Implies(a[0] == 0, v == 1)]
    elif o == 'log':
        ax = [z3.Implies(a[0] > 1, v > 0), z3.Implies(z3.And(a[0] > 0, a[0] < 1), v < 0), z3.Implies(a[0] == 1, v == 0)]
    elif o == 'abs':
        return z3.If(a[0] >= 0, a[0], -a[0])
    elif o == 'floor':
        v = z3.ToReal(z3.ToInt(a[0])); return v
    elif o == 'ceil':
        v = -z3.ToReal(z3.ToInt(-a[0])); return v
    elif o == 'acos':
        p = toz3(PI()); ax = [v >= 0, v <= p, (v == 0) == (a[0] == 1), (v == p) == (a[0] == -1), (2 * v < p) == (a[0] > 0), (2 * v > p) == (a[0] < 0)]
    elif o in ('asin', 'atan'):
        p = toz3(PI()); ax = [2 * v >= -p, 2 * v <= p, (v > 0) == (a[0] > 0), (v < 0) == (a[0] < 0)]
    elif o == 'atan2':
        p = toz3(PI())
        ax = [v >= -p, v <= p, z3.Implies(a[0] > 0, z3.And(v > 0, v < p)), z3.Implies(a[0] < 0, z3.And(v < 0, v > -p)),
              z3.Implies(a[0] == 0, z3.If(a[1] >= 0, v == 0, v == p)), z3.Implies(a[1] > 0, z3.And(2 * v < p, 2 * v > -p)),
              z3.Implies(z3.And(a[1] < 0, a[0] >= 0), 2 * v > p), z3.Implies(z3.And(a[1] < 0, a[0] < 0), 2 * v < -p)]
    elif o == 'pow':
        ax = [z3.Implies(a[0] > 0, v > 0)]
    elif o in ('cosh',): ax = [v >= 1]
    elif o == 'tanh': ax = [v > -1, v < 1, (v > 0) == (a[0] > 0), (v == 0) == (a[0] == 0)]
    elif o == 'tgamma': ax = [z3.Implies(a[0] > 0, v > 0)]
    elif o == 'fmod':
        x, y = a; ay = z3.If(y >= 0, y, -y)
        k = z3.Int(f"k!{nm}")
        ax = [z3.Implies(y != 0, z3.And(v == x - z3.ToReal(k) * y, z3.If(x >= 0, z3.And(v >= 0, v < ay), z3.And(v <= 0, v > -ay))))]
    ATOMAX[nm] = ax
    return v

# ---------------------------------------------------------------- rational normal form
NF = {}

EB = 12                    # bits per exponent in a packed monomial
EM = (1 << EB) - 1

def qi(c):
    return c.numerator if c.__class__ is Q and c.denominator == 1 else c

def decode(m):
    """packed monomial -> [(generator, exponent)]"""
    out = []; g = 0
    while m:
        e = m & EM
        if e: out.append((g, e))
        m >>= EB; g += 1
    return out

def mdiv(m, f):
    """does the packed monomial f divide m?"""
    while f:
        if (f & EM) > (m & EM): return False
        f >>= EB; m >>= EB
    return True

class Norm:
    """per-query normaliser: rational functions as (numerator polynomial, {denominator factor: power}).
    polynomial: {packed monomial: int or Fraction}"""
    def __init__(self, maxterms=400000, deadline=None, shallow=False):
        self.shallow = shallow
        self.gens = {}       # key -> index
        self.info = []       # index -> key
        self.factors = []
        self.fkey = {}
        self.memo = {}
        self.rel = {}        # gen index -> (q, radicand fraction)
        self.sq = {}         # gen index -> polynomial equal to its square
        self.sqmask = 0
        self.maxterms = maxterms
        self.deadline = deadline
        self.nodeof = {}
        self.fpm = {}

    # --- polynomials
    def padd(self, p, q, c=1):
        if len(q) > len(p) and c == 1: p, q = q, p
        r = dict(p)
        for m, k in q.items():
            v = r.get(m)
            if v is None: r[m] = k * c
            else:
                v = v + k * c
                if v == 0: del r[m]
                else: r[m] = v
        return r
    def pmul(self, p, q):
        if len(p) > len(q): p, q = q, p
        if len(p) * len(q) > 60000000: raise Unsup("polynomial too large")
        if self.deadline and time.time() > self.deadline: raise Unsup("normal form timeout")
        if len(p) == 1:
            (m1, c1), = p.items()
            if m1 == 0 and c1 == 1: return q
            return {m1 + m2: c1 * c2 for m2, c2 in q.items()}
        r = {}
        get = r.get
        qs = list(q.items())
        for m1, c1 in p.items():
            for m2, c2 in qs:
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        return {m: c for m, c in r.items() if c}
    def ppow(self, p, n):
        r = {0: 1}
        while n:
            if n & 1: r = self.pred(self.pmul(r, p))
            n >>= 1
            if n: p = self.pred(self.pmul(p, p))
        return r
    def setsq(self, g, poly):
        if g not in self.sq:
            self.sq[g] = poly
            self.sqmask |= (EM & ~1) << (EB * g)
    def pred(self, p):
        """reduce powers of generators with a polynomial square relation (sin^2 -> 1-cos^2)"""
        for _ in range(80):
            mask = self.sqmask; hit = 0
            for m in p:
                if m & mask: hit = m; break
            if not hit: return p
            g = 0; h = hit & mask
            while not (h >> (EB * g)) & EM: g += 1
            rel = self.sq[g]; sh = EB * g
            out = {}; groups = {}
            for m, c in p.items():
                e = (m >> sh) & EM
                if e < 2: out[m] = c
                else:
                    d = groups.setdefault(e >> 1, {})
                    rest = m - ((e & ~1) << sh)
                    d[rest] = d.get(rest, 0) + c
            for k, d in groups.items():
                out = self.padd(out, self.pmul(self.ppow2(rel, k), d))
            p = out
        return p
    def ppow2(self, p, n):
        r = {0: 1}
        for _ in range(n): r = self.pmul(r, p)
        return r
    # --- factor registry
    def prim(self, p):
        """make primitive & sign-normalised: returns (content, poly with integer coefficients)"""
        from math import gcd
        num = 0; den = 1
        for c in p.values():
            if c.__class__ is int: num = gcd(num, c)
            else:
                num = gcd(num, c.numerator); den = den * c.denominator // gcd(den, c.denominator)
        cont = Q(num, den)
        if p[max(p)] < 0: cont = -cont
        if cont == 1: return 1, p
        return qi(cont), {m: qi(Q(c) / cont) for m, c in p.items()}
    def factor(self, p):
        k = frozenset(p.items())
        i = self.fkey.get(k)
        if i is None:
            i = len(self.factors); self.factors.append(p); self.fkey[k] = i
        return i
    # fraction: (num poly, dict factor->power)
    def fadd(self, a, b):
        na, da = a; nb, db = b
        if not na: return b
        if not nb: return a
        if da == db: return self.canc(self.padd(na, nb), da)
        d = {}
        for k in set(da) | set(db):
            x, y = da.get(k, 0), db.get(k, 0)
            d[k] = max(x, y)
            if y > x: na = self.pmul(na, self.fpow(k, y - x))
            elif x > y: nb = self.pmul(nb, self.fpow(k, x - y))
        return self.canc(self.pred(self.padd(na, nb)), d)
    def canc(self, n, d):
        if not n: return ({}, {})
        return self.trial(n, d)
    def pdiv(self, p, f):
        """exact quotient p/f of polynomials, or None"""
        import heapq
        mf = max(f); cf = f[mf]
        lf = [(m, c) for m, c in f.items() if m != mf]
        # cheap refusal: the smallest monomial must divide as well
        if not mdiv(max(p), mf) or not mdiv(min(p), min(f)): return None
        r = dict(p); h = [-m for m in r]; heapq.heapify(h); q = {}; steps = 0
        while h:
            m = -heapq.heappop(h)
            c = r.pop(m, 0)
            if not c: continue
            if not mdiv(m, mf): return None
            k = m - mf
            if c.__class__ is int and cf.__class__ is int and c % cf == 0: c = c // cf
            else: c = qi(Q(c) / cf)
            q[k] = c
            for m2, c2 in lf:
                x = m2 + k; v = r.get(x)
                if v is None: r[x] = -c * c2; heapq.heappush(h, -x)
                else:
                    v -= c * c2
                    if v: r[x] = v
                    else: r[x] = 0
            steps += 1
            if steps & 255 == 0 and self.deadline and time.time() > self.deadline: raise Unsup("normal form timeout")
        return q
    def trial(self, n, d):
        """cancel denominator factors that divide the numerator"""
        if not d or len(n) > 20000: return (n, d)
        nd = None
        for k in list(d):
            f = self.factors[k]
            while (d if nd is None else nd).get(k, 0) > 0:
                q = self.pdiv(n, f)
                if q is None: break
                if nd is None: nd = dict(d)
                n = q; nd[k] -= 1
                if nd[k] == 0: del nd[k]
        return (n, nd if nd is not None else d)
    def fpow(self, k, n):
        r = self.fpm.get((k, n))
        if r is None: r = self.fpm[(k, n)] = self.ppow(self.factors[k], n)
        return r
    def fmul(self, a, b):
        na, da = a; nb, db = b
        if not na or not nb: return ({}, {})
        d = dict(da)
        for k, v in db.items(): d[k] = d.get(k, 0) + v
        na, d = self.cancel_factor(na, d)
        nb, d = self.cancel_factor(nb, d)
        return (self.pred(self.pmul(na, nb)), d)
    def cancel_factor(self, n, d):
        """cancel when a numerator is exactly a denominator factor, or a monomial"""
        if not d: return n, d
        n, d = self.trial(n, d)
        if not d: return n, d
        c, p = self.prim(n)
        k = self.fkey.get(frozenset(p.items()))
        if k is not None and d.get(k, 0) > 0:
            d = dict(d); d[k] -= 1
            if d[k] == 0: del d[k]
            return {0: c}, d
        if len(p) == 1:
            m = next(iter(p)); changed = False
            d = dict(d)
            for k in list(d):
                f = self.factors[k]
                if len(f) == 1:
                    (mf, cf), = f.items()
                    if cf == 1 and mf & (mf - 1) == 0:      # a single generator to the first power
                        sh = mf.bit_length() - 1
                        if sh % EB: continue
                        while d.get(k, 0) and (m >> sh) & EM:
                            m -= mf; d[k] -= 1; changed = True
                            if d[k] == 0: del d[k]
            if changed: return {m: c}, d
        return n, d
    def finv(self, a):
        n, d = a
        if not n: raise Unsup("division by symbolic zero")
        n = self.pred(n)
        num = {0: 1}
        for k, v in d.items(): num = self.pmul(num, self.fpow(k, v))
        num = self.pred(num)
        c, p = self.prim(n)
        if c != 1: num = {m2: qi(Q(c2) / c) for m2, c2 in num.items()}
        if len(p) == 1:
            (m, _), = p.items()
            dd = {}
            for g, e in decode(m): dd[self.factor({1 << (EB * g): 1})] = e
            return (num, dd)
        dd = {}
        # common monomial
        g = 0
        while True:
            mm = min(((m >> (EB * g)) & EM for m in p), default=0)
            if mm:
                dd[self.factor({1 << (EB * g): 1})] = mm
                p = {m - (mm << (EB * g)): c for m, c in p.items()}
            g += 1
            if g >= len(self.info): break
        for k in range(len(self.factors)):
            f = self.factors[k]
            if len(f) == 1 or len(f) > len(p): continue
            while len(p) > 1:
                q = self.pdiv(p, f)
                if q is None: break
                p = q; dd[k] = dd.get(k, 0) + 1
        if len(p) == 1 and 0 in p:
            if p[0] != 1: num = {m2: qi(Q(c2) / p[0]) for m2, c2 in num.items()}
        elif len(p) == 1:
            (m, c0), = p.items()
            if c0 != 1: num = {m2: qi(Q(c2) / c0) for m2, c2 in num.items()}
            for gg, e in decode(m):
                k = self.factor({1 << (EB * gg): 1}); dd[k] = dd.get(k, 0) + e
        else:
            c1, p = self.prim(p)
            if c1 != 1: num = {m2: qi(Q(c2) / c1) for m2, c2 in num.items()}
            k = self.factor(p); dd[k] = dd.get(k, 0) + 1
        return (num, dd)
    def gen(self, key):
        i = self.gens.get(key)
        if i is None:
            i = len(self.info); self.gens[key] = i; self.info.append(key)
        return i
    def one(self, i): return ({1 << (EB * i): 1}, {})
    def nf(self, e):
        if isinstance(e, Q): return ({0: qi(e)}, {}) if e else ({}, {})
        if isinstance(e, float): raise Unsup("non-finite")
        st = [e]
        while st:
            n = st[-1]
            if n.id in self.memo: st.pop(); continue
            todo = [a for a in n.args if isinstance(a, R) and a.id not in self.memo] if n.op != 'v' and not (self.shallow and n.op not in '+*') else []
            if todo: st.extend(todo); continue
            st.pop()
            self.memo[n.id] = self._nf1(n)
            if len(self.memo[n.id][0]) > self.maxterms: raise Unsup("polynomial too large")
        return self.memo[e.id]
    def g(self, a):
        if isinstance(a, Q): return ({0: qi(a)}, {}) if a else ({}, {})
        return self.memo[a.id]
    def key(self, f):
        n, d = f
        return (frozenset(n.items()), frozenset(d.items()))
    def _nf1(self, n):
        o = n.op; a = n.args
        if o == 'v': return self.one(self.gen(('v', a[0])))
        if o == '+': return self.fadd(self.g(a[0]), self.g(a[1]))
        if o == '*': return self.fmul(self.g(a[0]), self.g(a[1]))
        if self.shallow:
            i = self.gen(('atom', n.id)); self.nodeof[i] = n
            return self.one(i)
        if o == '/': return self.fmul(self.g(a[0]), self.finv(self.g(a[1])))
        if o in ('sin', 'cos'):
            k = self.key(self.g(a[0]))
            c = self.gen(('cos', k)); s = self.gen(('sin', k))
            self.setsq(s, {0: 1, 2 << (EB * c): -1})
            self.nodeof[s] = node('sin', a[0]); self.nodeof[c] = node('cos', a[0])
            return self.one(s if o == 'sin' else c)
        if o == 'root':
            f = self.reduce(self.g(a[0])); q = int(a[1])
            k = self.key(f)
            i = self.gen(('root', q, k)); self.rel[i] = (q, f); self.nodeof[i] = n
            if q == 2 and not f[1]: self.setsq(i, f[0])
            return self.one(i)
        ks = tuple(self.key(self.g(x)) for x in a)
        i = self.gen((o,) + ks); self.nodeof[i] = n
        return self.one(i)
    def reduce(self, f):
        """eliminate root powers >= q with rational radicand"""
        n, d = f
        for _ in range(40):
            n = self.pred(n)
            hit = None
            for g, (q, rf) in self.rel.items():
                sh = EB * g
                for m in n:
                    if (m >> sh) & EM >= q: hit = g; break
                if hit is not None: break
            if hit is None: break
            q, rf = self.rel[hit]; sh = EB * hit
            parts = {}
            for m, c in n.items():
                e = (m >> sh) & EM
                k, rem = divmod(e, q)
                mm = m - ((e - rem) << sh)
                pp = parts.setdefault(k, {}); pp[mm] = pp.get(mm, 0) + c
            acc = ({}, {})
            for k, p in parts.items():
                t = (p, {})
                for _i in range(k): t = self.fmul(t, rf)
                acc = self.fadd(acc, t)
            n, dd = acc
            d2 = dict(d)
            for k, v in dd.items(): d2[k] = d2.get(k, 0) + v
            d = d2
            if not n: break
        return (n, d)

    def genz3(self, i):
        k = self.info[i]
        if k[0] == 'v': return toz3(var(k[1]))
        return toz3(self.nodeof[i])
    def polyz3(self, p):
        terms = []
        for m, c in p.items():
            t = zq(Q(c))
            for g, e in decode(m):
                z = self.genz3(g)
                for _ in range(e): t = t * z
            terms.append(t)
        return z3.Sum(terms) if terms else z3.RealVal(0)

import time

def show(e, depth=0):
    if not isinstance(e, R): return str(e)
    if depth > 6: return '..'
    if e.op == 'v': return e.args[0]
    if e.op in '+*/': return '(' + (' ' + e.op + ' ').join(show(a, depth + 1) for a in e.args) + ')'
    return e.op + '(' + ', '.join(show(a, depth + 1) for a in e.args) + ')'

"""Scalar term language of the verifier.

A term (`Poly`) is a polynomial with rational coefficients over interned
atoms.  Every operation returns a normal form; two terms are provably equal
when the normal form of their difference is zero (``is_zero``), possibly after
clearing denominators.  Binders (finite sums over 0 <= i < n, maxima, argmax)
are closed terms with canonical bound variable names, so alpha-equivalent
binders are the same atom.

All variables denote mathematical reals / integers (machine arithmetic is
treated as mathematical arithmetic: listed in the evidence as an assumption).
"""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    'The code uses a construct outside the verifier subset.'


class Undecided(Exception):
    'A question the decision procedures cannot settle.'


ONE = Fraction(1)

_ATOMS = {}          # key -> Atom


class Atom:
    __slots__ = ('id', 'kind', 'args', 'key', 'pos', 'nonneg', 'isint', 'free')

    def __repr__(self):
        return atom_str(self)

    def __hash__(self):
        return self.id

    def __lt__(self, o):
        return self.id < o.id

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self


def _mk(kind, *args):
    key = (kind,) + tuple(a.key if isinstance(a, Poly) else a for a in args)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ATOMS)
        a.kind = kind
        a.args = args
        a.key = key
        a.pos = a.nonneg = a.isint = False
        fr = set()
        for x in args:
            fr |= _free(x)
        if kind == 'idx':
            fr = {a}
        a.free = frozenset(fr)
        _ATOMS[key] = a
        _init_flags(a)
    return a


def _free(x):
    if isinstance(x, Poly):
        return x.free()
    if isinstance(x, tuple):
        r = set()
        for y in x:
            r |= _free(y)
        return r
    return set()


# ----------------------------------------------------------------------
# registry of tensor symbols and assumptions

class TensorInfo:
    def __init__(self, name, ndim, pos=False, nonneg=False, isint=False,
                 sym=None, lo=None, hi=None, perm_inv=None, shape=None,
                 spec=None, rng=None, lt=None):
        self.name, self.ndim, self.pos, self.nonneg = name, ndim, pos, nonneg
        self.isint = isint
        self.sym = sym            # pair of dims in which the tensor is symmetric
        self.lo, self.hi = lo, hi  # for integer tensors: lo <= x < hi
        self.perm_inv = perm_inv  # name of the inverse permutation
        self.shape = shape
        self.spec = spec          # python callable computing numeric value
        self.rng = rng
        self.sortkey = None       # (key, descending) when made by sort()
        self.lt = lt              # upper bound of the sampled values (reals)


TENSORS = {}
SIZES = {}       # name -> lower bound
SCALARS = {}     # name -> dict(pos, isint, lo, hi)
FACTS = []       # integer facts (conds) currently assumed
RFACTS = []      # real facts currently assumed


def reset():
    TENSORS.clear()
    SIZES.clear()
    SCALARS.clear()
    FACTS.clear()
    RFACTS.clear()
    _ATOMS.clear()
    _MEMO.clear()
    _EXPANDERS.clear()
    LEAVES.clear()
    DEFS.clear()
    FROZEN.clear()
    global _fresh
    _fresh = 0


_MEMO = {}
_EXPANDERS = {}
DEFS = {}            # name -> definition of a recursive specification
LEAVES = {}          # gradients: leaf -> frozen copy
FROZEN = {}          # frozen copy -> leaf
_fresh = 0


def fresh_id():
    global _fresh
    _fresh += 1
    return _fresh


def _init_flags(a):
    k = a.kind
    if k == 'size':
        a.isint = True
        lb = SIZES.get(a.args[0], 1)
        a.nonneg = lb >= 0
        a.pos = lb >= 1
    elif k in ('idx', 'bv'):
        a.isint = True
        a.nonneg = True
    elif k == 'scalar':
        inf = SCALARS.get(a.args[0], {})
        a.isint = inf.get('isint', False)
        a.pos = inf.get('pos', False)
        a.nonneg = a.pos or inf.get('nonneg', False)
    elif k == 'elem':
        t = TENSORS[a.args[0]]
        a.isint, a.pos, a.nonneg = t.isint, t.pos, t.nonneg or t.pos
    elif k == 'exp':
        a.pos = a.nonneg = True
    elif k == 'const':
        a.pos = a.nonneg = True
    elif k == 'fn':
        if a.args[0] in ('softplus', 'sigmoid'):
            a.pos = a.nonneg = True
        if a.args[0] in ('abs', 'sqrt_', 'relu'):
            a.nonneg = True
        if a.args[0] in ('idiv', 'imod', 'floor'):
            a.isint = True
            if all(is_nonneg(x) for x in a.args[1:]):
                a.nonneg = True
    elif k == 'poly':
        a.pos = is_pos(a.args[0])
        a.nonneg = is_nonneg(a.args[0])
        a.isint = False
    elif k == 'sum':
        # sum((bounds), body): body is a monomial in bv atoms
        p = is_pos(a.args[1])
        a.nonneg = p or is_nonneg(a.args[1])
        a.pos = p and all(provably_pos_bound(b) for b in a.args[0])
        a.isint = is_int(a.args[1])
    elif k == 'max':
        a.pos = is_pos(a.args[1])
        a.nonneg = is_nonneg(a.args[1])
    elif k == 'argmax':
        a.isint = a.nonneg = True
    elif k == 'ite':
        c, x, y = a.args
        a.pos = is_pos(x) and is_pos(y)
        a.nonneg = is_nonneg(x) and is_nonneg(y)
        a.isint = is_int(x) and is_int(y)


def provably_pos_bound(b):
    try:
        return prove_nonneg(b - 1) is True
    except RecursionError:
        return False


# ----------------------------------------------------------------------

class Poly:
    __slots__ = ('t', 'key', '_h', '_free')

    def __init__(self, terms):
        self.t = terms
        self.key = tuple(sorted(((tuple((a.id, e) for a, e in m)), c)
                                for m, c in terms.items()))
        self._h = hash(self.key)
        self._free = None

    def free(self):
        if self._free is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.free
            self._free = frozenset(s)
        return self._free

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self

    def __repr__(self):
        return poly_str(self)

    # arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def scale(self, c):
        if not c:
            return ZERO
        return Poly({m: v * c for m, v in self.t.items()})

    def __mul__(self, o):
        o = P(o)
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                if m is None:
                    continue
                if isinstance(m, Poly):
                    for mm, cc in m.t.items():
                        r[mm] = r.get(mm, 0) + cc * c1 * c2
                else:
                    r[m] = r.get(m, 0) + c1 * c2
        return Poly({m: c for m, c in r.items() if c})

    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    def __truediv__(self, o):
        return self * power(P(o), Fraction(-1))

    def __rtruediv__(self, o):
        return P(o) * power(self, Fraction(-1))

    def __pow__(self, e):
        return power(self, Fraction(e))

    def single(self):
        'If the polynomial is exactly one atom, return the atom.'
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return Poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, float):
        if math.isinf(x):
            return INF if x > 0 else -INF
        if math.isnan(x):
            raise Unsupported('nan literal')
        # a quotient of small integers stands for itself
        q = Fraction(x).limit_denominator(1000)
        return P(q if float(q) == x else Fraction(repr(x)))
    if isinstance(x, Atom):
        return Poly({((x, ONE),): ONE})
    if hasattr(x, 'poly'):
        return x.poly
    raise Unsupported(f'not a scalar term: {x!r}')


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    special = False
    for a, e in m2:
        v = d.get(a)
        if v is None:
            d[a] = e
        else:
            v = v + e
            if v:
                d[a] = v
                if a.kind == 'poly' and v.denominator == 1 and v > 0:
                    special = True
            else:
                del d[a]
    if special:
        r = P(1)
        for a, e in d.items():
            if a.kind == 'poly' and e.denominator == 1 and e > 0:
                for _ in range(int(e)):
                    r = r * a.args[0]
            else:
                r = r * Poly({((a, e),): ONE})
        return r
    m = tuple(sorted(d.items(), key=lambda x: x[0].id))
    return m


ZERO = Poly({})
UNIT = Poly({(): ONE})


def _consts():
    global PI, INF
    PI = P(_mk('const', 'pi'))
    INF = P(_mk('const', 'inf'))


def size(name, lb=1):
    SIZES[name] = lb
    return P(_mk('size', name))


def scalar(name, **flags):
    SCALARS[name] = flags
    return P(_mk('scalar', name))


def new_idx(bound, hint='i'):
    'A fresh integer variable with 0 <= v < bound.'
    return _mk('idx', f'{hint}{fresh_id()}', P(bound))


# ----------------------------------------------------------------------
# sign / integer reasoning

def _parity_int(p):
    'coefficients in Z/2, yet an integer for every parity of its integer atoms'
    atoms = []
    for m, c in p.t.items():
        if c.denominator > 2:
            return False
        for a, e in m:
            if not a.isint or e.denominator != 1 or e < 0:
                return False
            if a not in atoms:
                atoms.append(a)
    if len(atoms) > 6:
        return False
    for bits in range(1 << len(atoms)):
        tot = 0
        for m, c in p.t.items():
            if all(bits >> atoms.index(a) & 1 for a, _ in m):
                tot += int(c * 2)
        # residues mod 2 of 2p; monomials of even-denominator coefficients only
        # depend on the parities, the others contribute an even amount
        if tot % 2:
            return False
    return True


def is_int(p):
    if any(c.denominator == 2 for c in p.t.values()):
        return _parity_int(p)
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if not a.isint or e.denominator != 1 or e < 0:
                return False
    return True


def is_pos(p):
    if not p.t:
        return False
    ok = False
    for m, c in p.t.items():
        if c < 0:
            return False
        allpos = True
        for a, e in m:
            if a.pos:
                continue
            allpos = False
            if a.nonneg and e > 0:
                continue
            if e.denominator == 1 and e % 2 == 0 and e > 0:
                continue
            return False
        ok = ok or allpos
    if ok:
        return True
    return False


def is_nonneg(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if a.pos or (a.nonneg and e > 0):
                continue
            if e.denominator == 1 and e % 2 == 0 and e > 0:
                continue
            return False
    return True


def subst_poly_linear(p, atom, val):
    'Substitute an atom at top level (integer polynomials).'
    r = ZERO
    for m, c in p.t.items():
        t = Poly({(): c})
        for a, e in m:
            if a is atom:
                for _ in range(int(e)):
                    t = t * val
            else:
                t = t * Poly({((a, e),): ONE})
        r = r + t
    return r


def _quick_nonneg(p, depth=0):
    if not p.t:
        return True
    if p.is_const():
        return p.const() >= 0
    if depth > 12:
        return None
    # eliminate index variables (largest id first: later ones may depend on
    # earlier ones through their bounds)
    idxs = [a for a in p.atoms() if a.kind == 'idx']
    for a in sorted(idxs, key=lambda x: -x.id):
        coef, rest, ok = ZERO, ZERO, True
        for m, c in p.t.items():
            e = dict(m).get(a)
            if e is None:
                if any(a in x.free for x, _ in m):
                    ok = False
                rest = rest + Poly({m: c})
            elif e == 1:
                mm = tuple(x for x in m if x[0] is not a)
                if any(a in x.free for x, _ in mm):
                    ok = False
                coef = coef + Poly({mm: c})
            else:
                ok = False
        if not ok:
            continue
        s = _quick_nonneg(coef, depth + 1)
        if s:
            return _quick_nonneg(rest, depth + 1)
        if _quick_nonneg(-coef, depth + 1):
            return _quick_nonneg(rest + coef * (a.args[1] - 1), depth + 1)
    # integer tensors with known range
    for a in p.atoms():
        if a.kind in ('elem', 'argmax', 'fn', 'scalar'):
            lo, hi = int_range(a)
            if lo is None and hi is None:
                continue
            coef, rest, ok = ZERO, ZERO, True
            for m, c in p.t.items():
                e = dict(m).get(a)
                if e is None:
                    rest = rest + Poly({m: c})
                elif e == 1:
                    coef = coef + Poly({tuple(x for x in m if x[0] is not a): c})
                else:
                    ok = False
            if not ok:
                continue
            if lo is not None and _quick_nonneg(coef, depth + 1):
                return _quick_nonneg(rest + coef * lo, depth + 1)
            if hi is not None and _quick_nonneg(-coef, depth + 1):
                return _quick_nonneg(rest + coef * (hi - 1), depth + 1)
    q = p
    for a in p.atoms():
        if a.kind == 'size':
            lb = SIZES.get(a.args[0], 1)
            if lb:
                q = subst_poly_linear(q, a, P(a) + lb)
    return True if is_nonneg(q) else None


def int_range(a):
    if a.kind == 'elem':
        t = TENSORS[a.args[0]]
        return t.lo, t.hi
    if a.kind == 'argmax':
        return ZERO, a.args[0]
    if a.kind == 'scalar':
        inf = SCALARS.get(a.args[0], {})
        return inf.get('lo'), inf.get('hi')
    if a.kind == 'fn' and a.args[0] == 'imod':
        return ZERO, a.args[2]
    if a.kind == 'fn' and a.args[0] == 'idiv':
        return (ZERO if prove_nonneg(a.args[1]) else None), None
    return None, None


def _elim_idiv(p):
    """p' with p < 0 <=> p' < 0 when p = +-floor(a/b) + rest: over the integers
    floor(a/b) < k <=> a < k b, and floor(a/b) > k <=> a >= (k + 1) b."""
    hit = None
    for m, c in p.t.items():
        for a, e in m:
            if a.kind == 'fn' and a.args[0] == 'idiv':
                if hit is not None or len(m) != 1 or e != 1 or abs(c) != 1:
                    return None
                hit = (a, c)
    if hit is None:
        return None
    a, c = hit
    rest = p - Poly({((a, Fraction(1)),): c})
    if not is_int(rest):
        return None
    num, den = a.args[1], a.args[2]
    if not prove_nonneg(den - 1):
        return None
    if c == 1:
        return num + rest * den
    return (rest + 1) * den - num - 1


def _split_idiv(p):
    'write v = b*floor(a/b) + r - (a - v), 0 <= r < b, for an index v of a'
    for a in p.atoms():
        if a.kind == 'fn' and a.args[0] == 'idiv':
            num, den = a.args[1], a.args[2]
            for m, c in num.t.items():
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'idx':
                    v = m[0][0]
                    rest = num - P(v)
                    if v in rest.free() or v in den.free():
                        continue
                    k = ('split', v, a)
                    if k not in _MEMO:
                        _MEMO[k] = new_idx(den, 'r')
                    val = den * P(a) + P(_MEMO[k]) - rest
                    r = ZERO
                    for mm, cc in p.t.items():
                        t = Poly({(): cc})
                        for x, e in mm:
                            if x is v:
                                if e < 0 or e.denominator != 1:
                                    return None
                                for _ in range(int(e)):
                                    t = t * val
                            else:
                                t = t * Poly({((x, e),): ONE})
                        r = r + t
                    return r if r != p else None
    return None


def prove_nonneg(p):
    'True if p >= 0 is provable from bounds and facts, else None.'
    q = _elim_idiv(p)
    if q is not None and q != p:
        # p >= 0 <=> not p < 0 <=> not q < 0 <=> q >= 0
        r = prove_nonneg(q)
        if r:
            return r
    k = ('nn', p, tuple(FACTS))
    if k in _MEMO:
        return _MEMO[k]
    r = _quick_nonneg(p)
    if r is not True and not p.is_const():
        q = _split_idiv(p)
        if q is not None and _quick_nonneg(q):
            r = True
    if r is not True and not p.is_const():
        r = True if _z3_int_valid(('ge0', p)) else None
    _MEMO[k] = r
    return r


Z3STATS = {'queries': 0, 'time': 0.0, 'unsat': 0}


def int_unsat(c):
    'FACTS and c are contradictory.'
    if c is False:
        return True
    if c is True:
        c = ('ge0', ZERO)
    return _z3_int_valid(c_not_raw(c))


def poly_sqrt(p):
    'q with q*q == p and q >= 0, for perfect-square polynomials.'
    if p.is_const():
        c = p.const()
        if c < 0:
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return P(Fraction(a, b))
        return None

    def deg(m):
        return (sum(e for _, e in m), tuple((a.id, e) for a, e in m))
    q = ZERO
    rem = p
    lead = None
    for _ in range(40):
        if not rem.t:
            return q if is_nonneg_sz(q) else (-q if is_nonneg_sz(-q) else None)
        m = max(rem.t, key=deg)
        c = rem.t[m]
        if lead is None:
            if c < 0 or any((e / 2).denominator != 1 for _, e in m):
                return None
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a != c.numerator or b * b != c.denominator:
                return None
            t = Poly({tuple((x, e / 2) for x, e in m): Fraction(a, b)})
            lead = t
        else:
            (lm, lc), = lead.t.items()
            d = dict(m)
            for x, e in lm:
                d[x] = d.get(x, 0) - e
                if d[x] < 0:
                    return None
                if not d[x]:
                    del d[x]
            t = Poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c / (2 * lc)})
        q = q + t
        rem = p - q * q
    return None


def is_nonneg_sz(q):
    return prove_nonneg(q) is True or is_nonneg(q)


def is_int_valued_triangular(p):
    'n*(n-1)/2 and n*(n+1)/2 are integers.'
    if is_int(p):
        return True
    r = poly_sqrt(8 * p + 1)
    return r is not None and is_int(r) and is_int((r - 1).scale(Fraction(1, 2)))


def _has_frac(p):
    return any(c.denominator != 1 for c in p.t.values())


def _z3_int_valid(goal):
    import z3
    import time
    t0 = time.time()
    env = {}
    s = z3.Solver()
    s.set('timeout', 1000)
    todo = []

    def var(a):
        if a not in env:
            v = z3.Int(f'a{a.id}') if a.isint else z3.Real(f'a{a.id}')
            env[a] = v
            todo.append(a)
        return env[a]

    def conv(p):
        # clear denominators
        den = 1
        for c in p.t.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        r = z3.IntVal(0)
        for m, c in p.t.items():
            t = z3.IntVal(int(c * den))
            for a, e in m:
                if e.denominator != 1 or e < 0:
                    raise Undecided
                for _ in range(int(e)):
                    t = t * var(a)
            r = r + t
        return r

    def convc(c):
        if c[0] == 'ge0':
            return conv(c[1]) >= 0
        if c[0] == 'lt':
            return conv(c[1]) < 0
        if c[0] == 'eq':
            return conv(c[1]) == 0
        if c[0] == 'not':
            return z3.Not(convc(c[1]))
        if c[0] == 'and':
            return z3.And(*[convc(x) for x in c[1]])
        if c[0] == 'or':
            return z3.Or(*[convc(x) for x in c[1]])
        raise Undecided
    try:
        s.add(z3.Not(convc(goal)))
        for f in FACTS:
            s.add(convc(f))
        while todo:
            a = todo.pop()
            if a.kind == 'size':
                s.add(env[a] >= SIZES.get(a.args[0], 1))
            elif a.kind == 'idx':
                s.add(env[a] >= 0, env[a] < conv(a.args[1]))
            elif a.kind == 'bv':
                s.add(env[a] >= 0)
            elif a.kind == 'fn' and a.args[0] == 'idiv' and prove_nonneg(a.args[2] - 1):
                n_, d_ = conv(a.args[1]), conv(a.args[2])
                if is_int(a.args[1]) and is_int(a.args[2]) and \
                        not _has_frac(a.args[1]) and not _has_frac(a.args[2]):
                    s.add(env[a] * d_ <= n_, n_ < env[a] * d_ + d_)
                elif prove_nonneg(a.args[1]):
                    s.add(env[a] >= 0)
            elif a.kind == 'ite' and a.isint:
                c, x, y = a.args
                try:
                    s.add(env[a] == z3.If(convc(c), conv(x), conv(y)))
                except Undecided:
                    pass
            else:
                if a.kind == 'elem' and len(a.args) == 2 and \
                        TENSORS[a.args[0]].perm_inv is not None:
                    for b in list(env):
                        if b is not a and b.kind == 'elem' and b.args[0] == a.args[0]:
                            s.add((env[a] == env[b]) == (conv(a.args[1]) == conv(b.args[1])))
                lo, hi = int_range(a)
                if lo is not None:
                    s.add(env[a] >= conv(lo))
                if hi is not None:
                    s.add(env[a] < conv(hi))
        res = s.check()
    except Undecided:
        return False
    finally:
        Z3STATS['queries'] += 1
        Z3STATS['time'] += time.time() - t0
    if res == z3.unsat:
        Z3STATS['unsat'] += 1
        return True
    return False


def real_nonneg(p, timeout=3000):
    '''p >= 0 over the reals given the sign facts of its atoms and RFACTS (z3).'''
    import z3
    import time
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    env = {}

    def var(a):
        if a not in env:
            env[a] = z3.Real(f'a{a.id}')
            if is_pos(P(a)):
                s.add(env[a] > 0)
            elif is_nonneg(P(a)):
                s.add(env[a] >= 0)
            if a.isint:
                lo, hi = int_range(a)
                if lo is not None:
                    s.add(env[a] >= conv(lo))
                if hi is not None:
                    s.add(env[a] <= conv(hi) - 1)
        return env[a]

    def conv(q):
        r = z3.RealVal(0)
        for m, c in q.t.items():
            t = z3.RealVal(str(c))
            for a, e in m:
                v = var(a)
                if e.denominator != 1:
                    raise Undecided
                if e < 0:
                    if not is_pos(P(a)):
                        raise Undecided
                    k = ('inv', a)
                    if k not in env:
                        env[k] = z3.Real(f'i{a.id}')
                        s.add(env[k] * v == 1, env[k] > 0)
                    v = env[k]
                for _ in range(abs(int(e))):
                    t = t * v
            r = r + t
        return r

    def convc(c):
        k = c[0]
        if k in ('lt', 'rlt'):
            return conv(c[1]) < 0
        if k in ('eq', 'req'):
            return conv(c[1]) == 0
        if k == 'not':
            return z3.Not(convc(c[1]))
        f = z3.And if k == 'and' else z3.Or
        return f(*[convc(x) for x in c[1]])
    try:
        s.add(conv(p) < 0)
        for c in RFACTS:
            try:
                s.add(convc(c))
            except Undecided:
                pass
        res = s.check()
    except (Undecided, z3.Z3Exception):
        return False
    finally:
        Z3STATS['queries'] += 1
        Z3STATS['time'] += time.time() - t0
    if res == z3.unsat:
        Z3STATS['unsat'] += 1
        return True
    return False


# ----------------------------------------------------------------------
# conditions: True/False or tuples
#   ('lt', p): p < 0 over the integers;  ('eq', p): p == 0 over the integers
#   ('rlt', p), ('req', p): same over the reals
#   ('not', c), ('and', (c..)), ('or', (c..))

def _prim(p):
    'Normalise a polynomial up to a positive factor.'
    if not p.t:
        return p
    g = 0
    l = 1
    for c in p.t.values():
        g = math.gcd(g, c.numerator)
        l = l * c.denominator // math.gcd(l, c.denominator)
    return p.scale(Fraction(l, g))


def c_lt0(p):
    if is_int(_prim(p)) and all(a.isint for a in p.atoms()):
        p = _prim(p)
        if p.is_const():
            return p.const() < 0
        if prove_nonneg(p):
            return False
        if prove_nonneg(-p - 1):
            return True
        return ('lt', p)
    if p.is_const():
        return p.const() < 0
    if mentions_inf(p):
        return _inf_cmp(p, '<')
    if is_nonneg(p):
        return False
    if is_pos(-p):
        return True
    u = _unit_part(p)
    if u:
        return c_lt0(u[0] if u[1] > 0 else u[0] - 1)
    p = _prim(p)
    for f in RFACTS:
        if f == ('rlt', p):
            return True
        if f == ('not', ('rlt', p)):
            return False
    return ('rlt', p)


def _unit_part(p):
    'p = whole number + c * u with 0 < u < 1 and 0 < |c| <= 1: (whole, c)'
    u = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][0].kind == 'scalar' and m[0][1] == 1 and \
                SCALARS.get(m[0][0].args[0], {}).get('unit'):
            if u is not None or abs(c) > 1:
                return None
            u = m, c
    if u is None:
        return None
    w = p - Poly({u[0]: u[1]})
    return (w, u[1]) if is_int(w) else None


def _perm_diff(p):
    'p = f[a] - f[b] with f a permutation: a - b'
    if len(p.t) != 2:
        return None
    (m, c), (n, d) = p.t.items()
    if c != -d or len(m) != 1 or len(n) != 1 or m[0][1] != 1 or n[0][1] != 1:
        return None
    x, y = m[0][0], n[0][0]
    if x.kind == 'elem' and y.kind == 'elem' and x.args[0] == y.args[0] and \
            TENSORS[x.args[0]].perm_inv is not None and len(x.args) == 2:
        return x.args[1] - y.args[1]
    return None


def c_eq0(p):
    if not p.t:
        return True
    if is_int(_prim(p)) and all(a.isint for a in p.atoms()):
        p = _prim(p)
        if p.is_const():
            return p.const() == 0
        m = min(p.t, key=lambda m: tuple((a.id, e) for a, e in m) if m else ((10**9, 0),))
        if p.t[m] < 0:
            p = -p
        q = _perm_diff(p)
        if q is not None:
            return c_eq0(q)
        if prove_nonneg(p - 1) or prove_nonneg(-p - 1):
            return False
        for f in FACTS:
            if f == ('eq', p):
                return True
            if f == ('not', ('eq', p)):
                return False
        if prove_nonneg(p) and prove_nonneg(-p):
            return True
        return ('eq', p)
    if p.is_const():
        return p.const() == 0
    if mentions_inf(p) or _unit_part(p):
        return False
    if is_pos(p) or is_pos(-p):
        return False
    p = _prim(p)
    m = min(p.t, key=lambda m: tuple((a.id, e) for a, e in m) if m else ((10**9, 0),))
    if p.t[m] < 0:
        p = -p
    for f in RFACTS:
        if f == ('req', p):
            return True
        if f == ('not', ('req', p)):
            return False
    return ('req', p)


def mentions_inf(p):
    inf = INF.single()
    return any(a is inf for a in p.atoms())


def _inf_cmp(p, op):
    c = p.t.get(((INF.single(), ONE),))
    if c is None:
        raise Unsupported('comparison with infinity')
    return c < 0


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    if c[0] == 'lt':
        # not(p<0)  <=> -p-1 < 0
        return c_lt0(-c[1] - 1)
    return ('not', c)


def c_and(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c[0] == 'and':
            out += list(c[1])
        else:
            out.append(c)
    out = list(dict.fromkeys(out))
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def c_or(*cs):
    return c_not(c_and(*[c_not(c) for c in cs]))


def cond_polys(c):
    if c is True or c is False:
        return
    if c[0] in ('lt', 'eq', 'rlt', 'req'):
        yield c[1]
    elif c[0] == 'not':
        yield from cond_polys(c[1])
    else:
        for x in c[1]:
            yield from cond_polys(x)


def map_cond(c, f):
    if c is True or c is False:
        return c
    if c[0] in ('lt', 'rlt'):
        return c_lt0(f(c[1]))
    if c[0] in ('eq', 'req'):
        return c_eq0(f(c[1]))
    if c[0] == 'not':
        return c_not(map_cond(c[1], f))
    if c[0] == 'and':
        return c_and(*[map_cond(x, f) for x in c[1]])
    if c[0] == 'or':
        return c_or(*[map_cond(x, f) for x in c[1]])
    raise Unsupported(str(c))


def int_cond(c):
    if c in (True, False):
        return True
    if c[0] in ('lt', 'eq'):
        return True
    if c[0] in ('rlt', 'req'):
        return False
    if c[0] == 'not':
        return int_cond(c[1])
    return all(int_cond(x) for x in c[1])


# ----------------------------------------------------------------------
# function application

def ite(c, a, b):
    a, b = P(a), P(b)
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    if c[0] == 'not':
        return ite(c[1], b, a)
    if c[0] == 'eq':
        es = [x for x in eq_solutions(c[1]) if x[0].kind == 'elem']
        if es:
            e, val = max(es, key=lambda x: x[0].key)
            if not any(x is e for x in _deep_atoms(val)) and any(x is e for x in _deep_atoms(a)):
                return ite(c, subst(a, {e: val}), b)
        w = b.single()
        if w is not None and w.kind == 'ite' and w.args[0][0] == 'lt' and is_int(c[1]):
            # p <= 0 and p != 0: p < 0
            q = w.args[0][1]
            for p in (c[1], -c[1]):
                if q in (p, -p - 1) and prove_nonneg(-p):
                    return ite(c, a, w.args[1] if q == p else w.args[2])
    r = _merge_zero(c, a, b)
    if r is not None:
        return r
    # keep only one orientation of 'lt': canonical by comparing keys
    if c[0] == 'lt':
        n = ('lt', -c[1] - 1)
        if n[1].key < c[1].key:
            return ite_raw(n, b, a)
    return ite_raw(c, a, b)


def _sum_bounds(p):
    for x in _deep_atoms(p):
        if x.kind == 'sum':
            yield from x.args[0]


def _merge_zero(c, a, b):
    '''ite(n == 0, a, b) = b when b at n = 0 is a (n a natural number that bounds a sum
    of b: the sum is empty)'''
    if c[0] != 'lt':
        return None
    for n, x, y in ((c[1] + 1, a, b), (-c[1], b, a)):
        if not any(q == n for q in _sum_bounds(y)) or any(w.kind == 'bv' for w in _deep_atoms(n)) \
                or not prove_nonneg(n):
            continue
        for at, val in eq_solutions(n):
            try:
                if subst(y, {at: val}) == subst(x, {at: val}):
                    return y
            except Unsupported:
                pass
    return None


def ite_raw(c, a, b):
    return P(_mk_ite(c, a, b))


def _ckey(c):
    if c in (True, False):
        return c
    if c[0] in ('lt', 'eq', 'rlt', 'req'):
        return (c[0], c[1].key)
    if c[0] == 'not':
        return ('not', _ckey(c[1]))
    return (c[0], tuple(_ckey(x) for x in c[1]))


def _mk_ite(c, a, b):
    key = ('ite', _ckey(c), a.key, b.key)
    x = _ATOMS.get(key)
    if x is None:
        x = Atom()
        x.id = len(_ATOMS)
        x.kind = 'ite'
        x.args = (c, a, b)
        x.key = key
        x.pos = x.nonneg = x.isint = False
        fr = set(a.free()) | set(b.free())
        for p in cond_polys(c):
            fr |= p.free()
        x.free = frozenset(fr)
        _ATOMS[key] = x
        _init_flags(x)
    return x


def elem(name, idx):
    t = TENSORS[name]
    idx = tuple(P(i) for i in idx)
    if t.sym is not None:
        i, j = t.sym
        if idx[j].key < idx[i].key:
            l = list(idx)
            l[i], l[j] = l[j], l[i]
            idx = tuple(l)
    if t.perm_inv is not None and len(idx) == 1:
        a = idx[0].single()
        if a is not None and a.kind == 'elem' and a.args[0] == t.perm_inv:
            return a.args[1]
    if name in _EXPANDERS:
        r = _EXPANDERS[name](idx)
        if r is not None:
            return r
    return P(_mk('elem', name, *idx))


def expfn(p):
    p = P(p)
    r = UNIT
    inf = INF.single()
    for m, c in p.t.items():
        if m == ():
            r = r * Poly({((_mk('exp', UNIT), c),): ONE})
            continue
        if len(m) == 1 and m[0][0] is inf:
            if c < 0:
                return ZERO
            raise Unsupported('exp(inf)')
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' \
                and m[0][0].args[0] == 'log':
            r = r * power(m[0][0].args[1], c)
            continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'ite':
            cc, a, b = m[0][0].args
            r = r * ite(cc, expfn(a.scale(c)), expfn(b.scale(c)))
            continue
        # c * n * log(u): keep exp(monomial)^c
        r = r * Poly({((_mk('exp', Poly({m: ONE})), c),): ONE})
    return r


def _factor_int(n):
    f = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def _logconst(c):
    r = ZERO
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, e in _factor_int(n).items():
            r = r + Poly({((_mk('fn', 'log', P(p)), ONE),): Fraction(s * e)})
    return r


def logfn(p):
    p = simp(P(p))
    if not p.t:
        return -INF
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0:
            return _logmono(m, c)
        return fn('log_', p)
    if is_one_ite(p):
        a = p.single()
        c, x, y = a.args
        return ite(c, logfn(x), logfn(y))
    cont, prim = content(p)
    (m, c), = cont.t.items()
    r = P(_mk('fn', 'log', prim))
    return _logmono(m, c) + r


def is_one_ite(p):
    a = p.single()
    return a is not None and a.kind == 'ite'


def _logmono(m, c):
    r = _logconst(c)
    rest = []
    for a, e in m:
        if a.kind == 'exp':
            r = r + a.args[0].scale(e)
        elif a.pos or a.nonneg:
            if a.kind == 'poly':
                r = r + logfn(a.args[0]).scale(e)
            elif a.kind == 'ite':
                cc, x, y = a.args
                r = r + ite(cc, logfn(x), logfn(y)).scale(e)
            else:
                r = r + Poly({((_mk('fn', 'log', P(a)), ONE),): e})
        else:
            rest.append((a, e))
    if rest:
        r = r + P(_mk('fn', 'log', Poly({tuple(rest): ONE})))
    return r


def content(p):
    'p = content * primitive, content a positive monomial over positive atoms.'
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for a in list(common):
                if a not in d:
                    # allow negative powers to be pulled out
                    if common[a] > 0:
                        del common[a]
                    continue
                common[a] = min(common[a], d[a])
            for a, e in d.items():
                if a not in common and e < 0:
                    common[a] = e
    common = {a: e for a, e in common.items() if (a.pos or a.nonneg) and e}
    g, l = 0, 1
    for c in p.t.values():
        g = math.gcd(g, c.numerator)
        l = l * c.denominator // math.gcd(l, c.denominator)
    cc = Fraction(g, l)
    cm = tuple(sorted(common.items(), key=lambda x: x[0].id))
    inv = Poly({tuple((a, -e) for a, e in cm): 1 / cc})
    return Poly({cm: cc}), p * inv


def content_any(p):
    'As content but over all atoms and with sign (for reciprocals).'
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for a in list(common):
                if a not in d:
                    if common[a] > 0:
                        del common[a]
                    continue
                common[a] = min(common[a], d[a])
            for a, e in d.items():
                if a not in common and e < 0:
                    common[a] = e
    common = {a: e for a, e in common.items() if e}
    g, l = 0, 1
    for c in p.t.values():
        g = math.gcd(g, c.numerator)
        l = l * c.denominator // math.gcd(l, c.denominator)
    cc = Fraction(g, l)
    m0 = min(p.t, key=lambda m: tuple((a.id, e) for a, e in m) if m else ((10**9, 0),))
    if p.t[m0] < 0:
        cc = -cc
    cm = tuple(sorted(common.items(), key=lambda x: x[0].id))
    inv = Poly({tuple((a, -e) for a, e in cm): 1 / cc})
    return Poly({cm: cc}), p * inv


def power(p, e):
    p = P(p)
    e = Fraction(e)
    if e == 0:
        return UNIT
    if e == 1:
        return p
    if not p.t:
        if e > 0:
            return ZERO
        raise Unsupported('division by zero')
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if e.denominator == 1:
            cc = c ** int(e)
            r = Poly({(): cc})
            for a, x in m:
                if a.kind == 'poly' and (x * e) > 0 and (x * e).denominator == 1:
                    q = a.args[0]
                    for _ in range(int(x * e)):
                        r = r * q
                elif a.kind == 'ite':
                    if x * e < 0:
                        cnd, u, v = a.args
                        r = r * ite(cnd, _safe_pow(u, x * e), _safe_pow(v, x * e))
                    else:
                        r = r * Poly({((a, x * e),): ONE})
                else:
                    r = r * Poly({((a, x * e),): ONE})
            return r
        # fractional power
        if c > 0 and all(a.pos or a.nonneg for a, _ in m):
            r = UNIT
            for q, k in _factor_int(c.numerator).items():
                r = r * _primepow(q, k * e)
            for q, k in _factor_int(c.denominator).items():
                r = r * _primepow(q, -k * e)
            for a, x in m:
                r = r * Poly({((a, x * e),): ONE})
            return r
        return P(_mk('fn', 'pow', p, P(e)))
    p = simp(p)
    if len(p.t) <= 1:
        return power(p, e)
    if e.denominator == 1 and e > 0:
        r = UNIT
        for _ in range(int(e)):
            r = r * p
        return r
    if e.denominator == 1:
        cont, prim = content_any(p)
        q = multiplied(prim)
        if q is not None:
            return power(cont, e) * power(q, e)
        return power(cont, e) * Poly({((_mk('poly', prim), e),): ONE})
    cont, prim = content(p)
    return power(cont, e) * Poly({((_mk('poly', prim), e),): ONE})


def multiplied(p):
    'p without products of sums, None when it has none'
    r, changed = ZERO, False
    for m, c in p.t.items():
        t, rest = Poly({(): c}), []
        for a, x in m:
            if a.kind == 'poly' and x > 0 and x.denominator == 1:
                changed = True
                for _ in range(int(x)):
                    t = t * a.args[0]
            else:
                rest.append((a, x))
        r = r + t * Poly({tuple(rest): ONE})
    return r if changed else None


def _safe_pow(u, e):
    if not u.t:
        return fn('undef', P(e))
    return power(u, e)


def _primepow(q, e):
    n = math.floor(e)
    r = Poly({(): Fraction(q) ** n})
    f = e - n
    if f:
        r = r * Poly({((_mk('prime', q), f),): ONE})
        _mk('prime', q).pos = True
        _mk('prime', q).nonneg = True
    return r


def fn(name, *args):
    args = tuple(P(a) for a in args)
    if name == 'exp':
        return expfn(args[0])
    if name == 'log':
        return logfn(args[0])
    if name == 'sqrt':
        return power(args[0], Fraction(1, 2))
    args = tuple(simp(a) for a in args)
    if name == 'abs':
        if is_nonneg(args[0]):
            return args[0]
        if is_nonneg(-args[0]):
            return -args[0]
    if name == 'idiv':
        return idiv(*args)
    if name == 'imod':
        return imod(*args)
    if name in ('cos', 'sin'):
        # multiples of a quarter turn
        q = args[0] / PI * 2
        if q.is_const() and q.const().denominator == 1:
            k = int(q.const()) + (name == 'sin') * 3
            return P((1, 0, -1, 0)[k % 4])
    if name == 'floor':
        # whole numbers plus a fraction strictly between 0 and 1
        whole = Poly({m: c for m, c in args[0].t.items() if is_int(Poly({m: c}))})
        rest = args[0] - whole
        if not rest.t:
            return whole
        if len(rest.t) == 1:
            (m, c), = rest.t.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'scalar' and abs(c) <= 1 \
                    and SCALARS.get(m[0][0].args[0], {}).get('unit'):
                return whole if c > 0 else whole - 1
    return P(_mk('fn', name, *args))


def idiv(p, q):
    p, q = P(p), P(q)
    if p.is_const() and q.is_const() and q.const():
        return P(p.const() // q.const())
    if q.is_const() and q.const() == 1:
        return p
    if q.is_const() and q.const() == 2 and is_int(p.scale(Fraction(1, 2))):
        return p.scale(Fraction(1, 2))
    a, r = _divide(p, q)
    if r is not None and not r.t:
        return a
    if r is not None and prove_nonneg(r) and prove_nonneg(q - r - 1):
        return a
    if r is not None and r.is_const() is False and a.t:
        # p = q*a + r: floor(p/q) = a + floor(r/q)
        return a + P(_mk('fn', 'idiv', r, q))
    if a.t and r is not None:
        return a + P(_mk('fn', 'idiv', r, q))
    return P(_mk('fn', 'idiv', p, q))


def imod(p, q):
    p, q = P(p), P(q)
    if p.is_const() and q.is_const() and q.const():
        return P(p.const() % q.const())
    return p - q * idiv(p, q)


def _divide(p, q):
    '''p = q*a + r with integer-valued a (heuristic polynomial division).'''
    if q.is_const():
        a = ZERO
        for m, c in p.t.items():
            v = c / q.const()
            if v.denominator == 1:
                a = a + Poly({m: v})
            elif not m:
                a = a + P(v.numerator // v.denominator)
        return a, p - q * a
    a = poly_div(p, q)
    if not is_int_valued(a):
        return ZERO, None
    return a, p - q * a


def is_int_valued(p):
    return is_int(p)


def poly_div(p, q):
    'Quotient of multivariate division of p by q (leading term: max degree).'
    def deg(m):
        return sum(e for _, e in m)
    lm = max(q.t, key=lambda m: (deg(m), tuple((a.id, e) for a, e in m)))
    lc = q.t[lm]
    quo = ZERO
    rem = p
    for _ in range(200):
        best = None
        for m, c in rem.t.items():
            d = dict(m)
            ok = True
            for a, e in lm:
                if d.get(a, 0) < e:
                    ok = False
                    break
            if ok:
                k = (deg(m), tuple((a.id, e) for a, e in m))
                if best is None or k > best[0]:
                    best = (k, m, c)
        if best is None:
            break
        _, m, c = best
        d = dict(m)
        for a, e in lm:
            d[a] -= e
            if not d[a]:
                del d[a]
        t = Poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c / lc})
        quo = quo + t
        rem = rem - t * q
    return quo


def simp(p):
    'Cancel denominators where division is exact.'
    dens = {}
    for m in p.t:
        for a, e in m:
            if a.kind == 'poly' and e < 0 and e.denominator == 1:
                dens.setdefault(a, set()).add(e)
    if not dens:
        return p
    k = ('simp', p)
    if k in _MEMO:
        return _MEMO[k]
    for a in sorted(dens, key=lambda x: x.id):
        changed = True
        while changed:
            changed = False
            emin = min([dict(m).get(a, 0) for m in p.t] or [0])
            if emin >= 0:
                break
            num, rest = ZERO, ZERO
            for m, c in p.t.items():
                if dict(m).get(a, 0) == emin:
                    num = num + Poly({tuple(x for x in m if x[0] is not a): c})
                else:
                    rest = rest + Poly({m: c})
            q = poly_div(num, a.args[0])
            if q.t and not (num - q * a.args[0]).t:
                p = rest + q * Poly({((a, emin + 1),): ONE} if emin + 1 else {(): ONE})
                changed = True
    _MEMO[k] = p
    return p


# ----------------------------------------------------------------------
# substitution

def subst(p, env):
    'Substitute atoms (idx / bv / size / scalar) by polys everywhere.'
    if not env:
        return p
    fr = None
    k = ('sub', p, tuple(sorted((a.id, v) for a, v in env.items())) if
         all(isinstance(v, Poly) for v in env.values()) else None, tuple(FACTS))
    try:
        k2 = (k[0], p.key, tuple(sorted((a.id, v.key) for a, v in env.items())),
              tuple(_ckey(f) for f in FACTS))
    except Exception:
        k2 = None
    if k2 in _MEMO:
        return _MEMO[k2]
    r = ZERO
    for m, c in p.t.items():
        t = Poly({(): c})
        for a, e in m:
            v = subst_atom(a, env)
            if v is None:
                t = t * Poly({((a, e),): ONE})
            else:
                t = t * power(v, e)
        r = r + t
    if k2 is not None:
        _MEMO[k2] = r
    return r


def _touches(a, env):
    # conservative: does atom contain any env key
    for x in env:
        if x is a:
            return True
        if x.kind == 'idx':
            if x in a.free:
                return True
        else:
            return True      # sizes, scalars, bvs: no free tracking
    return False


def subst_atom(a, env):
    if a in env:
        return env[a]
    if not _touches(a, env):
        return None
    k = a.kind
    if k == 'idx':
        b = subst(a.args[1], env)
        if b == a.args[1]:
            return None
        raise Unsupported('substitution under an index bound')
    if k in ('size', 'scalar', 'const', 'bv', 'prime'):
        return None
    if k == 'elem':
        args = [subst(x, env) for x in a.args[1:]]
        if all(x is y or x == y for x, y in zip(args, a.args[1:])):
            return None
        return elem(a.args[0], args)
    if k == 'exp':
        return expfn(subst(a.args[0], env))
    if k == 'fn':
        return fn(a.args[0], *[subst(x, env) for x in a.args[1:]])
    if k == 'poly':
        return subst(a.args[0], env)
    if k == 'ite':
        c, x, y = a.args
        c2 = map_cond(c, lambda p: subst(p, env))
        if c2 is True:
            return subst(x, env)
        if c2 is False:
            return subst(y, env)
        return ite(c2, subst(x, env), subst(y, env))
    if k == 'sum':
        vs, body = open_sum(a, env)
        for v in reversed(vs):
            body = msum(v, body)
        return body
    if k in ('max', 'argmax'):
        v, body = open_bind(a, env)
        return bind(k, v, body)
    if k in ('minv', 'mlogdet', 'chol'):
        n, M = a.args[0], a.args[1]
        n2 = subst(n, env)
        r, c = _mbv()
        i, j = new_idx(n2, 'r'), new_idx(n2, 'c')
        M2 = subst(subst(M, {r: P(i), c: P(j)}), env)
        idx = [subst(x, env) for x in a.args[2:]]
        return matfn(k, n2, i, j, M2, *idx)
    raise Unsupported(f'subst in {k}')


# ----------------------------------------------------------------------
# binders

def _bv(h, i=0):
    return _mk('bv', h, i)


def height(p):
    h = 0
    for m in p.t:
        for a, _ in m:
            h = max(h, atom_height(a))
    return h


_HEIGHT = {}


def atom_height(a):
    k = a.kind
    if k in ('size', 'scalar', 'const', 'prime', 'idx'):
        return 0
    if k == 'bv':
        return 0
    if a.key in _MEMO:
        return _MEMO[a.key]
    h = 0
    for x in a.args:
        if isinstance(x, Poly):
            h = max(h, height(x))
        elif isinstance(x, tuple):
            if k == 'ite':
                for p in cond_polys(x):
                    h = max(h, height(p))
            else:
                for y in x:
                    if isinstance(y, Poly):
                        h = max(h, height(y))
    if k in ('sum', 'max', 'argmax'):
        h += 1
    _MEMO[a.key] = h
    return h


def open_sum(a, env=None):
    'Return (fresh idx vars, body) of a sum atom, substituting env.'
    bounds, body = a.args
    h = a.key[-1] if False else atom_height(a)
    vs, sub = [], dict(env or {})
    for i, b in enumerate(bounds):
        bb = subst(b, dict(sub)) if sub else b
        v = new_idx(bb, 'k')
        vs.append(v)
        sub[_bv(h, i)] = P(v)
    return vs, subst(body, sub)


def open_bind(a, env=None):
    b, body = a.args
    h = atom_height(a)
    bb = subst(b, env) if env else b
    v = new_idx(bb, 'k')
    sub = dict(env or {})
    sub[_bv(h, 0)] = P(v)
    return v, subst(body, sub)


def bind(kind, v, body):
    'max / argmax binder over idx atom v.'
    body = simp(body)
    bound = v.args[1]
    if bound.is_const() and bound.const() == 1:
        return ZERO if kind == 'argmax' else subst(body, {v: ZERO})
    if kind == 'max':
        # pull out additive terms free of v
        out, ins = ZERO, ZERO
        for m, c in body.t.items():
            if any(v in a.free for a, _ in m):
                ins = ins + Poly({m: c})
            else:
                out = out + Poly({m: c})
        if not ins.t:
            return out
        body = ins
    else:
        out, ins = ZERO, ZERO
        for m, c in body.t.items():
            if any(v in a.free for a, _ in m):
                ins = ins + Poly({m: c})
        body = ins
        if not ins.t:
            return ZERO
    h = height(body) + 1
    b2 = _close(body, {v: P(_bv(h, 0))})
    r = P(_mk(kind, bound, b2))
    return r + out if kind == 'max' else r


def _close(p, env):
    return subst(p, env)


def msum(v, p):
    'Sum of p over 0 <= v < bound(v).'
    p = simp(P(p))
    n = v.args[1]
    if n.is_const() and n.const() <= 0:
        return ZERO
    if n.is_const() and n.const() == 1:
        return subst(p, {v: ZERO})
    if n.is_const() and n.const() <= 4 and n.const().denominator == 1:
        r = ZERO
        for i in range(int(n.const())):
            r = r + subst(p, {v: P(i)})
        return r
    # piecewise bodies: split the range
    sp = _find_split(v, p)
    if sp is not None:
        kind, c = sp
        if kind == 'lt':       # cond v < c  (0 < c < n provable or clipped)
            lo = new_idx(c, 'k')
            hi = new_idx(n - c, 'k')
            return msum(lo, subst(p, {v: P(lo)})) + \
                msum(hi, subst(p, {v: P(hi) + c}))
        if kind == 'eq':
            a = c[0]
            e = c[1]
            pe = subst(p, {v: e})
            # body with the equality false, plus correction at v == e
            pf = _drop_eq(p, v, e)
            pfe = subst(pf, {v: e})
            return msum(v, pf) + pe - pfe
    # sum_{v < a b} f(v // b, v % b) = sum_{i < a} sum_{j < b} f(i, j)
    fl = _find_flat(v, p)
    if fl is not None:
        a, b = fl
        i, j = new_idx(a, 'k'), new_idx(b, 'k')
        return msum(i, msum(j, subst(p, {v: b * P(i) + P(j)})))
    r = ZERO
    for m, c in p.t.items():
        r = r + _sum_mono(v, m).scale(c)
    return r


def _find_flat(v, p):
    n = v.args[1]
    if n.is_const():
        return None
    for a in _deep_atoms(p):
        if a.kind == 'fn' and a.args[0] == 'idiv' and v in a.free:
            num, den = a.args[1], a.args[2]
            if v in den.free() or den.is_const():
                continue
            lr = _linear_in(num, v)
            if lr is None or lr[0] != 1:
                continue
            q, r = _divide(n, den)
            if r is None or r.t or q == UNIT or not q.t:
                continue
            q2, r2 = _divide(lr[1], den)
            if r2 is None or r2.t:
                continue
            return q, den
    return None


def _ites(p, v):
    seen = []

    def walkp(q):
        for m in q.t:
            for a, _ in m:
                if v in a.free:
                    walka(a)

    def walka(a):
        if a.kind == 'ite':
            seen.append(a)
            walkp(a.args[1])
            walkp(a.args[2])
            for q in cond_polys(a.args[0]):
                walkp(q)
        elif a.kind in ('sum', 'max', 'argmax', 'minv', 'mlogdet', 'chol'):
            pass
        else:
            for x in a.args:
                if isinstance(x, Poly):
                    walkp(x)
    walkp(p)
    return seen


def _linear_in(q, v):
    'q = c*v + r with c constant: return (c, r) or None.'
    c, r = Fraction(0), ZERO
    for m, k in q.t.items():
        if any(v in a.free for a, _ in m):
            if m == ((v, ONE),):
                c += k
            else:
                return None
        else:
            r = r + Poly({m: k})
    return (c, r) if c else None


def _atomic_conds(c):
    if c in (True, False):
        return
    if c[0] in ('lt', 'eq', 'rlt', 'req'):
        yield c
    elif c[0] == 'not':
        yield from _atomic_conds(c[1])
    else:
        for x in c[1]:
            yield from _atomic_conds(x)


def _find_split(v, p):
    n = v.args[1]
    eqs = []
    for a in _ites(p, v):
        for c in _atomic_conds(a.args[0]):
            if c[0] == 'lt':
                lr = _linear_in(c[1], v)
                if lr is None:
                    continue
                k, r = lr
                if k == 1:        # v + r < 0 : v < -r
                    cut = -r
                elif k == -1:     # -v + r < 0: v > r : not v < r+1
                    cut = r + 1
                else:
                    continue
                if prove_nonneg(cut) and prove_nonneg(n - cut):
                    return ('lt', cut)
            elif c[0] == 'eq':
                lr = _linear_in(c[1], v)
                if lr is None:
                    continue
                k, r = lr
                if abs(k) == 1:
                    e = -r if k == 1 else r
                    eqs.append((a, e))
    for a, e in eqs:
        if is_int(e) and prove_nonneg(e) and prove_nonneg(n - 1 - e):
            return ('eq', (a, e))
    return None


def _drop_eq(p, v, e):
    'p with every test v == e replaced by False.'
    target = c_norm_eq(P(v) - e)

    def f(q):
        r = ZERO
        for m, c in q.t.items():
            t = Poly({(): c})
            for a, x in m:
                if v in a.free:
                    t = t * power(g(a), x)
                else:
                    t = t * Poly({((a, x),): ONE})
            r = r + t
        return r

    def fc(c):
        if c in (True, False):
            return c
        if c[0] == 'eq':
            return False if c[1] == target else c
        if c[0] == 'not':
            return c_not(fc(c[1]))
        if c[0] == 'and':
            return c_and(*[fc(x) for x in c[1]])
        if c[0] == 'or':
            return c_or(*[fc(x) for x in c[1]])
        return c

    def g(a):
        if a.kind == 'ite':
            c = fc(a.args[0])
            return ite(c, f(a.args[1]), f(a.args[2]))
        if a.kind == 'exp':
            return expfn(f(a.args[0]))
        if a.kind == 'fn':
            return fn(a.args[0], *[f(x) for x in a.args[1:]])
        if a.kind == 'poly':
            return f(a.args[0])
        if a.kind == 'elem':
            return elem(a.args[0], [f(x) for x in a.args[1:]])
        return P(a)
    return f(p)


def c_norm_eq(p):
    p = _prim(p)
    m = min(p.t, key=lambda m: tuple((a.id, e) for a, e in m) if m else ((10**9, 0),))
    if p.t[m] < 0:
        p = -p
    return p


def _is_flat_sum(a, e):
    return a.kind == 'sum' and e.denominator == 1 and e > 0


def _offsets(body, v):
    'constant offsets c of the arguments of the form v + c + (...) in body'
    offs = []
    ok = True

    def walkp(q, top):
        nonlocal ok
        has = False
        for m, c in q.t.items():
            for a, e in m:
                if a is v:
                    has = True
                elif v in a.free:
                    walka(a)
        if has and not top:
            lr = _linear_in(q, v)
            if lr is None or lr[0] != 1:
                ok = False
            else:
                offs.append(lr[1].t.get((), Fraction(0)))
        if has and top:
            offs.append(Fraction(0))

    def walka(a):
        nonlocal ok
        if a.kind == 'ite':
            ok = False
        elif a.kind in ('elem',):
            for x in a.args[1:]:
                walkp(x, False)
        elif a.kind in ('sum', 'max', 'argmax'):
            if a.kind == 'sum':
                bs = a.args[0]
            else:
                bs = (a.args[0],)
            for b in bs:
                if v in b.free():
                    ok = False
            walkp(a.args[1], True) if v in a.args[1].free() else None
        else:
            for x in a.args:
                if isinstance(x, Poly) and v in x.free():
                    walkp(x, a.kind in ('exp', 'fn', 'poly'))
    walkp(body, True)
    return offs if ok else None


def _canon_range(v, ins):
    'Normal form of the range of a sum: no constant in the bound, no shift.'
    n = v.args[1]
    c = n.t.get((), Fraction(0))
    if n.is_const() or not is_int(n):
        return None
    body = Poly({tuple(ins): ONE})
    offs = _offsets(body, v)
    sh = 0
    if offs:
        sh = int(min(offs))
        if abs(sh) > 4:
            sh = 0
    if sh == 0 and c == 0:
        return None
    lo, hi = sh, n + sh            # sum over lo <= k < hi of body(k - sh)
    c = hi.t.get((), Fraction(0))
    base = hi - P(c)
    if abs(c) > 4 or not prove_nonneg(base) or base.is_const():
        return None
    if sh == 0 and c == 0:
        return None
    try:
        w = new_idx(base, 'k')
        f = lambda k: subst(body, {v: P(k) - sh})
        r = ZERO
        for q in range(int(c)):
            r = r + f(base + q)
        for q in range(int(c), 0):
            r = r - f(base + q)
        for q in range(0, lo):
            r = r - f(P(q))
        for q in range(lo, 0):
            r = r + f(P(q))
        return r + msum(w, f(P(w)))
    except Unsupported:
        return None


def _sum_mono(v, m):
    'Sum over v of a monomial (tuple of (atom, exp)).'
    n = v.args[1]
    if not any(v in a.free for a, _ in m):
        return Poly({m: ONE}) * n
    out = []
    ins = []
    for a, e in m:
        if v in a.free:
            ins.append((a, e))
        else:
            out.append((a, e))
    # geometric/power sums of the variable itself
    if len(ins) == 1 and ins[0][0] is v and ins[0][1] in (1, 2):
        if ins[0][1] == 1:
            s = n * (n - 1) * Fraction(1, 2)
        else:
            s = n * (n - 1) * (2 * n - 1) * Fraction(1, 6)
        return Poly({tuple(out): ONE}) * s
    # sum_i log L_ii = 1/2 log det(L L^T)
    if len(ins) == 1 and ins[0][1] == 1 and ins[0][0].kind == 'fn' and \
            ins[0][0].args[0] in ('log', 'log_'):
        ch = ins[0][0].args[1].single()
        if ch is not None and ch.kind == 'chol' and ch.args[0] == n and \
                ch.args[2] == P(v) and ch.args[3] == P(v) and v not in ch.args[1].free():
            return P(_mk('mlogdet', ch.args[0], ch.args[1])).scale(Fraction(1, 2)) \
                * Poly({tuple(out): ONE})
    r = _canon_range(v, ins)
    if r is not None:
        return r * Poly({tuple(out): ONE})
    # flatten inner sums mentioning v
    vs = [v]
    body = UNIT
    for a, e in ins:
        if _is_flat_sum(a, e):
            for _ in range(int(e)):
                ws, b = open_sum(a)
                if any(v in w.args[1].free() for w in ws):
                    body = body * P(a)      # dependent bounds: keep nested
                else:
                    vs += ws
                    body = body * b
        else:
            body = body * Poly({((a, e),): ONE})
    outp = Poly({tuple(out): ONE})
    r = ZERO
    for mm, c in body.t.items():
        r = r + _sum_flat(vs, mm).scale(c)
    return r * outp


def _sum_flat(vs, m):
    '''Sum over all vs (independent bounds) of the monomial m; splits into
    connected components and applies contraction rules.'''
    vs = list(vs)
    m = dict(m)
    # contraction rules
    changed = True
    while changed:
        changed = False
        for v in vs:
            c = _contract(v, m)
            if c is not None:
                rest = ZERO
                # c is a Poly for the product with v eliminated
                vs2 = [w for w in vs if w is not v]
                r = c
                for w in vs2:
                    r = msum(w, r)
                return r
    if len(vs) > 1 and any(a.kind == 'ite' for a in m):
        body = Poly({tuple(sorted(m.items(), key=lambda x: x[0].id)): ONE})
        for v in vs:
            if _find_split(v, body) is not None:
                r = msum(v, body)
                for w in vs:
                    if w is not v:
                        r = msum(w, r)
                return r
    # sum_v f(v) * (sum_v f(v))^-1 = 1 inside a larger sum
    if len(vs) > 1 and any(a.kind == 'sum' and e < 0 for a, e in m.items()):
        for v in vs:
            sub = {a: e for a, e in m.items() if v in a.free}
            if not sub or any(v in w.args[1].free() for w in vs):
                continue
            inner = msum(v, Poly({tuple(sorted(sub.items(), key=lambda x: x[0].id)): ONE})).single()
            if inner is not None and m.get(inner, 0) < 0:
                r = Poly({tuple(sorted(((a, e) for a, e in m.items() if a not in sub),
                                       key=lambda x: x[0].id)): ONE}) * P(inner)
                for w in vs:
                    if w is not v:
                        r = msum(w, r)
                return r
    # components
    comp = {v: {v} for v in vs}
    for a in m:
        touched = [v for v in vs if v in a.free]
        for t in touched[1:]:
            s = comp[touched[0]] | comp[t]
            for x in s:
                comp[x] = s
    done = set()
    result = UNIT
    free_atoms = {a: e for a, e in m.items() if not any(v in a.free for v in vs)}
    result = Poly({tuple(sorted(free_atoms.items(), key=lambda x: x[0].id)): ONE})
    for v in vs:
        if v in done:
            continue
        s = comp[v]
        done |= s
        sub = {a: e for a, e in m.items() if any(w in a.free for w in s)}
        group = [w for w in vs if w in s]
        if not sub:
            for w in group:
                result = result * w.args[1]
            continue
        result = result * _mk_sum(group, sub)
    return result


def _contract(v, m):
    'inverse-matrix contraction: sum_v inv(M)[i,v] M[v,k] = delta(i,k).'
    hits = [(a, e) for a, e in m.items() if v in a.free]
    if len(hits) == 1 and hits[0][1] == 2:
        hits = [(hits[0][0], ONE), (hits[0][0], ONE)]
    if len(hits) != 2 or any(e != 1 for _, e in hits):
        return None
    (a, _), (b, _) = hits
    for x, y in ((a, b), (b, a)):
        if x.kind == 'minv':
            n, M, i, j = x.args
            if n != v.args[1]:
                continue
            rr, cc = _mbv()
            # position of v in x
            for vi, oi in ((j, i), (i, j)):
                if vi.single() is not v or v in oi.free():
                    continue
                # sum_v inv[oi, v] * y(v)   (or inv[v, oi])
                k = _match_row(M, y, v, left=(vi is j))
                if k is None:
                    continue
                d = ite(c_eq0(oi - k), UNIT, ZERO)
                rest = UNIT
                for q, e in m.items():
                    if q is x or q is y:
                        continue
                    rest = rest * Poly({((q, e),): ONE})
                return rest * d
        if x.kind == 'chol' and y.kind == 'chol':
            n, M, i, j = x.args
            n2, M2, i2, j2 = y.args
            if M == M2 and j.single() is v and j2.single() is v \
                    and n == v.args[1] and v not in i.free() and v not in i2.free():
                rr, cc = _mbv()
                rest = UNIT
                for q, e in m.items():
                    if q is x or q is y:
                        continue
                    rest = rest * Poly({((q, e),): ONE})
                return rest * subst(M, {rr: i, cc: i2})
    return None


def _match_row(M, y, v, left):
    '''M (poly in _mbv) is a multiple-free match with atom y where v is in
    the row position (left=True) or the column position.  Return the other
    index poly or None.'''
    rr, cc = _mbv()
    ma = M.single()
    if ma is None or ma.kind != y.kind:
        return None
    if ma.kind == 'elem' and ma.args[0] != y.args[0]:
        return None
    # candidates for the other index: any argument of y
    cands = [x for x in y.args if isinstance(x, Poly)]
    for k in cands:
        if v in k.free():
            continue
        env = {rr: P(v), cc: k} if left else {rr: k, cc: P(v)}
        try:
            if subst(M, env).single() is y:
                return k
        except Unsupported:
            pass
    return None


def _mk_sum(group, sub):
    'Closed sum atom over the connected group of variables.'
    import itertools
    body = Poly({tuple(sorted(sub.items(), key=lambda x: x[0].id)): ONE})
    # dependent bounds inside the group: bound of one mentions another
    h = height(body) + 1
    best = None
    perms = itertools.permutations(group) if len(group) <= 5 else [group]
    gs = set(group)
    for perm in perms:
        ok = True
        for i, w in enumerate(perm):
            dep = w.args[1].free() & gs
            if any(perm.index(d) > i for d in dep):
                ok = False
        if not ok:
            continue
        cands = [perm]
        env = {w: P(_bv(h, i)) for i, w in enumerate(perm)}
        b2 = subst(body, env)
        bounds = tuple(subst(w.args[1], env) for w in perm)
        key = (tuple(x.key for x in bounds), b2.key)
        if best is None or key < best[0]:
            best = (key, bounds, b2)
    if len(group) == 1:
        # reversal normal form:  k -> n-1-k
        w = group[0]
        n = w.args[1]
        rb = subst(body, {w: n - 1 - P(w)})
        if len(rb.t) == 1 and list(rb.t.values())[0] == 1:
            b2 = subst(rb, {w: P(_bv(h, 0))})
            key = ((n.key,), b2.key)
            if _revscore(rb, w) < _revscore(body, w):
                best = (key, (n,), b2)
    _, bounds, b2 = best
    if len(b2.t) != 1 or list(b2.t.values())[0] != 1:
        # simplification happened under canonical names: should not
        raise Undecided('sum body not a monomial')
    return P(_mk('sum', bounds, b2))


def _revscore(p, w):
    'number of atoms in which w occurs with a negative coefficient'
    n = 0

    def walk(q):
        nonlocal n
        for m, c in q.t.items():
            for a, e in m:
                if a is w:
                    if c < 0:
                        n += 1
                elif w in a.free:
                    for x in a.args:
                        if isinstance(x, Poly):
                            walk(x)
                        elif isinstance(x, tuple) and a.kind == 'ite':
                            pass
    walk(p)
    return n


# ----------------------------------------------------------------------
# matrix functions

def _mbv():
    return _bv(-1, 0), _bv(-1, 1)


def matfn(kind, n, i, j, M, *idx):
    '''kind in minv / mlogdet / chol of the n x n matrix with entries M (poly
    in the idx atoms i (row) and j (column)).'''
    n = P(n)
    M = simp(M)
    rr, cc = _mbv()
    if n.is_const() and n.const() == 1:
        m00 = subst(M, {i: ZERO, j: ZERO})
        if kind == 'minv':
            return power(m00, -1)
        if kind == 'mlogdet':
            return logfn(m00)
        if kind == 'chol':
            return power(m00, Fraction(1, 2))
    # common scalar factor
    if M.t:
        common = None
        for m in M.t:
            d = {a: e for a, e in m if i not in a.free and j not in a.free
                 and a.kind != 'poly'}
            if common is None:
                common = d
            else:
                common = {a: min(e, d[a]) if e > 0 else max(e, d[a])
                          for a, e in common.items()
                          if a in d and (e > 0) == (d[a] > 0)}
        g, l = 0, 1
        for c in M.t.values():
            g = math.gcd(g, c.numerator)
            l = l * c.denominator // math.gcd(l, c.denominator)
        s = Fraction(g, l)
        if len(M.t) == 1 and list(M.t.values())[0] < 0:
            s = -s
        fac = Poly({tuple(sorted(common.items(), key=lambda x: x[0].id)): s})
        if fac != UNIT and (kind == 'minv' or (is_pos(fac))):
            if kind == 'chol':
                return power(fac, Fraction(1, 2)) * \
                    matfn(kind, n, i, j, M * power(fac, -1), *idx)
            M2 = M * power(fac, -1)
            if kind == 'minv':
                return power(fac, -1) * matfn(kind, n, i, j, M2, *idx)
            return n * logfn(fac) + matfn(kind, n, i, j, M2, *idx)
    # diagonal matrices: delta(i,j) * d(i)
    d = _as_diag(M, i, j)
    if d is not None:
        if kind == 'minv':
            a, b = idx
            return ite(c_eq0(a - b), power(subst(d, {i: a}), -1), ZERO)
        if kind == 'mlogdet':
            return msum(i, logfn(d))
        a, b = idx
        return ite(c_eq0(a - b), power(subst(d, {i: a}), Fraction(1, 2)), ZERO)
    a = M.single()
    if a is not None and a.kind == 'minv' and a.args[0] == n:
        ai, aj = a.args[2].single(), a.args[3].single()
        tr = (ai is j and aj is i)
        if (ai is i and aj is j) or tr:
            inner = a.args[1]
            if kind == 'minv':
                x, y = (idx[1], idx[0]) if tr else idx
                return subst(inner, {rr: P(x), cc: P(y)})
            if kind == 'mlogdet':
                i2, j2 = new_idx(n, 'r'), new_idx(n, 'c')
                return -matfn('mlogdet', n, i2, j2,
                              subst(inner, {rr: P(i2), cc: P(j2)}))
    Mc = subst(M, {i: P(rr), j: P(cc)})
    Mt = subst(M, {i: P(cc), j: P(rr)})
    idx = tuple(P(x) for x in idx)
    if kind == 'minv':
        if Mt == Mc:
            if idx[1].key < idx[0].key:
                idx = (idx[1], idx[0])
        elif Mt.key < Mc.key:
            Mc = Mt
            idx = (idx[1], idx[0])
    if kind == 'mlogdet' and Mt.key < Mc.key:
        Mc = Mt
    return P(_mk(kind, n, Mc, *idx))


def _as_diag(M, i, j):
    'M == ite(i==j, d, 0) (times anything)?'
    if not M.t:
        return None
    target = c_norm_eq(P(i) - P(j))
    for m in M.t:
        ok = False
        for a, e in m:
            if a.kind == 'ite' and a.args[0] == ('eq', target) and not a.args[2].t:
                ok = True
        if not ok:
            return None
    return subst(M, {j: P(i)})


# ----------------------------------------------------------------------
# zero test

def is_zero(p, depth=0):
    p = simp(p)
    if not p.t:
        return True
    # clear denominators
    q = clear_denoms(p)
    if not q.t:
        return True
    # case split on remaining piecewise terms
    if depth > 10:
        return False
    conds = collect_conds(q)
    for c in conds:
        if c[0] == 'eq' and _solve_eq(c[1]) is not None:
            a, val = _solve_eq(c[1])
            # True branch: substitute
            try:
                q1 = subst(q, {a: val})
            except Unsupported:
                q1 = assume_cond(q, c, True)
            q2 = assume_cond(q, c, False)
            with facts(c_not_raw(c)):
                ok2 = is_zero(resimp(q2), depth + 1)
            if not ok2:
                return False
            with facts(c):
                return is_zero(resimp(q1), depth + 1)
        with facts(c):
            if not is_zero(resimp(assume_cond(q, c, True)), depth + 1):
                return False
        with facts(c_not_raw(c)):
            return is_zero(resimp(assume_cond(q, c, False)), depth + 1)
    e = expand_max(p)
    if e is not None:
        return is_zero(e, depth + 1)
    sq = squeezed(q)
    if sq is not None:
        a, val = sq
        try:
            q1 = subst(q, {a: val})
        except Unsupported:
            return False
        return is_zero(resimp(q1), depth + 1)
    if any(a.kind == 'fn' and a.args[0] in ('idiv', 'imod') for a in p.atoms()) and is_int(p):
        return bool(_z3_int_valid(('eq', p)))
    return False


def pin_sizes(*ps):
    'polynomials with the sizes that the facts force to their lower bound replaced by it'
    env = {}
    for c in FACTS:
        for d in (c[1] if c[0] == 'and' else (c,)):
            q = None
            if d[0] == 'lt':
                q = d[1]
            elif d[0] == 'not' and d[1][0] == 'lt' and is_int(d[1][1]):
                q = -d[1][1] - 1
            if q is None:
                continue
            q = q + 1               # q <= 0
            for m, k in q.t.items():
                if len(m) == 1 and m[0][1] == 1 and k == 1 and m[0][0].kind == 'size':
                    a = m[0][0]
                    rest = -(q - P(a))
                    if rest.is_const() and rest.const() == SIZES.get(a.args[0], 1):
                        env[a] = rest
    if not env:
        return ps
    out = []
    for p in ps:
        e = {a: ZERO for a in p.free() if a.kind == 'idx' and subst(a.args[1], env) == UNIT}
        out.append(resimp(subst(subst(p, e) if e else p, env)))
    return tuple(out)


def squeezed(q):
    'an index variable of q that the facts pin to one value: (variable, value)'
    lts = []

    def add(c):
        if c[0] == 'lt':
            lts.append(c[1])
        elif c[0] == 'not' and c[1][0] == 'lt' and is_int(c[1][1]):
            lts.append(-c[1][1] - 1)
        elif c[0] == 'and':
            for x in c[1]:
                add(x)
    for c in FACTS:
        add(c)
    free = q.free()
    for a in free:
        lts.append(-P(a) - 1)
        lts.append(P(a) - P(a.args[1]))
    for i, f in enumerate(lts):
        for g in lts[:i]:
            if f + g == P(-2):
                s = _solve_eq(f + 1)
                if s is not None and s[0] in free and s[0] not in s[1].free():
                    return s
    return None


def expand_max(p):
    'max_i f(i) = f(argmax_i f(i)) for every maximum whose argmax occurs in p.'
    am = {a.args for a in _deep_atoms(p) if a.kind == 'argmax'}
    ms = [a for a in _deep_atoms(p) if a.kind == 'max' and a.args in am]
    if not ms:
        return None
    env = {}
    for a in ms:
        v, body = open_bind(a)
        env[a] = subst(body, {v: P(_mk('argmax', *a.args))})

    def f(q):
        r = ZERO
        for m, c in q.t.items():
            t = Poly({(): c})
            for a, e in m:
                t = t * power(g(a), e)
            r = r + t
        return r

    def g(a):
        if a in env:
            return env[a]
        if a.kind == 'ite':
            return ite(map_cond(a.args[0], f), f(a.args[1]), f(a.args[2]))
        if a.kind == 'exp':
            return expfn(f(a.args[0]))
        if a.kind == 'fn':
            return fn(a.args[0], *[f(x) for x in a.args[1:]])
        if a.kind == 'poly':
            return f(a.args[0])
        return P(a)
    return f(p)


def resimp(p):
    'Re-normalise under the current facts.'
    return rebuild(p)


def rebuild(p):
    'Rebuild all ite atoms (re-decide their conditions under FACTS).'
    def f(q):
        r = ZERO
        for m, c in q.t.items():
            t = Poly({(): c})
            for a, e in m:
                t = t * power(g(a), e)
            r = r + t
        return r

    def g(a):
        if a.kind == 'ite':
            c = map_cond(a.args[0], f)
            if c is True:
                return f(a.args[1])
            if c is False:
                return f(a.args[2])
            return ite(c, f(a.args[1]), f(a.args[2]))
        if a.kind == 'exp':
            return expfn(f(a.args[0]))
        if a.kind == 'fn':
            return fn(a.args[0], *[f(x) for x in a.args[1:]])
        if a.kind == 'poly':
            return f(a.args[0])
        if a.kind == 'elem':
            return elem(a.args[0], [f(x) for x in a.args[1:]])
        return P(a)
    if not collect_conds(p):
        return p
    return f(p)


def guarded(p):
    """Simplify every product under the conditions of its indicators: in
    `x * ite(c, 0, y)`, x and y are only evaluated when c does not hold."""
    hit = [False]

    def f(q):
        r = ZERO
        for m, c in q.t.items():
            cs = []
            for a, e in m:
                if a.kind == 'ite' and e > 0:
                    if not a.args[1].t:
                        cs.append(c_not_raw(a.args[0]))
                    elif not a.args[2].t:
                        cs.append(a.args[0])
            cs = [x for x in cs if int_cond(x)]
            t = Poly({(): c})
            if cs:
                hit[0] = True
                with facts(*cs):
                    for a, e in m:
                        if a.kind != 'ite':
                            t = t * power(f2(g(a)), e)
                for a, e in m:
                    if a.kind == 'ite':
                        t = t * power(g(a), e)
            else:
                for a, e in m:
                    t = t * power(g(a), e)
            r = r + t
        return r

    def f2(q):
        return resimp(q) if FACTS else q

    def g(a):
        if a.kind == 'elem':
            return elem(a.args[0], tuple(f(x) for x in a.args[1:]))
        if a.kind == 'fn':
            return fn(a.args[0], *[f(x) for x in a.args[1:]])
        if a.kind == 'exp':
            return expfn(f(a.args[0]))
        if a.kind == 'poly':
            return f(a.args[0])
        if a.kind == 'ite':
            c = map_cond(a.args[0], f)
            if c is True or c is False:
                return f(a.args[1] if c else a.args[2])
            return ite(c, f(a.args[1]), f(a.args[2]))
        if a.kind == 'sum':
            vs, b = open_sum(a)
            b = f(f2(b))
            for v in reversed(vs):
                b = msum(v, b)
            return b
        return P(a)
    r = f(p)
    return r if hit[0] else None


def c_not_raw(c):
    if c in (True, False):
        return not c
    return c[1] if c[0] == 'not' else ('not', c)


class facts:
    def __init__(self, *cs):
        self.cs = [c for c in cs if c is not True]

    def __enter__(self):
        self.n, self.m = len(FACTS), len(RFACTS)
        for c in self.cs:
            (FACTS if int_cond(c) else RFACTS).append(c)
        return self

    def __exit__(self, *a):
        del FACTS[self.n:]
        del RFACTS[self.m:]


def _solve_eq(p):
    'p == 0 solved for an index variable: (atom, value).'
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][0].kind == 'idx' and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            rest = p - Poly({m: c})
            if a in rest.free():
                continue
            val = rest.scale(-1 / c)
            # do not substitute into something whose bound depends on a
            if best is None or a.id > best[0].id:
                best = (a, val)
    return best


def eq_solutions(p):
    'the ways to read p == 0 as atom == value: [(atom, value)]'
    out = []
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].kind in ('idx', 'elem'):
            a = m[0][0]
            rest = p - Poly({m: c})
            if a.kind == 'idx' and a in rest.free():
                continue
            out.append((a, rest.scale(-1 / c)))
    return out


def collect_conds(p):
    out = {}

    def walkp(q):
        for m in q.t:
            for a, _ in m:
                walka(a)

    def walka(a):
        if a.kind == 'ite':
            for c in _atomic_conds(a.args[0]):
                if not any(x.kind == 'bv' for q in [c[1]] for x in _deep_atoms(q)):
                    out[c] = 1
            walkp(a.args[1])
            walkp(a.args[2])
        elif a.kind in ('fn', 'exp', 'poly', 'elem'):
            for x in a.args:
                if isinstance(x, Poly):
                    walkp(x)
        elif a.kind in ('sum', 'max', 'argmax'):
            walkp(a.args[1])
    walkp(p)
    return list(out)


def _deep_atoms(p):
    for m in p.t:
        for a, _ in m:
            yield a
            for x in a.args:
                if isinstance(x, Poly):
                    yield from _deep_atoms(x)


def assume_cond(p, cond, val):
    def fc(c):
        if c in (True, False):
            return c
        if c == cond:
            return val
        if c[0] == 'not':
            return c_not(fc(c[1]))
        if c[0] == 'and':
            return c_and(*[fc(x) for x in c[1]])
        if c[0] == 'or':
            return c_or(*[fc(x) for x in c[1]])
        return c

    def f(q):
        r = ZERO
        for m, c in q.t.items():
            t = Poly({(): c})
            for a, e in m:
                t = t * power(g(a), e)
            r = r + t
        return r

    def g(a):
        if a.kind == 'ite':
            return ite(fc(a.args[0]), f(a.args[1]), f(a.args[2]))
        if a.kind == 'exp':
            return expfn(f(a.args[0]))
        if a.kind == 'fn':
            return fn(a.args[0], *[f(x) for x in a.args[1:]])
        if a.kind == 'poly':
            return f(a.args[0])
        if a.kind == 'elem':
            return elem(a.args[0], [f(x) for x in a.args[1:]])
        if a.kind == 'sum':
            vs, b = open_sum(a)
            b = f(b)
            for v in reversed(vs):
                b = msum(v, b)
            return b
        if a.kind in ('max', 'argmax'):
            v, b = open_bind(a)
            return bind(a.kind, v, f(b))
        return P(a)
    return f(p)


def clear_denoms(p):
    for _ in range(6):
        dens = {}
        for m in p.t:
            for a, e in m:
                if a.kind == 'poly' and e < 0 and e.denominator == 1:
                    dens[a] = min(dens.get(a, 0), e)
        if not dens:
            return p
        mul = tuple(sorted(((a, -e) for a, e in dens.items()), key=lambda x: x[0].id))
        r = ZERO
        for m, c in p.t.items():
            d = dict(m)
            t = None
            extra = UNIT
            for a, e in mul:
                x = d.pop(a, Fraction(0)) + e
                if x:
                    if x.denominator == 1 and x > 0:
                        for _ in range(int(x)):
                            extra = extra * a.args[0]
                    else:
                        d[a] = x
            t = Poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c})
            r = r + t * extra
        p = r
    return p


# ----------------------------------------------------------------------
# printing

def poly_str(p):
    if not p.t:
        return '0'
    out = []
    for m, c in list(p.t.items())[:40]:
        s = '*'.join((str(a) if e == 1 else f'{a}^{e}') for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = f'{c}*{s}'
        out.append(s)
    if len(p.t) > 40:
        out.append('...')
    return ' + '.join(out)


def cond_str(c):
    if c in (True, False):
        return str(c)
    if c[0] in ('lt', 'rlt'):
        return f'{c[1]} < 0'
    if c[0] in ('eq', 'req'):
        return f'{c[1]} == 0'
    if c[0] == 'not':
        return f'!({cond_str(c[1])})'
    return f' {c[0]} '.join(f'({cond_str(x)})' for x in c[1])


def atom_str(a):
    k = a.kind
    if k in ('size', 'scalar', 'const', 'idx', 'prime'):
        return str(a.args[0])
    if k == 'bv':
        return f'${a.args[0]}.{a.args[1]}'
    if k == 'elem':
        return f"{a.args[0]}[{','.join(map(str, a.args[1:]))}]"
    if k == 'fn':
        return f"{a.args[0]}({','.join(map(str, a.args[1:]))})"
    if k == 'exp':
        return f'exp({a.args[0]})'
    if k == 'poly':
        return f'({a.args[0]})'
    if k == 'ite':
        return f'ite({cond_str(a.args[0])}, {a.args[1]}, {a.args[2]})'
    if k == 'sum':
        h = atom_height(a)
        vs = ','.join(f'${h}.{i}<{b}' for i, b in enumerate(a.args[0]))
        return f'SUM[{vs}]({a.args[1]})'
    if k in ('max', 'argmax'):
        return f'{k}[${atom_height(a)}.0<{a.args[0]}]({a.args[1]})'
    return f"{k}({','.join(map(str, a.args))})"


def init():
    reset()
    _consts()


init()


# ----------------------------------------------------------------------
# gradients
#
# A leaf is an input tensor with respect to which gradients are taken.  Cutting
# a value off the graph (`detach` & co) replaces the leaves in it by frozen
# copies: the same values, of which the derivative is zero.



def add_leaf(name):
    if name in LEAVES:
        return
    t = TENSORS[name]
    if t.spec is not None or t.perm_inv is not None or t.isint:
        raise Unsupported(f'gradient with respect to {name}')
    import copy
    z = name + '~'
    TENSORS[z] = copy.copy(t)
    TENSORS[z].name = z
    LEAVES[name] = z
    FROZEN[z] = name


def elem_names(p, out=None):
    'names of the tensors a term reads'
    out = set() if out is None else out
    for m in p.t:
        for a, _ in m:
            _atom_names(a, out)
    return out


def _atom_names(a, out):
    if a.kind == 'elem':
        out.add(a.args[0])
    k = ('names', a.key)
    if k not in _MEMO:
        s = set()
        for x in a.args:
            if isinstance(x, Poly):
                elem_names(x, s)
            elif isinstance(x, tuple) and a.kind == 'ite':
                for q in cond_polys(x):
                    elem_names(q, s)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Poly):
                        elem_names(y, s)
        _MEMO[k] = s
    out |= _MEMO[k]


def rename(p, names):
    'Replace tensor symbols by others with the same properties.'
    if not names or not (elem_names(p) & set(names)):
        return p
    r = ZERO
    for m, c in p.t.items():
        t = Poly({(): c})
        for a, e in m:
            s = set()
            _atom_names(a, s)
            t = t * (power(_rename_atom(a, names), e) if s & set(names) else Poly({((a, e),): ONE}))
        r = r + t
    return r


def _rename_atom(a, names):
    k = a.kind
    f = lambda q: rename(q, names)
    if k == 'elem':
        return elem(names.get(a.args[0], a.args[0]), [f(x) for x in a.args[1:]])
    if k == 'exp':
        return expfn(f(a.args[0]))
    if k == 'fn':
        return fn(a.args[0], *[f(x) for x in a.args[1:]])
    if k == 'poly':
        return f(a.args[0])
    if k == 'ite':
        c = map_cond(a.args[0], f)
        return ite(c, f(a.args[1]), f(a.args[2]))
    if k == 'sum':
        vs, body = open_sum(a)
        body = f(body)
        for v in reversed(vs):
            body = msum(v, body)
        return body
    if k in ('max', 'argmax'):
        v, body = open_bind(a)
        return bind(k, v, f(body))
    if k in ('minv', 'mlogdet', 'chol'):
        n, M = a.args[0], a.args[1]
        r, c = _mbv()
        i, j = new_idx(n, 'r'), new_idx(n, 'c')
        return matfn(k, n, i, j, f(subst(M, {r: P(i), c: P(j)})), *[f(x) for x in a.args[2:]])
    raise Unsupported(f'gradient through {k}')


def stopgrad(p):
    return rename(p, LEAVES)


def unstop(p):
    return rename(p, FROZEN)


def live(p):
    'Does the gradient of the term reach a leaf?'
    return bool(elem_names(p) & set(LEAVES))


def _depends(p, name):
    'Does the term read the leaf?  (recursive specifications may not read it)'
    names = elem_names(p)
    if name in names:
        return True
    seen = set()
    todo = [n for n in names if n in DEFS]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for m in elem_names(DEFS[n]()):
            if m == name:
                raise Unsupported(f'derivative of the recursion {n}')
            if m in DEFS:
                todo.append(m)
    return False


def diff(p, name, idx):
    'Derivative of a term by one element of a leaf.'
    if not _depends(p, name):
        return ZERO
    r = ZERO
    for m, c in p.t.items():
        for k, (a, e) in enumerate(m):
            d = _datom(a, name, idx)
            if not d.t:
                continue
            t = Poly({(): c * e}) * d
            if e != 1:
                t = t * power(P(a) if a.kind != 'poly' else a.args[0], e - 1)
            for j, (b, x) in enumerate(m):
                if j != k:
                    t = t * Poly({((b, x),): ONE})
            r = r + t
    return r


_DFN = {
    'log': lambda x: power(x, -1),
    'tanh': lambda x: 1 - power(fn('tanh', x), 2),
    'lgamma': lambda x: fn('digamma', x),
}


def _datom(a, name, idx):
    k = a.kind
    if k in ('size', 'scalar', 'const', 'prime', 'idx', 'bv', 'argmax'):
        return ZERO
    if k == 'elem':
        if a.args[0] != name:
            return ZERO
        c = c_and(*[c_eq0(x - P(y)) for x, y in zip(a.args[1:], idx)])
        if TENSORS[name].sym is not None:
            raise Unsupported('derivative by a symmetric matrix')
        return ite(c, UNIT, ZERO)
    d = lambda q: diff(q, name, idx)
    if k == 'exp':
        return P(a) * d(a.args[0])
    if k == 'poly':
        return d(a.args[0])
    if k == 'fn':
        f, args = a.args[0], a.args[1:]
        ds = [d(x) for x in args]
        if not any(x.t for x in ds) or f in ('floor', 'idiv', 'imod'):
            return ZERO
        if f == 'pow':
            return args[1] * fn('pow', args[0], args[1] - 1) * ds[0]
        if f in _DFN:
            return _DFN[f](args[0]) * ds[0]
        r = ZERO
        for i, x in enumerate(ds):
            if x.t:
                r = r + fn(f'd{i}_{f}', *args) * x
        return r
    if k == 'ite':
        return ite(a.args[0], d(a.args[1]), d(a.args[2]))
    if k == 'sum':
        vs, body = open_sum(a)
        body = d(body)
        for v in reversed(vs):
            body = msum(v, body)
        return body
    if k in ('mlogdet', 'minv'):
        n, M = a.args[0], a.args[1]
        r, c = _mbv()
        i, j = new_idx(n, 'r'), new_idx(n, 'c')
        at = lambda u, v: subst(M, {r: P(u), c: P(v)})
        inv = lambda u, v: matfn('minv', n, i, j, at(i, j), P(u), P(v))
        x, y = new_idx(n, 'k'), new_idx(n, 'k')
        dm = d(at(x, y))
        if k == 'mlogdet':
            return msum(x, msum(y, inv(y, x) * dm))
        return -msum(x, msum(y, inv(a.args[2], x) * dm * inv(y, a.args[3])))
    if not _depends(P(a), name):
        return ZERO
    raise Unsupported(f'derivative of {k}')

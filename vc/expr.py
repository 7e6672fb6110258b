"""Exact integer terms: polynomials over z3 integer atoms, with interval bounds.

Machine integers are values in [0, 2^w); every operation of the code is encoded exactly (wrap-around included)."""
import z3

_ATOMS = {}      # id -> (z3expr, lo, hi)
_KEEP = []
_BOOL_OF = {}    # atom id -> z3 bool b, for atoms If(b,1,0)
_BITMASK = {}    # atom id -> Poly k, for atoms 2^k produced by a symbolic shift

def keep(e):
    _KEEP.append(e)
    return e

class Poly:
    __slots__ = ('t', '_z', '_k', '_lo', '_hi')
    def __init__(s, t):
        s.t = t; s._z = None; s._k = None; s._lo = None; s._hi = -1
    def key(s):
        if s._k is None: s._k = tuple(sorted(s.t.items()))
        return s._k
    def z(s):
        if s._z is None:
            k = s.key()
            e = _ZC.get(k)
            if e is None:
                parts = []
                for m, c in k:
                    f = [_ATOMS[a][0] for a in m]
                    if not f: parts.append(z3.IntVal(c))
                    else:
                        x = f[0]
                        if len(f) > 1: x = z3.Product(f)
                        if c != 1: x = z3.IntVal(c) * x
                        parts.append(x)
                e = parts[0] if len(parts) == 1 else z3.Sum(parts)
                _ZC[k] = e
            s._z = e
        return s._z
    def bounds(s):
        if s._hi == -1:
            lo = hi = 0
            for m, c in s.t.items():
                ml, mh = 1, 1
                for a in m:
                    _, al, ah = _ATOMS[a]
                    if al is None or ml is None or al < 0 or ml < 0: 
                        if al is None or ah is None or ml is None or mh is None: ml = mh = None; break
                        c4 = [ml * al, ml * ah, mh * al, mh * ah]
                        ml, mh = min(c4), max(c4)
                    else:
                        ml = ml * al
                        mh = None if (mh is None or ah is None) else mh * ah
                if c < 0:
                    ml, mh = (None if mh is None else mh * c), (None if ml is None else ml * c)
                else:
                    ml, mh = (None if ml is None else ml * c), (None if mh is None else mh * c)
                lo = None if (lo is None or ml is None) else lo + ml
                hi = None if (hi is None or mh is None) else hi + mh
            s._lo, s._hi = lo, hi
        return s._lo, s._hi
    def __repr__(s): return str(s.z())

_ZC = {}

def norm(t):
    t = {m: c for m, c in t.items() if c != 0}
    if not t: return 0
    if len(t) == 1 and () in t: return t[()]
    return Poly(t)

def terms(x):
    if isinstance(x, int): return {(): x} if x else {}
    return x.t

def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    t = dict(terms(a))
    for m, c in terms(b).items(): t[m] = t.get(m, 0) + c
    return norm(t)

def neg(a):
    if isinstance(a, int): return -a
    return Poly({m: -c for m, c in a.t.items()})

def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    return add(a, neg(b))

def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        if b == 0: return 0
        if b == 1: return a
        return Poly({m: c * b for m, c in a.t.items()})
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = tuple(sorted(m + n))
            t[k] = t.get(k, 0) + c * d
    return norm(t)

def bounds(a):
    if isinstance(a, int): return a, a
    return a.bounds()

def z(a):
    if isinstance(a, int): return z3.IntVal(a)
    return a.z()

def atom(e, lo, hi):
    i = e.get_id()
    if i not in _ATOMS:
        keep(e)
        _ATOMS[i] = (e, lo, hi)
    return Poly({(i,): 1})

def single_atom(a):
    """the atom id when a is exactly one atom"""
    if isinstance(a, int) or len(a.t) != 1: return None
    (m, c), = a.t.items()
    return m[0] if c == 1 and len(m) == 1 else None

def same(a, b):
    if isinstance(a, int) or isinstance(b, int): return isinstance(a, int) and isinstance(b, int) and a == b
    return a is b or a.key() == b.key()

def akey(a):
    return a if isinstance(a, int) else a.key()

def divide(x, d):
    """syntactic division of x by the monomial d: (q, r) with x = q*d + r, or None"""
    if isinstance(d, int):
        q = {}; r = {}
        for m, c in terms(x).items():
            k = c // d if c >= 0 else -((-c) // d)
            # keep the remainder part of this coefficient non-negative when possible
            k = c // d
            if k: q[m] = k
            if c - k * d: r[m] = c - k * d
        return norm(q), norm(r)
    if len(d.t) != 1: return None
    (dm, dc), = d.t.items()
    q = {}; r = {}
    for m, c in terms(x).items():
        mm = list(m); ok = True
        for a in dm:
            if a in mm: mm.remove(a)
            else: ok = False; break
        if ok and c % dc == 0: q[tuple(mm)] = q.get(tuple(mm), 0) + c // dc
        else: r[m] = c
    return norm(q), norm(r)

# ---- booleans: python bool or z3 BoolRef ----
def bnot(b):
    if isinstance(b, bool): return not b
    if z3.is_not(b): return b.arg(0)
    return keep(z3.Not(b))
def band(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return keep(z3.And(a, b))
def bor(a, b):
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    return keep(z3.Or(a, b))
def bxor(a, b):
    if isinstance(a, bool): return bnot(b) if a else b
    if isinstance(b, bool): return bnot(a) if b else a
    return keep(z3.Xor(a, b))

def ge0(d):
    lo, hi = bounds(d)
    if lo is not None and lo >= 0: return True
    if hi is not None and hi < 0: return False
    return keep(d.z() >= 0)
def le(a, b): return ge0(sub(b, a))
def lt(a, b): return ge0(sub(sub(b, a), 1))
def eq(a, b):
    d = sub(a, b)
    if isinstance(d, int): return d == 0
    lo, hi = bounds(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
    # If(b,1,0) compared with 0/1
    if len(d.t) <= 2:
        ms = [m for m in d.t if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1:
            a0 = ms[0][0]; c = d.t[ms[0]]; k = d.t.get((), 0)
            if a0 in _BOOL_OF and k % c == 0:
                v = -k // c
                if v == 1: return _BOOL_OF[a0]
                if v == 0: return bnot(_BOOL_OF[a0])
                return False
    # canonical sign
    k = d.key()
    if k[-1][1] < 0: d = neg(d)
    return keep(d.z() == 0)

def from_bool(b):
    if isinstance(b, bool): return int(b)
    e = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    p = atom(e, 0, 1)
    _BOOL_OF[e.get_id()] = b
    keep(b)
    return p

def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if same(a, b): return a
    if isinstance(a, int) and isinstance(b, int):
        if a == 1 and b == 0: return from_bool(c)
        if a == 0 and b == 1: return from_bool(bnot(c))
    la, ha = bounds(a); lb, hb = bounds(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    return atom(z3.If(c, z(a), z(b)), lo, hi)

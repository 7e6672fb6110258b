"""Verification-condition generator: symbolic execution of the LLVM IR that clang produces from /repo's headers.

Each path of a harness yields obligations (path condition => property) that are discharged by an SMT solver.
A call to a function under contract is replaced by its contract (see the `contracts` table); other calls are
executed (inlined).  Loops are executed until their condition is decided by the path condition (complete) or cut
by an invariant; hitting the iteration limit raises Bound, which never counts as proved."""
import os, re, subprocess, time, z3
import ir, expr as X
from ir import Unsupported, I, PTR, res, sizeof, IntTy, PtrTy, StructTy, ArrTy, FloatTy, VecTy
from expr import Poly

class Bound(Exception):
    pass
class Fork(Exception):
    def __init__(s, cond): s.cond = cond
class Infeasible(Exception):
    pass
class Pushed(Exception):
    """a contract handler pushed a frame that produces its result"""
    pass
class Kill(Exception):
    """end of the current path"""
    pass
class Throw(Exception):
    def __init__(s, ptr, ti): s.ptr = ptr; s.ti = ti

_oid = [0]
class Obj:
    """a memory object"""
    __slots__ = ('id', 'name', 'size', 'kind', 'fn', 'addr', 'align', 'zero', 'ptr_target', 'glob', 'resource')
    def __init__(s, name, size, kind, align=16, zero=False):
        _oid[0] += 1
        s.id = _oid[0]; s.name = name; s.size = size; s.kind = kind; s.fn = None; s.addr = None; s.align = align
        s.zero = zero; s.ptr_target = {}; s.glob = None; s.resource = None
    def __repr__(s): return '<%s#%d>' % (s.name, s.id)

class Ptr:
    __slots__ = ('base', 'off')
    def __init__(s, base, off): s.base = base; s.off = off
    def __repr__(s): return '&%r+%r' % (s.base, s.off)
NULL = Ptr(None, 0)

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

class FVal:
    """a floating value: an exact real term is not claimed, only equality of terms"""
    __slots__ = ('e',)
    def __init__(s, e): s.e = e

# ---- content layers of an array-mode field ------------------------------------------------------------------
class LBase:
    __slots__ = ('fn', 'lo', 'hi', 'hook', 'name', 'tag')
    def __init__(s, fn, lo, hi, hook=None, tag=None): s.fn = fn; s.lo = lo; s.hi = hi; s.hook = hook; s.tag = tag
class LConst:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
class LW:
    __slots__ = ('prev', 'i', 'v')
    def __init__(s, p, i, v): s.prev = p; s.i = i; s.v = v
class LFill:
    __slots__ = ('prev', 'lo', 'hi', 'v')
    def __init__(s, p, lo, hi, v): s.prev = p; s.lo = lo; s.hi = hi; s.v = v
class LCopy:
    __slots__ = ('prev', 'lo', 'n', 'src', 'slo')
    def __init__(s, p, lo, n, src, slo): s.prev = p; s.lo = lo; s.n = n; s.src = src; s.slo = slo

class OS:
    """state of one object"""
    __slots__ = ('owner', 'alive', 'cells', 'stride', 'fields')
    def __init__(s, owner): s.owner = owner; s.alive = True; s.cells = {}; s.stride = None; s.fields = None
    def copy(s, owner):
        r = OS(owner); r.alive = s.alive; r.cells = dict(s.cells); r.stride = s.stride
        r.fields = dict(s.fields) if s.fields is not None else None
        return r

class Frame:
    __slots__ = ('f', 'blk', 'i', 'prev', 'env', 'retres', 'retty', 'inv', 'visits', 'allocas', 'exc', 'cuts')
    def copy(s):
        r = Frame(); r.f = s.f; r.blk = s.blk; r.i = s.i; r.prev = s.prev; r.env = dict(s.env); r.retres = s.retres; r.retty = s.retty
        r.inv = s.inv; r.visits = dict(s.visits); r.allocas = list(s.allocas); r.exc = s.exc; r.cuts = dict(s.cuts)
        return r

_tok = [0]
class State:
    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = []; s.known = {}; s.atoms = set(); s.nd = []; s.gh = {}; s.exact = True
        s.globals = {}; s.caught = []; s.defs = set(); s.trace = []; s.model = None; s.forks = 0
        _tok[0] += 1; s.tok = _tok[0]
    def clone(s):
        r = State.__new__(State)
        r.frames = [f.copy() for f in s.frames]; r.mem = dict(s.mem); r.pc = list(s.pc); r.known = dict(s.known)
        r.atoms = set(s.atoms); r.nd = list(s.nd)
        r.gh = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in s.gh.items()}
        r.exact = s.exact; r.globals = dict(s.globals); r.caught = list(s.caught); r.defs = set(s.defs); r.trace = list(s.trace)
        r.model = s.model; r.forks = s.forks
        # both lose ownership of shared object states
        _tok[0] += 2; r.tok = _tok[0]; s.tok = _tok[0] - 1
        return r

class Obligation:
    __slots__ = ('label', 'status', 'time', 'backend', 'model', 'exact', 'where', 'smt', 'nd')
    def __init__(s, label): s.label = label; s.status = None; s.time = 0; s.backend = ''; s.model = None; s.exact = True; s.where = ''; s.smt = None; s.nd = None

def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))

class Engine:
    def __init__(s, mod, opts=None):
        s.mod = mod
        o = opts or {}
        s.max_visits = o.get('max_visits', 40)
        s.max_paths = o.get('max_paths', 20000)
        s.deadline = time.time() + o.get('time', 300)
        s.feas_ms = o.get('feas_ms', 2500)
        s.ob_ms = o.get('ob_ms', 30000)
        s.check_nsw = o.get('nsw', True)
        s.check_mem = o.get('mem', True)
        s.contracts = list(o.get('contracts', []))     # (regex on demangled name, handler)
        s.loop_cut = o.get('loop_cut')                 # callable(engine, state, frame, header) or None
        s.dem = demangle([n for n in mod.funcs])
        s.handler_cache = {}
        s.obls = []
        s.covers = {}
        s.cover_need = set()
        s.stats = dict(paths=0, queries=0, qtime=0.0, steps=0, forks=0, killed=0)
        s.solver = z3.Solver()
        s.solver.set('timeout', s.feas_ms)
        s.stack = []
        s.lsolver = z3.SimpleSolver(); s.lsolver.set('timeout', s.feas_ms); s.lstack = []
        s.fresh_n = 0
        s.fn_objs = {}
        s.gl_objs = {}
        s.stop_on_fail = o.get('stop_on_fail', True)
        s.failed = 0
        s.bound_hits = []
        s.used_contracts = {}
        s.inlined = set()
        s.conc = o.get('concretise', {})
        s.user = {}
        s.opts = o
        s.loop_report = []
        s.shard = o.get('shard', 0)
        s.nonlin_hint = o.get('nonlin', False)
        import prims
        prims.install(s)

    # ---- solver -------------------------------------------------------------------------------------------
    def sync(s, st):
        pc = st.pc
        k = 0
        n = min(len(pc), len(s.stack))
        while k < n and s.stack[k] is pc[k]: k += 1
        if len(s.stack) > k:
            s.solver.pop(len(s.stack) - k); del s.stack[k:]
        for c in pc[k:]:
            s.solver.push(); s.solver.add(c); s.stack.append(c)

    def lin(s, e):
        """e with every product of unknowns replaced by an unknown of its own (its interval bounds are kept);
        returns (expression, contains products)"""
        i = e.get_id()
        r = _LIN.get(i)
        if r is not None: return r
        nl = False
        if z3.is_mul(e) and sum(1 for c in e.children() if not z3.is_int_value(c)) > 1:
            fs = [c for c in e.children() if not z3.is_int_value(c)]
            k = 1
            for c in e.children():
                if z3.is_int_value(c): k *= c.as_long()
            key = tuple(sorted(c.get_id() for c in fs))
            v = _LINV.get(key)
            if v is None:
                v = _LINV[key] = z3.Int('prod!%d' % len(_LINV)); X.keep(fs)
                lo, hi = 1, 1
                for c in fs:
                    a = X._ATOMS.get(c.get_id())
                    if a is None or a[1] is None or a[1] < 0: lo = hi = None; break
                    lo *= a[1]; hi = None if hi is None or a[2] is None else hi * a[2]
                _LINB[v.get_id()] = (v, lo, hi)
            r = (v if k == 1 else k * v, True)
        elif e.num_args() == 0: r = (e, False)
        else:
            ch = [s.lin(c) for c in e.children()]
            nl = any(c[1] for c in ch)
            if nl:
                if z3.is_add(e): x = z3.Sum([c[0] for c in ch])
                elif z3.is_and(e): x = z3.And([c[0] for c in ch])
                elif z3.is_or(e): x = z3.Or([c[0] for c in ch])
                elif z3.is_mul(e): x = z3.Product([c[0] for c in ch])
                else: x = e.decl()(*[c[0] for c in ch])
                r = (x, True)
            else: r = (e, False)
        X.keep(e); X.keep(r[0]); _LIN[i] = r
        return r

    def lquery(s, st, cond):
        """query with products abstracted: unsat is definite"""
        pc = st.pc
        k = 0
        n = min(len(pc), len(s.lstack))
        while k < n and s.lstack[k] is pc[k]: k += 1
        if len(s.lstack) > k:
            s.lsolver.pop(len(s.lstack) - k); del s.lstack[k:]
        def add(c):
            x, nl = s.lin(c)
            s.lsolver.add(x)
            if nl:
                for v in s.prods(c):
                    _, lo, hi = _LINB[v]
                    if lo is not None: s.lsolver.add(_LINB[v][0] >= lo)
                    if hi is not None: s.lsolver.add(_LINB[v][0] <= hi)
        for c in pc[k:]:
            s.lsolver.push(); add(c); s.lstack.append(c)
        s.lsolver.push()
        if not isinstance(cond, bool): add(cond)
        t = time.time()
        try: r = s.lsolver.check()
        except z3.Z3Exception: r = z3.unknown
        s.stats['lq'] = s.stats.get('lq', 0) + 1; s.stats['lt'] = s.stats.get('lt', 0) + time.time() - t
        if r == z3.sat: s.last_lmodel = s.lsolver.model()
        s.lsolver.pop()
        return r

    def prods(s, e):
        """product variables of lin(e)"""
        i = e.get_id()
        r = _PRODS.get(i)
        if r is None:
            r = set(); x, nl = s.lin(e)
            if nl:
                seen = set(); todo = [x]
                while todo:
                    y = todo.pop()
                    if y.get_id() in seen: continue
                    seen.add(y.get_id())
                    if y.get_id() in _LINB: r.add(y.get_id())
                    todo.extend(y.children())
            _PRODS[i] = r
        return r

    def query(s, st, cond, ms=None, lin_first=True):
        """sat / unsat / unknown of pc & cond"""
        if isinstance(cond, bool) and not cond: return z3.unsat
        if lin_first and s.lquery(st, cond) == z3.unsat: return z3.unsat
        s.sync(st)
        s.solver.push()
        if not isinstance(cond, bool): s.solver.add(cond)
        if ms: s.solver.set('timeout', ms)
        t = time.time()
        try:
            r = s.solver.check()
        except z3.Z3Exception:
            r = z3.unknown
        s.stats['queries'] += 1; s.stats['qtime'] += time.time() - t
        if r == z3.sat: s.last_model = s.solver.model()
        s.solver.pop()
        if ms: s.solver.set('timeout', s.feas_ms)
        return r

    def ask(s, st, cond):
        """is pc & cond possible?  False only when it is refuted.  A condition without products is decided on the
        linear abstraction alone (which can only err towards True)."""
        r = s.lquery(st, cond)
        if r == z3.unsat: return False
        if r == z3.sat and not s.lin(cond)[1]:
            st.model = s.last_lmodel; return True
        return s.query(st, cond, 1000, False) != z3.unsat

    def feasible(s, st, cond):
        return s.query(st, cond) != z3.unsat

    def try_decide(s, st, c):
        """True / False when entailed by the path condition, else None"""
        if isinstance(c, bool): return c
        i = c.get_id()
        r = st.known.get(i)
        if r is not None: return r
        mv = None
        if st.model is not None:
            v = st.model.eval(s.lin(c)[0], model_completion=True)
            if z3.is_true(v): mv = True
            elif z3.is_false(v): mv = False
        if mv is not True:
            if not s.ask(st, c):
                st.known[i] = False; return False
        if mv is not False:
            if not s.ask(st, X.bnot(c)):
                st.known[i] = True; return True
        return None

    def decide(s, st, c):
        r = s.try_decide(st, c)
        if r is None: raise Fork(c)
        return r

    def assume(s, st, c):
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return
        st.pc.append(c); st.known[c.get_id()] = True; X.keep(c)
        if st.model is not None:
            if not z3.is_true(st.model.eval(s.lin(c)[0], model_completion=True)): st.model = None

    def assume_checked(s, st, c):
        s.assume(st, c)
        if not isinstance(c, bool) and s.query(st, True) == z3.unsat: raise Infeasible()

    # ---- atoms ------------------------------------------------------------------------------------------------
    def mk(s, st, e, lo, hi):
        p = X.atom(e, lo, hi)
        i = e.get_id()
        if i not in st.atoms:
            st.atoms.add(i)
            if lo is not None: s._b(st, e >= lo)
            if hi is not None: s._b(st, e <= hi)
        return p
    def _b(s, st, c):
        X.keep(c); st.pc.append(c)
        if st.model is not None and not z3.is_true(st.model.eval(s.lin(c)[0], model_completion=True)): st.model = None
    def fresh(s, st, name, w):
        s.fresh_n += 1
        e = z3.Int('%s!%d' % (name, s.fresh_n))
        return s.mk(st, e, 0, (1 << w) - 1)
    def fresh_int(s, st, name, lo=None, hi=None):
        s.fresh_n += 1
        return s.mk(st, z3.Int('%s!%d' % (name, s.fresh_n)), lo, hi)
    def fresh_bool(s, st, name):
        s.fresh_n += 1
        return X.keep(z3.Bool('%s!%d' % (name, s.fresh_n)))
    def define(s, st, key, mkfn):
        """idempotent definitional constraint"""
        if key not in st.defs:
            st.defs.add(key)
            for c in mkfn():
                if not isinstance(c, bool): s._b(st, c)

    # ---- arithmetic -----------------------------------------------------------------------------------------------
    def entails(s, st, c):
        return s.try_decide(st, c) is True

    def lentails(s, st, c):
        """entailed already by the linear abstraction (incomplete, cheap)"""
        if isinstance(c, bool): return c
        r = st.known.get(c.get_id())
        if r is not None: return r
        if st.model is not None and z3.is_false(st.model.eval(s.lin(c)[0], model_completion=True)): return False
        if s.lquery(st, X.bnot(c)) == z3.unsat:
            st.known[c.get_id()] = True; return True
        return False

    def in_range(s, st, p, w):
        """True when 0 <= p < 2^w is entailed"""
        lo, hi = X.bounds(p)
        if lo is not None and lo >= 0 and hi is not None and hi < (1 << w): return True
        return s.entails(st, X.band(X.le(0, p), X.lt(p, 1 << w)))

    def wrap(s, st, p, w):
        M = 1 << w
        if isinstance(p, int): return p % M
        lo, hi = X.bounds(p)
        if lo is not None and hi is not None and lo >= 0 and hi < M: return p
        # one wrap at most either side: fork so that terms stay polynomial
        if lo is not None and lo >= -M and hi is not None and hi < M:
            return p if s.decide(st, X.le(0, p)) else X.add(p, M)
        if lo is not None and hi is not None and lo >= 0 and hi < 2 * M:
            return p if s.decide(st, X.lt(p, M)) else X.sub(p, M)
        if s.in_range(st, p, w): return p
        return s.div(st, p, M)[1]

    def div(s, st, x, d, w=None):
        """floor quotient and remainder, for x of any sign, d > 0 (w: x is a w-bit value)"""
        if isinstance(x, int) and isinstance(d, int):
            return x // d, x % d
        if d == 1: return x, 0
        sp = X.divide(x, d)
        if sp is not None:
            q, r = sp
            if isinstance(r, int) and r == 0: return q, 0
            lo, hi = X.bounds(r)
            dl, dh = X.bounds(d)
            if lo is not None and hi is not None and lo >= 0 and hi < dl: return q, r
            ent = s.lentails if isinstance(d, int) else s.entails
            if ent(st, X.le(0, r)) and ent(st, X.lt(r, d)): return q, r
        xl, xh = X.bounds(x)
        if xl is not None and xl >= 0 and (s.lentails(st, X.lt(x, d)) if isinstance(d, int) else s.entails(st, X.lt(x, d))): return 0, x
        key = ('div', X.akey(x), X.akey(d))
        g = _DIVC.get(key)
        if g is None:
            s.fresh_n += 1
            g = _DIVC[key] = (z3.Int('q!%d' % s.fresh_n), z3.Int('r!%d' % s.fresh_n))
        dl, dh = X.bounds(d)
        ql = qh = None
        if xl is not None and dl is not None and dl > 0: ql = xl // dl if xl < 0 else 0
        if xh is not None and dl is not None and dl > 0: qh = max(xh // dl, 0)
        rh = None if dh is None else dh - 1
        if w is not None:
            top = (1 << w) - 1
            qh = top if qh is None else min(qh, top)
            rh = top if rh is None else min(rh, top)
            ql = 0 if ql is None else ql
        q = s.mk(st, g[0], ql, qh); r = s.mk(st, g[1], 0, rh)
        _QUOT[g[0].get_id()] = (x, d)
        s.define(st, key, lambda: [X.eq(x, X.add(X.mul(q, d), r)), X.lt(r, d)])
        return q, r

    def to_signed(s, st, x, w):
        if isinstance(x, int): return x - (1 << w) if x >= (1 << (w - 1)) else x
        lo, hi = X.bounds(x)
        if hi is not None and hi < (1 << (w - 1)): return x
        if s.decide(st, X.lt(x, 1 << (w - 1))): return x
        return X.sub(x, 1 << w)

    def binop(s, st, op, a, b, w, fl):
        M = 1 << w
        if w == 1: return s.binop1(st, op, a, b)
        if isinstance(a, Undef) or isinstance(b, Undef): return s.fresh(st, 'undef', w)
        if op == 'add' or op == 'sub' or op == 'mul':
            if 'nsw' in fl and s.check_nsw:
                sa = s.to_signed(st, a, w); sb = s.to_signed(st, b, w)
                r = X.add(sa, sb) if op == 'add' else X.sub(sa, sb) if op == 'sub' else X.mul(sa, sb)
                s.obligation(st, X.band(X.le(-(M >> 1), r), X.lt(r, M >> 1)), 'no signed overflow')
                return s.wrap(st, r, w)
            r = X.add(a, b) if op == 'add' else X.sub(a, b) if op == 'sub' else X.mul(a, b)
            return s.wrap(st, r, w)
        if op in ('udiv', 'urem'):
            s.obligation(st, X.lt(0, b), 'no division by zero')
            q, r = s.div(st, a, b, w)
            return q if op == 'udiv' else r
        if op in ('sdiv', 'srem'):
            s.obligation(st, X.bnot(X.eq(b, 0)), 'no division by zero')
            sa = s.to_signed(st, a, w); sb = s.to_signed(st, b, w)
            na = s.decide(st, X.lt(sa, 0)); nb = s.decide(st, X.lt(sb, 0))
            q, r = s.div(st, X.neg(sa) if na else sa, X.neg(sb) if nb else sb)
            if op == 'sdiv': return s.wrap(st, X.neg(q) if na != nb else q, w)
            return s.wrap(st, X.neg(r) if na else r, w)
        if op == 'shl':
            if isinstance(b, int):
                if b >= w: return s.fresh(st, 'poison', w)
                return s.wrap(st, X.mul(a, 1 << b), w)
            if isinstance(a, int) and a == 1:
                pw = _POW.get(X.akey(b))
                if pw is None:
                    s.fresh_n += 1
                    pw = _POW[X.akey(b)] = z3.Int('pow2!%d' % s.fresh_n)
                p = s.mk(st, pw, 1, M >> 1)
                X._BITMASK[pw.get_id()] = b
                return p
            raise Unsupported('symbolic shift')
        if op == 'lshr':
            if isinstance(b, int): return s.div(st, a, 1 << b)[0]
            raise Unsupported('symbolic shift')
        if op == 'ashr':
            if isinstance(b, int): return s.wrap(st, s.div(st, s.to_signed(st, a, w), 1 << b)[0], w)
            raise Unsupported('symbolic shift')
        if op == 'and':
            if isinstance(a, int) and isinstance(b, int): return a & b
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int): return s.and_const(st, a, b, w)
            if X.same(a, b): return a
            for x, y in ((a, b), (b, a)):
                i = X.single_atom(x)
                if i in X._BITMASK:
                    k = X._BITMASK[i]
                    bit = s.bit(st, y, k)
                    return X.ite(bit, x, 0)
            ia, ib = X.single_atom(a), X.single_atom(b)
            if ia in X._BOOL_OF and ib in X._BOOL_OF: return X.from_bool(X.band(X._BOOL_OF[ia], X._BOOL_OF[ib]))
            raise Unsupported('symbolic and')
        if op == 'or':
            if isinstance(a, int) and isinstance(b, int): return a | b
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if b == 0: return a
                # a | c = a + c - (a & c)
                return X.sub(X.add(a, b), s.and_const(st, a, b, w))
            ia, ib = X.single_atom(a), X.single_atom(b)
            if ia in X._BOOL_OF and ib in X._BOOL_OF: return X.from_bool(X.bor(X._BOOL_OF[ia], X._BOOL_OF[ib]))
            # disjoint halves
            al, ah = X.bounds(a); bl, bh = X.bounds(b)
            for x, y, xh, yh in ((a, b, ah, bh), (b, a, bh, ah)):
                if yh is None: continue
                k = yh.bit_length()
                q = X.divide(x, 1 << k)
                if q and isinstance(q[1], int) and q[1] == 0: return X.add(x, y)
            for x, y in ((a, b), (b, a)):
                for k in (w // 2, 8, 16):
                    q = X.divide(x, 1 << k)
                    if q and isinstance(q[1], int) and q[1] == 0 and s.in_range(st, y, k): return X.add(x, y)
            raise Unsupported('symbolic or')
        if op == 'xor':
            if isinstance(a, int) and isinstance(b, int): return a ^ b
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if b == 0: return a
                if b == M - 1: return X.sub(M - 1, a)
                i = X.single_atom(a)
                if i in X._BOOL_OF and b == 1: return X.from_bool(X.bnot(X._BOOL_OF[i]))
                return X.sub(X.add(a, b), X.mul(2, s.and_const(st, a, b, w)))
            ia, ib = X.single_atom(a), X.single_atom(b)
            if ia in X._BOOL_OF and ib in X._BOOL_OF: return X.from_bool(X.bxor(X._BOOL_OF[ia], X._BOOL_OF[ib]))
            raise Unsupported('symbolic xor')
        raise Unsupported('binop ' + op)

    def bit(s, st, y, k):
        """bit k of the word y, as an uninterpreted function of (y, k)"""
        if isinstance(y, int) and isinstance(k, int): return bool((y >> k) & 1)
        if isinstance(k, int):
            return X.eq(s.div(st, s.div(st, y, 1 << k)[0], 2)[1], 1)
        return X.keep(BITFN(X.z(y), X.z(k)))

    def and_const(s, st, a, c, w):
        M = 1 << w
        if c == 0: return 0
        if c == M - 1: return a
        i = X.single_atom(a)
        if i in X._BOOL_OF: return a if c & 1 else 0
        out = 0
        k = 0
        while c >> k:
            if (c >> k) & 1:
                j = k
                while (c >> j) & 1: j += 1
                # bits k..j-1
                x = a
                if j < w: x = s.div(st, x, 1 << j)[1]
                if k: x = X.sub(x, s.div(st, x, 1 << k)[1])
                out = X.add(out, x)
                k = j
            else: k += 1
        return out

    def binop1(s, st, op, a, b):
        a = s.tobool(a); b = s.tobool(b)
        if op == 'and': return X.band(a, b)
        if op == 'or': return X.bor(a, b)
        if op in ('xor', 'add', 'sub'): return X.bxor(a, b)
        raise Unsupported('i1 ' + op)

    def tobool(s, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return bool(v & 1)
        if isinstance(v, Poly):
            i = X.single_atom(v)
            if i in X._BOOL_OF: return X._BOOL_OF[i]
            raise Unsupported('tobool')
        if isinstance(v, Undef): return False
        return v

    def icmp(s, st, pr, ty, a, b):
        t = res(ty)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return s.fresh_bool(st, 'undef')
        if isinstance(t, PtrTy):
            return s.pcmp(st, pr, a, b)
        w = t.w
        if w == 1:
            a = s.tobool(a); b = s.tobool(b)
            if pr == 'eq': return X.bnot(X.bxor(a, b))
            if pr == 'ne': return X.bxor(a, b)
            a, b = X.from_bool(a), X.from_bool(b)
        if pr == 'eq': return X.eq(a, b)
        if pr == 'ne': return X.bnot(X.eq(a, b))
        if pr[0] == 's':
            a = s.to_signed(st, a, w); b = s.to_signed(st, b, w)
        p = pr[1:]
        if p in ('gt', 'ge'): a, b, p = b, a, 'l' + p[1]
        # a <= x/d  <=>  a*d <= x   (d > 0, established at the division)
        qa, qb = _QUOT.get(X.single_atom(a)), _QUOT.get(X.single_atom(b))
        if qb is not None and qa is None and not isinstance(qb[1], int):
            return X.le(X.mul(X.add(a, 1 if p == 'lt' else 0), qb[1]), qb[0])
        if qa is not None and qb is None and not isinstance(qa[1], int):
            return X.lt(qa[0], X.mul(X.add(b, 1 if p == 'le' else 0), qa[1]))
        if p == 'lt': return X.lt(a, b)
        if p == 'le': return X.le(a, b)
        raise Unsupported('icmp ' + pr)

    def pcmp(s, st, pr, a, b):
        if a.base is b.base:
            if pr == 'eq': return X.eq(a.off, b.off)
            if pr == 'ne': return X.bnot(X.eq(a.off, b.off))
            p = pr[1:]
            if p == 'lt': return X.lt(a.off, b.off)
            if p == 'le': return X.le(a.off, b.off)
            if p == 'gt': return X.lt(b.off, a.off)
            if p == 'ge': return X.le(b.off, a.off)
        if pr in ('eq', 'ne'):
            # pointers into different objects: equal only for one-past-the-end coincidences, which the code never relies on
            if a.base is None or b.base is None or True:
                return pr == 'ne'
        x = s.addr_of(st, a); y = s.addr_of(st, b)
        p = pr[1:]
        if p == 'lt': return X.lt(x, y)
        if p == 'le': return X.le(x, y)
        if p == 'gt': return X.lt(y, x)
        return X.le(y, x)

    def addr_of(s, st, p):
        """numeric address of a pointer"""
        if p.base is None: return p.off
        o = p.base
        if o.addr is None:
            s.fresh_n += 1
            o.addr = z3.Int('addr_%s!%d' % (re.sub(r'\W', '_', o.name)[:20], s.fresh_n))
        a = s.mk(st, o.addr, 1, (1 << 63))
        def cons():
            cs = []
            if o.align > 1:
                k = z3.Int('al!%d' % o.id)
                cs.append(o.addr == o.align * k)
            end = X.add(a, o.size)
            cs.append(X.le(end, (1 << 63)))
            for o2 in st.gh.get('_addrs', []):
                if o2 is o: continue
                e2 = X.add(X.atom(o2.addr, 1, 1 << 63), o2.size)
                cs.append(X.bor(X.le(X.add(end, 1), X.atom(o2.addr, 1, 1 << 63)), X.le(X.add(e2, 1), a)))
            return cs
        if ('addr', o.id) not in st.defs:
            s.define(st, ('addr', o.id), cons)
            st.gh['_addrs'] = st.gh.get('_addrs', []) + [o]
            st.model = None
        return X.add(a, p.off)

    def int_to_ptr(s, st, v):
        if isinstance(v, int): return Ptr(None, v)
        cands = []
        for o in st.gh.get('_addrs', []):
            aid = o.addr.get_id()
            if v.t.get((aid,)) == 1: cands.append(o)
        if len(cands) != 1: raise Unsupported('inttoptr of %r' % v)
        o = cands[0]
        return Ptr(o, X.sub(v, X.atom(o.addr, 1, 1 << 63)))

    # ---- memory ---------------------------------------------------------------------------------------------------
    def new_obj(s, st, name, size, kind, align=16, zero=False):
        o = Obj(name, size, kind, align, zero)
        st.mem[o.id] = OS(st.tok)
        return o
    def os(s, st, o):
        r = st.mem.get(o.id)
        if r is None:
            r = st.mem[o.id] = OS(st.tok)
        return r
    def osw(s, st, o):
        r = s.os(st, o)
        if r.owner != st.tok:
            r = st.mem[o.id] = r.copy(st.tok)
        return r

    def access(s, st, p, n, what):
        """bounds/liveness obligations of an n-byte access"""
        if not isinstance(p, Ptr): raise Unsupported('access through %r' % (p,))
        o = p.base
        if o is None:
            s.obligation(st, False, what + ' through a null or invalid pointer')
            raise Kill()
        if o.kind == 'fn': raise Unsupported('access to function')
        if not s.os(st, o).alive:
            s.obligation(st, False, what + ' of memory that was released')
            raise Kill()
        if s.check_mem:
            s.obligation(st, X.band(X.le(0, p.off), X.le(X.add(p.off, n), o.size)), what + ' stays inside its object')
        return o

    def load(s, st, p, ty):
        t = res(ty)
        if isinstance(t, (StructTy, ArrTy)):
            if isinstance(t, StructTy):
                offs = ir.layout(t)[2]
                return [s.load(st, Ptr(p.base, X.add(p.off, o)), e) for o, e in zip(offs, t.els)]
            es = sizeof(t.el)
            return [s.load(st, Ptr(p.base, X.add(p.off, i * es)), t.el) for i in range(t.n)]
        n = sizeof(t)
        o = s.access(st, p, n, 'read')
        if o.glob is not None: s.init_global(st, o)
        v = s.raw_load(st, o, p.off, n, isinstance(t, PtrTy))
        return s.typed(st, v, t)

    def typed(s, st, v, t):
        if isinstance(t, PtrTy):
            if isinstance(v, Ptr): return v
            if isinstance(v, Undef): return Ptr(None, s.fresh(st, 'undefptr', 64))
            if isinstance(v, int) and v == 0: return NULL
            return s.int_to_ptr(st, v)
        if isinstance(t, IntTy):
            if isinstance(v, Ptr): return s.addr_of(st, v)
            if isinstance(v, Undef): return s.fresh(st, 'undef', t.w) if t.w > 1 else s.fresh_bool(st, 'undef')
            if isinstance(v, FVal): raise Unsupported('float bits as int')
            if t.w == 1: return s.tobool(v)
            return v
        if isinstance(t, FloatTy):
            if isinstance(v, FVal): return v
            if isinstance(v, Undef): return FVal(s.freal())
            if isinstance(v, int) and v == 0: return FVal(z3.RealVal(0))
            raise Unsupported('int bits as float')
        raise Unsupported('typed %r' % t)
    def freal(s):
        s.fresh_n += 1
        return z3.Real('f!%d' % s.fresh_n)

    def extract(s, st, v, off, n, tot):
        """bytes [off, off+n) of a tot-byte value"""
        if off == 0 and n == tot: return v
        if isinstance(v, Undef): return v
        if isinstance(v, Ptr): v = s.addr_of(st, v)
        if isinstance(v, FVal): raise Unsupported('partial float')
        if off: v = s.div(st, v, 1 << (8 * off))[0]
        if off + n < tot: v = s.div(st, v, 1 << (8 * n))[1]
        return v

    def raw_load(s, st, o, off, n, isptr=False):
        os = s.os(st, o)
        if os.fields is None and isinstance(off, int):
            c = os.cells.get(off)
            if c is not None and c[0] == n: return c[1]
            return s.cell_load(st, o, os, off, n)
        if os.fields is None:
            os = s.to_array(st, o, off, n)
        return s.arr_load(st, o, os, off, n, isptr)

    def cell_load(s, st, o, os, off, n):
        # covered by one wider cell?
        for k in range(max(0, 16)):
            c = os.cells.get(off - k)
            if c is not None and c[0] >= k + n and k >= 0:
                return s.extract(st, c[1], k, n, c[0])
        # composed of narrower cells
        pos = off; parts = []
        while pos < off + n:
            c = os.cells.get(pos)
            if c is None:
                # gap: find its extent
                e = pos + 1
                while e < off + n and e not in os.cells: e += 1
                # a cell that starts before pos and covers it
                hit = None
                for k in range(1, 16):
                    d = os.cells.get(pos - k)
                    if d is not None and d[0] > k: hit = (k, d); break
                if hit:
                    k, d = hit
                    m = min(d[0] - k, off + n - pos)
                    parts.append((m, s.extract(st, d[1], k, m, d[0]))); pos += m; continue
                m = e - pos
                parts.append((m, 0 if o.zero else None)); pos = e
            else:
                m = min(c[0], off + n - pos)
                parts.append((m, s.extract(st, c[1], 0, m, c[0]))); pos += m
        if len(parts) == 1 and parts[0][1] is None:
            v = s.fresh(st, 'mem', 8 * n)
            if o.kind in ('bytes',):
                w = s.osw(st, o); w.cells[off] = (n, v)
            elif o.kind == 'alloca' or o.kind == 'heap':
                return UNDEF
            return v
        if all(isinstance(v, Undef) or v is None for _, v in parts): return UNDEF
        out = 0; sh = 0
        for m, v in parts:
            if v is None or isinstance(v, Undef): v = s.fresh(st, 'mem', 8 * m)
            if isinstance(v, Ptr): v = s.addr_of(st, v)
            if isinstance(v, bool) or z3.is_bool(v): v = X.from_bool(v)
            if isinstance(v, FVal): raise Unsupported('float in composed load')
            out = X.add(out, X.mul(v, 1 << (8 * sh))); sh += m
        return out

    def store(s, st, p, ty, v):
        t = res(ty)
        if isinstance(t, (StructTy, ArrTy)):
            if isinstance(v, Undef): return
            if isinstance(t, StructTy):
                for o, e, x in zip(ir.layout(t)[2], t.els, v): s.store(st, Ptr(p.base, X.add(p.off, o)), e, x)
            else:
                es = sizeof(t.el)
                for i in range(t.n): s.store(st, Ptr(p.base, X.add(p.off, i * es)), t.el, v[i])
            return
        n = sizeof(t)
        o = s.access(st, p, n, 'write')
        if o.glob is not None:
            s.init_global(st, o)
            if o.glob.const:
                s.obligation(st, False, 'write to constant'); raise Kill()
        if isinstance(t, IntTy) and t.w == 1: v = X.from_bool(s.tobool(v))
        s.raw_store(st, o, p.off, n, v)

    def raw_store(s, st, o, off, n, v):
        os = s.osw(st, o)
        if os.fields is None and not isinstance(off, int):
            s.to_array(st, o, off, n); os = s.osw(st, o)
        if os.fields is not None:
            return s.arr_store(st, o, os, off, n, v)
        s.clear_cells(st, os, off, n)
        os.cells[off] = (n, v)

    def clear_cells(s, st, os, off, n):
        """make room for [off, off+n), splitting overlapping cells"""
        cells = os.cells
        c = cells.get(off)
        if c is not None and c[0] == n: return
        ov = [(k, c) for k, c in cells.items() if k < off + n and k + c[0] > off]
        for k, (m, v) in ov:
            del cells[k]
            if k < off:
                cells[k] = (off - k, s.extract(st, v, 0, off - k, m))
            if k + m > off + n:
                e = off + n
                cells[e] = (k + m - e, s.extract(st, v, e - k, k + m - e, m))

    def to_array(s, st, o, off, n, stride=None):
        """switch an object to array mode on its first symbolic-offset access"""
        os = s.osw(st, o)
        if stride is None:
            stride = st.gh.get(('stride', o.id)) 
        if stride is None:
            g = 0
            import math
            for m, c in off.t.items():
                if m != (): g = math.gcd(g, abs(c))
            stride = g
        os.stride = stride; os.fields = {}
        cells = sorted(os.cells.items()); os.cells = {}
        for k, (m, v) in cells:
            s.arr_store(st, o, os, k, m, v)
        return os

    def fkey(s, st, o, os, off):
        """(element index, offset inside the element)"""
        S = os.stride
        if isinstance(off, int): return off // S, off % S
        q, r = X.divide(off, S)
        if not isinstance(r, int):
            q, r = s.div(st, off, S)
            if not isinstance(r, int):
                # let the solver pin the offset inside the element
                for k in range(S):
                    if s.entails(st, X.eq(r, k)): r = k; break
                else: raise Unsupported('element offset %r stride %d' % (off, S))
        return q, r

    def field(s, st, o, os, f, n):
        """create/locate primary fields covering [f, f+n): list of (foff, fn)"""
        if (f, n) in os.fields: return [(f, n)]
        ov = sorted(k for k in os.fields if k[0] < f + n and k[0] + k[1] > f)
        if not ov:
            lay = st.gh.get(('layout', o.id))
            if lay:
                ks = [k for k in lay if k[0] < f + n and k[0] + k[1] > f]
                if ks and ks != [(f, n)]:
                    for k in ks:
                        if k not in os.fields: s.field(st, o, os, *k)
                    return ks
            os = s.osw(st, o)
            os.fields[(f, n)] = s.base_content(st, o, f, n)
            return [(f, n)]
        # fill gaps
        pos = f; out = []
        for k in ov:
            if k[0] > pos:
                os = s.osw(st, o); os.fields[(pos, k[0] - pos)] = s.base_content(st, o, pos, k[0] - pos); out.append((pos, k[0] - pos))
            out.append(k); pos = k[0] + k[1]
        if pos < f + n:
            os = s.osw(st, o); os.fields[(pos, f + n - pos)] = s.base_content(st, o, pos, f + n - pos); out.append((pos, f + n - pos))
        return out

    def base_content(s, st, o, f, n):
        if o.zero: return LConst(0)
        bf = st.gh.get(('base', o.id))
        if bf is not None:
            r = bf(s, st, o, f, n)
            if r is not None: return r
        return LBase(ufn('c%d_%d_%d' % (o.id, f, n)), 0, (1 << (8 * n)) - 1)

    def arr_read(s, st, c, i):
        """content of layer stack c at element i"""
        pend = []
        while True:
            if isinstance(c, LBase):
                v = s.mk(st, c.fn(X.z(i)), c.lo, c.hi)
                if c.hook is not None:
                    k = ('hook', c.fn.get_id(), X.akey(i))
                    if k not in st.defs:
                        st.defs.add(k)
                        c.hook(s, st, i, v)
                break
            if isinstance(c, LConst):
                v = c.v; break
            if isinstance(c, LW):
                d = s.try_decide(st, X.eq(i, c.i))
                if d is True: v = c.v; break
                if d is None: pend.append((X.eq(i, c.i), c.v))
                c = c.prev; continue
            if isinstance(c, LFill):
                cond = X.band(X.le(c.lo, i), X.lt(i, c.hi))
                d = s.try_decide(st, cond)
                if d is True: v = c.v; break
                if d is None: pend.append((cond, c.v))
                c = c.prev; continue
            if isinstance(c, LCopy):
                cond = X.band(X.le(c.lo, i), X.lt(i, X.add(c.lo, c.n)))
                d = s.try_decide(st, cond)
                if d is False: c = c.prev; continue
                sv_i = X.add(X.sub(i, c.lo), c.slo)
                if d is True:
                    c, i = c.src, sv_i
                    continue
                pend.append((cond, s.arr_read(st, c.src, sv_i)))
                c = c.prev; continue
            raise Unsupported('layer')
        for cond, x in reversed(pend):
            v = s.vite(st, cond, x, v)
        return v

    def vite(s, st, c, a, b):
        if isinstance(a, Undef): return b
        if isinstance(b, Undef): return a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base: return Ptr(a.base, X.ite(c, a.off, b.off))
            return a if s.decide(st, c) else b
        r = X.ite(c, a, b)
        return r

    def arr_load(s, st, o, os, off, n, isptr):
        i, f = s.fkey(st, o, os, off)
        if f + n > os.stride:
            # spans elements: only for constant strides
            m = os.stride - f
            a = s.arr_load(st, o, os, off, m, False); b = s.arr_load(st, o, s.os(st, o), X.add(off, m), n - m, False)
            return X.add(a, X.mul(b, 1 << (8 * m)))
        ks = s.field(st, o, os, f, n)
        os = s.os(st, o)
        if ks == [(f, n)]:
            v = s.arr_read(st, os.fields[(f, n)], i)
            if n == 8 and (f in o.ptr_target) and not isinstance(v, Ptr):
                tg = o.ptr_target[f]
                if s.decide(st, X.eq(v, 0)): return NULL
                S = st.gh[('stride', tg.id)]
                return Ptr(tg, X.mul(X.sub(v, 1), S))
            return v
        out = 0
        for (k, m) in ks:
            v = s.arr_read(st, os.fields[(k, m)], i)
            if isinstance(v, Undef): v = s.fresh(st, 'mem', 8 * m)
            lo = max(k, f); hi = min(k + m, f + n)
            v = s.extract(st, v, lo - k, hi - lo, m)
            out = X.add(out, X.mul(v, 1 << (8 * (lo - f))))
        return out

    def arr_store(s, st, o, os, off, n, v):
        i, f = s.fkey(st, o, os, off)
        if f + n > os.stride:
            m = os.stride - f
            if f == 0 and n % os.stride == 0 or True:
                s.arr_store(st, o, os, off, m, s.extract(st, v, 0, m, n))
                s.arr_store(st, o, s.osw(st, o), X.add(off, m), n - m, s.extract(st, v, m, n - m, n))
                return
        ks = s.field(st, o, os, f, n)
        os = s.osw(st, o)
        if ks == [(f, n)]:
            if isinstance(v, Ptr) and f in o.ptr_target:
                v = s.enc_ptr(st, v, o.ptr_target[f])
            os.fields[(f, n)] = s.lw(st, os.fields[(f, n)], i, v)
            return
        for (k, m) in ks:
            lo = max(k, f); hi = min(k + m, f + n)
            piece = s.extract(st, v, lo - f, hi - lo, n)
            if (lo, hi - lo) != (k, m):
                old = s.arr_read(st, os.fields[(k, m)], i)
                if isinstance(old, Undef): old = s.fresh(st, 'mem', 8 * m)
                keep_lo = s.extract(st, old, 0, lo - k, m) if lo > k else 0
                keep_hi = s.extract(st, old, hi - k, k + m - hi, m) if hi < k + m else 0
                piece = X.add(X.add(keep_lo, X.mul(piece, 1 << (8 * (lo - k)))), X.mul(keep_hi, 1 << (8 * (hi - k))))
            os = s.osw(st, o)
            os.fields[(k, m)] = s.lw(st, os.fields[(k, m)], i, piece)

    def lw(s, st, c, i, v):
        if isinstance(c, LW) and X.same(c.i, i): c = c.prev
        return LW(c, i, v)

    def enc_ptr(s, st, v, tg):
        if v.base is None: return v.off
        if v.base is not tg: raise Unsupported('pointer to another object in a node field')
        return X.add(s.div(st, v.off, st.gh[('stride', tg.id)])[0], 1)

    def memcpy(s, st, d, sp, n):
        if isinstance(n, int) and n == 0: return
        if not isinstance(n, int) and s.decide(st, X.eq(n, 0)): return
        so = s.access(st, sp, n, 'read'); do = s.access(st, d, n, 'write')
        if so.glob is not None: s.init_global(st, so)
        ss = s.os(st, so); ds = s.os(st, do)
        if isinstance(n, int) and ss.fields is None and ds.fields is None and isinstance(sp.off, int) and isinstance(d.off, int):
            items = []
            for k, (m, v) in ss.cells.items():
                if k < sp.off + n and k + m > sp.off:
                    lo = max(k, sp.off); hi = min(k + m, sp.off + n)
                    items.append((lo - sp.off, hi - lo, s.extract(st, v, lo - k, hi - lo, m)))
            if so.kind == 'bytes' or so.zero:
                # materialise unknown bytes so that both sides agree
                cov = sorted((a, m) for a, m, _ in items); pos = 0
                gaps = []
                for a, m in cov:
                    if a > pos: gaps.append((pos, a - pos))
                    pos = a + m
                if pos < n: gaps.append((pos, n - pos))
                for a, m in gaps:
                    while m > 0:
                        c = min(m, 8)
                        items.append((a, c, s.cell_load(st, so, s.os(st, so), sp.off + a, c))); a += c; m -= c
            w = s.osw(st, do)
            s.clear_cells(st, w, d.off, n)
            w.cells.pop(d.off, None)
            for k in [k for k in w.cells if d.off <= k < d.off + n]: del w.cells[k]
            for a, m, v in items: w.cells[d.off + a] = (m, v)
            return
        if isinstance(n, int) and n <= 256:
            # small structure copy to/from an array element
            lay = None
            for (ob, of) in ((so, sp.off), (do, d.off)):
                l = st.gh.get(('layout', ob.id))
                if l and s.os(st, ob).fields is None and not isinstance(of, int): s.to_array(st, ob, of, 1)
            arr = so if s.os(st, so).fields is not None else do if s.os(st, do).fields is not None else None
            pieces = []
            if s.os(st, so).fields is None and isinstance(sp.off, int):
                cs = s.os(st, so)
                pos = 0
                while pos < n:
                    c = cs.cells.get(sp.off + pos)
                    m = c[0] if c is not None and pos + c[0] <= n else 1
                    if c is None:
                        m = 1
                        while pos + m < n and (sp.off + pos + m) not in cs.cells: m += 1
                        if so.kind in ('alloca', 'heap') and not so.zero:
                            pos += m; continue   # uninitialised bytes
                        while m > 0:
                            q = min(8, m); pieces.append((pos, q)); pos += q; m -= q
                        continue
                    pieces.append((pos, m)); pos += m
            else:
                oo, of = (so, sp.off)
                os = s.os(st, oo)
                if os.fields is None:
                    if isinstance(of, int) is False: s.to_array(st, oo, of, 1); os = s.os(st, oo)
                i, f = s.fkey(st, oo, os, of)
                if not os.fields and do is not None:
                    l = st.gh.get(('layout', oo.id))
                    if not l:
                        pieces = [(k, min(8, n - k)) for k in range(0, n, 8)]
                if not pieces:
                    lay = sorted(set(list(os.fields)) | set(st.gh.get(('layout', oo.id), [])))
                    pos = 0
                    while pos < n:
                        ff = (f + pos) % os.stride
                        hit = [k for k in lay if k[0] == ff and pos + k[1] <= n]
                        if hit: m = hit[0][1]
                        else:
                            m = 1
                            while pos + m < n and m < 8 and not any(k[0] == ff + m for k in lay): m += 1
                        pieces.append((pos, m)); pos += m
            vals = [(a, m, s.raw_load(st, so, X.add(sp.off, a), m)) for a, m in pieces]
            for a, m, v in vals: s.raw_store(st, do, X.add(d.off, a), m, v)
            return
        # symbolic length: whole elements
        s.range_copy(st, do, d.off, so, sp.off, n)

    def range_copy(s, st, do, doff, so, soff, n):
        import math
        ss = s.os(st, so)
        stride = None
        if ss.fields is not None: stride = ss.stride
        elif s.os(st, do).fields is not None: stride = s.os(st, do).stride
        if stride is None:
            stride = st.gh.get(('stride', so.id)) or st.gh.get(('stride', do.id))
        if stride is None:
            if isinstance(n, int): raise Unsupported('large memcpy')
            g = 0
            for m, c in n.t.items(): g = math.gcd(g, abs(c))
            stride = g
        if ss.fields is None: ss = s.to_array(st, so, 0, 1, stride)
        dw = s.osw(st, do)
        if dw.fields is None: dw = s.to_array(st, do, 0, 1, stride); dw = s.osw(st, do)
        ss = s.os(st, so)
        if ss.stride != dw.stride: raise Unsupported('copy between strides %d %d' % (ss.stride, dw.stride))
        si, sf = s.fkey(st, so, ss, soff); di, df = s.fkey(st, do, dw, doff)
        cnt, r = s.div(st, n, stride)
        if sf or df or r != 0: raise Unsupported('copy of partial elements')
        lay = st.gh.get(('layout', so.id)) or st.gh.get(('layout', do.id))
        keys = set(ss.fields) | set(dw.fields) | set(lay or [])
        if not keys: keys = {(0, stride)}
        for (f, m) in sorted(keys):
            s.field(st, so, s.os(st, so), f, m); s.field(st, do, s.os(st, do), f, m)
        ss = s.os(st, so); dw = s.osw(st, do)
        for (f, m) in sorted(keys):
            if (f, m) not in ss.fields or (f, m) not in dw.fields: raise Unsupported('field layouts differ')
        new = {}
        for k in sorted(keys): new[k] = LCopy(dw.fields[k], di, cnt, ss.fields[k], si)
        for f in so.ptr_target: do.ptr_target[f] = so.ptr_target[f]
        dw.fields.update(new)

    def memset(s, st, d, v, n):
        if isinstance(n, int) and n == 0: return
        if not isinstance(n, int) and s.decide(st, X.eq(n, 0)): return
        o = s.access(st, d, n, 'write')
        os = s.osw(st, o)
        if isinstance(n, int) and os.fields is None and isinstance(d.off, int):
            s.clear_cells(st, os, d.off, n)
            for k in [k for k in os.cells if d.off <= k < d.off + n]: del os.cells[k]
            if not isinstance(v, int):
                raise Unsupported('symbolic memset')
            pos = 0
            while pos < n:
                m = 8 if n - pos >= 8 else 4 if n - pos >= 4 else 1
                os.cells[d.off + pos] = (m, int.from_bytes(bytes([v & 255]) * m, 'little')); pos += m
            return
        if os.fields is None:
            stride = st.gh.get(('stride', o.id))
            if stride is None:
                if isinstance(n, int): stride = 1
                else:
                    import math
                    g = 0
                    for m, c in n.t.items(): g = math.gcd(g, abs(c))
                    stride = g
            os = s.to_array(st, o, d.off, 1, stride); os = s.osw(st, o)
        i, f = s.fkey(st, o, os, d.off)
        cnt, r = s.div(st, n, os.stride)
        if f or r != 0: raise Unsupported('memset of partial elements')
        if not os.fields: s.field(st, o, os, 0, os.stride); os = s.osw(st, o)
        for (ff, m), c in list(os.fields.items()):
            if isinstance(v, int): vv = int.from_bytes(bytes([v & 255]) * m, 'little')
            elif m == 1: vv = v
            else: raise Unsupported('symbolic memset')
            os.fields[(ff, m)] = LFill(c, i, X.add(i, cnt), vv)

    def free(s, st, o):
        if not s.os(st, o).alive:
            s.obligation(st, False, 'memory released twice'); raise Kill()
        s.osw(st, o).alive = False

    # ---- globals -------------------------------------------------------------------------------------------------
    def glob_ptr(s, st, name):
        while name in s.mod.aliases:
            v = s.mod.aliases[name]
            if v[0] != 'glob': raise Unsupported('alias expr')
            name = v[1]
        if name in s.mod.funcs and name not in s.mod.globals:
            o = s.fn_objs.get(name)
            if o is None:
                o = s.fn_objs[name] = Obj(name, 1, 'fn'); o.fn = name
            return Ptr(o, 0)
        o = s.gl_objs.get(name)
        if o is None:
            g = s.mod.globals.get(name)
            if g is None: raise Unsupported('global ' + name)
            try: sz = sizeof(g.ty)
            except Unsupported: sz = 1 << 40
            o = s.gl_objs[name] = Obj(name, sz, 'global'); o.glob = g
            if g.init is None: o.kind = 'bytes'
        return Ptr(o, 0)

    def init_global(s, st, o):
        if ('ginit', o.id) in st.defs: return
        st.defs.add(('ginit', o.id))
        if o.glob.init is None: return
        os = s.osw(st, o)
        s.put_init(st, os, 0, o.glob.ty, o.glob.init)

    def put_init(s, st, os, off, ty, v):
        t = res(ty)
        if v[0] == 'zero' or v[0] == 'undef':
            n = sizeof(t)
            pos = 0
            if isinstance(t, (StructTy, ArrTy)):
                if isinstance(t, StructTy):
                    for o, e in zip(ir.layout(t)[2], t.els): s.put_init(st, os, off + o, e, v)
                elif t.n <= 4096:
                    es = sizeof(t.el)
                    for i in range(t.n): s.put_init(st, os, off + i * es, t.el, v)
            else: os.cells[off] = (n, NULL if isinstance(t, PtrTy) else 0)
            return
        if v[0] == 'agg':
            if isinstance(t, StructTy): offs = ir.layout(t)[2]
            else:
                es = sizeof(t.el); offs = [i * es for i in range(t.n)]
            for o, (ety, ev) in zip(offs, v[1]): s.put_init(st, os, off + o, ety, ev)
            return
        if v[0] == 'cstr':
            b = v[1][2:-1]; i = 0; k = 0
            while i < len(b):
                if b[i] == '\\': c = int(b[i + 1:i + 3], 16); i += 3
                else: c = ord(b[i]); i += 1
                os.cells[off + k] = (1, c); k += 1
            return
        os.cells[off] = (sizeof(t), s.val(st, None, t, v))

    # ---- operands ------------------------------------------------------------------------------------------------
    def val(s, st, fr, ty, op):
        k = op[0]
        if k == 'loc':
            try: return fr.env[op[1]]
            except KeyError: raise Unsupported('undefined %' + op[1])
        if k == 'int':
            t = res(ty)
            if t.w == 1: return bool(op[1] & 1)
            return op[1] % (1 << t.w)
        if k == 'null': return NULL
        if k == 'glob': return s.glob_ptr(st, op[1])
        if k == 'undef':
            t = res(ty)
            if isinstance(t, (StructTy, ArrTy)): return [s.val(st, fr, e, op) for e in (t.els if isinstance(t, StructTy) else [t.el] * t.n)]
            if isinstance(t, IntTy) and t.w == 1: return False
            return UNDEF
        if k == 'zero':
            t = res(ty)
            if isinstance(t, StructTy): return [s.val(st, fr, e, op) for e in t.els]
            if isinstance(t, ArrTy): return [s.val(st, fr, t.el, op) for _ in range(t.n)]
            if isinstance(t, PtrTy): return NULL
            if isinstance(t, FloatTy): return FVal(z3.RealVal(0))
            return False if t.w == 1 else 0
        if k == 'agg': return [s.val(st, fr, e, v) for e, v in op[1]]
        if k == 'cgep':
            return s.gep(st, fr, op[1], op[2])
        if k == 'ccast':
            _, o, (t0, v0), t1 = op
            return s.cast(st, o, t0, s.val(st, fr, t0, v0), t1)
        if k == 'cbin':
            (ta, a), (tb, b) = op[2], op[3]
            return s.binop(st, op[1], s.val(st, fr, ta, a), s.val(st, fr, tb, b), res(ta).w, ())
        if k == 'cicmp':
            (ta, a), (tb, b) = op[2], op[3]
            return s.icmp(st, op[1], ta, s.val(st, fr, ta, a), s.val(st, fr, tb, b))
        if k == 'float':
            t = op[1]
            if t.startswith('0xK'):
                h = int(t[3:], 16); ex = (h >> 64) & 0x7fff; man = h & ((1 << 64) - 1); sg = -1 if h >> 79 else 1
                if ex == 0 and man == 0: return FVal(z3.RealVal(0))
                from fractions import Fraction
                fr_ = Fraction(man, 1 << 63) * (Fraction(2) ** (ex - 16383)) * sg
                return FVal(z3.RealVal(str(fr_)))
            if t.startswith('0x'):
                import struct
                from fractions import Fraction
                d = struct.unpack('>d', int(t[2:], 16).to_bytes(8, 'big'))[0]
                if d != d or d in (float('inf'), float('-inf')): return FVal(s.freal())
                return FVal(z3.RealVal(str(Fraction(d))))
            from fractions import Fraction
            return FVal(z3.RealVal(str(Fraction(float(t)))))
        if k == 'md': return None
        raise Unsupported('operand %r' % (op,))

    def gep(s, st, fr, base, ops):
        p = s.val(st, fr, *ops[0])
        if isinstance(p, Undef): return p
        off = p.off
        t = base
        for n, (ity, iop) in enumerate(ops[1:]):
            iv = s.val(st, fr, ity, iop)
            if n == 0:
                off = X.add(off, X.mul(s.sidx(st, iv, ity), sizeof(t))); continue
            t = res(t)
            if isinstance(t, StructTy):
                off = X.add(off, ir.layout(t)[2][iv]); t = t.els[iv]
            elif isinstance(t, (ArrTy, VecTy)):
                off = X.add(off, X.mul(s.sidx(st, iv, ity), sizeof(t.el))); t = t.el
            else: raise Unsupported('gep into %r' % t)
        return Ptr(p.base, off)

    def sidx(s, st, v, ty):
        if isinstance(v, Undef): return s.fresh(st, 'undef', 32)
        w = res(ty).w
        if isinstance(v, int): return s.to_signed(st, v, w)
        lo, hi = X.bounds(v)
        if hi is not None and hi < (1 << (w - 1)): return v
        # index as signed; avoid forking when non-negativity is entailed
        if s.entails(st, X.lt(v, 1 << (w - 1))): return v
        # (x - c) mod 2^w for a pointer step back: the code's sub already forked, so v is poly + 2^w when negative
        return s.to_signed(st, v, w)

    def cast(s, st, op, t0, v, t1):
        t0 = res(t0); t1 = res(t1)
        if isinstance(v, Undef):
            return UNDEF if not (isinstance(t1, IntTy) and t1.w == 1) else False
        if op == 'zext':
            if t0.w == 1: return X.from_bool(s.tobool(v))
            return v
        if op == 'trunc':
            if t1.w == 1:
                if isinstance(v, int): return bool(v & 1)
                i = X.single_atom(v)
                if i in X._BOOL_OF: return X._BOOL_OF[i]
                lo, hi = X.bounds(v)
                if lo is not None and hi is not None and lo >= 0 and hi <= 1: return X.bnot(X.eq(v, 0))
                return X.eq(s.div(st, v, 2)[1], 1)
            return v if s.fits(v, t1.w) or s.in_range(st, v, t1.w) else s.div(st, v, 1 << t1.w)[1]
        if op == 'sext':
            if t0.w == 1: return X.mul(X.from_bool(s.tobool(v)), (1 << t1.w) - 1)
            return s.wrap(st, s.to_signed(st, v, t0.w), t1.w)
        if op == 'ptrtoint':
            r = s.addr_of(st, v)
            return r
        if op == 'inttoptr': return s.int_to_ptr(st, v)
        if op == 'bitcast':
            if isinstance(t0, PtrTy) and isinstance(t1, PtrTy): return v
            if repr(t0) == repr(t1): return v
            raise Unsupported('bitcast')
        if op == 'uitofp':
            if t0.w == 1: v = X.from_bool(s.tobool(v))
            lo, hi = X.bounds(v)
            lim = {'float': 1 << 24, 'double': 1 << 53, 'x86_fp80': 1 << 63}[t1.name]
            if hi is not None and hi <= lim: return FVal(z3.ToReal(X.z(v)))
            if isinstance(v, int): return FVal(z3.RealVal(v)) if v <= lim else FVal(s.freal())
            return FVal(z3.ToReal(X.z(v))) if s.entails(st, X.le(v, lim)) else FVal(UITOFP(X.z(v)))
        if op == 'fptoui' or op == 'fptosi':
            # defined only for values in range; exact for integral reals
            s.fresh_n += 1
            q = s.fresh_int(st, 'fptoi', 0, (1 << t1.w) - 1)
            s._b(st, z3.Implies(z3.And(v.e >= 0, v.e < (1 << t1.w)), z3.And(z3.ToReal(q.z()) <= v.e, v.e < z3.ToReal(q.z()) + 1)))
            return q
        if op in ('fpext',): return v
        raise Unsupported('cast ' + op)
    def fits(s, v, w):
        lo, hi = X.bounds(v)
        return lo is not None and lo >= 0 and hi is not None and hi < (1 << w)

    # ---- obligations ---------------------------------------------------------------------------------------------
    def where(s, st):
        if not st.frames: return ''
        f = st.frames[-1]
        return s.dem.get(f.f.name, f.f.name)[:160]

    def obligation(s, st, c, label, nocount=False):
        """pc => c ; recorded; afterwards c is assumed"""
        if c is True:
            if not nocount: s.triv = getattr(s, 'triv', 0) + 1
            return
        if not isinstance(c, bool):
            k = st.known.get(c.get_id())
            if k is True: s.triv = getattr(s, 'triv', 0) + 1; return
        if s.opts.get('cut_again'):         # this run only looks for more candidates to drop (vc_locals)
            if isinstance(c, bool): raise Kill()
            st.pc.append(c); st.known[c.get_id()] = True; st.model = None
            return
        ob = Obligation(label); ob.where = s.where(st); ob.exact = st.exact
        t = time.time()
        neg = X.bnot(c) if not isinstance(c, bool) else (not c)
        r, be, model = s.prove(st, neg)
        ob.time = time.time() - t; ob.backend = be
        if r == z3.unsat: ob.status = 'proved'
        elif r == z3.sat:
            ob.status = 'failed'
            ob.model = model
            if model is not None: ob.nd = s.nd_values(st, model)
        else: ob.status = 'unknown'
        s.obls.append(ob)
        if ob.status != 'proved':
            s.failed += 1
            ob.smt = '; '.join(st.trace[-(60 if os.environ.get('VC_DEBUG') else 12):])
            if isinstance(c, bool): raise Kill()
            st.pc.append(c); st.known[c.get_id()] = True
            st.model = None
            if s.query(st, True) == z3.unsat: raise Kill()
        elif not isinstance(c, bool):
            st.known[c.get_id()] = True
            s._b(st, c)      # a proved fact helps later queries

    def prove(s, st, neg):
        r = s.query(st, neg, s.ob_ms // 6)
        if r == z3.unsat: return r, 'z3', None
        if r == z3.sat: return r, 'z3', s.last_model
        # non-incremental, with the default strategy
        so = z3.Solver(); so.set('timeout', s.ob_ms)
        for c in st.pc: so.add(c)
        if not isinstance(neg, bool): so.add(neg)
        t = time.time()
        r = so.check(); s.stats['qtime'] += time.time() - t; s.stats['queries'] += 1
        if r == z3.unsat: return r, 'z3-fresh', None
        if r == z3.sat: return r, 'z3-fresh', so.model()
        # cvc5
        try:
            txt = '(set-logic ALL)\n' + so.to_smt2()
            p = subprocess.run(['cvc5', '--tlimit=%d' % s.ob_ms, '--lang=smt2', '-q'], input=txt, capture_output=True, text=True, timeout=s.ob_ms / 1000 + 10)
            if p.stdout.startswith('unsat'): return z3.unsat, 'cvc5', None
        except Exception:
            pass
        return z3.unknown, 'none', None

    def nd_values(s, st, model):
        out = []
        for kind, v in st.nd:
            if kind == 'arr':
                o, n, es = v
                if not isinstance(n, int): n = model.eval(n.z(), model_completion=True).as_long()
                b = bytearray(n * es if n * es <= 1 << 16 else 0)
                for (f, m), c in (st.mem[o.id].fields or {}).items():
                    while not isinstance(c, (LBase, LConst)): c = c.prev
                    for i in range(n if b else 0):
                        x = c.v if isinstance(c, LConst) else model.eval(c.fn(z3.IntVal(i)), model_completion=True).as_long()
                        if isinstance(x, int): b[i * es + f:i * es + f + m] = (x % (1 << (8 * m))).to_bytes(m, 'little')
                for k, (m, x) in st.mem[o.id].cells.items(): pass
                out.append(dict(hex=bytes(b).hex())); continue
            if isinstance(v, (int, bool)): out.append(int(v)); continue
            e = v.z() if isinstance(v, Poly) else v
            x = model.eval(e, model_completion=True)
            if z3.is_bool(x): out.append(1 if z3.is_true(x) else 0)
            else: out.append(x.as_long())
        return out

    # ---- execution -----------------------------------------------------------------------------------------------
    def run(s, fname, args=()):
        st = State()
        f = ir.get_body(s.mod, s.mod.funcs[fname])
        s.push_frame(st, f, list(args), None, None, None)
        work = [st]
        while work:
            if time.time() > s.deadline: raise Bound('time limit')
            if s.stop_on_fail and s.failed: break
            st = work.pop()
            try:
                s.run_path(st, work)
                s.stats['paths'] += 1
                if s.stats['paths'] > s.max_paths: raise Bound('path limit')
            except Infeasible:
                s.stats['infeasible'] = s.stats.get('infeasible', 0) + 1
            except Kill:
                s.stats['killed'] += 1

    def run_path(s, st, work):
        while st.frames:
            try:
                s.step(st)
            except Fork as fk:
                s.stats['forks'] += 1
                c = fk.cond
                o = st.clone()
                s.do_assume(o, X.bnot(c)); s.do_assume(st, c)
                st.forks += 1
                st.trace.append(str(c)[:100].replace('\n', ' ')); o.trace.append(str(X.bnot(c))[:100].replace('\n', ' '))
                work.append(o)
            except Throw as th:
                s.unwind(st, th.ptr, th.ti)
        s.path_end(st)

    def path_end(s, st):
        pass

    def do_assume(s, st, c):
        st.pc.append(c); st.known[c.get_id()] = True; X.keep(c)
        n = X.bnot(c)
        st.known[n.get_id()] = False
        if st.model is not None and not z3.is_true(st.model.eval(s.lin(c)[0], model_completion=True)): st.model = None

    def push_frame(s, st, f, args, retres, retty, inv):
        fr = Frame(); fr.f = f; fr.blk = f.blocks[f.order[0]]; fr.i = 0; fr.prev = None; fr.env = {}
        fr.retres = retres; fr.retty = retty; fr.inv = inv; fr.visits = {}; fr.allocas = []; fr.exc = None; fr.cuts = {}
        for n, a in zip(f.params, args): fr.env[n] = a
        st.frames.append(fr)
        if len(st.frames) > 200: raise Bound('recursion')

    def goto(s, st, fr, name):
        nb = fr.f.blocks[name]
        # phis evaluated simultaneously
        vals = []
        for ph in nb.phis:
            for v, b in ph.a:
                if b == fr.blk.name:
                    vals.append((ph.res, s.val(st, fr, ph.ty, v))); break
            else: raise Unsupported('phi')
        lp = ir.loops(fr.f)
        for n, v in vals: fr.env[n] = v
        back = fr.blk.name in lp.get(name, ()) 
        fr.prev = fr.blk.name; fr.blk = nb; fr.i = 0
        if name in lp:
            if not back: fr.visits[name] = 0
            fr.visits[name] = fr.visits.get(name, 0) + 1
            if s.loop_cut is not None:
                sp = s.loop_cut(s, st, fr, name)
                if sp is not None: fr.cuts['_pending'] = (sp, name, back, [n for n, _ in vals]); return
            if fr.visits[name] > s.max_visits:
                # only a feasible path counts as hitting the bound
                if s.query(st, True) == z3.unsat: raise Infeasible()
                s.bound_hits.append((s.dem.get(fr.f.name, fr.f.name)[:100], name))
                raise Bound('loop in %s' % s.dem.get(fr.f.name, fr.f.name)[:200])

    def step(s, st):
        fr = st.frames[-1]
        s.stats['steps'] += 1
        if fr.cuts.get('_pending') is not None:
            snap = st.clone()
            try: fr.cuts.pop('_pending')[0].arrive(s, st, st.frames[-1], *snap.frames[-1].cuts['_pending'][1:])
            except Fork:
                s.restore(st, snap); raise
            return
        ins = fr.blk.insts[fr.i]
        op = ins.op
        if op == 'bin':
            o, a, b, fl = ins.a
            w = res(ins.ty)
            if not isinstance(w, IntTy): raise Unsupported('vector op')
            fr.env[ins.res] = s.binop(st, o, s.val(st, fr, ins.ty, a), s.val(st, fr, ins.ty, b), w.w, fl)
        elif op == 'load':
            fr.env[ins.res] = s.load(st, s.val(st, fr, PTR, ins.a[0]), ins.ty)
        elif op == 'store':
            ty, v, a = ins.a
            s.store(st, s.val(st, fr, PTR, a), ty, s.val(st, fr, ty, v))
        elif op == 'gep':
            fr.env[ins.res] = s.gep(st, fr, *ins.a)
        elif op == 'icmp':
            pr, ty, a, b = ins.a
            fr.env[ins.res] = s.icmp(st, pr, ty, s.val(st, fr, ty, a), s.val(st, fr, ty, b))
        elif op == 'br':
            c = s.tobool(s.val(st, fr, I(1), ins.a[0]))
            d = s.decide(st, c)
            s.goto(st, fr, ins.a[1] if d else ins.a[2]); return
        elif op == 'jmp':
            s.goto(st, fr, ins.a); return
        elif op == 'call' or op == 'invoke':
            s.call(st, fr, ins); return
        elif op == 'ret':
            v = None
            if ins.a is not None: v = s.val(st, fr, *ins.a)
            s.ret(st, v); return
        elif op == 'alloca':
            ty, n = ins.a
            k = 1 if n is None else s.val(st, fr, *n)
            if not isinstance(k, int): raise Unsupported('vla')
            o = s.new_obj(st, ins.res, sizeof(ty) * k, 'alloca', 16)
            fr.allocas.append(o)
            fr.env[ins.res] = Ptr(o, 0)
        elif op == 'cast':
            o, t0, v = ins.a
            fr.env[ins.res] = s.cast(st, o, t0, s.val(st, fr, t0, v), ins.ty)
        elif op == 'select':
            c = s.tobool(s.val(st, fr, I(1), ins.a[0]))
            a = s.val(st, fr, ins.ty, ins.a[1]); b = s.val(st, fr, ins.ty, ins.a[2])
            d = s.try_decide(st, c)
            if d is not None: fr.env[ins.res] = a if d else b
            else:
                t = res(ins.ty)
                if isinstance(t, IntTy) and t.w == 1:
                    a = s.tobool(a); b = s.tobool(b)
                    fr.env[ins.res] = X.bor(X.band(c, a), X.band(X.bnot(c), b))
                elif isinstance(t, IntTy) and not isinstance(a, Undef) and not isinstance(b, Undef):
                    fr.env[ins.res] = s.mk_ite(st, c, a, b)
                else: raise Fork(c)
        elif op == 'switch':
            ty, v, d, cs = ins.a
            x = s.val(st, fr, ty, v)
            w = res(ty).w
            for k, lab in cs:
                if s.decide(st, X.eq(x, k % (1 << w))):
                    s.goto(st, fr, lab); return
            s.goto(st, fr, d); return
        elif op == 'freeze':
            v = s.val(st, fr, ins.ty, ins.a[0])
            if isinstance(v, Undef): v = s.fresh(st, 'undef', res(ins.ty).w)
            fr.env[ins.res] = v
        elif op == 'extractvalue':
            ty, v, idx = ins.a
            x = s.val(st, fr, ty, v)
            for k in idx: x = x[k]
            fr.env[ins.res] = x
        elif op == 'insertvalue':
            v, t2, v2, idx = ins.a
            x = s.val(st, fr, ins.ty, v); y = s.val(st, fr, t2, v2)
            def ins_(a, ix):
                a = list(a) if not isinstance(a, Undef) else [UNDEF] * len(res(ins.ty).els)
                if len(ix) == 1: a[ix[0]] = y
                else: a[ix[0]] = ins_(a[ix[0]], ix[1:])
                return a
            fr.env[ins.res] = ins_(x, idx)
        elif op == 'landingpad':
            ptr, ti = fr.exc
            sel = 0
            cleanup, clauses = ins.a
            for kind, v in clauses:
                if kind == 'catch':
                    if v[0] == 'null' or (v[0] == 'glob' and s.exc_match(ti, v[1])):
                        sel = 0x7fffff01 if v[0] == 'null' else s.typeid(v[1]); break
            fr.env[ins.res] = [ptr, sel]
        elif op == 'resume':
            v = s.val(st, fr, *ins.a)
            ptr, ti = fr.exc
            s.pop_frame(st)
            s.unwind(st, ptr, ti); return
        elif op == 'unreachable':
            s.obligation(st, False, 'unreachable code reached'); raise Kill()
        elif op == 'fbin':
            o, a, b, fl = ins.a
            fr.env[ins.res] = s.fbin(st, o, s.val(st, fr, ins.ty, a), s.val(st, fr, ins.ty, b))
        elif op == 'fneg':
            fr.env[ins.res] = FVal(-s.val(st, fr, ins.ty, ins.a[0]).e)
        elif op == 'fcmp':
            pr, ty, a, b = ins.a
            a = s.val(st, fr, ty, a).e; b = s.val(st, fr, ty, b).e
            k = pr[1:] if pr[0] in 'ou' else pr
            c = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}
            if pr in ('ord',): fr.env[ins.res] = True
            elif pr in ('uno',): fr.env[ins.res] = False
            else:
                e = z3.simplify(c[k]())
                fr.env[ins.res] = True if z3.is_true(e) else False if z3.is_false(e) else X.keep(e)
        elif op == 'nop': pass
        elif op == 'asm':
            pass
        else:
            raise Unsupported('op ' + op)
        fr.i += 1

    def mk_ite(s, st, c, a, b):
        r = X.ite(c, a, b)
        i = X.single_atom(r)
        if i is not None and i not in st.atoms:
            e, lo, hi = X._ATOMS[i]
            s.mk(st, e, lo, hi)
        return r

    def fbin(s, st, o, a, b):
        # exact only on reals that are representable; rounding is not modelled (listed as an assumption where used)
        if o == 'fadd': return FVal(a.e + b.e)
        if o == 'fsub': return FVal(a.e - b.e)
        if o == 'fmul': return FVal(a.e * b.e)
        raise Unsupported('float ' + o)

    def exc_match(s, ti, want):
        if ti == want: return True
        HIER = {'_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
                '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
                '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc', '_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
                '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception']}
        return want in HIER.get(ti, [])
    def typeid(s, n):
        return 1 + (hash(n) % 1000003)

    def pop_frame(s, st):
        fr = st.frames.pop()
        for o in fr.allocas:
            s.osw(st, o).alive = False
        return fr

    def ret(s, st, v):
        hook = st.frames[-1].cuts.get('_onret')
        if hook is not None:
            snap = st.clone()
            try: hook(s, st, v, st.frames[-1])
            except Fork:
                s.restore(st, snap); raise
        fr = s.pop_frame(st)
        if not st.frames: return
        cal = st.frames[-1]
        if fr.retres is not None: cal.env[fr.retres] = v
        if fr.inv: s.goto(st, cal, fr.inv[0])
        else: cal.i += 1

    def unwind(s, st, ptr, ti):
        """an exception leaves the current call instruction of the top frame"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.blk.insts[fr.i] if fr.i < len(fr.blk.insts) else None
            if ins is not None and ins.op == 'invoke':
                fr.exc = (ptr, ti)
                s.goto(st, fr, ins.a[3]); return
            s.pop_frame(st)
        s.obligation(st, False, 'no exception (%s) escapes' % ti)
        raise Kill()

    def call(s, st, fr, ins):
        cal, args = ins.a[0], ins.a[1]
        if cal[0] == 'glob':
            name = cal[1]
            while name in s.mod.aliases: name = s.mod.aliases[name][1]
        else:
            p = s.val(st, fr, PTR, cal)
            if p.base is None or p.base.kind != 'fn':
                h = getattr(p.base, 'fn', None) if p.base is not None else None
                raise Unsupported('indirect call through %r' % (p,))
            name = p.base.fn
        h = s.find_handler(name)
        if h is not None:
            # handlers may fork part-way: run them on a restorable state
            vals = [None if isinstance(t, ir.MetaTy) else s.val(st, fr, t, a) for t, a in args]
            snap = None
            if not getattr(h, 'pure', False): snap = st.clone()
            try:
                r = h(s, st, ins, vals, name)
            except Fork:
                if snap is not None: s.restore(st, snap)
                raise
            except Pushed:
                return
            if r is NotImplemented: pass
            else:
                fr = st.frames[-1]
                if ins.res is not None: fr.env[ins.res] = r
                if ins.op == 'invoke': s.goto(st, fr, ins.a[2])
                else: fr.i += 1
                return
        f = s.mod.funcs.get(name)
        if f is None: raise Unsupported('unknown function ' + name)
        b = ir.get_body(s.mod, f)
        if b is None: raise Unsupported('external function %s (%s)' % (name, s.dem.get(name, '')[:120]))
        vals = [None if isinstance(t, ir.MetaTy) else s.val(st, fr, t, a) for t, a in args]
        # byval arguments are copied
        for i, at in enumerate(f.srets):
            if 'byval' in at:
                t = at['byval']; o = s.new_obj(st, 'byval', sizeof(t), 'alloca')
                s.memcpy(st, Ptr(o, 0), vals[i], sizeof(t)); vals[i] = Ptr(o, 0)
        s.inlined.add(name)
        s.push_frame(st, f, vals, ins.res, ins.ty, (ins.a[2], ins.a[3]) if ins.op == 'invoke' else None)

    def restore(s, st, snap):
        st.__dict__.update(snap.__dict__)

    def find_handler(s, name):
        if name in s.handler_cache: return s.handler_cache[name]
        h = s.prims.get(name)
        if h is None and name.startswith('llvm.'):
            for pre, hh in s.intrinsics:
                if name.startswith(pre): h = hh; break
            else: raise Unsupported('intrinsic ' + name)
        if h is None:
            d = s.dem.get(name, name)
            for rx, hh in s.contracts:
                if rx.search(d):
                    h = hh
                    s.used_contracts[d[:200]] = rx.pattern
                    break
        s.handler_cache[name] = h
        return h

def s_last_is_sat(s): return False
_DIVC = {}
_POW = {}
_LIN = {}; _LINV = {}; _LINB = {}; _PRODS = {}
_QUOT = {}     # quotient atom -> (dividend, divisor)
BITFN = z3.Function('bit', z3.IntSort(), z3.IntSort(), z3.BoolSort())
UITOFP = z3.Function('uitofp', z3.IntSort(), z3.RealSort())
_UF = {}
def ufn(name):
    f = _UF.get(name)
    if f is None: f = _UF[name] = z3.Function(name, z3.IntSort(), z3.IntSort())
    return f

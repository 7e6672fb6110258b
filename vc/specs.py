"""Loop invariants and function contracts stated over the real functions.

A LoopSpec cuts every loop it matches: the invariant is checked on entry, the state the loop may change is havocked to
an arbitrary one that satisfies the invariant, and the invariant (with a decreasing measure) is checked on the back
edge, where the path ends.  Universally quantified facts over an array are assumed for each element that is read and
checked for an arbitrary (skolem) element.  On the back edge everything outside the declared frame must be unchanged."""
import os, re, sys, z3
import ir, expr as X
from engine import *
from ir import Unsupported, I, PTR, res

def snapshot(e, st):
    for n, g in e.mod.globals.items():          # variables outside the frame must exist to be compared
        if g.const or n.startswith('llvm.') or n.startswith('_ZTI') or n.startswith('_ZTV'): continue
        try:
            o = e.glob_ptr(st, n).base
            if o.kind == 'fn': continue
            e.os(st, o); e.init_global(st, o)
        except Unsupported: continue
    return {i: (o.alive, dict(o.cells), dict(o.fields) if o.fields is not None else None) for i, o in st.mem.items()}

def same_val(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.base is b.base and X.same(a.off, b.off) if not isinstance(a.off, (Undef,)) else a is b
    if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)): return X.same(a, b)
    if isinstance(a, Undef) and isinstance(b, Undef): return True
    if isinstance(a, FVal) and isinstance(b, FVal): return a.e.eq(b.e)
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    return False

def check_frame(e, st, snap, allowed):
    """memory that existed at the loop head is unchanged, except the objects in `allowed` (checked by their owner)"""
    for i, (alive, cells, fields) in snap.items():
        o = st.mem[i]
        if i in allowed: continue
        if o.alive != alive: raise Bound('a loop under an invariant releases memory outside its frame')
        for k, (m, v) in cells.items():
            w = o.cells.get(k)
            if w is None or w[0] != m or not same_val(v, w[1]):
                if o.fields is not None: break
                raise Bound('a loop under an invariant writes memory outside its frame (object %d)' % i)
        else:
            if (o.fields is None) == (fields is None) and fields is not None:
                for k, c in fields.items():
                    if o.fields.get(k) is not c: raise Bound('a loop under an invariant writes an array outside its frame')
            if fields is None and o.fields is None and any(k not in cells and not reads_like(v) for k, (m, v) in o.cells.items()):
                raise Bound('a loop under an invariant writes memory outside its frame (object %d)' % i)
def reads_like(v): return True      # cells created by reading unknown bytes hold fresh values; they do not change content

class LoopSpec:
    fn = None                      # regex on the demangled function
    def matches(self, e, st, fr, header):
        d = e.dem.get(fr.f.name, fr.f.name)
        if not self.fn.search(d): return False
        lp = ir.loops(fr.f)
        return not any(header in body and h != header for h, body in lp.items())      # outermost loops only
    def arrive(self, e, st, fr, header, back, phis):
        if back and fr.cuts.get(header) is not None:
            d = fr.cuts[header]
            self.back(e, st, fr, header, phis, d)
            raise Kill()
        d = self.enter(e, st, fr, header, phis)
        st.exact = False
        d['snap'] = snapshot(e, st)
        fr.cuts[header] = d
        rep = '%s' % e.dem.get(fr.f.name, fr.f.name)[:160]
        if rep not in e.loop_report: e.loop_report.append(rep)
    def havoc_phis(self, e, st, fr, phis):
        for n in phis:
            v = fr.env[n]
            t = next(ph.ty for ph in fr.blk.phis if ph.res == n)
            t = res(t)
            if isinstance(t, ir.IntTy): fr.env[n] = e.fresh(st, 'phi', t.w) if t.w > 1 else e.fresh_bool(st, 'phi')
            else: raise Bound('loop variable of type %r under an invariant' % (t,))

# ---- arrays ------------------------------------------------------------------------------------------------------
def content(e, st, base, stride=8, n=8):
    os = e.osw(st, base)
    if os.fields is None:
        if os.cells: raise Unsupported('array content')
        os.stride = stride; os.fields = {}
    if os.stride != stride: raise Unsupported('stride')
    if (0, n) not in os.fields:
        e.field(st, base, os, 0, n); os = e.osw(st, base)
    if (0, n) not in os.fields: raise Unsupported('element layout')
    return os.fields[(0, n)]
def set_content(e, st, base, c, n=8): e.osw(st, base).fields[(0, n)] = c

OCC_BIAS = 64
def occ(e, st, c, n, x, s=0):
    """how often x occurs among the elements s+1..s+n of content c (plus a constant)"""
    if isinstance(c, LBase):
        k = ('occ', c.fn.get_id(), X.akey(s))
        g = st.gh.get(k)
        if g is None:
            g = (n, e.fresh_int(st, 'occ', OCC_BIAS, 1 << 41)); st.gh[k] = g
        nr, t = g
        d = X.sub(n, nr)
        if not isinstance(d, int) or abs(d) > 8: raise Unsupported('count over an unrelated range')
        for j in range(d): t = X.add(t, eq01(e.arr_read(st, c, X.add(X.add(s, nr), j + 1)), x))
        for j in range(-d): t = X.sub(t, eq01(e.arr_read(st, c, X.sub(X.add(s, nr), j)), x))
        return t
    if isinstance(c, LW):
        inside = X.band(X.lt(s, c.i), X.le(c.i, X.add(s, n)))
        t = occ(e, st, c.prev, n, x, s)
        old = e.arr_read(st, c.prev, c.i)
        return X.add(t, X.ite(inside, X.sub(eq01(c.v, x), eq01(old, x)), 0))
    if isinstance(c, LCopy):
        end = X.add(c.lo, c.n)
        if e.entails(st, X.band(X.le(c.lo, X.add(s, 1)), X.lt(X.add(s, n), end))): return occ(e, st, c.src, n, x, X.add(X.sub(s, c.lo), c.slo))
        if e.entails(st, X.bor(X.le(end, X.add(s, 1)), X.lt(X.add(s, n), c.lo))): return occ(e, st, c.prev, n, x, s)
        # elements of the range beyond the copied ones, one by one
        d = X.sub(X.add(s, n), X.sub(end, 1))
        if isinstance(d, int) and 0 < d <= 8 and e.entails(st, X.le(c.lo, X.add(s, 1))):
            t = occ(e, st, c, X.sub(n, d), x, s)
            for j in range(d): t = X.add(t, eq01(e.arr_read(st, c.prev, X.sub(X.add(s, n), j)), x))
            return t
        if isinstance(c.n, int) and c.n <= 8:
            t = occ(e, st, c.prev, n, x, s)
            for j in range(c.n):
                i = X.add(c.lo, j)
                inside = X.band(X.lt(s, i), X.le(i, X.add(s, n)))
                t = X.add(t, X.ite(inside, X.sub(eq01(e.arr_read(st, c.src, X.add(c.slo, j)), x), eq01(e.arr_read(st, c.prev, i), x)), 0))
            return t
        raise Unsupported('count over a copy')
    if isinstance(c, LFill) :
        raise Unsupported('count over a fill')
    raise Unsupported('count over %r' % type(c).__name__)
def eq01(a, b): return X.ite(X.eq(a, b), 1, 0)

# ---- the heap ------------------------------------------------------------------------------------------------------
KEY = z3.Function('vc_key', z3.IntSort(), z3.IntSort())
REL = z3.Function('rel', z3.IntSort(), z3.IntSort(), z3.IntSort())
def key(e, st, v): return e.mk(st, KEY(X.z(v)), 0, (1 << 64) - 1)

class Heap:
    """Contracts of heap<uint64_t, by_key, pmr::vector, Kd>: c[1..n] with parent(k) = (k + Kd - 2) / Kd.
       ok(k): key(c[k]) <= key(c[parent(k)]).

       sort_up(item at i):   requires 1 <= i <= n; ok(k) for every k != i; key(c[k]) <= key(c[parent(i)]) for the children k of i
                             ensures  ok(k) for every k; the elements are a permutation of the old ones
       sort_down(item at i): (for a ghost L, 1 <= L <= i)
                             requires 1 <= i <= n; ok(k) for every k with parent(k) >= L, parent(k) != i;
                                      key(c[k]) <= key(c[parent(i)]) for the children k of i when parent(i) >= L
                             ensures  ok(k) for every k with parent(k) >= L; permutation
       Loop invariants: the same predicates for the hole h and the lifted value v, on c[h := v]."""
    def __init__(self, Kd, verify=None, L=1):
        self.Kd = Kd; self.verify = verify; self.L = L
    def view(self, e, st, this):
        s = e.load(st, Ptr(this.base, X.add(this.off, 8)), PTR); f = e.load(st, Ptr(this.base, X.add(this.off, 16)), PTR)
        if s.base is not f.base or s.base is None: raise Unsupported('heap storage')
        if not (isinstance(s.off, int) and s.off == 0): raise Unsupported('heap storage offset')
        q, r = e.div(st, f.off, 8)
        if not (isinstance(r, int) and r == 0): raise Unsupported('heap size')
        return s.base, X.sub(q, 1)
    def parent(self, e, st, k): return e.div(st, X.add(k, self.Kd - 2), self.Kd)[0]
    def le(self, e, st, a, b): return X.le(key(e, st, a), key(e, st, b))
    def pred(self, e, st, kind, rd, k, n, i, L):
        """the quantified predicate at element k, for the item (or hole) i; rd(j) reads element j"""
        p = self.parent(e, st, k)
        rng = X.band(X.le(2, k), X.le(k, n))
        c = []
        if kind == 'all': c.append((rng, lambda: self.le(e, st, rd(k), rd(p))))
        elif kind == 'all_from': c.append((X.band(rng, X.le(L, p)), lambda: self.le(e, st, rd(k), rd(p))))
        elif kind == 'all_above': c.append((X.band(rng, X.lt(L, p)), lambda: self.le(e, st, rd(k), rd(p))))
        else:
            pi = self.parent(e, st, i)
            if kind == 'up':
                c.append((X.band(rng, X.bnot(X.eq(k, i))), lambda: self.le(e, st, rd(k), rd(p))))
                c.append((X.band(rng, X.band(X.eq(p, i), X.le(2, i))), lambda: self.le(e, st, rd(k), rd(pi))))
            else:
                c.append((X.band(X.band(rng, X.le(L, p)), X.bnot(X.eq(p, i))), lambda: self.le(e, st, rd(k), rd(p))))
                c.append((X.band(X.band(rng, X.eq(p, i)), X.le(L, pi)), lambda: self.le(e, st, rd(k), rd(pi))))
        return [X.bor(X.bnot(g), b()) for g, b in c if g is not False]
    def reader(self, e, st, c, i=None, v=None):
        def rd(j):
            x = e.arr_read(st, c, j)
            return x if i is None else e.vite(st, X.eq(j, i), v, x)
        return rd
    def forall_check(self, e, st, kind, c, n, i, v, L, what):
        k = e.fresh_int(st, 'k', 2, 1 << 41)
        for cond in self.pred(e, st, kind, self.reader(e, st, c, i if v is not None else None, v), k, n, i, L):
            e.obligation(st, cond, what)
    def forall_base(self, e, st, name, kind, n, i, v, L):
        """a fresh content whose elements 1..n satisfy the predicate"""
        e.fresh_n += 1
        fn = ufn('%s!%d' % (name, e.fresh_n))
        raw = LBase(fn, 0, (1 << 64) - 1)
        def hook(e, st, j, val):
            rd = self.reader(e, st, raw, i if v is not None else None, v)
            for cond in self.pred(e, st, kind, rd, j, n, i, L):
                if not isinstance(cond, bool): e.do_assume(st, cond)
                elif cond is False: raise Infeasible()
        return LBase(fn, 0, (1 << 64) - 1, hook)
    def over(self, prev, base, n): return LCopy(prev, 1, n, base, 1)
    # -- function contract
    def args(self, e, st, a):
        base, n = self.view(e, st, a[0])
        it = a[1]
        if it.base is not base: raise Unsupported('item outside the heap')
        i, r = e.div(st, it.off, 8)
        if not (isinstance(r, int) and r == 0): raise Unsupported('item offset')
        return base, n, i
    def call(self, which):
        up = which == 'sort_up'
        def h(e, st, ins, a, name):
            base, n, i = self.args(e, st, a)
            L = i if self.L == 'index' else 1
            kind = 'up' if up else 'down'
            x = st.gh.get('occ_x')
            if self.verify == which and not any(which in e.dem.get(f.f.name, '') for f in st.frames):
                # the body is verified: the precondition is assumed for an arbitrary heap
                g0 = X.band(X.le(1, i), X.le(i, n))
                if not isinstance(g0, bool): e.do_assume(st, g0)
                if e.query(st, True) == z3.unsat: raise Infeasible()
                if not up:
                    L = e.fresh_int(st, 'L', 1, 1 << 41); e.do_assume(st, X.le(L, i))
                prev = content(e, st, base)
                b = self.forall_base(e, st, 'pre', kind, n, i, None, L)
                c = self.over(prev, b, n)
                set_content(e, st, base, c)
                ghost = dict(base=base, n=n, i=i, L=L, v=e.arr_read(st, b, i), occ=occ(e, st, b, n, x) if x is not None else None)
                f = ir.get_body(e.mod, e.mod.funcs[name])
                e.inlined.add(name)
                e.push_frame(st, f, a, ins.res, ins.ty, (ins.a[2], ins.a[3]) if ins.op == 'invoke' else None)
                fr = st.frames[-1]; fr.cuts['_ghost'] = ghost; fr.cuts['_onret'] = self.post(which)
                raise Pushed()
            e.obligation(st, X.band(X.le(1, i), X.le(i, n)), which + ': the item is in the heap')
            c = content(e, st, base)
            self.forall_check(e, st, kind, c, n, i, None, L, which + ': the heap is ordered except at the item')
            o = occ(e, st, c, n, x) if x is not None else None
            b = self.forall_base(e, st, 'post', 'all' if up else 'all_from', n, None, None, L)
            set_content(e, st, base, self.over(c, b, n))
            if o is not None: st.gh[('occ', b.fn.get_id(), X.akey(0))] = (n, o)
            st.exact = False
            return None
        return h
    def post(self, which):
        up = which == 'sort_up'
        def h(e, st, v, fr=None):
            g = fr.cuts['_ghost']
            c = content(e, st, g['base'])
            self.forall_check(e, st, 'all' if up else 'all_from', c, g['n'], None, None, g['L'], which + ' restores the heap order')
            x = st.gh.get('occ_x')
            if x is not None: e.obligation(st, X.eq(occ(e, st, c, g['n'], x), g['occ']), which + ' permutes the elements')
        return h

def layers_until(c, stop):
    out = []
    while c is not stop:
        if not isinstance(c, LW): raise Bound('a loop under an invariant copies ranges')
        out.append(c); c = c.prev
    return out

class HeapLoop(LoopSpec):
    """the loop of sort_up / sort_down"""
    def __init__(self, heap, which):
        self.h = heap; self.which = which; self.fn = re.compile(r'chdr::heap<.*>::%s\(' % which)
        self.kind = 'up' if which == 'sort_up' else 'down'
    def matches(self, e, st, fr, header):
        return fr.cuts.get('_ghost') is not None and LoopSpec.matches(self, e, st, fr, header)
    def enter(self, e, st, fr, header, phis):
        H = self.h; g = fr.cuts['_ghost']; n, L, v = g['n'], g['L'], g['v']; x = st.gh.get('occ_x')
        holes = [p for p in phis if isinstance(fr.env[p], (int, Poly)) and e.entails(st, X.eq(fr.env[p], g['i']))]
        if not holes: raise Bound('no loop variable is the index of the item')
        hole = holes[0]
        c = content(e, st, g['base']); i = fr.env[hole]
        H.forall_check(e, st, self.kind, c, n, i, v, L, self.which + ': the loop invariant holds initially')
        if x is not None: e.obligation(st, X.eq(self.occ_hole(e, st, c, n, i, v, x), g['occ']), self.which + ': the loop starts with a permutation')
        self.havoc_phis(e, st, fr, phis)
        i = fr.env[hole]
        e.do_assume(st, X.band(X.le(1, i), X.le(i, n)))
        if self.kind == 'down': e.do_assume(st, X.le(L, i))
        b = H.forall_base(e, st, 'inv', self.kind, n, i, v, L)
        if x is not None: st.gh[('occ', b.fn.get_id(), X.akey(0))] = (n, X.add(g['occ'], X.sub(eq01(e.arr_read(st, b, i), x), eq01(v, x))))
        nc = H.over(c, b, n)
        set_content(e, st, g['base'], nc)
        return dict(hole=hole, at=i, content=nc)
    def occ_hole(self, e, st, c, n, i, v, x):
        return X.add(occ(e, st, c, n, x), X.sub(eq01(v, x), eq01(e.arr_read(st, c, i), x)))
    def back(self, e, st, fr, header, phis, d):
        H = self.h; g = fr.cuts['_ghost']; n, L, v = g['n'], g['L'], g['v']; x = st.gh.get('occ_x')
        i = fr.env[d['hole']]; c = content(e, st, g['base'])
        for w in layers_until(c, d['content']): e.obligation(st, X.band(X.le(1, w.i), X.le(w.i, n)), self.which + ': only elements of the heap are written')
        e.obligation(st, X.band(X.le(1, i), X.le(i, n)), self.which + ': the hole stays in the heap')
        if self.kind == 'down': e.obligation(st, X.le(L, i), self.which + ': the hole stays below')
        e.obligation(st, X.lt(i, d['at']) if self.kind == 'up' else X.lt(d['at'], i), self.which + ': the hole moves (termination)')
        H.forall_check(e, st, self.kind, c, n, i, v, L, self.which + ': the loop invariant is preserved')
        if x is not None: e.obligation(st, X.eq(self.occ_hole(e, st, c, n, i, v, x), g['occ']), self.which + ': an iteration permutes the elements')
        check_frame(e, st, d['snap'], {g['base'].id})

class HeapifyLoop(LoopSpec):
    """the bottom-up loop of the heap's building functions: ok(k) for every k with parent(k) above the loop variable"""
    def __init__(self, heap, fn): self.h = heap; self.fn = re.compile(fn)
    def find(self, e, st, fr):
        for v in fr.env.values():
            if isinstance(v, Ptr) and v.base is not None and isinstance(v.off, int):
                pass
        return fr.env[fr.f.params[0]]
    def enter(self, e, st, fr, header, phis):
        H = self.h; base, n = H.view(e, st, self.find(e, st, fr)); x = st.gh.get('occ_x')
        iv = [p for p in phis if isinstance(fr.env[p], (int, Poly))]
        if len(iv) != 1: raise Bound('the loop has no single index')
        i = fr.env[iv[0]]; c = content(e, st, base)
        o = occ(e, st, c, n, x) if x is not None else None
        e.obligation(st, X.le(i, n), 'heapify: the loop starts inside the heap')
        H.forall_check(e, st, 'all_above', c, n, None, None, i, 'heapify: the loop invariant holds initially')
        self.havoc_phis(e, st, fr, phis)
        j = fr.env[iv[0]]; e.do_assume(st, X.le(j, i))
        b = H.forall_base(e, st, 'heapify', 'all_above', n, None, None, j)
        if o is not None: st.gh[('occ', b.fn.get_id(), X.akey(0))] = (n, o)
        nc = H.over(c, b, n); set_content(e, st, base, nc)
        return dict(iv=iv[0], at=j, start=i, content=nc, n=n, base=base, occ=o)
    def back(self, e, st, fr, header, phis, d):
        H = self.h; x = st.gh.get('occ_x'); i = fr.env[d['iv']]; c = content(e, st, d['base'])
        e.obligation(st, X.band(X.lt(i, d['at']), X.le(0, i)), 'heapify: the loop variable decreases')
        H.forall_check(e, st, 'all_above', c, d['n'], None, None, i, 'heapify: the loop invariant is preserved')
        if x is not None: e.obligation(st, X.eq(occ(e, st, c, d['n'], x), d['occ']), 'heapify: an iteration permutes the elements')
        check_frame(e, st, d['snap'], {d['base'].id})

def temporaries(e, st, fr, header):
    """locals whose lifetime starts inside the loop"""
    ids = set()
    for b in ir.loops(fr.f)[header]:
        for ins in fr.f.blocks[b].insts:
            if ins.op == 'call' and ins.a[0][0] == 'glob' and ins.a[0][1].startswith('llvm.lifetime.start'):
                v = ins.a[1][1][1] if isinstance(ins.a[1], list) else None
                if v and v[0] == 'loc' and isinstance(fr.env.get(v[1]), Ptr): ids.add(fr.env[v[1]].base.id)
    return ids

def uses(x, out):
    if isinstance(x, tuple):
        if len(x) >= 2 and x[0] == 'loc' and isinstance(x[1], str): out.add(x[1]); return
        for y in x: uses(y, out)
    elif isinstance(x, list):
        for y in x: uses(y, out)

def live_after(f, blk, i):
    """SSA values that are live after instruction i of block blk"""
    if not hasattr(ir, '_live'): ir._live = {}
    key = (id(f), 'in')
    if key not in ir._live:
        succ = {}; gen = {}; kill = {}
        for b in f.blocks.values():
            t = b.insts[-1]
            succ[b.name] = [t.a] if t.op == 'jmp' else [t.a[1], t.a[2]] if t.op == 'br' else [t.a[2]] + [x[1] for x in t.a[3]] if t.op == 'switch' else [t.a[2], t.a[3]] if t.op == 'invoke' else []
            g = set(); k = set(p.res for p in b.phis)
            for ins in b.insts:
                u = set(); uses(ins.a, u); g |= u - k
                if ins.res is not None: k.add(ins.res)
            gen[b.name] = g; kill[b.name] = k
        lin = {b: set() for b in f.blocks}; lout = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                o = set()
                for x in succ[b]:
                    o |= lin[x]
                    for ph in f.blocks[x].phis:
                        for v, p in ph.a:
                            if p == b: uses(v, o)
                n = gen[b] | (o - kill[b])
                if o != lout[b] or n != lin[b]: lout[b] = o; lin[b] = n; ch = True
        ir._live[key] = (lin, lout)
    l = set(ir._live[key][1][blk])
    b = f.blocks[blk]
    for ins in reversed(b.insts[i + 1:]):
        if ins.res is not None: l.discard(ins.res)
        uses(ins.a, l)
    return l

def types_of(f):
    t = {}
    for b in f.blocks.values():
        for p in b.phis: t[p.res] = p.ty
        for ins in b.insts:
            if ins.res is not None: t[ins.res] = ins.ty
    return t

def vc_cut(e, st, phase, ghosts):
    """Cut a loop of the real code at a call into a contract-bearing stub (see harness/search_stub.hpp).
    0: first arrival, the caller must havoc the ghost objects and assume the invariant; the live integers that the
       surrounding loops compute are havocked here.
       (a phase is a class of states at this point that the caller tells apart; each is cut on its own)
    1: the same program point again: everything else that is live is proved unchanged; the caller checks the invariant.
    2: another program point (an ordinary call)."""
    pos = [(f.f.name, f.blk.name, f.i) for f in st.frames[:-1]]
    top = {o.id for o in st.frames[-1].allocas}
    key = ('cut', phase)
    c = st.gh.get(key)
    if c is not None and c['pos'] != pos: return 2
    ok = set(top) | set(ghosts)
    loopy = []; scoped = st.gh.get('scoped', ())
    for f in st.frames[:-1]:
        inl = [h for h, body in ir.loops(f.f).items() if f.blk.name in body]
        loopy.append(bool(inl))
        for h in inl: ok |= {i for i in temporaries(e, st, f, h) if i not in scoped}       # out of their scope here
    if not any(loopy): return 2
    names = {}
    for k, f in enumerate(st.frames[:-1]):
        for n, v in f.env.items():
            if isinstance(v, Ptr) and v.base is not None and v.base.kind == 'alloca' and any(v.base is o for o in f.allocas): names[v.base.id] = (k, f.f.name, n)
    havoc = e.opts.setdefault('cut_havoc', set())
    if c is None:
        vals = []; loc = []
        for k, f in enumerate(st.frames[:-1]):
            lv = live_after(f.f, f.blk.name, f.i); d = {}
            inl = set()
            for h, body in ir.loops(f.f).items():
                if f.blk.name in body: inl |= body
            defs = {}
            for b in inl:
                for p in f.f.blocks[b].phis: defs[p.res] = p.ty
                for ins in f.f.blocks[b].insts:
                    if ins.res is not None: defs[ins.res] = ins.ty
            for n in lv:
                if n not in f.env: continue
                v = f.env[n]
                if n in defs and isinstance(res(defs[n]), ir.IntTy) and not isinstance(v, (Ptr, Undef)):
                    w = res(defs[n]).w
                    f.env[n] = e.fresh(st, 'live', w) if w > 1 else e.fresh_bool(st, 'live')
                    loc.append((('ssa', k, n), w, v))
                else: d[n] = v
            vals.append(d)
        for i, nm in names.items():         # locals in memory that were seen to change
            if nm not in havoc: continue
            os = st.mem[i]; ok.add(i)
            if os.fields is not None: raise Bound('a loop changes an array outside its contract')
            for off, (m, v) in list(os.cells.items()):
                if isinstance(v, Ptr): raise Bound('a loop changes a pointer outside its contract')
                if isinstance(v, Undef): continue
                e.raw_store(st, next(o for o in st.frames[nm[0]].allocas if o.id == i), off, m, e.fresh(st, 'live', 8 * m))
                loc.append((('mem', nm[0], i, off, m), 8 * m, v))
        st.exact = False
        st.gh[key] = dict(pos=pos, vals=vals, snap=snapshot(e, st), top=top, loc=loc)
        st.gh['cut_last'] = key
        for f in st.frames[:-1]:
            rep = '%s' % e.dem.get(f.f.name, f.f.name)[:160]
            if any(f.blk.name in b for b in ir.loops(f.f).values()) and rep not in e.loop_report: e.loop_report.append(rep)
        return 0
    for f, d in zip(st.frames[:-1], c['vals']):
        for n, v in d.items():
            if n not in f.env or not same_val(v, f.env[n]): raise Bound('a loop carries a value outside its contract (%s in %s)' % (n, e.dem.get(f.f.name, f.f.name)[:100]))
    ok |= c['top'] | set(st.gh.get('cut_free', ())) | {i for i, nm in names.items() if nm in havoc}
    st.gh['cut_last'] = key
    ch = set()
    for i in names:
        if i in ok or i not in c['snap']: continue
        try: check_frame(e, st, {i: c['snap'][i]}, ())
        except Bound:
            if any(isinstance(v, Ptr) for m, v in st.mem[i].cells.values()): raise
            ch.add(names[i])
    if ch:
        e.stop_on_fail = False
        havoc |= ch; raise Restart()
    check_frame(e, st, c['snap'], ok)
    return 1

class Restart(Exception):
    """the loop changes a variable that was taken for a constant, or breaks a candidate for its invariant: start over without"""

def vc_locals(e, st, mode, given, bounds):
    """Candidates for what the search's own variables say: at most `always`; at most `then` if `given`; and for flags, set or not set if `given`.
    0: they hold before the loop, 1: assume them, 2: they hold after an iteration.  Those that do not hold are dropped."""
    e.stop_on_fail = False
    group, mode = divmod(mode, 8)       # several groups of candidates, each with its own bounds
    c = st.gh[st.gh['cut_last']]; drop = e.opts.setdefault('cut_drop', set())
    bad = False
    given = e.tobool(given); always, then = bounds
    for key, w, old in c['loc']:
        f = st.frames[:-1]
        if key[0] == 'ssa': name = (f[key[1]].f.name, key[2], group)
        else: name = (f[key[1]].f.name, next(n for n, p in f[key[1]].env.items() if isinstance(p, Ptr) and p.base is not None and p.base.id == key[2]), key[3], group)
        def now():
            if key[0] == 'ssa': return f[key[1]].env[key[2]]
            return e.raw_load(st, next(o for o in f[key[1]].allocas if o.id == key[2]), key[3], key[4])
        v = old if mode == 0 else now()
        if key[0] == 'ssa' and mode != 0 and key[2] not in f[key[1]].env: continue
        if isinstance(v, (Ptr, Undef)): continue
        if w == 1: b = e.tobool(v); cs = [('set', X.bor(X.bnot(given), b)), ('clear', X.bor(X.bnot(given), X.bnot(b)))]
        else:
            if z3.is_bool(v) if z3.is_expr(v) else isinstance(v, bool): v = X.from_bool(v)
            cs = [('always', X.le(v, always)), ('then', X.bor(X.bnot(given), X.le(v, then)))]
            cs.append(('positive', X.le(1, v)))
            if w == 8: cs += [('bit', X.le(v, 1)), ('set', X.bor(X.bnot(given), X.le(1, v))), ('clear', X.bor(X.bnot(given), X.le(v, 0)))]
        for k, x in cs:
            if (name, k) in drop: continue
            if mode == 1:
                if x is False: raise Infeasible()
                if not isinstance(x, bool): e.assume(st, x)
                continue
            if x is True: continue
            if x is False or e.prove(st, X.bnot(x))[0] != z3.unsat:
                drop.add((name, k)); bad = True
                if os.environ.get("VC_DEBUG"): print("dropped", name, k, mode, e.dem.get(name[0])[:60], st.trace[-4:], file=sys.stderr)
            else: e.obligation(st, x, 'a variable of the loop keeps within its bound')
    if bad: e.opts['cut_again'] = True      # start over when the run is over

class StatelessLoop(LoopSpec):
    """a search whose iterations change nothing but its own variables: integers are havocked, a pointer must be a fresh
    result of the iterated interface on every round (vc_map_next), hence as arbitrary as the first one"""
    def __init__(self, fn): self.fn = re.compile(fn)
    def enter(self, e, st, fr, header, phis):
        ptrs = {}
        for n in phis:
            ph = next(p for p in fr.blk.phis if p.res == n)
            if isinstance(res(ph.ty), PtrTy): ptrs[n] = fr.env[n]
        self.havoc_phis(e, st, fr, [n for n in phis if n not in ptrs])
        return dict(ptrs=ptrs)
    def back(self, e, st, fr, header, phis, d):
        for n, v in d['ptrs'].items():
            w = fr.env[n]
            if same_val(v, w): continue
            if not any(same_val(w, x) for x in st.gh.get('map_next', [])): raise Bound('a loop variable is not a fresh result of the search')
        ok = temporaries(e, st, fr, header)
        nexts = st.gh.get('map_next', [])
        for v in fr.env.values():      # iterator variables of the function kept in memory
            if isinstance(v, Ptr) and v.base is not None and v.base.kind == 'alloca' and v.base.id in d['snap'] and v.base.id not in ok:
                old = d['snap'][v.base.id][1]; new = st.mem[v.base.id].cells
                ch = [k for k in new if k not in old or not same_val(old[k][1], new[k][1])]
                if ch and all(any(same_val(new[k][1], x) for x in nexts) for k in ch): ok.add(v.base.id)
        check_frame(e, st, d['snap'], ok)

# ---- chains ----------------------------------------------------------------------------------------------------------
IDX = z3.Function('chain_index', z3.IntSort(), z3.IntSort())
UFN = z3.Function('any_function', z3.IntSort(), z3.IntSort(), z3.IntSort())
def chain_index(e, st, j):
    ch = st.gh.get('chain')
    if ch is not None and ch.get('arr'): return e.raw_load(st, ch['arr'], X.mul(j, ch['size']), 4)
    return e.mk(st, IDX(X.z(j)), 0, (1 << 32) - 1)
class ChainLoop(LoopSpec):
    """A loop that walks a chain of nodes of any length L: node k has index IDX(k), and a parent unless k = L.
    (Or, where the harness says so, along an array of L nodes.)
    Invariant: the loop pointer is at node k <= L, or null for k = L+1 where the loop goes on until then, and the integer loop variables are k more, or k less, than at first; and
      - where the loop appends to the returned vector: the vector has k elements more than at first, and the j-th of those is the coordinate of node j;
      - where the loop stores into it: element L-1-j is the coordinate of node j, for every j < k.
    (the coordinate of an index: any_function(axis, index), the contract of to_nd)"""
    def __init__(self, fn, es): self.fn = re.compile(fn); self.es = es
    def matches(self, e, st, fr, header): return st.gh.get('chain') is not None and LoopSpec.matches(self, e, st, fr, header)
    def node(self, e, st, ch, k, last):
        o = e.new_obj(st, 'node', ch['size'], 'heap')
        e.raw_store(st, o, ch['ioff'], 4, e.mk(st, IDX(X.z(k)), 0, (1 << 32) - 1))
        if last is True: e.raw_store(st, o, ch['poff'], 8, NULL)
        elif last is False:
            n, _ = self.node(e, st, ch, X.add(k, 1), None)
            e.raw_store(st, o, ch['poff'], 8, Ptr(n, 0)); return o, n
        return o, None
    def kind(self, e, fr, header):
        names = []
        for b in ir.loops(fr.f)[header]:
            for ins in fr.f.blocks[b].insts:
                if ins.op in ('call', 'invoke') and ins.a[0][0] == 'glob': names.append(e.dem.get(ins.a[0][1], ins.a[0][1]))
        if any('emplace_back' in n or 'push_back' in n for n in names): return 'append'
        return 'store' if any('to_nd' in n or 'operator[]' in n for n in names) else 'count'
    def layout(self): return {4: [(0, 4)], 8: [(0, 8)], 12: [(0, 8), (8, 4)]}[self.es]
    def want(self, e, st, f, j):
        r = 0
        for x in range(f[1] // 4): r = X.add(r, X.mul(e.mk(st, UFN(X.z(f[0] // 4 + x), X.z(chain_index(e, st, j))), 0, (1 << 32) - 1), 1 << (32 * x)))
        return r
    def step(self, fr, header, n):
        """does this variable count up or down?"""
        body = ir.loops(fr.f)[header]
        src = [v for ph in fr.f.blocks[header].phis if ph.res == n for v, b in ph.a if b in body]
        for b in body:
            for ins in fr.f.blocks[b].insts:
                if ins.op == 'bin' and ('loc', ins.res) in src:
                    c = next((x[1] for x in ins.a[1:3] if isinstance(x, tuple) and x[0] in ('int', 'const') and isinstance(x[1], int)), None)
                    if ins.a[0] == 'sub' or (c is not None and (c < 0 or c >= 1 << 31)): return -1
        return 1
    def fresh_content(self, e, st, f, pos, below):
        """field f of the elements m with pos(m) in [0, below) is that of node pos(m)"""
        e.fresh_n += 1
        def hook(e, st, m, v):
            j = pos(m)
            c = X.bor(X.bnot(X.band(X.le(0, j), X.lt(j, below))), X.eq(v, self.want(e, st, f, j)))
            if not isinstance(c, bool): e.do_assume(st, c)
        return LBase(ufn('route!%d' % e.fresh_n), 0, (1 << (8 * f[1])) - 1, hook)
    def buffer(self, e, st, o, pos, below):
        os = e.osw(st, o); os.cells = {}; os.stride = self.es
        os.fields = {f: self.fresh_content(e, st, f, pos, below) for f in self.layout()}
        st.gh[('stride', o.id)] = self.es; st.gh[('layout', o.id)] = self.layout()
    def words(self, e, st, v): return [e.load(st, Ptr(v.base, X.add(v.off, 8 * i)), PTR) for i in range(3)]
    def vec(self, e, st, fr):
        c = [v for v in fr.env.values() if isinstance(v, Ptr) and v.base is not None and v.base.kind == 'alloca' and v.base in fr.allocas and v.base.size == 24]
        if len(c) > 1: raise Bound('more than one vector')
        return c[0] if c else fr.env[fr.f.params[0]]
    def enter(self, e, st, fr, header, phis):
        ch = st.gh.get('chain')
        if ch is None: raise Bound('a loop over a chain outside its contract')
        L = ch['len']; kind = self.kind(e, fr, header)
        tag = '%s!%s' % (fr.f.name[-40:], header)
        k = e.mk(st, z3.Int('chain_k!' + tag), 0, (1 << 40) + 1)
        none = e.decide(st, X.keep(z3.Bool('chain_cap!' + tag))) if kind == 'append' else False
        ptrs = [n for n in phis if isinstance(fr.env[n], Ptr)]; ints = [n for n in phis if n not in ptrs]
        arr = ch.get('arr')
        if len(ptrs) > 1 or not (ptrs or arr): raise Bound('the loop over a chain has no single pointer: %s %s %s' % (fr.f.name, header, phis))
        past = tag in e.opts.get('chain_past', ()) and e.decide(st, X.eq(k, X.add(L, 1)))       # the pointer is past the last node
        if not past: e.do_assume(st, X.le(k, L))
        last = not past and e.decide(st, X.eq(k, L))
        nxt = None
        if ptrs:
            t = fr.env[ptrs[0]]
            if arr: e.obligation(st, t.base is arr and X.eq(t.off, 0), 'a loop over the nodes starts at the first')
            else: e.obligation(st, t.base is ch['first'] and X.eq(t.off, 0), 'a loop over a chain starts at the node')
            if arr: fr.env[ptrs[0]] = Ptr(arr, X.mul(k, ch['size']))
            elif past: fr.env[ptrs[0]] = NULL
            else: o, nxt = self.node(e, st, ch, k, last); fr.env[ptrs[0]] = Ptr(o, 0)
        sg = {n: self.step(fr, header, n) for n in ints}
        v0 = {n: fr.env[n] for n in ints}
        at = lambda j: {n: X.add(v0[n], j) if sg[n] > 0 else X.sub(v0[n], j) for n in ints}
        for n, v in at(k).items():
            if sg[n] < 0: e.obligation(st, X.le(k if past else L, v0[n]), 'a loop over a chain counts down no further than zero')
            fr.env[n] = v
        d = dict(tag=tag, ptr=ptrs[0] if ptrs else None, ints=ints, k=k, next=nxt, kind=kind, ok=set(), at=at)
        if kind == 'append':
            v = self.vec(e, st, fr); w = self.words(e, st, v)
            if w[0].base is not w[1].base: raise Bound('the route is not a vector')
            s0 = X.sub(w[1].off, w[0].off)
            if not isinstance(s0, int) or s0 % self.es: raise Bound('the route begins with an unknown number of elements')
            s0 //= self.es; d['s0'] = s0
            pre = {(j, f): e.raw_load(st, w[0].base, X.add(w[0].off, j * self.es + f[0]), f[1]) for j in range(s0) for f in self.layout()}; d['pre'] = pre
            if none and s0 == 0: nw = [NULL] * 3; e.do_assume(st, X.eq(k, 0))
            elif none: e.do_assume(st, X.eq(k, 0)); nw = w; d['ok'].add(w[0].base.id)
            else:
                cap = e.fresh_int(st, 'cap', 1, 1 << 40); e.do_assume(st, X.le(X.add(k, s0), cap))
                b = e.new_obj(st, 'route', X.mul(cap, self.es), 'heap')
                self.buffer(e, st, b, lambda m: X.sub(m, s0), k)
                for (j, f), x in pre.items(): e.do_assume(st, X.eq(e.raw_load(st, b, j * self.es + f[0], f[1]), x))
                nw = [Ptr(b, 0), Ptr(b, X.mul(X.add(k, s0), self.es)), Ptr(b, X.mul(cap, self.es))]; d['ok'].add(b.id)
                if w[0].base is not None: d['ok'].add(w[0].base.id)
            for i in range(3): e.store(st, Ptr(v.base, X.add(v.off, 8 * i)), PTR, nw[i])
            d['ok'].add(v.base.id)
        elif kind == 'store':
            v = self.vec(e, st, fr); w = self.words(e, st, v)
            if w[0].base is not None:
                self.buffer(e, st, w[0].base, lambda m: X.sub(X.sub(L, 1), m), k); d['ok'].add(w[0].base.id)
            d['buf'] = w[0]
        return d
    def back(self, e, st, fr, header, phis, d):
        ch = st.gh['chain']; L = ch['len']; k1 = X.add(d['k'], 1); arr = ch.get('arr')
        if d['ptr'] is not None:
            t = fr.env[d['ptr']]
            if arr: e.obligation(st, t.base is arr and X.eq(t.off, X.mul(k1, ch['size'])), 'a loop over the nodes proceeds to the next')
            else:
                e.obligation(st, t.base is d['next'] and X.eq(t.off, 0), 'a loop over a chain proceeds to the parent')
                past = e.opts.setdefault('chain_past', set())
                if t.base is None and d['tag'] not in past: e.stop_on_fail = False; past.add(d['tag']); raise Restart()
        if arr: e.obligation(st, X.le(k1, L), 'a loop over the nodes stays among them')
        for n, v in d['at'](k1).items(): e.obligation(st, X.eq(fr.env[n], v), 'a loop over a chain counts its nodes')
        if d['kind'] == 'append':
            v = self.vec(e, st, fr); w = self.words(e, st, v)
            if any(x.base is not w[0].base or x.base is None for x in w): raise Bound('the route is not a vector')
            e.obligation(st, X.band(X.band(X.eq(w[0].off, 0), X.eq(w[1].off, X.mul(X.add(k1, d['s0']), self.es))), X.band(X.le(w[1].off, w[2].off), X.le(w[2].off, w[0].base.size))), 'the route grows by one element per node')
            j = e.fresh_int(st, 'elem', 0, 1 << 40); e.do_assume(st, X.lt(j, k1)); b = w[0].base; m = X.add(j, d['s0'])
            for (i, f), x in d['pre'].items(): e.obligation(st, X.eq(e.raw_load(st, b, i * self.es + f[0], f[1]), x), 'the elements before are kept')
        elif d['kind'] == 'store':
            m = e.fresh_int(st, 'elem', 0, 1 << 40); e.do_assume(st, X.band(X.lt(m, L), X.le(X.sub(L, k1), m))); b = d['buf'].base; j = X.sub(X.sub(L, 1), m)
        if d['kind'] != 'count':
            for f in self.layout():
                e.obligation(st, X.eq(e.raw_load(st, b, X.add(X.mul(m, self.es), f[0]), f[1]), self.want(e, st, f, j)), 'the elements written are the coordinates of the nodes')
        check_frame(e, st, d['snap'], d['ok'])

# ---- options -------------------------------------------------------------------------------------------------------
def setup(o, mod):
    loops = []
    hp = o.get('heap')
    if hp:
        H = Heap(hp['Kd'], hp.get('verify'), hp.get('L', 1))
        o['contracts'].append((re.compile(r'chdr::heap<.*>::sort_up\('), H.call('sort_up')))
        o['contracts'].append((re.compile(r'chdr::heap<.*>::sort_down\('), H.call('sort_down')))
        if hp.get('verify'): loops.append(HeapLoop(H, hp['verify']))
        else: loops.append(HeapifyLoop(H, r'chdr::heap<.*>::(heap|erase)\('))
        o['user'] = dict(heap=H)
    for rx, target in o.get('replace', {}).items(): o['contracts'].insert(0, (re.compile(rx), redirect(target)))
    if o.get('chain'): loops.append(ChainLoop(o['chain']['fn'], o['chain']['es']))
    if o.get('stateless'): loops.append(StatelessLoop(o['stateless']))
    def cut(e, st, fr, header):
        for l in loops:
            if l.matches(e, st, fr, header): return l
        return None
    if loops: o['loop_cut'] = cut

def redirect(target):
    def h(e, st, ins, a, name):
        f = ir.get_body(e.mod, e.mod.funcs[target])
        e.push_frame(st, f, list(a), ins.res, ins.ty, (ins.a[2], ins.a[3]) if ins.op == 'invoke' else None)
        raise Pushed
    h.pure = True
    return h

# ---- harness primitives ---------------------------------------------------------------------------------------------
def install(eng, P):
    def prim(name):
        def deco(f): f.pure = False; P[name] = f; return f
        return deco
    @prim('vc_key')
    def _(e, st, ins, a, name): return key(e, st, a[0])
    @prim('vc_heap_order')         # the elements 1..n of this array are in heap order
    def _(e, st, ins, a, name):
        H = e.opts['user']['heap']; base = a[0].base
        c = content(e, st, base)
        set_content(e, st, base, H.over(c, H.forall_base(e, st, 'heap', 'all', a[1], None, None, 1), a[1]))
        return None
    @prim('vc_rel')                # an arbitrary binary relation
    def _(e, st, ins, a, name): return e.mk(st, REL(X.z(a[0]), X.z(a[1])), 0, 1)
    @prim('vc_chain')              # a[0] begins a chain of a[1] more nodes; offsets of their index and parent
    def _(e, st, ins, a, name):
        b = a[0].base; st.gh['chain'] = dict(arr=b, first=None, len=a[1], size=a[2]) if isinstance(a[3], int) and a[3] == (1 << 64) - 1 else dict(first=b, len=a[1], size=b.size, ioff=a[2], poff=a[3]); e.do_assume(st, X.le(a[1], 1 << 40)); return None
    @prim('vc_chain_index')        # the index of node a[0] of the chain
    def _(e, st, ins, a, name): return chain_index(e, st, a[0])
    @prim('vc_fn')                 # an arbitrary function
    def _(e, st, ins, a, name): return e.mk(st, UFN(X.z(a[0]), X.z(a[1])), 0, (1 << 32) - 1)
    @prim('vc_cut')
    def _(e, st, ins, a, name): return vc_cut(e, st, a[0], [p.base.id for p in a[1:] if isinstance(p, Ptr) and p.base is not None])
    @prim('vc_locals')
    def _(e, st, ins, a, name): return vc_locals(e, st, a[0], a[1], a[2:4])
    @prim('vc_choice')             # one of two: the harness is run with 0, and if that fails, with 1
    def _(e, st, ins, a, name): e.opts['choice_used'] = True; return e.opts.get('choice', 0)
    @prim('vc_cut_free')           # this object may change in an iteration (its contract is stated by the harness)
    def _(e, st, ins, a, name):
        st.gh['cut_free'] = st.gh.get('cut_free', []) + [a[0].base.id]; return None
    @prim('vc_end')
    def _(e, st, ins, a, name): raise Kill()
    @prim('vc_map_next')           # a pointer that an iteration of an abstract container produced
    def _(e, st, ins, a, name):
        st.gh['map_next'] = st.gh.get('map_next', []) + [a[0]]; return None
    @prim('vc_occ')                # how often a[2] occurs among the a[1] elements after the one at a[0]
    def _(e, st, ins, a, name):
        x = a[2]
        old = st.gh.get('occ_x')
        if old is not None and not X.same(old, x): raise Unsupported('counts of two values')
        st.gh['occ_x'] = x
        if a[0].base is None: return OCC_BIAS
        q, r = e.div(st, a[0].off, 8)
        if not (isinstance(r, int) and r == 0): raise Unsupported('count at an odd offset')
        return occ(e, st, content(e, st, a[0].base), a[1], x, X.sub(q, 0))

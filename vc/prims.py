"""Primitives of the harness language, LLVM intrinsics, the allocation and exception runtime.

These are the trusted base of the generator besides the instruction semantics in engine.py."""
import re, z3
import ir, expr as X
from ir import Unsupported, I, PTR, res, sizeof
from engine import *
import engine as E_

def cstr(eng, st, p):
    g = p.base.glob
    if g is None or g.init is None or g.init[0] != 'cstr': return '?'
    return g.init[1][2:-1].replace('\\00', '')

def pure(f):
    f.pure = True
    return f

def install(eng):
    P = {}
    def prim(name, pure_=True):
        def deco(f):
            f.pure = pure_
            P[name] = f
            return f
        return deco

    def nd_int(w):
        @pure
        def h(e, st, ins, a, name):
            v = e.fresh(st, 'n%d' % len(st.nd), w)
            st.nd.append(('i', v))
            return v
        return h
    P['vc_u8'] = nd_int(8); P['vc_u16'] = nd_int(16); P['vc_u32'] = nd_int(32); P['vc_u64'] = nd_int(64); P['vc_i32'] = nd_int(32)

    @prim('vc_u32_lt')      # u32 below a constant bound: gives the interval analysis something to work with
    def _(e, st, ins, a, name):
        if not isinstance(a[0], int): raise Unsupported('vc_u32_lt bound')
        v = e.fresh_int(st, 'n%d' % len(st.nd), 0, a[0] - 1)
        st.nd.append(('i', v)); return v
    P['vc_u64_lt'] = P['vc_u32_lt']

    @prim('vc_bool')
    def _(e, st, ins, a, name):
        b = e.fresh_bool(st, 'b%d' % len(st.nd))
        st.nd.append(('b', b)); return b

    @prim('vc_assume')
    def _(e, st, ins, a, name):
        c = e.tobool(a[0])
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return None
        e.do_assume(st, c)
        if e.query(st, True) == z3.unsat: raise Infeasible()
        return None

    @prim('vc_check')
    def _(e, st, ins, a, name):
        lab = cstr(e, st, a[1])
        c = e.tobool(a[0])
        e.checks = getattr(e, 'checks', 0) + 1
        if c is True:
            ob = Obligation(lab); ob.status = 'proved'; ob.backend = 'simplifier'; e.obls.append(ob); return None
        n = len(e.obls)
        if not isinstance(c, bool) and st.known.get(c.get_id()) is True:
            ob = Obligation(lab); ob.status = 'proved'; ob.backend = 'path'; e.obls.append(ob); return None
        e.obligation(st, c, lab)
        return None

    @prim('vc_cover')
    def _(e, st, ins, a, name):
        lab = cstr(e, st, a[0])
        if not e.covers.get(lab):
            r = e.query(st, True, 10000)
            e.covers[lab] = (r == z3.sat) or e.covers.get(lab, False)
            if r == z3.unknown: e.covers[lab] = 'unknown'
        return None

    @prim('vc_case')        # fork on a condition now (keeps later terms simple)
    def _(e, st, ins, a, name):
        return e.decide(st, e.tobool(a[0]))

    @prim('vc_shard')       # the number of this shard: the harness is run once per shard, which must partition the cases
    def _(e, st, ins, a, name):
        st.nd.append(('i', e.shard)); return e.shard

    @prim('vc_pin')         # case split of a value in [0, n)
    def _(e, st, ins, a, name):
        v, n = a
        if isinstance(v, int): return v
        for k in range(n - 1):
            if e.decide(st, X.eq(v, k)): return k
        e.obligation(st, X.eq(v, n - 1), 'case split is complete')
        return n - 1

    @prim('vc_nonneg', False)      # lemma: the product of two unsigned values is not negative
    def _(e, st, ins, a, name):
        x = e.load(st, a[0], I(128)); y = e.load(st, a[1], I(128))
        c = X.le(0, X.mul(x, y))
        if not isinstance(c, bool): e.do_assume(st, c)
        return None

    @prim('vc_within')       # p points into the object that b points to the start of a region of n bytes in
    def _(e, st, ins, a, name):
        if a[0].base is not a[1].base or a[0].base is None: return False
        return X.band(X.le(a[1].off, a[0].off), X.lt(a[0].off, X.add(a[1].off, a[2])))

    @prim('vc_array', False)
    def _(e, st, ins, a, name):
        n, es = a
        if not isinstance(es, int): raise Unsupported('vc_array element size')
        o = e.new_obj(st, 'array', X.mul(n, es), 'bytes')
        st.gh[('stride', o.id)] = es
        st.nd.append(('arr', (o, n, es)))
        return Ptr(o, 0)

    @prim('vc_havoc_bytes', False)
    def _(e, st, ins, a, name):
        o = e.new_obj(st, 'bytes', a[0], 'bytes')
        return Ptr(o, 0)

    @prim('vc_abstract')     # from here on the path uses contracts whose models cannot be replayed literally
    def _(e, st, ins, a, name):
        st.exact = False; return None

    @prim('vc_native')       # false here, true in the native replay build
    def _(e, st, ins, a, name): return False

    @prim('vc_symbolic')
    def _(e, st, ins, a, name): return True

    @prim('vc_unreachable')
    def _(e, st, ins, a, name):
        e.obligation(st, False, 'unreachable'); raise Kill()

    @prim('vc_layout', False)       # declare the fields of the elements of an array object
    def _(e, st, ins, a, name):
        o = a[0].base; lay = []
        i = 1
        while i + 1 < len(a): lay.append((a[i], a[i + 1])); i += 2
        st.gh[('layout', o.id)] = lay
        return None

    # ---- allocation ------------------------------------------------------------------------------------
    def alloc(e, st, n, name, align=16):
        o = e.new_obj(st, name, n, 'heap', align)
        live = st.gh.get('_live')
        if live is not None: st.gh['_live'] = live + [o]
        return Ptr(o, 0)
    eng.alloc = alloc
    @prim('vc_alloc_may_fail', False)   # from here on (or no longer) an allocation may fail with std::bad_alloc
    def _(e, st, ins, a, name): st.gh['_mayfail'] = e.tobool(a[0]); return None
    @prim('vc_live_start', False)       # from here on the live allocations are counted
    def _(e, st, ins, a, name): st.gh['_live'] = []; return None
    @prim('vc_live', False)
    def _(e, st, ins, a, name): return len(st.gh.get('_live') or [])
    @pure
    def op_new(e, st, ins, a, name):
        if st.gh.get('_mayfail'):
            b = st.gh.get('_failb')        # a fork re-executes this call: the choice is made once
            if b is None: b = st.gh['_failb'] = e.fresh_bool(st, 'fails')
            fails = e.decide(st, b); st.gh['_failb'] = None
            if fails: raise Throw(Ptr(e.new_obj(st, 'exc', 16, 'heap'), 0), '_ZTISt9bad_alloc')
            if not isinstance(a[0], int):
                e.do_assume(st, X.lt(a[0], 1 << 47))
                if e.query(st, True) == z3.unsat: raise Infeasible()
        return alloc(e, st, a[0], 'new', 16 if len(a) < 2 else (a[1] if isinstance(a[1], int) else 16))
    for n in ('_Znwm', '_Znam', 'malloc'): P[n] = op_new
    for n in ('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t'): P[n] = op_new
    @pure
    def op_del(e, st, ins, a, name):
        p = a[0]
        if p.base is None: return None
        if p.base.kind not in ('heap', 'bytes'):
            e.obligation(st, False, 'only allocated memory is released'); raise Kill()
        e.obligation(st, X.eq(p.off, 0), 'memory is released at its start')
        if len(a) > 1 and name in ('_ZdlPvm', '_ZdaPvm', '_ZdlPvmSt11align_val_t'):
            e.obligation(st, X.eq(a[1], p.base.size), 'memory is released with the size it was allocated with')
        if name in ('_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t') and p.base.name == 'new':
            e.obligation(st, X.eq(a[-1], p.base.align), 'memory is released with the alignment it was allocated with')
        e.free(st, p.base)
        live = st.gh.get('_live')
        if live is not None: st.gh['_live'] = [o for o in live if o is not p.base]
        return None
    for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'): P[n] = op_del

    # ---- exceptions ---------------------------------------------------------------------------------------
    @prim('__cxa_allocate_exception')
    def _(e, st, ins, a, name): return Ptr(e.new_obj(st, 'exc', a[0], 'heap'), 0)
    @prim('__cxa_free_exception')
    def _(e, st, ins, a, name): return None
    @prim('__cxa_throw')
    def _(e, st, ins, a, name): raise Throw(a[0], a[1].base.name)
    @prim('__cxa_begin_catch', False)
    def _(e, st, ins, a, name):
        fr = st.frames[-1]
        st.caught = st.caught + [fr.exc if fr.exc is not None else (a[0], '?')]
        return a[0]
    @prim('__cxa_end_catch', False)
    def _(e, st, ins, a, name):
        st.caught = st.caught[:-1]; return None
    @prim('__cxa_rethrow')
    def _(e, st, ins, a, name):
        raise Throw(*st.caught[-1])
    def thrower(ti):
        @pure
        def h(e, st, ins, a, name):
            raise Throw(Ptr(e.new_obj(st, 'exc', 16, 'heap'), 0), ti)
        return h
    P['_ZSt17__throw_bad_allocv'] = thrower('_ZTISt9bad_alloc')
    P['_ZSt28__throw_bad_array_new_lengthv'] = thrower('_ZTISt20bad_array_new_length')
    P['_ZSt20__throw_length_errorPKc'] = thrower('_ZTISt12length_error')
    P['_ZSt24__throw_out_of_range_fmtPKcz'] = thrower('_ZTISt12out_of_range')
    P['_ZSt20__throw_out_of_rangePKc'] = thrower('_ZTISt12out_of_range')
    P['_ZSt19__throw_logic_errorPKc'] = thrower('_ZTISt11logic_error')
    for n in ('_ZNSt9bad_allocC1Ev', '_ZNSt9bad_allocC2Ev', '_ZNSt9bad_allocD1Ev', '_ZNSt9bad_allocD2Ev', '_ZNSt9exceptionD2Ev',
              '_ZNSt12length_errorC1EPKc', '_ZNSt13runtime_errorC1EPKc', '_ZNSt11logic_errorC1EPKc', '_ZNSt16invalid_argumentC1EPKc', '_ZNSt12out_of_rangeC1EPKc'):
        P[n] = pure(lambda e, st, ins, a, name: None)
    @prim('vc_throw')        # throw an exception identified by a number
    def _(e, st, ins, a, name):
        o = e.new_obj(st, 'exc', 8, 'heap')
        e.osw(st, o).cells[0] = (4, a[0])
        raise Throw(Ptr(o, 0), '_ZTIi')
    @prim('vc_throw_bad_alloc')
    def _(e, st, ins, a, name):
        raise Throw(Ptr(e.new_obj(st, 'exc', 16, 'heap'), 0), '_ZTISt9bad_alloc')
    # std::exception_ptr: the pointer cell holds the exception object; its type travels in st.gh['exc_ti']
    @prim('_ZSt17current_exceptionv', False)
    def _(e, st, ins, a, name):
        ptr, ti = st.caught[-1]
        if ptr.base is not None: st.gh[('ti', ptr.base.id)] = ti
        e.store(st, a[0], PTR, ptr); return None
    @prim('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
    def _(e, st, ins, a, name):
        p = e.load(st, a[0], PTR)
        if p.base is None:
            e.obligation(st, False, 'rethrow of an empty exception'); raise Kill()
        raise Throw(p, st.gh.get(('ti', p.base.id), '?'))
    for n in ('_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv', '_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv'):
        P[n] = pure(lambda e, st, ins, a, name: None)
    @prim('_ZSt9terminatev')
    def _(e, st, ins, a, name):
        e.obligation(st, False, 'std::terminate is not reached'); raise Kill()
    P['abort'] = P['_ZSt9terminatev']
    @prim('__assert_fail')
    def _(e, st, ins, a, name):
        e.obligation(st, False, 'assertion holds: ' + cstr(e, st, a[0])[:100]); raise Kill()
    @prim('_ZSt21__glibcxx_assert_failPKciS0_S0_')
    def _(e, st, ins, a, name):
        e.obligation(st, False, 'library assertion holds'); raise Kill()
    @prim('__cxa_pure_virtual')
    def _(e, st, ins, a, name):
        e.obligation(st, False, 'pure virtual call'); raise Kill()
    P['__cxa_atexit'] = pure(lambda e, st, ins, a, name: 0)
    P['__cxa_guard_acquire'] = pure(lambda e, st, ins, a, name: 1)
    P['__cxa_guard_release'] = pure(lambda e, st, ins, a, name: None)

    # ---- C library -------------------------------------------------------------------------------------------
    @prim('memmove')
    def _(e, st, ins, a, name): e.memcpy(st, a[0], a[1], a[2]); return a[0]
    P['memcpy'] = P['memmove']
    @prim('memset')
    def _(e, st, ins, a, name):
        v = a[1] if not isinstance(a[1], int) else a[1] & 255
        e.memset(st, a[0], v, a[2]); return a[0]
    @prim('memcmp')
    def _(e, st, ins, a, name):
        n = a[2]
        if not isinstance(n, int): raise Unsupported('memcmp')
        i = 0
        while i < n:
            m = 4 if n - i >= 4 and n % 4 == 0 else 1
            x = e.load(st, Ptr(a[0].base, X.add(a[0].off, i)), I(8 * m)); y = e.load(st, Ptr(a[1].base, X.add(a[1].off, i)), I(8 * m))
            if not e.decide(st, X.eq(x, y)):
                # sign of the first differing byte: not needed by callers that test equality only
                return e.fresh_int(st, 'cmp', 1, 0x7fffffff)
            i += m
        return 0
    P['bcmp'] = P['memcmp']

    import specs
    specs.install(eng, P)
    eng.prims = P

    # ---- intrinsics ----------------------------------------------------------------------------------------------
    L = []
    def intr(prefix):
        def deco(f):
            f.pure = True
            L.append((prefix, f)); return f
        return deco
    def lifetime(on):
        def h(e, st, ins, a, name):
            p = a[-1]
            if isinstance(p, Ptr) and p.base is not None:
                cur = st.gh.get('scoped', frozenset())
                st.gh['scoped'] = cur | {p.base.id} if on else cur - {p.base.id}
            return None
        return h
    L.append(('llvm.lifetime.start', pure(lifetime(True)))); L.append(('llvm.lifetime.end', pure(lifetime(False))))
    for n in ('llvm.dbg', 'llvm.prefetch', 'llvm.assume', 'llvm.donothing', 'llvm.experimental.noalias', 'llvm.stackrestore', 'llvm.invariant.end'):
        L.append((n, pure(lambda e, st, ins, a, name: None)))
    L.append(('llvm.stacksave', pure(lambda e, st, ins, a, name: NULL)))
    for n in ('llvm.expect', 'llvm.launder', 'llvm.strip', 'llvm.invariant.start', 'llvm.ssa.copy'):
        L.append((n, pure(lambda e, st, ins, a, name: a[0] if name[5:11] != 'invari' else NULL)))
    @intr('llvm.memcpy')
    def _(e, st, ins, a, name): e.memcpy(st, a[0], a[1], a[2]); return None
    L.append(('llvm.memmove', _))
    @intr('llvm.memset')
    def _(e, st, ins, a, name): e.memset(st, a[0], a[1], a[2]); return None
    @intr('llvm.trap')
    def _(e, st, ins, a, name):
        e.obligation(st, False, 'trap is not reached'); raise Kill()
    @intr('llvm.eh.typeid.for')
    def _(e, st, ins, a, name):
        return e.typeid(a[0].base.name) if a[0].base is not None else 0x7fffff01
    def W(ins): return res(ins.ty).w
    @intr('llvm.umin')
    def _(e, st, ins, a, name): return a[0] if e.decide(st, X.le(a[0], a[1])) else a[1]
    @intr('llvm.umax')
    def _(e, st, ins, a, name): return a[1] if e.decide(st, X.le(a[0], a[1])) else a[0]
    @intr('llvm.smin')
    def _(e, st, ins, a, name):
        w = W(ins); return a[0] if e.decide(st, X.le(e.to_signed(st, a[0], w), e.to_signed(st, a[1], w))) else a[1]
    @intr('llvm.smax')
    def _(e, st, ins, a, name):
        w = W(ins); return a[1] if e.decide(st, X.le(e.to_signed(st, a[0], w), e.to_signed(st, a[1], w))) else a[0]
    @intr('llvm.abs')
    def _(e, st, ins, a, name):
        w = W(ins); x = e.to_signed(st, a[0], w)
        if e.decide(st, X.lt(x, 0)):
            if a[1] is True: e.obligation(st, X.lt(-(1 << (w - 1)), x), 'no signed overflow')
            x = X.neg(x)
        return e.wrap(st, x, w)
    @intr('llvm.usub.sat')
    def _(e, st, ins, a, name): return X.sub(a[0], a[1]) if e.decide(st, X.le(a[1], a[0])) else 0
    @intr('llvm.uadd.sat')
    def _(e, st, ins, a, name):
        w = W(ins); r = X.add(a[0], a[1]); return r if e.decide(st, X.lt(r, 1 << w)) else (1 << w) - 1
    def ovf(op):
        @pure
        def h(e, st, ins, a, name):
            w = res(res(ins.ty).els[0]).w
            r = X.add(a[0], a[1]) if op == 'add' else X.sub(a[0], a[1]) if op == 'sub' else X.mul(a[0], a[1])
            if op == 'mul' and not isinstance(r, int):
                o = not e.in_range(st, r, w)
                if o:
                    o = e.decide(st, X.le(1 << w, r))
                return [e.wrap(st, r, w), o]
            o = not e.decide(st, X.band(X.le(0, r), X.lt(r, 1 << w)))
            return [e.wrap(st, r, w), o]
        return h
    L.append(('llvm.uadd.with.overflow', ovf('add'))); L.append(('llvm.usub.with.overflow', ovf('sub'))); L.append(('llvm.umul.with.overflow', ovf('mul')))
    @intr('llvm.objectsize')
    def _(e, st, ins, a, name): return (1 << 64) - 1
    @intr('llvm.is.constant')
    def _(e, st, ins, a, name): return False
    @intr('llvm.ctlz')
    def _(e, st, ins, a, name):
        w = W(ins)
        if not isinstance(a[0], int): raise Unsupported('ctlz')
        return w - a[0].bit_length()
    @intr('llvm.fabs')
    def _(e, st, ins, a, name): return FVal(z3.If(a[0].e >= 0, a[0].e, -a[0].e))
    eng.intrinsics = L

"""Assumed contracts on the standard library (dependencies of /repo), used at call sites instead of their bodies.

Element-wise algorithms over uninitialised memory are replaced by their specification when the element type is one
whose construction, copy and destruction are bytewise (fundamental types, pointers, and the types a harness lists in
its `bytewise` option)."""
import re, z3
import ir, expr as X
import engine as E
from ir import Unsupported, I, PTR, res, sizeof
from engine import Ptr, OS, LBase, LConst, LFill, LCopy, UNDEF, NULL

PRIM = r'(?:bool|char|signed char|unsigned char|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|float|double|[\w:<>, ]+\*)'

def esize(eng, name):
    """element size of an element-wise algorithm: from the pointer increments of its body (or of a callee)"""
    todo = [name]; seen = set()
    while todo:
        n = todo.pop(0)
        if n in seen: continue
        seen.add(n)
        f = eng.mod.funcs.get(n)
        b = ir.get_body(eng.mod, f) if f is not None else None
        if b is None: continue
        for bl in b.blocks.values():
            for ins in bl.insts:
                if ins.op == 'gep':
                    t = ins.a[0]
                    if not isinstance(res(t), (ir.StructTy,)) or True:
                        yield sizeof(t)
        for bl in b.blocks.values():
            for ins in bl.insts:
                if ins.op in ('call', 'invoke') and ins.a[0][0] == 'glob': todo.append(ins.a[0][1])

def pdiff(eng, st, a, b):
    if a.base is not b.base: raise Unsupported('range over two objects')
    return X.sub(a.off, b.off)

def fill(eng, st, dst, n, es, val):
    """n elements of es bytes at dst become copies of the object at val"""
    tot = X.mul(n, es)
    if isinstance(n, int):
        for i in range(n): eng.memcpy(st, Ptr(dst.base, X.add(dst.off, i * es)), val, es)
        return
    o = dst.base
    eng.access(st, Ptr(o, dst.off), tot, 'write')
    v = eng.raw_load(st, val.base, val.off, es) if es in (1, 2, 4, 8) else None
    if v is None: raise Unsupported('fill of %d-byte elements' % es)
    os = eng.osw(st, o)
    if os.fields is None: eng.to_array(st, o, dst.off, es, es); os = eng.osw(st, o)
    if os.stride != es: raise Unsupported('fill stride')
    i, r = eng.fkey(st, o, os, dst.off)
    if r != 0: raise Unsupported('fill alignment')
    ks = eng.field(st, o, os, 0, es); os = eng.osw(st, o)
    for (f, m) in ks:
        os.fields[(f, m)] = LFill(os.fields[(f, m)], i, X.add(i, n), eng.extract(st, v, f, m, es))

def setup(opts, mod):
    T = opts.get('bytewise')
    T = PRIM if not T else '(?:%s|%s)' % (PRIM, T)
    cs = opts.setdefault('contracts', [])
    def add(rx):
        def deco(f): cs.append((re.compile(rx), f)); return f
        return deco
    IT = r'(?:std::move_iterator<)?(?:__gnu_cxx::__normal_iterator<)?%s(?: const)?\*?[^()]*' % T
    @add(r'^(?:[\w:<>, *]+ )?std::__uninitialized_(?:copy|move|move_if_noexcept)_a<%s, %s\*, ' % (IT, T))
    def _(e, st, ins, a, name):
        n = pdiff(e, st, a[1], a[0])
        e.memcpy(st, a[2], a[0], n); return Ptr(a[2].base, X.add(a[2].off, n))
    @add(r'^(?:[\w:<>, *]+ )?std::__relocate_a(?:_1)?<%s\*' % T)
    def _(e, st, ins, a, name):
        n = pdiff(e, st, a[1], a[0])
        e.memcpy(st, a[2], a[0], n); return Ptr(a[2].base, X.add(a[2].off, n))
    @add(r'^(?:[\w:<>, *]+ )?std::__uninitialized_fill_n_a<%s\*, ' % T)
    def _(e, st, ins, a, name):
        es = next(esize(e, name)); fill(e, st, a[0], a[1], es, a[2])
        return Ptr(a[0].base, X.add(a[0].off, X.mul(a[1], es)))
    @add(r'^(?:[\w:<>, *]+ )?std::__uninitialized_default_n_a<%s\*, ' % T)
    def _(e, st, ins, a, name):
        es = next(esize(e, name))
        e.memset(st, a[0], 0, X.mul(a[1], es))
        return Ptr(a[0].base, X.add(a[0].off, X.mul(a[1], es)))
    @add(r'^(?:[\w:<>, *]+ )?std::__copy_move<\w+, false, std::random_access_iterator_tag>::__copy_m<(?:%s)(?: const)?\*, (?:%s)\*>\(' % (T, T))
    def _(e, st, ins, a, name):       # forwards, element by element: a move of bytes unless the target lies within the source
        n = pdiff(e, st, a[1], a[0])
        if a[2].base is a[0].base: e.obligation(st, X.bor(X.le(a[2].off, a[0].off), X.le(a[1].off, a[2].off)), 'elements are not copied forwards over themselves')
        e.memcpy(st, a[2], a[0], n); return Ptr(a[2].base, X.add(a[2].off, n))
    @add(r'^void std::_Destroy<%s, ' % IT)
    def _(e, st, ins, a, name): return None
    @add(r'^std::pmr::memory_resource::~memory_resource\(\)$')
    def _(e, st, ins, a, name): return None
    @add(r'^std::pmr::get_default_resource\(\)$')
    def _(e, st, ins, a, name):
        f = e.mod.funcs.get('vc_default_resource')
        if f is None: raise Unsupported('default memory resource')
        fr = st.frames[-1]
        e.push_frame(st, ir.get_body(e.mod, f), [], ins.res, ins.ty, (ins.a[2], ins.a[3]) if ins.op == 'invoke' else None)
        raise E.Pushed()

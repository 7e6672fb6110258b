"""Reader for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for the harnesses.

Everything the deductive verifier works on is read from here; nothing is hand-written.  An instruction
form the reader does not know raises Unsupported (an error of the check, never a verdict)."""
import re

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>\s+)|(?P<cmt>;[^\n]*)|
   (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*")|
   (?P<loc>%(?:"[^"]*"|[-\w.$]+))|
   (?P<glob>@(?:"[^"]*"|[-\w.$]+))|
   (?P<com>\$(?:"[^"]*"|[-\w.$]+))|
   (?P<md>!(?:"[^"]*"|[-\w.]*))|
   (?P<attr>\#\d+)|
   (?P<str>"[^"]*")|
   (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+)|
   (?P<dots>\.\.\.)|
   (?P<word>[A-Za-z_][-\w.]*)|
   (?P<p>[\[\]{}()<>,=*:|])
''', re.X)

def tokens(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token at: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k in ('ws', 'cmt'):
            continue
        t = m.group()
        if k in ('loc', 'glob', 'com') and len(t) > 1 and t[1] == '"':
            t = t[0] + t[2:-1]
        out.append((k, t))
    return out

# ---- types -----------------------------------------------------------------
class Ty:
    __slots__ = ()
class IntTy(Ty):
    __slots__ = ('w',)
    def __init__(s, w): s.w = w
    def __repr__(s): return 'i%d' % s.w
class FloatTy(Ty):
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return s.name
class PtrTy(Ty):
    def __repr__(s): return 'ptr'
class VoidTy(Ty):
    def __repr__(s): return 'void'
class ArrTy(Ty):
    __slots__ = ('n', 'el')
    def __init__(s, n, el): s.n = n; s.el = el
    def __repr__(s): return '[%d x %r]' % (s.n, s.el)
class VecTy(Ty):
    __slots__ = ('n', 'el')
    def __init__(s, n, el): s.n = n; s.el = el
    def __repr__(s): return '<%d x %r>' % (s.n, s.el)
class StructTy(Ty):
    __slots__ = ('els', 'packed', '_lay')
    def __init__(s, els, packed): s.els = els; s.packed = packed; s._lay = None
    def __repr__(s): return '{' + ', '.join(map(repr, s.els)) + '}'
class NamedTy(Ty):
    __slots__ = ('name', 'mod')
    def __init__(s, n, mod): s.name = n; s.mod = mod
    def __repr__(s): return '%' + s.name
    def res(s):
        t = s.mod.types.get(s.name)
        if t is None:
            raise Unsupported('opaque type ' + s.name)
        return t
class FnTy(Ty):
    def __init__(s, ret, args, va): s.ret = ret; s.args = args; s.va = va
class LabelTy(Ty):
    pass
class MetaTy(Ty):
    pass

PTR = PtrTy(); VOID = VoidTy()
_ints = {}
def I(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = IntTy(w)
    return t

def res(t):
    while isinstance(t, NamedTy):
        t = t.res()
    return t

FSZ = {'half': (2, 2), 'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'fp128': (16, 16)}

def size_align(t):
    t = res(t)
    if isinstance(t, IntTy):
        b = (t.w + 7) // 8
        a = 1
        while a < b and a < 16:
            a *= 2
        return ((b + a - 1) // a * a if t.w > 1 else 1, a)
    if isinstance(t, PtrTy): return (8, 8)
    if isinstance(t, FloatTy): return FSZ[t.name]
    if isinstance(t, ArrTy):
        s, a = size_align(t.el)
        return (s * t.n, a)
    if isinstance(t, VecTy):
        s, a = size_align(t.el)
        tot = s * t.n
        al = 1
        while al < tot: al *= 2
        return (al, al)
    if isinstance(t, StructTy):
        return layout(t)[0:2]
    raise Unsupported('size of %r' % t)

def layout(t):
    if t._lay is None:
        off = 0; al = 1; offs = []
        for e in t.els:
            s, a = size_align(e)
            if t.packed: a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        t._lay = ((off + al - 1) // al * al, al, offs)
    return t._lay

def sizeof(t): return size_align(t)[0]

# ---- operands ---------------------------------------------------------------
# ('loc', name) ('glob', name) ('int', v) ('null',) ('undef',) ('zero',) ('float', txt)
# ('agg', [ (ty, op) ]) ('cexpr', opname, ...) ('bool', b) ('cstr', bytes) ('md',)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'text')
    def __init__(s, op, a, ty=None): s.op = op; s.a = a; s.res = None; s.ty = ty; s.text = ''
    def __repr__(s): return s.text

class Block:
    __slots__ = ('name', 'insts', 'phis')
    def __init__(s, n): s.name = n; s.insts = []; s.phis = []

class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'va', 'loops', 'ptypes', 'srets')
    def __init__(s): s.blocks = None; s.loops = None

class Global:
    __slots__ = ('name', 'ty', 'init', 'const')

PARAM_ATTRS = {'noundef','nonnull','zeroext','signext','noalias','nocapture','readonly','readnone','writeonly','immarg','returned',
  'inreg','swiftself','nofree','nest','allocptr','noext','dead_on_unwind','writable','allocalign','inalloca'}
PAREN_ATTRS = {'dereferenceable','dereferenceable_or_null','align','sret','byval','byref','elementtype','preallocated','range','initializes','allocsize','memory','captures','nofpclass','vscale_range'}
CC = {'fastcc','ccc','coldcc','tailcc','cc','x86_thiscallcc'}
LINK = {'private','internal','linkonce','linkonce_odr','weak','weak_odr','external','common','appending','extern_weak','available_externally',
        'dso_local','dso_preemptable','hidden','protected','default','dllimport','dllexport','unnamed_addr','local_unnamed_addr','thread_local','externally_initialized'}
FLAGS = {'nuw','nsw','exact','inbounds','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','volatile','tail','musttail','notail','disjoint','nneg','atomic'}

class P:
    """token cursor"""
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.mod = mod
    def peek(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else ('eof', '')
    def next(s):
        r = s.peek(); s.i += 1; return r
    def at(s, txt): return s.peek()[1] == txt
    def acc(s, txt):
        if s.peek()[1] == txt:
            s.i += 1; return True
        return False
    def exp(s, txt):
        r = s.next()
        if r[1] != txt:
            raise Unsupported('expected %s got %r in %s' % (txt, r, ' '.join(x[1] for x in s.t[:40])))
    def type(s):
        k, t = s.next()
        if k == 'word':
            if t[0] == 'i' and t[1:].isdigit(): ty = I(int(t[1:]))
            elif t == 'ptr':
                ty = PTR
                if s.at('addrspace'):
                    raise Unsupported('addrspace')
            elif t == 'void': ty = VOID
            elif t in FSZ: ty = FloatTy(t)
            elif t == 'label': ty = LabelTy()
            elif t in ('metadata', 'token'): ty = MetaTy()
            elif t == 'opaque': ty = StructTy([], False)
            else: raise Unsupported('type ' + t)
        elif k == 'loc': ty = NamedTy(t[1:], s.mod)
        elif t == '[':
            n = int(s.next()[1]); s.exp('x'); el = s.type(); s.exp(']'); ty = ArrTy(n, el)
        elif t == '{':
            ty = s.struct(False)
        elif t == '<':
            if s.acc('{'):
                ty = s.struct(True); s.exp('>')
            else:
                n = int(s.next()[1]); s.exp('x'); el = s.type(); s.exp('>'); ty = VecTy(n, el)
        else: raise Unsupported('type tok ' + t)
        while s.at('('):      # function type
            s.next(); args = []; va = False
            while not s.acc(')'):
                if s.acc('...'): va = True
                else: args.append(s.type()); s.attrs()
                s.acc(',')
            ty = FnTy(ty, args, va)
        return ty
    def struct(s, packed):
        els = []
        while not s.acc('}'):
            els.append(s.type()); s.acc(',')
        return StructTy(els, packed)
    def attrs(s):
        """skip parameter/return attributes; return dict of interesting ones"""
        r = {}
        while True:
            k, t = s.peek()
            if k == 'word' and t in PARAM_ATTRS: s.next()
            elif k == 'word' and t in PAREN_ATTRS:
                s.next()
                if s.at('('):
                    d = 0; start = s.i
                    while True:
                        x = s.next()[1]
                        if x == '(': d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0: break
                    if t in ('sret', 'byval'):
                        q = P(s.t[start + 1:s.i - 1], s.mod); r[t] = q.type()
                elif t == 'align': s.next()
            elif k in ('attr', 'str'):
                s.next()
                if k == 'str' and s.acc('='): s.next()
            else: return r
    def value(s, ty):
        k, t = s.next()
        if k == 'loc': return ('loc', t[1:])
        if k == 'glob': return ('glob', t[1:])
        if k == 'num':
            if isinstance(res(ty), FloatTy): return ('float', t)
            return ('int', int(t))
        if k == 'cstr': return ('cstr', t)
        if k == 'md':
            d = 0
            if s.at('('):
                while True:
                    x = s.next()[1]
                    if x == '(': d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0: break
            return ('md',)
        if k == 'word':
            if t == 'true': return ('int', 1)
            if t == 'false': return ('int', 0)
            if t == 'null': return ('null',)
            if t in ('undef', 'poison'): return ('undef',)
            if t == 'zeroinitializer': return ('zero',)
            if t == 'none': return ('null',)
            return s.cexpr(t)
        if t in '[{':
            return s.agg(']' if t == '[' else '}')
        if t == '<':
            if s.acc('{'):
                r = s.agg('}'); s.exp('>'); return r
            return s.agg('>')
        raise Unsupported('value ' + t)
    def agg(s, end):
        els = []
        while not s.acc(end):
            ty = s.type(); els.append((ty, s.value(ty))); s.acc(',')
        return ('agg', els)
    def tv(s):
        ty = s.type(); a = s.attrs(); return (ty, s.value(ty))
    def cexpr(s, op):
        while s.peek()[1] in FLAGS or s.peek()[1] in ('inrange',):
            s.next()
            if s.at('('): pass
        if op == 'getelementptr':
            # optional inrange(...)
            if s.at('inrange'):
                s.next()
            s.exp('('); base = s.type(); s.exp(','); ops = []
            while True:
                s.acc('inrange')
                ops.append(s.tv())
                if s.acc(')'): break
                s.exp(',')
            return ('cgep', base, ops)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.exp('('); v = s.tv(); s.exp('to'); t = s.type(); s.exp(')')
            return ('ccast', op, v, t)
        if op in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            s.exp('('); a = s.tv(); s.exp(','); b = s.tv(); s.exp(')')
            return ('cbin', op, a, b)
        if op == 'icmp':
            pr = s.next()[1]; s.exp('('); a = s.tv(); s.exp(','); b = s.tv(); s.exp(')')
            return ('cicmp', pr, a, b)
        if op in ('dso_local_equivalent', 'no_cfi', 'blockaddress', 'select'):
            raise Unsupported('cexpr ' + op)
        raise Unsupported('cexpr ' + op)

class Module:
    def __init__(s):
        s.types = {}; s.funcs = {}; s.globals = {}; s.aliases = {}

def parse(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    bodies = []
    while i < n:
        ln = lines[i]
        if ln.startswith('%'):
            p = P(tokens(ln), mod); nm = p.next()[1][1:]; p.exp('='); p.exp('type')
            if p.at('opaque'): mod.types[nm] = None
            else: mod.types[nm] = p.type()
        elif ln.startswith('@'):
            parse_global(ln, mod)
        elif ln.startswith('declare'):
            parse_fn_head(ln, mod)
        elif ln.startswith('define'):
            f = parse_fn_head(ln, mod)
            j = i + 1
            while lines[j] != '}': j += 1
            bodies.append((f, lines[i + 1:j]))
            i = j
        i += 1
    mod.bodies = {f.name: b for f, b in bodies}
    return mod

def parse_global(ln, mod):
    try:
        p = P(tokens(ln), mod)
    except Unsupported:
        return
    nm = p.next()[1][1:]; p.exp('=')
    g = Global(); g.name = nm; g.const = False; g.init = None; g.ty = None
    ext = False
    while True:
        k, t = p.peek()
        if t in LINK:
            if t in ('external', 'extern_weak'): ext = True
            p.next()
            if t == 'thread_local' and p.at('('):
                p.next(); p.next(); p.next()
        elif t == 'addrspace': raise Unsupported('addrspace')
        else: break
    k, t = p.next()
    if t == 'alias':
        p.type(); p.exp(',')
        ty = p.type(); v = p.value(ty)
        mod.aliases[nm] = v
        return
    if t == 'ifunc': return
    g.const = (t == 'constant')
    g.ty = p.type()
    if not ext and p.peek()[0] != 'eof' and not p.at(','):
        g.init = p.value(g.ty)
    mod.globals[nm] = g

def parse_fn_head(ln, mod):
    p = P(tokens(ln.rstrip('{ ')), mod)
    p.next()
    while p.peek()[1] in LINK or p.peek()[1] in CC: p.next()
    p.attrs()
    f = Func(); f.ret = p.type()
    f.name = p.next()[1][1:]
    p.exp('(')
    f.params = []; f.ptypes = []; f.va = False; f.srets = []
    while not p.acc(')'):
        if p.acc('...'): f.va = True; continue
        ty = p.type(); at = p.attrs()
        nm = None
        if p.peek()[0] == 'loc': nm = p.next()[1][1:]
        if nm is None: nm = str(len(f.params))
        f.params.append(nm); f.ptypes.append(ty); f.srets.append(at)
        p.acc(',')
    mod.funcs[f.name] = f
    return f

LBL = re.compile(r'^(?:"([^"]*)"|([-\w.$]+)):')

def get_body(mod, f):
    if f.blocks is not None: return f
    lines = mod.bodies.get(f.name)
    if lines is None: return None
    f.blocks = {}; f.order = []
    cur = None
    # join continuation lines (switch, landingpad clauses, invoke)
    joined = []
    buf = None
    for ln in lines:
        if not ln.strip(): continue
        m = LBL.match(ln)
        if m:
            joined.append(ln); continue
        st = ln.strip()
        if ln.startswith('  ') and (ln.startswith('    ') or st == ']' or st.startswith('],') or st.startswith('to label') ) and joined:
            joined[-1] += ' ' + st
        else:
            joined.append(ln)
    for ln in joined:
        m = LBL.match(ln)
        if m:
            nm = m.group(1) or m.group(2)
            cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm); continue
        if cur is None:
            nm = str(sum(1 for x in f.params if x.isdigit()))
            cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
        ins = parse_inst(ln, mod)
        if ins is None: continue
        ins.text = ln.strip()
        if ins.op == 'phi': cur.phis.append(ins)
        else: cur.insts.append(ins)
    return f

def parse_inst(ln, mod):
    p = P(tokens(ln), mod)
    resn = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        resn = p.next()[1][1:]; p.next()
    ins = _inst(p)
    ins.res = resn
    return ins

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr'}
FBIN = {'fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}

def _inst(p):
    k, op = p.next()
    fl = set()
    while p.peek()[1] in FLAGS: fl.add(p.next()[1])
    if op in ('tail', 'musttail', 'notail'):
        return _inst(p)
    if op in BIN or op in FBIN:
        ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
        return Inst('bin' if op in BIN else 'fbin', (op, a, b, fl), ty)
    if op == 'fneg':
        ty, a = p.tv(); return Inst('fneg', (a,), ty)
    if op in CAST:
        ty, a = p.tv(); p.exp('to'); t2 = p.type()
        return Inst('cast', (op, ty, a), t2)
    if op in ('icmp', 'fcmp'):
        pr = p.next()[1]
        while pr in FLAGS: pr = p.next()[1]
        ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
        return Inst(op, (pr, ty, a, b), I(1))
    if op == 'load':
        ty = p.type(); p.exp(','); pt, a = p.tv(); return Inst('load', (a,), ty)
    if op == 'store':
        ty, v = p.tv(); p.exp(','); pt, a = p.tv(); return Inst('store', (ty, v, a))
    if op == 'alloca':
        p.acc('inalloca'); ty = p.type(); n = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                n = p.tv()
        return Inst('alloca', (ty, n), PTR)
    if op == 'getelementptr':
        base = p.type(); p.exp(','); ops = [p.tv()]
        while p.acc(','):
            if p.peek()[0] == 'md': break
            ops.append(p.tv())
        return Inst('gep', (base, ops), PTR)
    if op == 'phi':
        ty = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(ty); p.exp(','); b = p.next()[1]; p.exp(']')
            inc.append((v, b[1:]))
            if not p.acc(','): break
            if p.peek()[0] == 'md': break
        return Inst('phi', inc, ty)
    if op == 'select':
        c = p.tv(); p.exp(','); a = p.tv(); p.exp(','); b = p.tv()
        return Inst('select', (c[1], a[1], b[1]), a[0])
    if op == 'br':
        if p.acc('label'): return Inst('jmp', p.next()[1][1:])
        ty, c = p.tv(); p.exp(','); p.exp('label'); t = p.next()[1][1:]; p.exp(','); p.exp('label'); e = p.next()[1][1:]
        return Inst('br', (c, t, e))
    if op == 'switch':
        ty, v = p.tv(); p.exp(','); p.exp('label'); d = p.next()[1][1:]; p.exp('[')
        cs = []
        while not p.acc(']'):
            cv = p.tv(); p.exp(','); p.exp('label'); cs.append((cv[1][1], p.next()[1][1:]))
        return Inst('switch', (ty, v, d, cs))
    if op == 'ret':
        if p.acc('void'): return Inst('ret', None)
        ty, v = p.tv(); return Inst('ret', (ty, v))
    if op == 'unreachable': return Inst('unreachable', None)
    if op in ('call', 'invoke'):
        while p.peek()[1] in CC: p.next()
        p.attrs()
        ty = p.type()
        if isinstance(ty, FnTy): ty = ty.ret
        k, t = p.next()
        if k == 'glob': cal = ('glob', t[1:])
        elif k == 'loc': cal = ('loc', t[1:])
        elif t == 'asm':
            return Inst('asm', None, ty)
        else:
            raise Unsupported('callee ' + t)
        p.exp('('); args = []
        while not p.acc(')'):
            aty = p.type(); at = p.attrs()
            if isinstance(aty, MetaTy):
                # skip the metadata operand
                d = 0
                while not (d == 0 and p.peek()[1] in (',', ')')):
                    x = p.next()[1]
                    if x in '([{': d += 1
                    elif x in ')]}': d -= 1
                args.append((aty, ('md',)))
            else:
                args.append((aty, p.value(aty)))
            p.acc(',')
        if op == 'call': return Inst('call', (cal, args), ty)
        while p.peek()[1] != 'to': p.next()
        p.exp('to'); p.exp('label'); nb = p.next()[1][1:]; p.exp('unwind'); p.exp('label'); ub = p.next()[1][1:]
        return Inst('invoke', (cal, args, nb, ub), ty)
    if op == 'landingpad':
        ty = p.type(); cl = []; cleanup = False
        while p.peek()[0] == 'word':
            w = p.next()[1]
            if w == 'cleanup': cleanup = True
            elif w == 'catch': cl.append(('catch', p.tv()[1]))
            elif w == 'filter': cl.append(('filter', p.tv()[1]))
        return Inst('landingpad', (cleanup, cl), ty)
    if op == 'resume':
        return Inst('resume', p.tv())
    if op == 'extractvalue':
        ty, v = p.tv(); idx = []
        while p.acc(','):
            if p.peek()[0] != 'num': break
            idx.append(int(p.next()[1]))
        return Inst('extractvalue', (ty, v, idx))
    if op == 'insertvalue':
        ty, v = p.tv(); p.exp(','); t2, v2 = p.tv(); idx = []
        while p.acc(','):
            if p.peek()[0] != 'num': break
            idx.append(int(p.next()[1]))
        return Inst('insertvalue', (v, t2, v2, idx), ty)
    if op == 'freeze':
        ty, v = p.tv(); return Inst('freeze', (v,), ty)
    if op == 'fence': return Inst('nop', None)
    raise Unsupported('instruction ' + op)

def loops(f):
    """natural loop headers: name -> set of blocks of the loop"""
    if f.loops is not None: return f.loops
    succ = {}
    for b in f.blocks.values():
        t = b.insts[-1]
        if t.op == 'jmp': s = [t.a]
        elif t.op == 'br': s = [t.a[1], t.a[2]]
        elif t.op == 'switch': s = [t.a[2]] + [x[1] for x in t.a[3]]
        elif t.op == 'invoke': s = [t.a[2], t.a[3]]
        else: s = []
        succ[b.name] = s
    order = f.order
    entry = order[0]
    # dominators
    pred = {b: [] for b in order}
    for b, ss in succ.items():
        for x in ss: pred[x].append(b)
    seen = []; st = [entry]; vis = set()
    while st:
        b = st.pop()
        if b in vis: continue
        vis.add(b); seen.append(b); st.extend(succ[b])
    dom = {b: set(seen) for b in seen}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in seen:
            if b == entry: continue
            ps = [dom[x] for x in pred[b] if x in vis]
            nd = set.intersection(*ps) | {b} if ps else {b}
            if nd != dom[b]: dom[b] = nd; ch = True
    res_ = {}
    for b in seen:
        for x in succ[b]:
            if x in dom[b]:
                body = res_.setdefault(x, {x})
                w = [b]
                while w:
                    y = w.pop()
                    if y in body: continue
                    body.add(y)
                    w.extend(z for z in pred[y] if z in vis)
    f.loops = res_
    return res_

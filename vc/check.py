#!/usr/bin/env python3
"""check.py PROPERTY: generate and discharge the obligations of one property from /repo's current headers.

 1. every harness file that names the property (VC(PROP, name)) is compiled against /repo to LLVM IR,
 2. every proof harness is run through the VC generator (one process each) and each obligation is discharged by z3/cvc5,
 3. an obligation that is not discharged is concretised: the model is replayed against the native build, and the
    property's native searches are run; the VIOLATION line says when neither gives a failing input,
 4. native bounded stand-ins (VCB) run too; they are reported as bounded and never counted as proved,
 5. evidence/<PROP>.json is rewritten from what this run measured."""
import sys, os, re, json, time, subprocess, tempfile, shutil, glob, collections, hashlib, signal
import multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'vc'))
sys.setrecursionlimit(20000)
import ir, engine
import contracts, specs

CXX = ['clang++', '-std=c++17', '-I' + REPO, '-I' + os.path.join(V, 'harness'), '-fno-access-control', '-w']
NCXX = ['clang++', '-std=c++17', '-O1', '-g1', '-DVC_NATIVE', '-I' + REPO, '-I' + os.path.join(V, 'harness'), '-fno-access-control', '-w',
        '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=null,alignment,vptr']

def sources(prop):
    out = {}
    for f in sorted(glob.glob(os.path.join(V, 'harness', '*.cpp'))):
        if f.endswith('vc_native.cpp'): continue
        names = re.findall(r'^\s*(VC|VCN|VCB)\(\s*%s\s*,\s*(\w+)\s*\)' % prop, open(f).read(), re.M)
        if names: out[f] = [(k, prop + '__' + n) for k, n in names]
    return out

def opts_of(src):
    """// vc-opts: {json} lines of a harness file; keys are harness-name regexes"""
    o = {}
    for m in re.finditer(r'^// vc-opts (\S+) (\{.*\})$', open(src).read(), re.M): o[m.group(1)] = json.loads(m.group(2))
    return o

def compile_ir(src, prop, tmp):
    b = os.path.join(tmp, os.path.basename(src)[:-4])
    xo = re.findall(r'^// vc-cxx (.*)$', open(src).read(), re.M)
    extra = [x for l in xo for x in l.replace('@V', V).split()]
    t = time.time()
    subprocess.run(CXX + extra + ['-DVC_PROP_%s' % prop, '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-S', '-emit-llvm', src, '-o', b + '.0.ll'],
                   check=True, capture_output=True, text=True, timeout=300)
    subprocess.run(['opt', '-passes=function(sroa,early-cse,simplifycfg<no-speculate-blocks;bonus-inst-threshold=0>)', '-S', b + '.0.ll', '-o', b + '.ll'], check=True, capture_output=True, text=True, timeout=300)
    return b + '.ll', time.time() - t

def worker(mod, src, name, opts, q):
    t = time.time()
    r = dict(name=name, obls=[], err=None, covers={}, inlined=[], used=[], stats={}, wall=0)
    e = None
    import copy
    def attempt(choice):
        nonlocal e
        keep = dict(cut_havoc=set(), cut_drop=set(), chain_past=set(), choice=choice)
        for _ in range(60):
            o = copy.deepcopy(opts); o.update(keep)
            contracts.setup(o, mod); specs.setup(o, mod)
            e = engine.Engine(mod, o)
            try: e.run('vch_' + name.split('#')[0])
            except specs.Restart: continue
            except (ir.Unsupported, engine.Bound) as x:
                if not o.get('cut_again'): return x, o
            if o.get('cut_again'): continue
            return None, o
        raise engine.Bound('no end of restarts')
    try:
        import z3
        err, o = attempt(0)
        if o.get('choice_used') and (err is not None or any(b.status != 'proved' for b in e.obls)):
            e0 = e; err1, _ = attempt(1)
            if err1 is None and all(b.status == 'proved' for b in e.obls): err = None
            else: e = e0
        if err is not None: raise err
    except ir.Unsupported as x: r['err'] = 'outside the generator: %s' % x
    except engine.Bound as x: r['err'] = 'no invariant: %s' % x
    except RecursionError: r['err'] = 'recursion'
    except Exception as x:
        import traceback
        r['err'] = 'internal: %s' % ' | '.join(traceback.format_exc().strip().split('\n')[-7:])
    if e is not None:
        r['obls'] = [dict(label=b.label, status=b.status, t=b.time, be=b.backend, exact=b.exact, where=b.where, nd=b.nd, tr=b.smt) for b in e.obls]
        r['triv'] = getattr(e, 'triv', 0)
        r['covers'] = dict(e.covers); r['inlined'] = sorted(e.dem.get(n, n) for n in e.inlined); r['used'] = sorted(e.used_contracts)
        r['stats'] = dict(e.stats); r['loops'] = getattr(e, 'loop_report', [])
    r['wall'] = time.time() - t
    q.put(r)

def run_proofs(jobs, limit, ncpu=8):
    """jobs: (mod, src, name, opts)"""
    q = mp.Queue(); todo = list(jobs); live = {}; res = []
    while todo or live:
        while todo and len(live) < ncpu:
            j = todo.pop(0)
            p = mp.Process(target=worker, args=(j[0], j[1], j[2], j[3], q)); p.start(); live[j[2]] = (p, time.time())
        try:
            r = q.get(timeout=0.2)
            res.append(r); p, _ = live.pop(r['name']); p.join()
        except Exception: pass
        for n, (p, t0) in list(live.items()):
            if not p.is_alive() or time.time() - t0 > limit:
                try:
                    r = q.get(timeout=0.5); res.append(r)
                    if r['name'] in live: live.pop(r['name'])[0].join()
                    continue
                except Exception: pass
                if n in live:
                    if p.is_alive(): p.kill()
                    live.pop(n); res.append(dict(name=n, obls=[], err='the solver gave no answer in the time limit' if time.time() - t0 > limit else 'worker died', covers={}, inlined=[], used=[], stats={}, wall=time.time() - t0))
    return res

def build_native(src, prop, tmp):
    out = os.path.join(tmp, os.path.basename(src)[:-4] + '.native')
    if os.path.exists(out): return out
    xo = re.findall(r'^// vc-ncxx (.*)$', open(src).read(), re.M)
    extra = [x for l in xo for x in l.replace('@V', V).split()]
    p = subprocess.run(NCXX + extra + ['-DVC_PROP_%s' % prop, '-DVC_SOURCE="%s"' % src, os.path.join(V, 'harness', 'vc_native.cpp'), '-o', out], capture_output=True, text=True, timeout=400)
    if p.returncode: raise RuntimeError('native build of %s failed:\n%s' % (src, p.stderr[-3000:]))
    return out

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
def native(cmd, limit):
    nol = ['setarch', '-R'] if shutil.which('setarch') and subprocess.run(['setarch', '-R', 'true'], capture_output=True).returncode == 0 else []
    try:
        p = subprocess.run(nol + cmd, capture_output=True, text=True, timeout=limit, env=NENV, errors='replace')
        return p.returncode, p.stdout[-6000:] + p.stderr[-6000:]
    except subprocess.TimeoutExpired as x:
        return -9, 'time limit of %ds\n' % limit + ((x.stdout or b'').decode(errors='replace')[-3000:] if x.stdout else '')

def nd_text(nd):
    out = []
    for v in nd or []:
        out.append('A' + v['hex'] if isinstance(v, dict) else str(v))
    return ' '.join(out)

def known(prop):
    ks = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\S+) match=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: ks.append((re.compile(m.group(2)), m.group(3)))
    return ks

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'): tier = a
    only = [a[7:] for a in sys.argv[2:] if a.startswith('--only=')]
    verbose = '-v' in sys.argv
    t0 = time.time()
    man = json.load(open(os.path.join(V, 'vc', 'props.json'))).get(prop, {})
    budget = man.get('budget', {}).get(tier, 240 if tier == 'quick' else 700)
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    evd = os.environ.get('VC_EVIDENCE', os.path.join(V, 'evidence')); os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    rc = 2
    try:
        rc = check(prop, tier, seed, man, budget, tmp, evd, only, verbose, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def check(prop, tier, seed, man, budget, tmp, evd, only, verbose, t0):
    srcs = sources(prop)
    bnd = {}; shards = {}; proofs = []; searches = []; bounded = []; broken = []; comp_t = 0
    for src, names in srcs.items():
        ps = [n for k, n in names if k == 'VC' and (not only or any(re.search(x, n) for x in only))]
        searches += [(src, n) for k, n in names if k == 'VCN']
        bounded += [(src, n) for k, n in names if k == 'VCB' and (not only or any(re.search(x, n) for x in only))]
        if not ps: continue
        try:
            ll, ct = compile_ir(src, prop, tmp); comp_t += ct
            mod = ir.parse(open(ll).read())
        except subprocess.CalledProcessError as x:
            broken.append((src, 'the harness does not compile against the tree:\n' + (x.stderr or '')[-2500:])); continue
        except ir.Unsupported as x:
            broken.append((src, 'outside the generator: %s' % x)); continue
        op = opts_of(src)
        for n in ps:
            o = {}
            for rx, d in op.items():
                if re.search(rx, n): o.update(d)
            o.setdefault('time', budget)
            if 'bounded' in o: bnd[n] = o['bounded']
            if o.pop('thorough_only', False) and tier != 'thorough': continue
            k = o.pop('shards', 1); shards[n] = k
            for i in range(k): proofs.append((mod, src, n if k == 1 else '%s#%d' % (n, i), dict(o, shard=i)))
    # native stand-ins start building meanwhile (no threads before fork: build in a subprocess)
    nat_procs = {}
    for src in sorted({s for s, _ in bounded}):
        nat_procs[src] = mp.Process(target=lambda s=src: build_native(s, prop, tmp)); nat_procs[src].start()
    results = run_proofs(proofs, budget + 30, man.get('cpus', 8) if not nat_procs else 7)
    for p in nat_procs.values(): p.join()
    results.sort(key=lambda r: r['name'])
    src_of = {n: s for _, s, n, _ in proofs}
    need_cov = {}
    for s in srcs: pass
    total = disch = btotal = bdisch = 0; fails = []; by_be = collections.Counter(); stime = 0.0; fn = set(); used = set(); labels = collections.Counter(); triv = 0; loops = []
    for r in results:
        isb = r['name'].split('#')[0] in bnd
        if isb: btotal += len(r['obls'])
        else: total += len(r['obls'])
        for b in r['obls']:
            stime += b['t']
            if b['status'] == 'proved' and isb: bdisch += 1
            elif b['status'] == 'proved': disch += 1; by_be[b['be']] += 1; labels[b['label']] += 1
            else: fails.append((r, b))
        triv += r.get('triv', 0)
        if r['err']: fails.append((r, dict(label=r['err'], status='undischarged', exact=False, where='', nd=None, tr='')))
        elif not r['obls'] and not r.get('triv'): fails.append((r, dict(label='vacuous: no obligation was generated', status='undischarged', exact=False, where='', nd=None, tr='')))
        elif not any(v for v in r['covers'].values()): fails.append((r, dict(label='vacuous: no path reaches the end of the harness', status='undischarged', exact=False, where='', nd=None, tr='')))
        for c, v in r['covers'].items():
            if v is False: fails.append((r, dict(label='vacuous: %s is unreachable' % c, status='undischarged', exact=False, where='', nd=None, tr='')))
        fn |= set(r['inlined']); used |= set(r['used']); loops += r.get('loops') or []
        if verbose: print('  %-50s obligations=%d paths=%d %.1fs %s %s' % (r['name'], len(r['obls']), r['stats'].get('paths', 0), r['wall'], ','.join(r['covers']), r['err'] or ''))
    viol = []       # (key, label, where, replay dict, concrete?)
    # native bounded stand-ins and concretisation
    bres = []
    left = lambda: max(10.0, man.get('wall', 800 if tier == 'thorough' else 420) - (time.time() - t0))
    bsec = man.get('bounded_s', {}).get(tier, 20 if tier == 'quick' else 200)
    def run_native(src, cmd, name, args, limit):
        name = name.split('#')[0]
        try: exe = build_native(src, prop, tmp)
        except Exception as x: return 2, str(x)
        return native([exe, cmd, name] + args, limit)
    from concurrent.futures import ThreadPoolExecutor
    kn = known(prop); known_hit = {}
    with ThreadPoolExecutor(8) as ex:
        futs = [(n, ex.submit(run_native, s, 'search', n, [str(seed), str(min(bsec, left() / 2)), tier], min(bsec * 3 + 60, left() + 60))) for s, n in bounded]
        for n, f in futs:
            c, out = f.result(); bres.append((n, c, out))
            for l in re.findall(r'^KNOWN (.*)$', out, re.M): known_hit.setdefault(l, n)
            if verbose: print('  bounded %-42s rc=%d %s' % (n, c, out.strip().split('\n')[-1][:200] if c == 0 else out[:1500]))
            if c != 0:
                m = re.search(r'^FAILED (.*)$', out, re.M)
                viol.append((n, (m.group(1) if m else 'native run failed'), 'bounded stand-in', dict(kind='bounded native run', harness=n, output=out), c != 2))
    if fails:
        groups = collections.OrderedDict()
        for r, b in fails: groups.setdefault((r['name'], b['label']), (r, b))
        conc = None
        # 1. replay the models
        for (n, lab), (r, b) in list(groups.items()):
            if b.get('nd') is not None and conc is None:
                f = os.path.join(tmp, 'nd_' + n); open(f, 'w').write(nd_text(b['nd']))
                c, out = run_native(src_of[n], 'replay', n, [f], 60)
                if c not in (0, 2, 3):
                    conc = (n, lab, dict(kind='verifier model replayed on the real code', harness=n, obligation=lab, function=b['where'], inputs=nd_text(b['nd']), output=out))
        # 2. searches, then random runs of the failed harnesses
        if conc is None and not any(v[4] for v in viol):
            tasks = [(s, 'search', n, [str(seed), str(min(60, left() / 3)), tier]) for s, n in searches]
            seen = set()
            for (n, lab) in groups:
                if n not in seen and len(seen) < 8: seen.add(n); tasks.append((src_of[n], 'random', n, [str(seed), '10', str(shards.get(n.split('#')[0], 1))]))
            for s in sorted({t[0] for t in tasks}):
                try: build_native(s, prop, tmp)
                except Exception as x: pass
            with ThreadPoolExecutor(8) as ex:
                fs = [(t, ex.submit(run_native, t[0], t[1], t[2], t[3], 120)) for t in tasks]
                for t, f in fs:
                    c, out = f.result()
                    if c not in (0, 2, 3, -9) and conc is None:
                        m = re.search(r'^FAILED (.*)$', out, re.M)
                        conc = (t[2], m.group(1) if m else 'native run failed', dict(kind=t[1], harness=t[2], output=out))
        for (n, lab), (r, b) in groups.items():
            viol.append((n, lab, b['where'], dict(kind='obligation', harness=n, obligation=lab, status=b['status'], function=b['where'], model=nd_text(b['nd']) if b['nd'] else None, path=b['tr']), False))
        if conc: viol.insert(0, (conc[0], conc[1], '', conc[2], True))
    for s, why in broken: viol.append((os.path.basename(s), why, '', dict(kind='extraction', file=s, output=why), False))
    # evidence
    assume = list(man.get('assumptions', []))
    ev = dict(property=prop, tier=tier, seed=seed, level=man.get('level', 'proof'),
      coverage=dict(obligations=total, discharged=disch, checker_cmd='python3-vt /verif/vc/check.py %s %s' % (prop, tier),
        trusted_base=['clang 18 front end and opt (sroa, early-cse, simplifycfg): C++ to LLVM IR', 'the VC generator /verif/vc/{ir,expr,engine,prims,contracts}.py', 'z3 %s (python bindings), cvc5 1.1.2' % __import__('z3').get_version_string()] + man.get('trusted', []),
        by_backend=dict(by_be), discharged_by_interval_analysis=triv, solver_s=round(stime, 2), harnesses=len(results), compile_s=round(comp_t, 2),
        paths=sum(r['stats'].get('paths', 0) for r in results), obligation_kinds=dict(labels.most_common(60)),
        functions_executed_under_contract=sorted(x for x in fn if 'chdr::' in x)[:400], library_functions_executed=len([x for x in fn if 'chdr::' not in x]),
        functions_replaced_by_contracts=sorted(used)[:200], loops_cut_by_invariant=loops[:100],
        undischarged=[dict(harness=r['name'], obligation=b['label'], status=b['status']) for r, b in fails][:50],
        bounded_obligations=dict(total=btotal, discharged=bdisch, bounds={n: b for n, b in sorted(bnd.items())}),
        bounded_stand_ins=[dict(name=n, rc=c, result=(re.findall(r'^PASSED.*$', out, re.M) or [out[-300:]])[-1]) for n, c, out in bres]),
      assumptions=assume, wall_s=0, violations=0)
    if ev['level'] == 'other': ev['coverage']['explanation'] = 'No obligation of this property is within the reach of the verifier: every run executes the bounded native stand-ins below, with sanitizers, against an independent reference. Nothing is counted as proved.'; ev['coverage']['evaluations'] = sum(int(x) for n, c, o in bres for x in re.findall(r'^PASSED runs=(\d+)', o, re.M))
    rcx = 0
    shown = []
    for k in kn: pass
    # known findings are matched by the identity that a stand-in prints on a line of its own (KNOWN <id>) or by label
    new = []
    for v in viol:
        hit = next((d for rx, d in kn if rx.search(v[0] + ':' + v[1])), None)
        if hit is not None: shown.append(hit)
        else: new.append(v)
    for l in known_hit:
        hit = next((d for rx, d in kn if rx.search(l)), None)
        if hit is not None: shown.append(hit)
        else: new.append((known_hit[l], 'finding not listed: ' + l, '', dict(kind='bounded native run', output=l), True))
    for d in sorted(set(shown)): print('KNOWN-FINDING: property=%s %s' % (prop, d))
    if new:
        new.sort(key=lambda v: not v[4])
        v = new[0]
        rp = os.path.join(evd, 'replay', '%s.json' % prop)
        json.dump(dict(property=prop, first=dict(harness=v[0], failed=v[1], function=v[2], concrete=v[4], detail=v[3]), all=[dict(harness=a, failed=b, function=c, concrete=e, detail=d) for a, b, c, d, e in new[:40]]), open(rp, 'w'), indent=1, default=str)
        print('failed: %s: %s %s' % (v[0], v[1][:400], v[2]))
        for x in new[1:6]: print('   also: %s: %s' % (x[0], x[1][:200]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if v[4] else ' no-failing-input-found'))
        rcx = 1
    ev['violations'] = len(new); ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged (%s), %d harnesses, solver %.1fs, wall %.1fs%s' % (prop, tier, total, disch, ', '.join('%s %d' % x for x in by_be.items()), len(results), stime, time.time() - t0,
          '; bounded: ' + '; '.join('%s %s' % (n, (re.findall(r'^PASSED.*$', o, re.M) or ['rc=%d' % c])[-1]) for n, c, o in bres) if bres else ''))
    return rcx

if __name__ == '__main__': main()

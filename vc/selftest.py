#!/usr/bin/env python3
"""selftest.py [SECONDS] [PROP...]: runs every proof harness natively with random inputs: none may fail on the unchanged tree."""
import sys, os, re, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
secs = sys.argv[1] if len(sys.argv) > 1 else '3'; props = sys.argv[2:]
def shards(src, n):
    o = {}
    for rx, d in check.opts_of(src).items():
        if re.search(rx, n): o.update(d)
    return o.get('shards', 1)
tmp = tempfile.mkdtemp(prefix='vc_self_'); bad = 0
try:
    allp = sorted({m for f in glob.glob(os.path.join(check.V, 'harness', '*.cpp')) for m in re.findall(r'^(?:VC|VCN|VCB)\((\w+),', open(f).read(), re.M)})
    for prop in props or allp:
        for src, names in check.sources(prop).items():
            d = os.path.join(tmp, prop); os.makedirs(d, exist_ok=True)
            exe = check.build_native(src, prop, d)
            with ThreadPoolExecutor(8) as ex:
                for n, (c, out) in zip([n for k, n in names if k == 'VC'], ex.map(lambda n: check.native([exe, 'random', n, '7', secs, str(shards(src, n))], 200), [n for k, n in names if k == 'VC'])):
                    if c not in (0, 2, 3): bad += 1; print(n, c, out[:700])
                    else: print(n, out.strip().split('\n')[-1])
finally: shutil.rmtree(tmp)
sys.exit(1 if bad else 0)

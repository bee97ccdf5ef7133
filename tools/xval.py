#!/usr/bin/env python3-vt
"""xval.py [N [REGEX]] -- run N sampled execution paths of the verifier natively and compare, call by call.

The paths are ones on which every obligation is discharged; each is a prediction (decisions of the external functions, calls in
order with their arguments, outcome, final observable state) made from the LLVM IR semantics in engine/, which the native run of
the same headers, built with sanitizers, must match.  This tests the part of the verifier that is trusted."""
import concurrent.futures as cf
import os
import random
import re
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)
from engine import harness as H, props as P, replay as RP, runner as Rn, spec as S, worker as W   # noqa: E402


def sample(cfg, n, seed):
    """up to n (description, text, externs) of one configuration"""
    rnd = random.Random(seed)
    p = P.PROPS['ALL']
    tmp = tempfile.mkdtemp(prefix='vx_')
    try:
        ops = [o for o in S.OPS if p.ops(o) and o.ok(cfg) and not o.cat.startswith('type')]
        text, irt, ok, dropped = W.compile_ops(cfg, ops, tmp)
        mod = Rn.Mod(irt, cfg)
        rn = Rn.Runner(mod, ok, Rn.RStats())
        rn.nested = True
        rn.discover(ok)
        ext = {x for x in mod.m.decls if x in mod.cl.ext or x.startswith('vx_')} | set(mod.cl.ext)
        got, count = [], 0
        rnd.shuffle(ok)
        for o in ok[:40]:
            k = 0
            for r in rn.paths(o, lambda t, r: True):
                k += 1
                if r.viol or r.aborted or r.out is None:
                    continue
                count += 1
                j = rnd.randrange(count)
                if len(got) < n or j < n:
                    d = RP.describe(r, None, None, 'self-check')
                    if d is not None:
                        if len(got) < n:
                            got.append(d)
                        else:
                            got[j] = d
                if k > 60:
                    break
        out = []
        for d in got:
            c, o = RP.native(d, text, cfg, tmp, ext)
            out.append((cfg['name'], d['op'], c, o))
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 3
    g = [c for c in P.grid(P.PROPS['ALL'], 'quick') if re.search(sys.argv[2] if len(sys.argv) > 2 else '', c['name'])]
    tot = bad = 0
    with cf.ProcessPoolExecutor(8) as ex:
        for f in [ex.submit(sample, c, n, i) for i, c in enumerate(g)]:
            for name, op, c, o in f.result():
                tot += 1
                if not c:
                    bad += 1
                    if bad <= 12:
                        print('MISMATCH', name, op, '\n', '\n'.join(o.split('\n')[-12:]))
    print('%d paths replayed natively in %d configurations, %d mismatches' % (tot, len(g), bad))


if __name__ == '__main__':
    main()

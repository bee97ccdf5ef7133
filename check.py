#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] — verify one property against /repo."""
import argparse
import atexit
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import re
import shutil
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(10000)
from engine import harness as H, props as P, worker as W, report as RPT   # noqa: E402


def findings():
    """known findings: id -> (properties, text)"""
    out = {}
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            if line.startswith('known:'):
                kv = dict(x.split('=', 1) for x in line[6:].split(' :: ')[0].split())
                out[kv['id']] = (kv['property'].split(','), line.split(' :: ', 1)[1].strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--only', help='regex filter on configurations (development)')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    p = P.PROPS[a.prop]
    grid = [c for c in P.grid(p, a.tier) if not a.only or re.search(a.only, c['name'])]
    budget = 780 if a.tier == 'quick' else float(os.environ.get('VX_BUDGET', 5400))
    deadline = t0 + budget
    ctx = mp.get_context('fork')
    results = []
    late = []
    pch = tempfile.mkdtemp(prefix='vx_pch_')
    atexit.register(shutil.rmtree, pch, True)
    H.precompile(grid, pch)
    with cf.ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=ctx) as ex:
        fs = {ex.submit(W.job, p.id, c, a.tier, deadline): c for c in sorted(grid, key=lambda c: (c['widen'], c['lib'] != 'pol'))}
        for f in cf.as_completed(fs):
            r = f.result()
            results.append(r)
            if a.v:
                print('%-60s %6.2fs obl %5d viol %d und %d comp %d %s' % (r['cfg'], r['wall'], r['obl'], len(r['viol']), len(r['undecided']), len(r['compile']), r['error'] or ''), flush=True)
        order = {c['name']: i for i, c in enumerate(grid)}
        skipped = [r['cfg'] for r in results if r.get('skipped')]
        results = [r for r in results if not r.get('skipped')]
        results.sort(key=lambda r: order[r['cfg']])
        errors = [r for r in results if r['error']]
        known = findings()
        kf, viols = {}, []
        for r in results:
            for v in r['viol']:
                if v['known'] and v['known'] in known and p.id in known[v['known']][0]:
                    kf.setdefault(v['known'], []).append(v)
                else:
                    viols.append((r, v))
        comp = [(r, c) for r in results for c in r['compile'] if c['kind'] == 'violation']
        und = [(r, u) for r in results for u in r['undecided']]
        rdir = os.path.join(VERIF, 'replays', p.id)
        shutil.rmtree(rdir, ignore_errors=True)
        lines = []
        if viols or comp or und:
            os.makedirs(rdir, exist_ok=True)
        if viols:
            # distinct failures first; replay natively until some are confirmed
            picked, seen = [], {}
            for rv in viols:
                k = (rv[1]['op'], rv[1]['tag'], rv[1]['clause'])
                seen[k] = seen.get(k, 0) + 1
                if seen[k] == 1:
                    picked.append(rv)
            cand = (picked + [x for x in viols if x not in picked])
            cand = [x for x in cand if x[1]['desc'] is not None][:24]
            cfgs = {c['name']: c for c in grid}
            ok, done = [], []
            for i in range(0, len(cand), 8):
                part = [(r, v, os.path.join(rdir, 'n%02d' % (i + j))) for j, (r, v) in enumerate(cand[i:i + 8])]
                for (r, v, d), f in [(x, ex.submit(W.confirm, x[1], x[0]['text'], cfgs[x[0]['cfg']], x[0]['externs'], x[2])) for x in part]:
                    c, out = f.result()
                    done.append((r, v, d, c, out))
                    if c:
                        ok.append((r, v, d, c, out))
                if ok:
                    break
            show = ok[:3] or done[:1] or [(viols[0][0], viols[0][1], os.path.join(rdir, 'n00'), False, 'no replay could be built')]
            for r, v, d, c, out in show:
                path = RPT.violation(d, p, r, v, c, out, cfgs[r['cfg']])
                lines.append('VIOLATION property=%s replay=%s%s' % (p.id, path, '' if c else ' no-failing-input-found'))
            keep = {x[2] for x in show}
            for x in done:
                if x[2] not in keep:
                    shutil.rmtree(x[2], ignore_errors=True)
            RPT.summary(os.path.join(rdir, 'all.txt'), viols, und, comp)
        if comp:
            r, c = comp[0]
            lines.append('VIOLATION property=%s replay=%s' % (p.id, RPT.compile_failure(os.path.join(rdir, 'compile.txt'), p, r, c)))
        if und and not lines:
            path = RPT.undecided(os.path.join(rdir, 'undischarged.txt'), p, und)
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (p.id, path))
    RPT.evidence(os.path.join(VERIF, 'evidence', p.id + '.json'), p, a.tier, results, kf, known, viols, und, comp, time.time() - t0, skipped)
    for k in sorted(kf):
        print('KNOWN-FINDING: property=%s %s: %s (%d failing obligations in %d configurations)' % (
            p.id, k, known[k][1], len(kf[k]), len({v['cfg'] for v in kf[k]})))
    for r in errors[:3]:
        print('ERROR in %s:\n%s' % (r['cfg'], r['error']), file=sys.stderr)
    for l in lines:
        print(l)
    tot = sum(r['obl'] for r in results)
    print('%s %s: %d configurations, %d obligations, %d undischarged%s, %.1fs' % (
        p.id, a.tier, len(results), tot, len(viols) + len(und) + len(comp), ', %d configurations not reached' % len(skipped) if skipped else '', time.time() - t0))
    if lines:
        return 1
    if errors or tot == 0:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())

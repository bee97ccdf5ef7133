"""Replay files and evidence."""
import json
import os
import re
import subprocess
from . import harness as H
from .world import dem

TRUSTED = [
    'clang 18 front end (AST to LLVM IR at -O0) and the LLVM IR semantics implemented in engine/exec.py',
    'z3 4.x (SMT); quick-tier obligations are decided by z3 or by constant folding only',
    'libstdc++ 13 headers, which are executed symbolically as code, not assumed',
    'the contracts assumed for functions outside the library in engine/world.py: element types (constructors, assignments, comparison, hash, destructor), allocators, operator new/delete, the C++ exception ABI',
]
ASSUME = [
    'element destructors, allocator copies/moves/swaps/comparisons and deallocate do not throw (required of them by the standard)',
    'element types are represented by the listed kinds; their member functions are opaque, so the result covers every body that meets the contract',
    'polymorphic: dynamic types are represented by the static type, a derived class at offset zero and a derived class whose base sits at a non-zero offset',
    'one thread; asynchronous signals and stack exhaustion are not modelled',
    'memory is modelled as disjoint objects with typed cells; overlapping reads of differently sized cells are composed byte-wise or reported as undischarged',
    'integers are machine integers (bit-vectors), nothing is treated as mathematical',
]


def dms(n):
    return dem(n)


def cmdline(cfg, path):
    return ' '.join(['clang++', '-O0', '-c', path] + H.flags_for(cfg))


def violation(d, p, r, v, ok, out, cfg):
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'replay.txt')
    with open(path, 'w') as f:
        f.write('property        %s (%s)\n' % (p.id, p.title))
        f.write('configuration   %s\n' % r['cfg'])
        f.write('operation       %s   { %s }\n' % (v['op'], v.get('body')))
        f.write('failed obligation [%s] %s\n' % (v['tag'], v['clause']))
        f.write('states before   %s\n' % v.get('states'))
        f.write('decisions       %s\n' % '; '.join(v.get('path') or []))
        if v['desc']:
            f.write('\nexternal calls on the failing path:\n')
            for s in v['desc']['script']:
                f.write('  %s(%s)%s\n' % (s['show'], ', '.join(show(a) for a in s['args']), ' throws' if s['how'] == 'throw' else ' -> %s' % show(s['ret']) if s['ret'] else ''))
            f.write('outcome: %s\nvalues: %s\n' % (v['desc']['out'] or v['desc']['abort'], json.dumps(v['desc']['values'])))
        f.write('\nnative replay against the headers in /repo: %s\n' % ('CONFIRMED' if ok else 'not confirmed'))
        f.write('(harness.cc, run.cc and thunks.s beside this file; build the harness with: %s)\n' % cmdline(cfg, 'harness.cc'))
        f.write(out or '')
    for n in ('h.o', 'replay'):
        try:
            os.unlink(os.path.join(d, n))
        except OSError:
            pass
    return path


def show(a):
    if a is None:
        return '_'
    if a[0] == 'p':
        return 'obj%d+%d' % (a[1], a[2])
    if a[0] == 'g':
        return '&' + dem(a[1])
    if a[0] == 'new':
        return 'obj%d (%d bytes)' % (a[1], a[2])
    return str(a[1])


def summary(path, viols, und, comp):
    with open(path, 'w') as f:
        for r, v in viols:
            f.write('%s: %s [%s] %s %s\n' % (r['cfg'], v['op'], v['tag'], v['clause'], v.get('states')))
        for r, u in und:
            f.write('%s: %s undischarged: %s\n' % (r['cfg'], u['op'], u['why']))
        for r, c in comp:
            f.write('%s: %s does not compile\n' % (r['cfg'], c['op']))


def undecided(path, p, und):
    with open(path, 'w') as f:
        f.write('property %s: obligations the verifier could not discharge (and has no counterexample for)\n\n' % p.id)
        for r, u in und:
            f.write('%s\n  %s: %s\n' % (r['cfg'], u['op'], u['why']))
    return path


def compile_failure(path, p, r, c):
    with open(path, 'w') as f:
        f.write('property %s: an operation that the property requires does not compile\n' % p.id)
        f.write('configuration %s, operation %s, flags %s\n\nclang++:\n%s\n\ng++:\n%s\n\nprogram:\n%s\n' % (
            r['cfg'], c['op'], ' '.join(c['flags']), c['msg'], c['gxx'], c['text']))
    return path


def evidence(path, p, tier, results, kf, known, viols, und, comp, wall, skipped):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    funcs = set()
    for r in results:
        funcs |= set(r['funcs'])
    names = sorted(funcs)
    lib = set()
    if names:
        q = subprocess.run([H.CLANG.replace('clang++', 'llvm-cxxfilt')], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for n in q:
            if 'xyz::' in n:
                # one entry per member, not per instantiation
                lib.add(short(n))
    ops = {}
    for r in results:
        for o, d in r['ops'].items():
            t = ops.setdefault(o, dict(obligations=0, paths=0, returns=0, throws=0))
            t['obligations'] += d['obl']
            t['paths'] += d['paths']
            t['returns'] += d['ret']
            t['throws'] += d['exc']
    obl = sum(r['obl'] for r in results)
    nk = sum(len(x) for x in kf.values())
    ncomp = [c for r in results for c in r['compile']]
    e = dict(property=p.id, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other' if p.id in ('C19', 'C22') else 'proof',
             coverage=dict(
                 obligations=obl,
                 discharged=max(0, obl - len(viols) - nk),
                 discharged_by=dict(z3=sum(r['by_solver'] for r in results), evaluation=sum(r['by_eval'] for r in results)),
                 solver_calls=sum(r['solver_calls'] for r in results),
                 solver_time_s=round(sum(r['solver_time'] for r in results), 2),
                 rechecked_with_cvc5=sum(r['cvc5'] for r in results), cvc5_disagreements=sum(r['cvc5_bad'] for r in results),
                 execution_paths=sum(r['paths'] for r in results),
                 functions_under_contract=ops,
                 library_functions_executed=sorted(lib),
                 configurations=[r['cfg'] for r in results],
                 configurations_not_reached=skipped,
                 undischarged=[dict(cfg=r['cfg'], op=u['op'], why=u['why'][:300]) for r, u in und],
                 operations_not_compiled=[dict(op=c['op'], kind=c['kind']) for c in ncomp],
                 known_findings={k: len(x) for k, x in kf.items()},
                 checker_cmd='python3-vt /verif/check.py %s --tier %s' % (p.id, tier),
                 trusted_base=TRUSTED),
             assumptions=ASSUME, wall_s=round(wall, 2), violations=len(viols) + len(comp))
    with open(path, 'w') as f:
        json.dump(e, f, indent=1)


def short(n):
    n = re.sub(r'\[abi:\w+\]', '', n)
    out, depth = [], 0
    for ch in n:
        if ch in '<':
            depth += 1
        elif ch == '>' and depth:
            depth -= 1
        elif not depth:
            out.append(ch)
    s = ''.join(out)
    m = re.search(r'xyz::[\w:~=!*\-\s]*', s[s.find('xyz::'):])
    i = s.find('(')
    return s[:i].split(' ')[-1] if i > 0 and 'xyz::' in s[:i] else (m.group(0).strip() if m else s)

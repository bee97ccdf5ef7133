"""One unit of work: verify the contracts of one property in one configuration."""
import os
import re
import shutil
import subprocess
import tempfile
import time
import traceback
import z3
from . import harness as H, spec as S, runner as Rn, replay as RP, props as P
from .exec import Undecided, Violation


BOTH = ('C19', 'C23')     # properties whose programs both compilers must accept


def split_errors(stderr, src):
    """group compiler diagnostics: yields (set of harness lines mentioned, text)"""
    base = re.escape(os.path.basename(src))
    blocks, cur, pend = [], None, []
    for line in stderr.split('\n'):
        if 'error:' in line:
            cur = pend + [line]
            pend = []
            blocks.append(cur)
        elif line.startswith('In file included from') or 'In instantiation of' in line or 'In function' in line or 'required from' in line or 'In file' in line:
            pend.append(line)
        elif cur is not None:
            cur.append(line)
    for b in blocks:
        ls = {int(x) for l in b if not l.startswith('In file included from') for x in re.findall(base + r':(\d+):', l)}
        yield ls, '\n'.join(b)


def compile_ops(cfg, ops, tmp):
    """IR of the harness; operations the headers reject are dropped and reported"""
    dropped = []
    head = H.prologue(cfg) + H.OBSERVERS
    for attempt in range(6):
        text = head + ''.join(o.text(cfg) for o in ops)
        first = head.count('\n') + 1
        try:
            return text, H.to_ir(text, cfg, tmp), ops, dropped
        except H.CompileError as e:
            src = [l for l in os.listdir(tmp) if l.endswith('.cc')]
            bad, loose = {}, []
            for f in src:
                for ls, b in split_errors(str(e), f):
                    hit = [n - first for n in ls if 0 <= n - first < len(ops)]
                    if hit:
                        bad.setdefault(max(hit), b)
                    else:
                        loose.append(b)
            if not bad:
                return text, None, [], [(None, str(e))]
            for i in sorted(bad, reverse=True):
                dropped.append((ops[i], bad[i]))
            ops = [o for i, o in enumerate(ops) if i not in bad]
    return text, None, [], [(None, 'harness does not compile')]


def job(pid, cfg, tier, deadline):
    t0 = time.time()
    p = P.PROPS[pid]
    res = dict(cfg=cfg['name'], viol=[], undecided=[], compile=[], error=None, ops={}, obl=0, by_eval=0, by_solver=0,
               paths=0, solver_calls=0, solver_time=0.0, funcs=[], wall=0, shapes=[], cvc5=0, cvc5_bad=0, kinds=cfg['kind'])
    if cfg.get('widen') and t0 > deadline - 330:
        res['skipped'] = True
        return res
    tmp = tempfile.mkdtemp(prefix='vx_')
    try:
        _job(p, cfg, tier, deadline, tmp, res)
    except Exception:
        res['error'] = traceback.format_exc()[-3000:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res['wall'] = time.time() - t0
    return res


def _job(p, cfg, tier, deadline, tmp, res):
    st = Rn.RStats()
    want = [o for o in S.OPS if p.ops(o) and o.ok(cfg)]
    if not want:
        return
    facts_only = all(o.cat.startswith('type') for o in want)
    disc = [] if facts_only else [o for o in S.OPS if o.cat in Rn.Runner.DISC and o.name not in Rn.DISC_SKIP and o.ok(cfg) and o not in want]
    ops = want + disc
    text, irt, ok, dropped = compile_ops(cfg, ops, tmp)
    whole = p.whole
    for o, msg in dropped:
        name = o.name if o else '(prologue)'
        if sum(x['kind'] == 'violation' for x in res['compile']) >= 2:
            res['compile'].append(dict(op=name, kind='note', msg=msg[:300]))
            continue
        alone = H.prologue(cfg) + H.OBSERVERS + (o.text(cfg) if o else '')
        g, gmsg = H.gxx_ok(alone, cfg, tmp)
        try:
            H.to_ir(alone, cfg, tmp)
            c = True
        except H.CompileError:
            c = False
        if o is not None and o not in want:
            res['compile'].append(dict(op=name, kind='note', msg=msg[:2000]))
        elif not c and (not g or p.id == 'C19'):
            res['compile'].append(dict(op=name, kind='violation' if whole else 'note', msg=msg[:4000], gxx=gmsg[:3000], text=alone,
                                       flags=H.flags_for(cfg)))
        else:
            res['undecided'].append(dict(op=name, why='only one of the two compilers accepts this operation: ' + msg[:1500]))
    if irt is None:
        return
    if p.id in BOTH:
        # these programs must be accepted, so the other compiler is asked as well
        g, gmsg = H.gxx_ok(text, cfg, tmp)
        if not g:
            for o in ok:
                alone = H.prologue(cfg) + H.OBSERVERS + o.text(cfg)
                g1, m1 = H.gxx_ok(alone, cfg, tmp)
                if not g1:
                    res['compile'].append(dict(op=o.name, kind='violation', msg='(accepted)', gxx=m1[:4000], text=alone, flags=H.flags_for(cfg)))
                    break
            else:
                res['undecided'].append(dict(op='(all)', why='g++ rejects the harness: ' + gmsg[:1500]))
    mod = Rn.Mod(irt, cfg)
    rn = Rn.Runner(mod, ok, st)
    rn.nested = p.id in ('C21', 'ALL')
    if tier == 'thorough':
        st.dump = []
    have = {o.name for o in ok}
    want = [o for o in want if o.name in have]
    ext = {x for x in mod.m.decls if x in mod.cl.ext or x.startswith('vx_')} | set(mod.cl.ext)
    res['externs'] = sorted(ext)
    res['text'] = text
    try:
        if not facts_only:
            rn.discover(ok)
    except Undecided as e:
        res['undecided'].append(dict(op='*', why='representation invariant: %s' % e))
        want = []
    except Violation as e:
        res['undecided'].append(dict(op='*', why='representation invariant: %s' % e))
        want = []
    res['shapes'] = sorted({str(s) for s in rn.shapes.values()})
    seen = {}

    def onv(op, sh, r):
        for v in r.viol:
            key = (op.name, v['tag'], v['clause'])
            n = seen[key] = seen.get(key, 0) + 1
            known = known_key(cfg, op, v, r)
            if n > 3 and not known:
                continue
            if known and n > 1:
                res['viol'].append(dict(op=op.name, tag=v['tag'], clause=v['clause'], known=known, cfg=cfg['name'], desc=None))
                continue
            try:
                d = RP.describe(r, v['extra'], v['tag'] if v.get('abort') else None, v['clause'])
            except Exception:
                d = None
            res['viol'].append(dict(op=op.name, tag=v['tag'], clause=v['clause'], known=known, cfg=cfg['name'], desc=d,
                                    states={k: str(x) for k, x in sh.items()},
                                    path=['%s=%s' % (t[2], t[0]) for t in r.ctx.trace][-40:], body=op.body,
                                    threw=r.w.threw[-1].what if r.w.threw and hasattr(r.w.threw[-1], 'what') else bool(r.w.threw)))

    for o in want:
        b = st.obl, st.paths
        out = res['ops'].setdefault(o.name, dict(obl=0, paths=0, ret=0, exc=0))

        def sel(tag, r, o=o):
            return p.sel(tag, r)
        try:
            n = 0
            for r in rn.paths(o, sel, deadline):
                n += 1
                if r.out is not None:
                    out['ret' if r.out[0] == 'ret' else 'exc'] += 1
                if r.viol:
                    onv(o, r.sh, r)
        except Undecided as e:
            res['undecided'].append(dict(op=o.name, why=str(e)))
        out['obl'] += st.obl - b[0]
        out['paths'] += st.paths - b[1]
        if out['ret'] == 0 and not any(v['op'] == o.name for v in res['viol']) and not any(u['op'] == o.name for u in res['undecided']):
            if rn.shapes or facts_only:
                res['undecided'].append(dict(op=o.name, why='vacuous: no execution of this operation returns'))
    if not facts_only and want and not res['undecided'] and not any(s.valued for s in rn.shapes.values()):
        res['undecided'].append(dict(op='*', why='vacuous: no state that owns a value satisfies the representation invariant'))
    if st.dump:
        res['cvc5'], res['cvc5_bad'] = cross_check(st.dump, tmp)
    res.update(obl=st.obl, by_eval=st.by_eval, by_solver=st.by_solver, paths=st.paths, solver_calls=st.solver_calls,
               solver_time=st.solver_time, funcs=sorted(st.funcs))


def known_key(cfg, op, v, r):
    """facts about a failure that known findings are matched against"""
    if v['tag'] == 'terminate' and op.name == 'op_move_assign' and cfg['pocma'] and not cfg['iae'] and r.w.threw and not r.alias:
        g = r.same_alloc(r.pre['self'].alloc, r.pre['other'].alloc)
        if g is False or g is not True and not r.ctx.sat(g):
            k = [e for e in r.w.events if e.get('threw')]
            if not k or k[-1]['k'] in ('alloc',) or (k[-1]['k'] == 'ctor' and k[-1]['kind'] in ('move', 'copy')):
                return 'D5'
    return None


def cross_check(dump, tmp):
    """every obligation z3 discharged, once more with cvc5"""
    n = bad = 0
    f = os.path.join(tmp, 'o.smt2')
    for pc, goal in dump[:400]:
        s = z3.Solver()
        for c in pc:
            s.add(c)
        s.add(z3.Not(goal))
        with open(f, 'w') as h:
            h.write('(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', ''))
        r = subprocess.run(['cvc5', '--tlimit=20000', f], capture_output=True, text=True)
        n += 1
        if r.stdout.strip() != 'unsat':
            bad += 1
    return n, bad


def confirm(v, text, cfg, externs, workdir):
    try:
        os.makedirs(workdir, exist_ok=True)
        return RP.native(v['desc'], text, cfg, workdir, set(externs))
    except Exception:
        return False, traceback.format_exc()[-1500:]

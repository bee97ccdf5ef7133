"""Which contracts, clauses and configurations decide which property."""
import functools
import random

from . import harness as H
from .harness import KINDS

ALWAYS_SAFE = {'memory', 'uninit', 'opaque', 'unreachable', 'abort', 'ub', 'termination', 'lifetime', 'dealloc', 'dyntype', 'denote'}


def every(tag, r):
    return True


def tags(*ts):
    s = set(ts)
    return lambda tag, r: tag in s


def threw(tag, r):
    return bool(r.w.threw)


class Prop:
    def __init__(self, pid, title, ops, sel, kinds=None, libs=('ind', 'pol'), allocs=None, tech=None, need=None, light=False):
        self.id, self.title, self.ops, self.sel, self.kinds, self.libs, self.allocs, self.need = pid, title, ops, sel, kinds, libs, allocs, need
        self.light = light
        self.whole = sel is every           # owns every clause of its operations
        if pid not in ('C21', 'ALL'):       # sources nested in the target's own value are C21's
            self.sel = lambda t, r: not r.nested and sel(t, r)


def cats(*cs):
    s = set(cs)
    return lambda o: o.cat in s


LIB = ('ctor', 'copy_ctor', 'move_ctor', 'dtor', 'copy_assign', 'move_assign', 'conv_assign', 'swap', 'access', 'compare', 'hash')
lib_ops = cats(*LIB)
CMPK = ('Cmp6', 'CmpLt', 'Cmp3')

PROPS = {}


def prop(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.id] = p


prop('C01', 'ledger', lib_ops, tags('ledger', 'lifetime', 'dealloc', 'dyntype'))
prop('C02', 'safety', lib_ops, lambda t, r: t in ALWAYS_SAFE)
prop('C03', 'copy construction', cats('copy_ctor'), every)
prop('C04', 'copy assignment', cats('copy_assign'), every)
prop('C05', 'move construction', cats('move_ctor'), every)
prop('C06', 'move assignment', cats('move_assign'), every)
prop('C07', 'swap', cats('swap'), every)
prop('C08', 'exceptions', lib_ops, threw)
prop('C09', 'allocator propagation', cats('ctor', 'copy_ctor', 'move_ctor', 'copy_assign', 'move_assign', 'conv_assign', 'swap', 'access'), tags('alloc'), allocs='wide')
prop('C10', 'allocator discipline', lib_ops, tags('heap', 'hooks', 'dealloc'), allocs='wide')
prop('C11', 'construction', cats('ctor'), every)
prop('C12', 'valueless', lib_ops, tags('valueless'))


def access(tag, r):
    # the contracts of the accessors, and: after every operation the accessors of its operands denote live owned objects
    return r.op.cat in ('access', 'type_access') or tag == 'denote' or (r.phase == 'post' and bool(r.aborted))


prop('C13', 'access', lambda o: o.cat in LIB or o.cat == 'type_access', access)
prop('C14', 'const', lib_ops, tags('constwrite'))
prop('C15', 'compare', cats('compare', 'type_compare'), every, kinds=CMPK, libs=('ind',))
prop('C16', 'hash', cats('hash'), every, kinds=CMPK, libs=('ind',))
prop('C17', 'conv assign', cats('conv_assign'), every, libs=('ind',))
prop('C18', 'noexcept', lambda o: o.cat in LIB or o.cat == 'type_noexcept', lambda t, r: t in ('terminate', 'noexc', 'fact'))
prop('C21', 'nested source', cats('copy_assign', 'move_assign'), lambda t, r: r.nested)
prop('C20', 'dynamic type', cats('ctor', 'copy_ctor', 'move_ctor', 'copy_assign', 'move_assign', 'swap', 'access', 'dtor'), 
     # converting to a virtual base reads the object's own virtual table: before construction there is none
     lambda t, r: t in ('dyntype', 'opaque', 'denote') or t == 'uninit' and KINDS[r.cfg['kind']]['vbase'], libs=('pol',))

prop('C22', 'existence', lambda o: o.cat == 'type_exists', tags('fact'))
PROPS['C22'].whole = True

prop('C19', 'incomplete types', lambda o: o.cat == 'type_incomplete', tags('fact'))
PROPS['C19'].whole = True

prop('C23', 'constant evaluation', lambda o: o.cat == 'type_consteval', tags('fact'))
PROPS['C23'].whole = True

prop('ALL', 'every contract and clause (for development; not a registered check)', lambda o: o.cat in LIB or o.cat.startswith('type_'), every)

HDRS = {'ind': [('indirect.h', (20, 23)), ('indirect_cxx14.h', (14, 17, 20))],
        'pol': [('polymorphic.h', (20, 23)), ('polymorphic_cxx14.h', (14, 17, 20))]}

# (kind, allocator template, propagation/equality flags, which standard of the header's list)
BASE = [('Reg', 'Alloc', 0, 0), ('Reg', 'Alloc', 7, 0), ('Reg', 'MinAlloc', 2, 1), ('NxMove', 'MinAlloc', 1, 0), ('Reg', 'MinAlloc', 4, 0),
        ('Reg', 'Alloc', 8, 0), ('NxAll', 'Alloc', 32, 0), ('Virt', 'std', 0, 0), ('Reg', 'HookAlloc', 0, 0),
        ('Over', 'Alloc', 3, 0), ('CopyOnly', 'MinAlloc', 0, 0), ('Triv', 'HookAlloc', 0, 0), ('Triv', 'Alloc', 0, 0)]
QUICK = {
    'ind': BASE + [('MoveOnly', 'Alloc', 0, 0), ('NoMove', 'Alloc', 0, 0), ('NoMove', 'Alloc', 8, 0), ('Expl', 'Alloc', 1, 0), ('PlainS', 'Alloc', 1, 0), ('NoAsg', 'Alloc', 7, 0), ('Nc', 'Alloc', 0, 0),
                   ('Amp', 'FinalAlloc', 2, 0), ('Fin', 'HookAlloc', 7, 0), ('Greedy', 'Alloc', 64, 0),
                   ('Cmp6', 'Alloc', 0, 0), ('CmpLt', 'Alloc', 7, 2), ('Cmp3', 'Alloc', 0, 2)],
    'pol': BASE + [('Nc', 'Alloc', 0, 0), ('Expl', 'Alloc', 1, 0), ('Fin', 'HookAlloc', 7, 0), ('Small', 'FinalAlloc', 0, 0), ('Greedy', 'Alloc', 64, 0), ('NoAsg', 'Alloc', 1, 0), ('Amp', 'Alloc', 2, 0), ('Abs', 'Alloc', 1, 0), ('VB', 'Alloc', 0, 0)],
}
ALLOCQ = [('Reg', a, f, 0) for a, f in (('Alloc', 0), ('Alloc', 1), ('Alloc', 2), ('Alloc', 3), ('Alloc', 4), ('Alloc', 5), ('Alloc', 6), ('Alloc', 7),
                                        ('Alloc', 8), ('Alloc', 15), ('Alloc', 32), ('HookAlloc', 0), ('HookAlloc', 7), ('FinalAlloc', 0),
                                        ('Alloc', 64), ('MinAlloc', 0), ('MinAlloc', 7), ('std', 0))] + [('Virt', 'Alloc', 0, 1), ('NoAsg', 'Alloc', 7, 0)]
CMPQ = [(k, 'Alloc', 0, i) for k in CMPK for i in (0, 1, 2)] + [('Cmp6', 'Alloc', 7, 0), ('Cmp6', 'HookAlloc', 0, 0), ('Cmp6', 'std', 0, 0),
                                                               ('Cmp3', 'Alloc', 32, 0), ('CmpLt', 'Alloc', 7, 0)]
TALLOC = [('Alloc', f) for f in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 32, 34, 64)] + [('HookAlloc', 0), ('HookAlloc', 7), ('FinalAlloc', 0), ('FinalAlloc', 7), ('MinAlloc', 0), ('MinAlloc', 1), ('MinAlloc', 2), ('MinAlloc', 4), ('std', 0), ('FancyAlloc', 0)]


def valid(lib, hdr, std, kind, alloc, flags):
    k = KINDS[kind]
    if not k['poly' if lib == 'pol' else 'ind']:
        return False
    if std < k['min']:
        return False
    if k['cmp'] and lib == 'pol':
        return False
    if alloc == 'FancyAlloc' and hdr != 'indirect.h':
        return False
    if kind in ('Over', 'MixOver') and alloc == 'std' and std < 17:
        return False        # before C++17 std::allocator does not provide over-aligned storage
    return True


def _rows():
    for alloc, eq in (('Alloc', 0), ('Alloc', 8), ('Alloc', 32), ('HookAlloc', 0), ('HookAlloc', 32), ('FinalAlloc', 0), ('FinalAlloc', 32), ('MinAlloc', 0), ('MinAlloc', 32)):
        for prop3 in range(8):
            for nodef in ((0, 64) if not eq & 32 else (0,)):
                yield alloc, eq | prop3 | nodef
    yield 'std', 0


def _feats(c):
    """pairs of settings that occur together in a configuration: an element kind with an allocator trait that is switched on,
    or a trait (on) with another setting"""
    k, a, f, i, nd = c
    tr = [('h', a == 'HookAlloc'), ('nd', nd), ('eq', bool(f & 40))] + [(b, bool(f & b)) for b in (1, 2, 4, 64)]
    on = [n for n, x in tr if x]
    sm = [('a', a), ('i', i), ('0', bool(f & 32))]
    return {(('k', k), n) for n in on} | {(n, y) for n in on for y in tr + sm if y[0] != n} | {('k', k)} | set(sm)


@functools.lru_cache(None)
def pairwise(hdr, nstd, kinds, have):
    """a small set of configurations which, with those in have, make every two settings (element kind, allocator template,
    each allocator trait, assertions, language mode) occur together; deterministic greedy construction"""
    rnd = random.Random(hdr)
    cand = [(k, a, f, i, nd) for k in kinds for a, f in _rows() for i in range(nstd) for nd in (False, True)]
    rnd.shuffle(cand)
    fcs = {c: _feats(c) for c in cand}
    need = set().union(*fcs.values())
    for c in have:
        need -= _feats(c)
    out = []
    while need:
        best = max(rnd.sample(cand, min(400, len(cand))), key=lambda c: len(fcs[c] & need))
        if not fcs[best] & need:
            best = max(cand, key=lambda c: len(fcs[c] & need))
        out.append(best)
        need -= fcs[best]
    return tuple(out)


def grid(p, tier):
    """configurations, most telling first"""
    out, seen = [], set()
    if p.id == 'C23':
        for lib in p.libs:
            hdr, stds = HDRS[lib][0]
            for std in stds:
                for nd in (False, True):
                    for alloc, flags in [('std', 0)] + [(a, f) for a in ('Alloc', 'HookAlloc') for f in (0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 64, 71)]:
                        if tier == 'thorough' or (std == stds[0] and not nd) or (alloc, flags) in (('std', 0), ('Alloc', 0)):
                            out.append(H.mkcfg(lib, hdr, std, 'Reg', alloc, flags, ndebug=nd, cx=True, widen=False))
        return out

    def add(lib, hdr, std, kind, alloc, flags, nd=False, extra=False):
        if not valid(lib, hdr, std, kind, alloc, flags):
            return
        c = H.mkcfg(lib, hdr, std, kind, alloc, flags, ndebug=nd)
        if c['name'] not in seen:
            seen.add(c['name'])
            c['widen'] = extra          # left out (and reported as such) when the machine is too slow for it
            out.append(c)

    for lib in p.libs:
        for hdr, stds in HDRS[lib]:
            q = QUICK[lib] + ALLOCQ + CMPQ if p.id == 'ALL' else CMPQ if p.kinds else ALLOCQ if p.allocs == 'wide' else QUICK[lib]
            for kind, alloc, flags, si in q:
                std = stds[si] if si < len(stds) else stds[-1]
                add(lib, hdr, std, kind, alloc, flags)
            if not p.kinds:
                # the other language modes, and assertions compiled out
                for std in stds[1:]:
                    add(lib, hdr, std, 'Reg', 'Alloc', 3)
                add(lib, hdr, stds[0], 'Reg', 'Alloc', 0, True)
                if hdr == 'indirect.h':
                    add(lib, hdr, stds[0], 'Reg', 'FancyAlloc', 0)
            kinds = tuple(k for k in (p.kinds or KINDS) if (p.kinds or not KINDS[k]['cmp']) and valid(lib, hdr, 99, k, 'Alloc', 0))
            have = tuple((c['kind'], c['alloc'], c['flags'], stds.index(c['std']), c['ndebug']) for c in out if c['hdr'] == hdr)
            for kind, alloc, flags, si, nd in pairwise(hdr, len(stds), kinds, have):
                add(lib, hdr, stds[si], kind, alloc, flags, nd, True)
            if tier == 'thorough':
                kinds = p.kinds or [k for k in KINDS if not KINDS[k]['cmp']]
                for std in stds:
                    for kind in kinds:
                        for alloc, flags in TALLOC:
                            if std == stds[0] or kind in ('Reg', 'NxMove') or (alloc, flags) in (('Alloc', 0), ('Alloc', 7)):
                                add(lib, hdr, std, kind, alloc, flags, extra=2)
                    for kind in ('Reg', 'NoAsg') if not p.kinds else p.kinds:
                        for f in (0, 7):
                            add(lib, hdr, std, kind, 'Alloc', f, True, extra=2)
    return out

"""Runs contracts against one harness module: state-shape inference (the
representation invariant), path enumeration, obligation generation/discharge."""
import time
import z3
from . import ir
from .exec import (Exec, Ctx, Stats, explore, Violation, Undecided, Unwind, Infeasible, Ptr, FnPtr, Inst,
                   UNDEF, is_sym, norm, bv, tobool)
from .world import World, PLAINF, Classes, V, B64, CLS, SOCC, STDNEW, dem
from .harness import KINDS



class Skip(Exception):
    pass


class Mod:
    """a parsed harness module"""

    def __init__(self, text, cfg):
        self.cfg = cfg
        self.m = ir.parse(text)
        self.cl = Classes(self.m)
        g = self.m.globals.get('vxsz_I')
        if g:
            self.szI, self.alI, self.szA, self.alA, self.szT, self.alT = [o[1] for _, o in g['init'][1]]
        # base-class offsets, computed by the compiler's own conversions
        for f in list(self.m.funcs):
            if f.startswith('vxup_'):
                _, d, b = f.split('_')
                w = World(self.m, self.cl, Ctx([], Stats()), cfg)
                o = w.new_obj('x', 'stack', 1 << 16, 16)
                o.inst[0] = [Inst(d, o, 0, None, w.nid())]
                if KINDS[cfg['kind']]['vbase']:
                    # Itanium ABI: the virtual base follows the non-virtual part
                    self.cl.vbase[d] = self.cl.size[d] - self.cl.size[b]
                r = Exec(self.m, w, w.ctx).call(f, [Ptr(o, 0)])
                self.cl.bases[(d, b)] = r.off
        g = self.m.globals.get('vx_unordered')


class View:
    __slots__ = ('vl', 'addr', 'ident', 'cls', 'val', 'inst', 'blk', 'alloc')


class Shape:
    def __init__(self, key, nodes, leaves, facts, valued, cls):
        self.key, self.nodes, self.nleaf, self.facts = key, nodes, leaves, facts
        self.valued, self.cls = valued, cls
        self.wit = None

    def __str__(self):
        return 'valueless' if not self.valued else 'owns ' + (self.cls or 'value')


class R:
    """one execution of one operation, abstract pre- and post-state"""

    def __init__(self, mod, op, ctx, sel, stats):
        self.mod, self.cfg, self.op, self.ctx, self.sel, self.stats = mod, mod.cfg, op, ctx, sel, stats
        self.w = World(mod.m, mod.cl, ctx, mod.cfg)
        self.ex = Exec(mod.m, self.w, ctx)
        self.pre, self.post, self.arg, self.argval0, self.aid, self.h = {}, {}, {}, {}, {}, {}
        self.ilval = {}
        self.reach = {}
        self.alias = False
        self.aborted = None
        self.nested = False
        self.phase = 'setup'
        self.out = None
        self.viol = []
        self.nob = 0
        self.clauses = []
        self.consts = []        # objects of const operands
        self.constargs = []

    # ---- contract primitives
    def cl(self, tag, name, goal):
        if not self.sel(tag, self):
            return
        st = self.stats
        st.obl += 1
        if isinstance(goal, z3.ExprRef):
            g = z3.simplify(goal)
            goal = True if z3.is_true(g) else False if z3.is_false(g) else g
        if goal is True or (isinstance(goal, int) and goal == 1):
            st.by_eval += 1
            return
        if goal is False or not isinstance(goal, z3.ExprRef):
            self.fail(tag, name, None)
            return
        if self.ctx.sat(z3.Not(goal)):
            self.fail(tag, name, z3.Not(goal))
        else:
            st.by_solver += 1
            if st.dump is not None:
                st.dump.append((list(self.ctx.pc), goal))

    def fail(self, tag, name, extra):
        self.viol.append(dict(tag=tag, clause=name, extra=extra))

    def assume(self, c):
        self.ctx.assume(c)
        if c is not True and not self.ctx.sat():
            raise Infeasible()

    def decide(self, c):
        return self.ctx.branch(c if not isinstance(c, bool) else int(c), 'allocators equal')

    def skip(self):
        raise Skip()

    def same_alloc(self, a, b):
        if a is STDNEW or b is STDNEW:
            return a is b or (a == 0 or b == 0) and self.cfg['alloc'] == 'std'
        return self.w.same_alloc(a, b)

    def same_id(self, a, b):
        """a is a copy of b: stronger than comparing equal"""
        if a is STDNEW or b is STDNEW or self.cfg['empty']:
            return self.same_alloc(a, b)
        if a is UNDEF or b is UNDEF:
            return False
        if not is_sym(a) and not is_sym(b):
            return a == b
        n = a.size() if is_sym(a) else b.size()
        g = z3.simplify((a if is_sym(a) else z3.BitVecVal(a, n)) == (b if is_sym(b) else z3.BitVecVal(b, n)))
        return True if z3.is_true(g) else False if z3.is_false(g) else g

    def same_val(self, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
                return False
            r = []
            for x, y in zip(a, b):
                if x is UNDEF or y is UNDEF:
                    r.append(x is y)
                elif is_sym(x) or is_sym(y):
                    n = x.size() if is_sym(x) else y.size()
                    r.append(bv(x, n) == bv(y, n))
                else:
                    r.append(x == y)
            if any(x is False for x in r):
                return False
            zs = [x for x in r if x is not True]
            return z3.And(*zs) if zs else True
        if a is None or b is None:
            return a is b
        return True if a is b else a == b

    def same_args(self, got, want):
        if len(got) != len(want):
            return False
        for g, w in zip(got, want):
            if isinstance(g, tuple):
                il = self.ilval.get((w.o.uid, w.off))
                if il is None or g[1] != il[0] or g[2] != il[1]:
                    return False
            elif g != w:
                return False
        return True

    def default_id(self):
        return 0 if self.cfg['empty'] else z3.BitVec('default_id', 64)

    def socc(self, a):
        return a if self.cfg['empty'] else SOCC(bv(a, 64))

    def bool_is(self, v, exp):
        if v is UNDEF:
            return False
        v = tobool(v)
        if isinstance(exp, bool):
            return v is exp if isinstance(v, bool) else (v if exp else z3.Not(v))
        return exp == v

    def boolz(self, v):
        v = tobool(v)
        return z3.BoolVal(v) if isinstance(v, bool) else v

    def int_is(self, v, exp, n):
        if v is UNDEF or isinstance(v, (Ptr, FnPtr)):
            return False
        if not is_sym(v) and not is_sym(exp):
            return v == exp
        return bv(v, n) == bv(exp, n)

    def threw_in_move(self):
        return any(e['k'] == 'ctor' and e['threw'] and e['kind'] not in ('copy', 'default') for e in self.ev)

    def threw_in_assign(self):
        return any(e['k'] == 'assign' and e['threw'] for e in self.ev)

    def plain_expect(self, kind, args):
        if kind == 'default':
            return tuple(0 for _ in PLAINF[self.cfg['kind']])
        if kind in ('copy', 'move'):
            return self.argval0[args[0]]
        return None

    # ---- observation
    def reaches(self, o):
        """heap blocks reachable from a handle, by its memory"""
        seen, todo, out = {o.uid}, [o], []
        while todo:
            x = todo.pop()
            for c in x.cells.values():
                v = c[1]
                if isinstance(v, Ptr) and v.o.kind == 'heap' and v.o.uid not in seen:
                    seen.add(v.o.uid)
                    out.append(v.o)
                    todo.append(v.o)
        return out

    def plainval(self, o, off):
        return tuple(self.w.compose(o, off + f, n) if (off + f) not in o.cells or o.cells[off + f][0] != n
                     else o.cells[off + f][1] for f, n in PLAINF[self.cfg['kind']])

    def view(self, h, pre='ob_'):
        w, ex = self.w, self.ex
        p = self.h[h]
        v = View()
        sub = w.events, w.log, w.nothrow
        w.events, w.log, w.nothrow = [], [], True
        try:
            r = ex.call(pre + 'valueless', [p])
            if r is UNDEF:
                raise Violation('uninit', 'valueless_after_move() reads uninitialised memory')
            v.vl = self.ctx.branch(r, 'valueless')
            v.addr = v.ident = v.cls = v.val = v.inst = v.blk = None
            v.alloc = ex.call(pre + 'alloc_id', [p])
            if not v.vl:
                a = ex.call(pre + 'deref', [p])
                v.addr = a
                if not isinstance(a, Ptr):
                    raise Violation('ledger', '*%s of a non-valueless object is not a valid reference' % h)
                if a.o.kind != 'heap':
                    raise Violation('ledger', 'the object owned by %s is not in allocated storage (%s)' % (h, a.o.name))
                if not a.o.live:
                    raise Violation('ledger', '%s refers to storage that has been released' % h)
                v.blk = a.o
                kn = self.cfg['kind']
                if KINDS[kn]['plain'] and pre == 'ob_':
                    v.ident, v.cls = (a.o.uid, a.off), kn
                    v.val = self.plainval(a.o, a.off)
                else:
                    st = kn if pre == 'ob_' else 'D'
                    best = None
                    for off, l in a.o.inst.items():
                        for x in l:
                            if x.alive and (x.cls == st and off == a.off or
                                            self.mod.cl.bases.get((x.cls, st)) == a.off - off):
                                best = x
                    if best is None:
                        raise Violation('ledger', '*%s of a non-valueless object does not denote a live %s' % (h, st))
                    v.inst, v.cls, v.val = best, best.cls, best.val
                    v.ident = (a.o.uid, best.off)
            return v
        finally:
            w.events, w.log, w.nothrow = sub


class Runner:
    def __init__(self, mod, ops, stats):
        self.mod, self.cfg, self.ops, self.stats = mod, mod.cfg, ops, stats
        self.shapes = {}
        self.widen = {}
        self.groups = {}
        self.internal = []
        self.done = set()
        self.nested = False                 # check the operations with sources nested in the target's value too

    # ---- shapes
    def extract(self, r, h, view):
        w = r.w
        root = r.h[h].o
        order, idx, todo = [root], {root.uid: 0}, [root]
        while todo:
            o = todo.pop(0)
            for off in sorted(o.cells):
                v = o.cells[off][1]
                if isinstance(v, Ptr) and v.o.kind == 'heap' and v.o.uid not in idx:
                    idx[v.o.uid] = len(order)
                    order.append(v.o)
                    todo.append(v.o)
        leaves, nodes, isval = [], [], []

        def leaf(e, val=False):
            if not val:
                for i, x in enumerate(leaves):
                    if not isval[i] and x.eq(e):
                        pass
            leaves.append(e)
            isval.append(val)
            return len(leaves) - 1

        for n, o in enumerate(order):
            if n and not o.live:
                return None, 'reaches released storage'
            cells = []
            for off in sorted(o.cells):
                sz, v = o.cells[off]
                if view is not None and view.blk is o and view.inst is None and KINDS[self.cfg['kind']]['plain']:
                    if view.addr.off <= off < view.addr.off + self.mod.szT:
                        continue
                if isinstance(v, Ptr):
                    if v.o.uid in idx:
                        d = ('ptr', idx[v.o.uid], v.off)
                    elif v.o.kind == 'global':
                        d = ('glob', v.o.name, v.off)
                    else:
                        return None, 'refers to %s, which it does not own' % v.o.name
                elif isinstance(v, FnPtr):
                    d = ('fn', v.name)
                elif is_sym(v):
                    d = ('sym', leaf(bv(v, 8 * sz)), 8 * sz)
                else:
                    d = ('int', v)
                cells.append((off, sz, d))
            if view is not None and view.blk is o and view.inst is None and KINDS[self.cfg['kind']]['plain']:
                for f, n2 in PLAINF[self.cfg['kind']]:
                    x = w.compose(o, view.addr.off + f, n2)
                    if x is not UNDEF:
                        cells.append((view.addr.off + f, n2, ('val', leaf(bv(x, 8 * n2), True), 8 * n2)))
            al = None
            if n:
                if o.alloc is STDNEW:
                    al = ('std',)
                elif is_sym(o.alloc):
                    al = ('sym', leaf(o.alloc), 64)
                else:
                    al = ('int', o.alloc)
            insts = tuple(sorted((off, x.cls) for off, l in o.inst.items() for x in l if x.alive and x.cls not in self.mod.cl.plain))
            nodes.append((o.size, o.align, o.note[1] if n else 0, tuple(cells), al, insts))
        nodes = tuple(nodes)
        # widening of integer cells that keep changing
        skel = repr([[(c[0], c[1], c[2] if c[2][0] != 'int' else 'int') for c in nd[3]] + [nd[0], nd[5]] for nd in nodes])
        if skel in self.widen:
            nn = []
            for k, nd in enumerate(nodes):
                cs = []
                for c in nd[3]:
                    if c[2][0] == 'int' and (k, c[0]) in self.widen[skel]:
                        c = (c[0], c[1], ('sym', leaf(z3.BitVecVal(c[2][1], 8 * c[1])), 8 * c[1]))
                    cs.append(c)
                nn.append(nd[:3] + (tuple(cs),) + nd[4:])
            nodes = tuple(nn)
        else:
            g = self.groups.setdefault(skel, [])
            if nodes not in g:
                g.append(nodes)
            if len(g) > 4:
                diff = set()
                for a in g:
                    for k, nd in enumerate(a):
                        for c, c0 in zip(nd[3], g[0][k][3]):
                            if c != c0:
                                diff.add((k, c[0]))
                self.widen[skel] = diff
                self.shapes = {k: s for k, s in self.shapes.items() if s.skel != skel}
                self.changed = True
                self.done.clear()
                return self.extract(r, h, view)
        # renumber leaves in cell order for a canonical key
        key = repr(nodes)
        facts = set()
        idxs = [i for i in range(len(leaves)) if not isval[i] and leaves[i].size() == 64]
        for i in idxs:
            for j in idxs:
                if i < j:
                    if leaves[i].eq(leaves[j]) or not r.ctx.sat(leaves[i] != leaves[j]):
                        facts.add(('eq', i, j))
                        facts.add(('cls', i, j))
                    elif not self.cfg['iae'] and not r.ctx.sat(CLS(leaves[i]) != CLS(leaves[j])):
                        facts.add(('cls', i, j))
        s = Shape(key, nodes, len(leaves), facts, view is not None and not view.vl, view.cls if view else None)
        s.skel = skel
        return s, None

    def add_shape(self, s):
        o = self.shapes.get(s.key)
        if o is None:
            self.shapes[s.key] = s
            self.changed = True
            if len(self.shapes) > 48:
                raise Undecided('representation invariant did not converge (more than 48 state shapes)')
        elif not o.facts <= s.facts:
            o.facts &= s.facts
            self.changed = True

    def instantiate(self, r, name, s):
        w = r.w
        objs = []
        root = w.new_obj(name, 'handle', self.mod.szI, self.mod.alI)
        lv = {}
        for n, (size, align, nal, cells, al, insts) in enumerate(s.nodes):
            if n == 0:
                o = root
            else:
                o = w.new_obj('%s.block%d' % (name, n), 'heap', size, align)
                o.note = ('align', nal)
                w.blocks.append(o)
            objs.append(o)

        def L(k, bits):
            if k not in lv:
                lv[k] = z3.BitVec('%s_%d' % (name, k), bits)
            return lv[k]

        for o, (size, align, nal, cells, al, insts) in zip(objs, s.nodes):
            for off, sz, d in cells:
                if d[0] == 'ptr':
                    v = Ptr(objs[d[1]], d[2])
                elif d[0] == 'glob':
                    v = Ptr(w.global_obj(r.ex, d[1]), d[2])
                elif d[0] == 'fn':
                    v = FnPtr(d[1])
                elif d[0] in ('sym', 'val'):
                    v = L(d[1], d[2])
                else:
                    v = d[1]
                o.cells[off] = (sz, v)
            if al is not None:
                o.alloc = STDNEW if al[0] == 'std' else L(al[1], 64) if al[0] == 'sym' else al[1]
            for off, cls in insts:
                o.inst.setdefault(off, []).append(
                    Inst(cls, o, off, z3.Const('%s_val_%d' % (name, off), V), w.nid()))
        for f, i, j in sorted(s.facts):
            if f == 'eq':
                r.assume_raw(L(i, 64) == L(j, 64))
            elif not self.cfg['iae']:
                r.assume_raw(CLS(L(i, 64)) == CLS(L(j, 64)))
        r.h[name] = Ptr(root, 0)
        return root

    # ---- one path
    def setup(self, r, op, sh):
        """create the operands; returns argument list"""
        w, cl, cfg = r.w, self.mod.cl, self.cfg
        args = []
        for role in op.roles:
            nm, _, kind = role.partition(':')
            if kind == 'raw':
                o = w.new_obj(nm, 'handle', self.mod.szI, self.mod.alI)
                r.h[nm] = Ptr(o, 0)
                p = Ptr(o, 0)
            elif kind.startswith('h'):
                if nm == 'other' and sh.get('other') == 'alias':
                    r.alias = True
                    p = r.h['self']
                else:
                    o = self.instantiate(r, nm, sh[nm])
                    p = Ptr(o, 0)
                if (kind.startswith('hc') or 'const I* o' in op.params and nm == 'other') and not r.alias and not r.nested:
                    r.consts.append(nm)
            elif kind == 'HD':
                w.nothrow = True
                o = w.new_obj(nm, 'handle', 4096, 64)
                t = w.new_obj('tmp', 'handle', 4096, 64)
                r.ex.call('mkD_' + sh[nm], [Ptr(o, 0), Ptr(t, 0)])
                for l in o.inst.values():
                    pass
                w.nothrow = False
                r.h[nm] = Ptr(o, 0)
                p = Ptr(o, 0)
                r.consts.append(nm)
            elif kind == 'alloc':
                o = w.new_obj(nm, 'arg', self.mod.szA, self.mod.alA)
                if not cfg['empty']:
                    a = z3.BitVec('a', 64)
                    o.cells[0] = (8, a)
                    r.aid[nm] = a
                else:
                    r.aid[nm] = 0
                p = Ptr(o, 0)
                r.constargs.append(o)
            elif kind == 'IL':
                arr = w.new_obj('elems', 'arg', 2 * cl.size['E'], 16)
                for i in range(2):
                    arr.inst[i * cl.size['E']] = [Inst('E', arr, i * cl.size['E'], z3.Const('e%d' % i, V), w.nid())]
                o = w.new_obj(nm, 'arg', 16, 8)
                o.cells[0] = (8, Ptr(arr, 0))
                o.cells[8] = (8, 2)
                r.ilval[(o.uid, 0)] = (Ptr(arr, 0), 2)
                p = Ptr(o, 0)
                r.constargs += [o, arr]
            else:
                c = {'T': cfg['kind'], 'U': cfg['kind'] + 'U', 'M': cfg['kind'] + 'M'}.get(kind, kind)
                sz, al = (cl.size[c], cl.align[c]) if c in cl.size else (self.mod.szT, self.mod.alT)
                o = w.new_obj(nm, 'arg', sz, al)
                if c in cl.plain or c == 'int':
                    vals = []
                    for f, n in PLAINF[c]:
                        v = z3.BitVec('%s_f%d' % (nm, f), 8 * n)
                        o.cells[f] = (n, v)
                        vals.append(v)
                    r.argval0[nm] = tuple(vals)
                else:
                    x = Inst(c, o, 0, z3.Const(nm, V), w.nid())
                    o.inst[0] = [x]
                    r.argval0[nm] = x.val
                p = Ptr(o, 0)
                i = op.roles.index(role)
                if op.params.split(',')[i].strip().startswith('const '):
                    r.constargs.append(o)
            r.arg[nm] = p
            args.append(p)
        return args

    def snapshot(self, r):
        objs, seen = [], set()
        for o in [p.o for p in r.h.values()] + [p.o for p in r.arg.values()] + list(r.w.blocks) + r.constargs:
            if o.uid not in seen and o.live:
                seen.add(o.uid)
                objs.append((o, dict(o.cells), [(off, x.cls) for off, l in o.inst.items() for x in l if x.alive]))
        return objs

    def path(self, op, sh, ctx, sel, discover):
        r = R(self.mod, op, ctx, sel, self.stats)
        r.sh = sh
        r.nested = 'nested' in sh
        r.ev = []
        w = r.w
        r.phase = 'setup'

        def assume_raw(c):
            ctx.assume(c)
        r.assume_raw = assume_raw
        hs = [x.split(':') for x in op.roles if x.split(':')[1] != 'raw' and x.split(':')[1][:1] in 'hH']
        try:
            args = self.setup(r, op, sh)
            r.callargs = args
            for x in hs:
                if x[0] == 'other' and r.alias:
                    r.pre['other'] = r.pre['self']
                    continue
                r.pre[x[0]] = r.view(x[0], 'obD_' if x[1] == 'HD' else 'ob_')
                r.reach[x[0]] = bool(r.reaches(r.h[x[0]].o))
            if r.nested:
                if r.pre['self'].inst is None:
                    return None
                w.tied[r.pre['self'].inst.uid] = r.h['other'].o
            if op.pre:
                op.pre(r)
        except Skip:
            return None
        except Violation as v:
            # an observer fails on a state the library itself produced
            r.phase = 'pre'
            self.abort(r, v)
            return r
        pre_consts = {}
        w.events, w.log, w.writes, w.threw = [], [], [], []
        seen = set()
        for o in list(w.blocks) + [p.o for p in r.h.values()] + [p.o for p in r.arg.values()] + r.constargs:
            o.fresh = False
        for nm in r.consts:
            pre_consts[nm] = [r.h[nm].o] + r.reaches(r.h[nm].o)
        if not discover:
            r.snap = self.snapshot(r)
        carg = [(o, [(x, x.val) for l in o.inst.values() for x in l], dict(o.cells)) for o in r.constargs]
        blocks0 = len(w.blocks)
        w.record = True
        r.phase = 'op'
        r.npre = len(ctx.trace)
        try:
            v = r.ex.call(op.name, args)
            r.out = ('ret', v)
        except Unwind as u:
            r.out = ('exc', u.exc)
        except Violation as v:
            r.ev = w.events
            self.abort(r, v)
            return r
        w.record = False
        r.ev = w.events
        r.phase = 'post'
        dead = {x[0] for x in hs if len(x) > 2 and x[2] == 'dead'}
        if r.nested and not r.h['other'].o.live:
            dead.add('other')
        r.gone = dead
        live = [x for x in hs if x[0] not in dead]
        if op.roles and op.roles[0].endswith(':raw') and r.out[0] == 'ret':
            live = [['self', 'h']] + live
        try:
            for x in live:
                if x[0] == 'other' and r.alias:
                    r.post['other'] = r.post['self']
                    continue
                r.post[x[0]] = r.view(x[0], 'obD_' if x[1] == 'HD' else 'ob_')
                r.cl('denote', 'the accessors of %s denote the live object it owns' % x[0], True)
        except Violation as v:
            self.abort(r, v)
            return r
        r.live = [x[0] for x in live if not (x[0] == 'other' and r.alias)]
        if discover:
            for h in r.live:
                if h == 'other' and any(x.endswith(':HD') for x in op.roles):
                    continue
                if not self.inv_ok(r, h):
                    continue     # reported as a failed obligation of this operation
                s, why = self.extract(r, h, r.post[h])
                if s is None:
                    continue
                s.wit = op.name
                r.found.append(s) if hasattr(r, 'found') else setattr(r, 'found', [s])
        # ---- clauses that every operation must satisfy
        owned = []
        for h in r.live:
            p = r.post[h]
            rb = r.reaches(r.h[h].o)
            r.cl('valueless', 'valueless_after_move() of %s is true exactly when it owns nothing' % h, p.vl == (not rb))
            for b in rb:
                r.cl('ledger', '%s refers to no released storage' % h, b.live)
                owned.append(b)
                r.cl('heap', 'the storage owned by %s was allocated by an allocator equal to its get_allocator()' % h,
                     r.same_alloc(b.alloc, p.alloc))
        lb = [b for b in w.blocks if b.live]
        for b in lb:
            r.cl('ledger', 'storage still allocated at the end is owned by exactly one live object (%s)' % b.name,
                 sum(1 for x in owned if x is b) == 1)
            n = [x for l in b.inst.values() for x in l if x.alive and x.cls not in self.mod.cl.plain]
            r.cl('ledger', 'every owned storage block holds exactly one live element',
                 len(n) == 1 or (not n and (KINDS[self.cfg['kind']]['plain'])))
        for h in r.live:
            o = r.h[h].o
            r.cl('ledger', 'no element object lives inside the handle', not any(x.alive for l in o.inst.values() for x in l))
        for nm, objs in pre_consts.items():
            bad = [x for x in w.writes if x[0] in objs]
            r.cl('constwrite', 'an operand passed as const (%s) is not written to' % nm, not bad)
        r.cl('constwrite', 'no shared mutable state outside the operands is written', not [x for x in w.writes if x[0].kind == 'global'])
        for o, ins, cells in carg:
            r.cl('constwrite', 'const arguments are unchanged', all(x.alive and x.val is v for x, v in ins) and o.cells == cells
                 and not [x for x in w.writes if x[0] is o])
        for nm, p in r.arg.items():
            if nm not in r.h:
                r.cl('ledger', 'arguments passed by reference stay alive', all(x.alive for l in p.o.inst.values() for x in l))
        op.spec(r)
        self.safety(r)
        return r

    def safety(self, r):
        """account for the safety obligations discharged along the path"""
        for tag, n in list(r.w.chk.items()) + [('unreachable', 1), ('abort', 1), ('uninit', 1)]:
            if r.sel(tag, r):
                self.stats.obl += n
                self.stats.by_eval += n

    def abort(self, r, v):
        """a safety obligation failed and the path stops there"""
        r.aborted = v
        self.safety(r)
        if r.sel(v.clause, r) or r.sel('abort*', r):
            self.stats.obl += 1
            r.viol.append(dict(tag=v.clause, clause=v.msg, extra=None, abort=True))

    def inv_ok(self, r, h):
        """the representation invariant every operation may assume and must re-establish"""
        p, w = r.post[h], r.w
        rb = r.reaches(r.h[h].o)
        if p.vl != (not rb):
            return False
        for b in rb:
            if not b.live or b.alloc is None:
                return False
            g = r.same_alloc(b.alloc, p.alloc)
            if g is False or g is not True and r.ctx.sat(z3.Not(g)):
                return False
            for k in r.live:
                if k != h and b in r.reaches(r.h[k].o):
                    return False
        return not any(x.alive for l in r.h[h].o.inst.values() for x in l)

    # ---- drivers
    def scenarios(self, op, nested=True):
        hs = [x for x in op.roles if x.split(':')[1][:1] in 'hH']
        S = list(self.shapes.values())
        if not hs:
            yield {}
            return
        if len(hs) == 1:
            for s in S:
                yield {hs[0].split(':')[0]: s}
            return
        for s in S:
            if hs[1].endswith(':HD'):
                for o in ('valued', 'empty'):
                    yield {'self': s, 'other': o}
                continue
            for o in S:
                yield {'self': s, 'other': o}
            yield {'self': s, 'other': 'alias'}
            if nested and op.nested and s.valued and not KINDS[self.cfg['kind']]['plain'] and s.cls not in self.mod.cl.triv:
                # the source is a member of the object that the target owns
                for o in S:
                    yield {'self': s, 'other': o, 'nested': 'yes'}

    def run_op(self, op, sel, discover=False, onviol=None, deadline=None):
        npaths = 0
        for sh in self.scenarios(op):
            if discover:
                # a combination of states that was already executed with the same assumptions
                key = (op.name,) + tuple((k, s if isinstance(s, str) else (s.key, frozenset(s.facts))) for k, s in sh.items())
                if key in self.done:
                    continue
                self.done.add(key)
            for r in explore(lambda ctx: self.path(op, sh, ctx, sel, discover), self.stats):
                npaths += 1
                if deadline and time.time() > deadline:
                    raise Undecided('time limit')
                if discover:
                    for s in getattr(r, 'found', ()):
                        self.add_shape(s)
                if r.viol and onviol:
                    onviol(op, sh, r)
        return npaths

    def paths(self, op, sel, deadline=None):
        for sh in self.scenarios(op, self.nested):
            for r in explore(lambda ctx: self.path(op, sh, ctx, sel, False), self.stats):
                if deadline and time.time() > deadline:
                    raise Undecided('time limit')
                yield r

    DISC = ('ctor', 'copy_ctor', 'move_ctor', 'copy_assign', 'move_assign', 'conv_assign', 'swap')

    def discover(self, ops):
        none = lambda t, r: False
        ds = [o for o in ops if o.cat in self.DISC and o.name not in DISC_SKIP]
        ds.sort(key=lambda o: self.DISC.index(o.cat))
        rounds = 0
        while True:
            self.changed = False
            for o in ds:
                self.run_op(o, none, discover=True)
            rounds += 1
            if not self.changed:
                break
            if rounds > 12:
                raise Undecided('representation invariant did not converge')
        return rounds


# redundant for state discovery (same post-states as their siblings)
DISC_SKIP = {'op_copy_ctor_nc', 'op_copy_ctor_crv', 'op_copy_ctor_alloc_nc', 'op_copy_assign_nc', 'op_swap_friend'}


class RStats(Stats):
    def __init__(self):
        super().__init__()
        self.obl = 0
        self.by_eval = 0
        self.by_solver = 0
        self.solver_disch = 0
        self.dump = None
